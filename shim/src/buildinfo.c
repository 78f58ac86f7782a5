#include "../skale/buildinfo.h"
const struct skale_buildinfo* skale_get_buildinfo() {
    static const struct skale_buildinfo b = { "skaled", "skaled-sim", "3.18.0", "sim", "0000000000000000000000000000000000000000", "Linux", "x86_64", "gcc", "13", "Sim" };
    return &b;
}
