// Stub for libdevcrypto/LibSnark.cpp (libff is not installed): alt_bn128 precompiles report failure.
#include <libdevcrypto/LibSnark.h>
namespace dev { namespace crypto {
std::pair< bool, bytes > alt_bn128_pairing_product( bytesConstRef ) { return { false, bytes{} }; }
std::pair< bool, bytes > alt_bn128_G1_add( bytesConstRef ) { return { false, bytes{} }; }
std::pair< bool, bytes > alt_bn128_G1_mul( bytesConstRef ) { return { false, bytes{} }; }
} }
