#pragma once
#include <libconsensus/libBLS/bls/bls.h>
