#pragma once
#include <libff/algebra/curves/alt_bn128/alt_bn128_pp.hpp>
