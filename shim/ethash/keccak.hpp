// Shim for chfast/ethash keccak header.
#pragma once
#include <cstddef>
#include <cstdint>
namespace ethash {
union hash256 { uint64_t word64s[4]; uint32_t word32s[8]; uint8_t bytes[32]; char str[32]; };
hash256 keccak256( const uint8_t* data, size_t size ) noexcept;
hash256 keccak256_32( const uint8_t* data ) noexcept;
}
