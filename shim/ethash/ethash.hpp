// Shim for chfast/ethash proof-of-work API; sealing by PoW is never exercised (aborts if called).
#pragma once
#include <ethash/keccak.hpp>
#include <cstdlib>
#include <cstring>
namespace ethash {
struct result { hash256 final_hash; hash256 mix_hash; };
struct epoch_context {}; struct epoch_context_full : epoch_context {};
inline hash256 hash256_from_bytes( const uint8_t* b ) noexcept { hash256 h; std::memcpy( h.bytes, b, 32 ); return h; }
inline int get_epoch_number( int n ) noexcept { return n / 30000; }
inline int find_epoch_number( const hash256& ) noexcept { return -1; }
inline const epoch_context& get_global_epoch_context( int ) { std::abort(); }
inline const epoch_context_full& get_global_epoch_context_full( int ) { std::abort(); }
template < class C > inline result hash( const C&, const hash256&, uint64_t ) { std::abort(); }
inline bool verify_final_hash( const hash256&, const hash256&, uint64_t, const hash256& ) noexcept { std::abort(); }
inline bool verify( const epoch_context&, const hash256&, const hash256&, uint64_t, const hash256& ) noexcept { std::abort(); }
inline hash256 calculate_seed( int ) noexcept { return hash256{}; }
}
#include <cstdint>
#define ETHASH_EPOCH_LENGTH 30000
