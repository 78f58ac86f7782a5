#include <ethash/keccak.hpp>
#include <cstring>
namespace ethash {
static const uint64_t RC[24] = {
0x0000000000000001ULL,0x0000000000008082ULL,0x800000000000808aULL,0x8000000080008000ULL,0x000000000000808bULL,
0x0000000080000001ULL,0x8000000080008081ULL,0x8000000000008009ULL,0x000000000000008aULL,0x0000000000000088ULL,
0x0000000080008009ULL,0x000000008000000aULL,0x000000008000808bULL,0x800000000000008bULL,0x8000000000008089ULL,
0x8000000000008003ULL,0x8000000000008002ULL,0x8000000000000080ULL,0x000000000000800aULL,0x800000008000000aULL,
0x8000000080008081ULL,0x8000000000008080ULL,0x0000000080000001ULL,0x8000000080008008ULL};
static inline uint64_t rol( uint64_t x, int n ) { return n ? ( x << n ) | ( x >> ( 64 - n ) ) : x; }
static void f( uint64_t* a ) {
    static const int rotc[24] = {1,3,6,10,15,21,28,36,45,55,2,14,27,41,56,8,25,43,62,18,39,61,20,44};
    static const int piln[24] = {10,7,11,17,18,3,5,16,8,21,24,4,15,23,19,13,12,2,20,14,22,9,6,1};
    uint64_t bc[5], t;
    for ( int r = 0; r < 24; r++ ) {
        for ( int i = 0; i < 5; i++ ) bc[i] = a[i]^a[i+5]^a[i+10]^a[i+15]^a[i+20];
        for ( int i = 0; i < 5; i++ ) { t = bc[(i+4)%5]^rol(bc[(i+1)%5],1); for ( int j = 0; j < 25; j += 5 ) a[j+i] ^= t; }
        t = a[1];
        for ( int i = 0; i < 24; i++ ) { int j = piln[i]; bc[0] = a[j]; a[j] = rol( t, rotc[i] ); t = bc[0]; }
        for ( int j = 0; j < 25; j += 5 ) { for ( int i = 0; i < 5; i++ ) bc[i] = a[j+i]; for ( int i = 0; i < 5; i++ ) a[j+i] ^= (~bc[(i+1)%5]) & bc[(i+2)%5]; }
        a[0] ^= RC[r];
    }
}
hash256 keccak256( const uint8_t* d, size_t n ) noexcept {
    uint64_t st[25]; std::memset( st, 0, sizeof st );
    const size_t rate = 136;
    while ( n >= rate ) { for ( size_t i = 0; i < rate/8; i++ ) { uint64_t w; std::memcpy( &w, d+8*i, 8 ); st[i] ^= w; } f( st ); d += rate; n -= rate; }
    uint8_t b[136]; std::memset( b, 0, sizeof b ); if ( n ) std::memcpy( b, d, n ); b[n] = 1; b[rate-1] |= 0x80;
    for ( size_t i = 0; i < rate/8; i++ ) { uint64_t w; std::memcpy( &w, b+8*i, 8 ); st[i] ^= w; }
    f( st );
    hash256 h; std::memcpy( h.bytes, st, 32 ); return h;
}
hash256 keccak256_32( const uint8_t* d ) noexcept { return keccak256( d, 32 ); }
}
