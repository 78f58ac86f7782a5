#include "../secp256k1_sha256.h"
#include <string.h>
static const uint32_t K[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,
0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,
0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,
0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,
0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
#define R(x,n) (((x)>>(n))|((x)<<(32-(n))))
static void blk( uint32_t* s, const uint8_t* p ) {
    uint32_t w[64], a=s[0],b=s[1],c=s[2],d=s[3],e=s[4],f=s[5],g=s[6],h=s[7];
    for ( int i = 0; i < 16; i++ )
        w[i] = (uint32_t)p[4*i]<<24 | (uint32_t)p[4*i+1]<<16 | (uint32_t)p[4*i+2]<<8 | p[4*i+3];
    for ( int i = 16; i < 64; i++ ) {
        uint32_t x = w[i-15], y = w[i-2];
        w[i] = w[i-16] + (R(x,7)^R(x,18)^(x>>3)) + w[i-7] + (R(y,17)^R(y,19)^(y>>10));
    }
    for ( int i = 0; i < 64; i++ ) {
        uint32_t t1 = h + (R(e,6)^R(e,11)^R(e,25)) + ((e&f)^(~e&g)) + K[i] + w[i];
        uint32_t t2 = (R(a,2)^R(a,13)^R(a,22)) + ((a&b)^(a&c)^(b&c));
        h=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2;
    }
    s[0]+=a; s[1]+=b; s[2]+=c; s[3]+=d; s[4]+=e; s[5]+=f; s[6]+=g; s[7]+=h;
}
void secp256k1_sha256_initialize( secp256k1_sha256_t* h ) {
    static const uint32_t i[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
    memcpy( h->s, i, sizeof i ); h->bytes = 0;
}
void secp256k1_sha256_write( secp256k1_sha256_t* h, const unsigned char* d, size_t n ) {
    size_t u = h->bytes & 63; h->bytes += n;
    while ( n ) {
        size_t k = 64 - u; if ( k > n ) k = n;
        memcpy( h->buf + u, d, k ); u += k; d += k; n -= k;
        if ( u == 64 ) { blk( h->s, h->buf ); u = 0; }
    }
}
void secp256k1_sha256_finalize( secp256k1_sha256_t* h, unsigned char* o ) {
    uint64_t bits = h->bytes * 8; uint8_t pad = 0x80, z = 0, l[8];
    secp256k1_sha256_write( h, &pad, 1 );
    while ( ( h->bytes & 63 ) != 56 ) secp256k1_sha256_write( h, &z, 1 );
    for ( int i = 0; i < 8; i++ ) l[i] = (uint8_t)( bits >> ( 56 - 8 * i ) );
    secp256k1_sha256_write( h, l, 8 );
    for ( int i = 0; i < 32; i++ ) o[i] = (uint8_t)( h->s[i/4] >> ( 24 - 8 * ( i % 4 ) ) );
}
