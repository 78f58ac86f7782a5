// Shim: SHA-256 streaming API that skaled takes from its patched secp256k1.
#pragma once
#include <stddef.h>
#include <stdint.h>
typedef struct { uint32_t s[8]; uint8_t buf[64]; uint64_t bytes; } secp256k1_sha256_t;
#ifdef __cplusplus
extern "C" {
#endif
void secp256k1_sha256_initialize( secp256k1_sha256_t* h );
void secp256k1_sha256_write( secp256k1_sha256_t* h, const unsigned char* data, size_t size );
void secp256k1_sha256_finalize( secp256k1_sha256_t* h, unsigned char* out32 );
#ifdef __cplusplus
}
#endif
