// Force-included: things skaled's pinned dependency versions provide that the installed ones do not.
#pragma once
#ifdef __cplusplus
#include <fstream>
#include <memory>
#include <boost/filesystem/fstream.hpp>
#include <boost/throw_exception.hpp>
namespace boost { namespace exception_detail {
template < class E > [[noreturn]] void throw_exception_( E const& x, char const*, char const*, int ) { boost::throw_exception( x ); }
} }
#endif
#ifdef __cplusplus
#include <secp256k1_ecdh.h>
#include <cstring>
inline int secp256k1_ecdh_raw( const secp256k1_context* ctx, unsigned char* out33, const secp256k1_pubkey* pub, const unsigned char* sec ) {
    return secp256k1_ecdh( ctx, out33, pub, sec, []( unsigned char* o, const unsigned char* x, const unsigned char* y, void* ) -> int {
        o[0] = 2 | ( y[31] & 1 ); memcpy( o + 1, x, 32 ); return 1; }, nullptr );
}
#endif
