#pragma once
#include <libff/algebra/curves/alt_bn128/alt_bn128_pp.hpp>
#include <array>
#include <stdexcept>
namespace libBLS {
namespace ThresholdUtils {
struct IncorrectInput : std::runtime_error { using std::runtime_error::runtime_error; };
struct IsNotWellFormed : std::runtime_error { using std::runtime_error::runtime_error; };
inline std::vector< libff::alt_bn128_Fr > LagrangeCoeffs( const std::vector< size_t >& idx, size_t t ) {
    if ( idx.size() < t ) throw IncorrectInput( "not enough participants in the threshold group" );
    std::vector< libff::alt_bn128_Fr > res( t );
    libff::alt_bn128_Fr w = libff::alt_bn128_Fr::one();
    for ( size_t i = 0; i < t; ++i ) w = w * libff::alt_bn128_Fr( (long) idx[i] );
    for ( size_t i = 0; i < t; ++i ) {
        libff::alt_bn128_Fr v( (long) idx[i] );
        for ( size_t j = 0; j < t; ++j ) if ( j != i ) {
            if ( idx[i] == idx[j] ) throw IncorrectInput( "during the interpolation, have same indexes in list of indexes" );
            v = v * ( libff::alt_bn128_Fr( (long) idx[j] ) - libff::alt_bn128_Fr( (long) idx[i] ) );
        }
        res[i] = w * v.invert();
    }
    return res;
}
}
inline libff::alt_bn128_Fr toyHashToFr( const std::array< uint8_t, 32 >& h ) {
    libff::toy_int v = 0; for ( auto b : h ) v = v * 256 + b; return libff::alt_bn128_Fr( libff::toy_int( v * v + 7 * v + 3 ) );
}
class Bls {
    size_t t, n;
public:
    Bls( size_t _t, size_t _n ) : t( _t ), n( _n ) {}
    bool Verification( std::shared_ptr< std::array< uint8_t, 32 > > h, const libff::alt_bn128_G1& sig, const libff::alt_bn128_G2& pk ) {
        if ( !sig.is_well_formed() ) throw ThresholdUtils::IsNotWellFormed( "Error, signature is not well formed" );
        if ( !pk.is_well_formed() ) throw ThresholdUtils::IsNotWellFormed( "Error, public key is not well formed" );
        return sig.X == toyHashToFr( *h ) * pk.X.c0;
    }
    libff::alt_bn128_G1 SignatureRecover( const std::vector< libff::alt_bn128_G1 >& shares, const std::vector< libff::alt_bn128_Fr >& c ) {
        libff::alt_bn128_G1 r = libff::alt_bn128_G1::zero();
        for ( size_t i = 0; i < t; ++i ) { if ( !shares.at( i ).is_well_formed() ) throw ThresholdUtils::IsNotWellFormed( "incorrect input data to recover signature" ); r = r + c.at( i ) * shares.at( i ); }
        return r;
    }
};
}
