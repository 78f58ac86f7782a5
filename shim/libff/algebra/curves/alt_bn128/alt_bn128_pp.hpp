// Shim: a TOY bilinear group. An element of G1/G2 is represented by its discrete logarithm modulo the group order, so
// linear relations (Lagrange recovery, e(sig,g2)=e(H(m),pk)) hold exactly while nothing is hidden. Used only to
// exercise skaled's snapshot-hash voting logic.
#pragma once
#include <boost/multiprecision/cpp_int.hpp>
#include <iostream>
#include <memory>
#include <string>
#include <vector>
namespace libff {
using toy_int = boost::multiprecision::cpp_int;
inline const toy_int& toy_mod() { static const toy_int m( "21888242871839275222246405745257275088548364400416034343698204186575808495617" ); return m; }
struct alt_bn128_Fr {
    toy_int v = 0;
    alt_bn128_Fr() {} alt_bn128_Fr( long x ) : v( x ) { norm(); } alt_bn128_Fr( const toy_int& x ) : v( x ) { norm(); } alt_bn128_Fr( const char* s ) : v( s ) { norm(); }
    void norm() { v %= toy_mod(); if ( v < 0 ) v += toy_mod(); }
    static alt_bn128_Fr zero() { return {}; } static alt_bn128_Fr one() { return alt_bn128_Fr( 1L ); }
    bool operator==( const alt_bn128_Fr& o ) const { return v == o.v; } bool operator!=( const alt_bn128_Fr& o ) const { return v != o.v; }
    alt_bn128_Fr operator*( const alt_bn128_Fr& o ) const { return alt_bn128_Fr( toy_int( v * o.v ) ); }
    alt_bn128_Fr operator+( const alt_bn128_Fr& o ) const { return alt_bn128_Fr( toy_int( v + o.v ) ); }
    alt_bn128_Fr operator-( const alt_bn128_Fr& o ) const { return alt_bn128_Fr( toy_int( v - o.v + toy_mod() ) ); }
    alt_bn128_Fr invert() const { return alt_bn128_Fr( toy_int( boost::multiprecision::powm( v, toy_int( toy_mod() - 2 ), toy_mod() ) ) ); }
};
using alt_bn128_Fq = alt_bn128_Fr;
struct alt_bn128_Fq2 {
    alt_bn128_Fq c0, c1;
    static alt_bn128_Fq2 zero() { return {}; } static alt_bn128_Fq2 one() { alt_bn128_Fq2 r; r.c0 = alt_bn128_Fq::one(); return r; }
    bool operator==( const alt_bn128_Fq2& o ) const { return c0 == o.c0 && c1 == o.c1; }
};
// on-curve test of the toy group: Y = X + 1 (component-wise); zero element is (0,1,0).
struct alt_bn128_G1 {
    alt_bn128_Fq X, Y, Z;
    alt_bn128_G1() : Y( 1L ) {} alt_bn128_G1( const alt_bn128_Fq& x, const alt_bn128_Fq& y, const alt_bn128_Fq& z ) : X( x ), Y( y ), Z( z ) {}
    static alt_bn128_G1 zero() { return {}; } static alt_bn128_G1 one() { return from( 1L ); }
    static alt_bn128_G1 from( const alt_bn128_Fr& s ) { return alt_bn128_G1( s, s + alt_bn128_Fr::one(), s.v == 0 ? alt_bn128_Fq::zero() : alt_bn128_Fq::one() ); }
    bool is_well_formed() const { return Y == X + alt_bn128_Fq::one(); }
    bool operator==( const alt_bn128_G1& o ) const { return X == o.X && Y == o.Y; }
    alt_bn128_G1 operator+( const alt_bn128_G1& o ) const { return from( X + o.X ); }
    void to_affine_coordinates() {} void print_coordinates() const {}
};
inline alt_bn128_G1 operator*( const alt_bn128_Fr& s, const alt_bn128_G1& p ) { return alt_bn128_G1::from( s * p.X ); }
struct alt_bn128_G2 {
    alt_bn128_Fq2 X, Y, Z;
    alt_bn128_G2() { Y.c0 = 1L; }
    static alt_bn128_G2 zero() { return {}; } static alt_bn128_G2 one() { return from( 1L ); }
    static alt_bn128_G2 from( const alt_bn128_Fr& s ) { alt_bn128_G2 r; r.X.c0 = s; r.Y.c0 = s + alt_bn128_Fr::one(); r.X.c1 = s + alt_bn128_Fr( 2L ); r.Y.c1 = s + alt_bn128_Fr( 3L ); r.Z = alt_bn128_Fq2::one(); return r; }
    bool is_well_formed() const { return *this == from( X.c0 ) ; }
    bool operator==( const alt_bn128_G2& o ) const { return X == o.X && Y == o.Y; }
    void to_affine_coordinates() {} void print_coordinates() const {}
};
inline bool inhibit_profiling_info = true, inhibit_profiling_counters = true;
inline void init_alt_bn128_params() {}
}
