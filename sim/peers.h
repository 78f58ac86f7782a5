#pragma once
// The other nodes of the chain as a joining node sees them over HTTP: their votes for snapshot hashes (with a toy
// threshold signature) and the snapshots they serve, each honest or faulty in its own way.
#include "scn.h"
#include "rt.h"
#include "ext.h"
#include <libconsensus/libBLS/bls/bls.h>
#include <libdevcore/FixedHash.h>
#include <libethereum/ChainParams.h>
#include <chrono>
#include <thread>
namespace peers {
using Fr = libff::alt_bn128_Fr; using G1 = libff::alt_bn128_G1; using G2 = libff::alt_bn128_G2;
struct Keys {
    size_t n = 0, t = 0; std::vector< Fr > share; Fr common;
    Keys() {}
    Keys( size_t nn, uint64_t seed ) : n( nn ), t( ( 2 * nn + 1 ) / 3 ) {
        Rng r( seed ); std::vector< Fr > c;
        for ( size_t i = 0; i < t; i++ ) c.push_back( Fr( libff::toy_int( r.u64() ) * r.u64() + 5 ) );
        for ( size_t i = 0; i < n; i++ ) { Fr x( ( long ) ( i + 1 ) ), p = Fr::one(), s; for ( auto& k : c ) { s = s + k * p; p = p * x; } share.push_back( s ); }
        common = c[0];
    }
    static Fr h( const dev::h256& x ) { return libBLS::toyHashToFr( x.asArray() ); }
    static std::array< std::string, 4 > pub( const Fr& k ) { G2 g = G2::from( k ); return { g.X.c0.v.str(), g.X.c1.v.str(), g.Y.c0.v.str(), g.Y.c1.v.str() }; }
};
// how many equal votes decide
inline size_t need( size_t n ) { return 2 * n / 3 + 1; }
struct Net {
    size_t n; Keys keys, fake; json spec; bool mitm = false;
    std::function< dev::h256( unsigned ) > hash;                       // zero: no such snapshot
    std::function< std::string( int, unsigned ) > body;                // what node i serves for a block
    std::function< unsigned() > latest;
    dev::h256 lie; size_t chunk = 1000000;
    std::vector< std::array< int, 2 > > answered;                      // signature, key
    std::vector< unsigned > serving; std::vector< size_t > calls; std::vector< Rng > rng;
    Net( const json& s, uint64_t seed ) : n( s.size() ), keys( s.size(), seed ), fake( s.size(), seed + 77 ), spec( s ), answered( s.size() ), serving( s.size() ), calls( s.size() ) {
        lie = dev::h256( dev::u256( 12345 ) + seed );
        for ( size_t i = 0; i < n; i++ ) rng.emplace_back( seed * 131 + i );
    }
    std::string kind( size_t i ) const { return spec[i].value( "kind", "ok" ); }
    // answers like a correct node whenever it answers
    bool votes_right( size_t i ) const { std::string k = kind( i ); return !mitm && ( k == "ok" || k == "slow" || k == "flaky" || k == "serve" || k == "num" ); }
    void new_vote() { for ( auto& a : answered ) a = { 0, 0 }; }
    size_t right_votes( size_t self ) const { size_t c = 0; for ( size_t i = 0; i < n; i++ ) if ( i != self && votes_right( i ) && answered[i][0] && answered[i][1] ) c++; return c; }
    // configuration of the joining node (its index is 0)
    void configure( dev::eth::ChainParams& p ) const {
        p.sChain.nodes.resize( n ); p.sChain.t = keys.t;
        for ( size_t i = 0; i < n; i++ ) {
            auto& x = p.sChain.nodes[i];
            x.id = i + 1; x.sChainIndex = i + 1; x.ip = "10.0.0." + std::to_string( i + 1 ); x.port = 1000 + i * 10;
        }
        p.nodeInfo.id = 1; p.nodeInfo.commonBLSPublicKeys = Keys::pub( keys.common );
        dev::eth::NodeGroup g; g.finishTs = ~uint64_t( 0 ); g.blsPublicKey = Keys::pub( keys.common );
        p.sChain.nodeGroups = { g };
    }
    std::string operator()( const std::string& url, const std::string& req ) {
        size_t p = url.find( "10.0.0." ), i = p == std::string::npos ? n : strtoul( url.c_str() + p + 7, 0, 10 ) - 1;
        if ( i >= n ) throw std::runtime_error( "no route to " + url );
        Rng& r = rng[i]; const json& s = spec[i]; std::string k = kind( i );
        calls[i]++;
        if ( k == "down" ) { if ( r.chance( 500 ) ) std::this_thread::sleep_for( std::chrono::milliseconds( 10000 ) ); throw std::runtime_error( "cannot connect" ); }
        if ( k == "flaky" && r.chance( s.value( "pm", 200 ) ) ) throw std::runtime_error( "connection reset" );
        if ( k == "slow" || r.chance( 300 ) ) std::this_thread::sleep_for( std::chrono::milliseconds( r.below( k == "slow" ? 9000 : 50 ) ) );
        json q = json::parse( req ), a{ { "jsonrpc", "2.0" }, { "id", q.value( "id", json( 1 ) ) } };
        std::string m = q["method"];
        const Keys& ks = mitm ? fake : keys;
        bool own = k == "ownkey" || k == "ownkeyhash";
        Fr mykey = own ? Fr( ( long ) ( 1000003 * ( i + 1 ) ) ) : ks.share[i];
        auto error = [&]( const char* t ) { a["error"] = json{ { "code", -32000 }, { "message", t } }; return a.dump(); };
        if ( m == "skale_getLatestSnapshotBlockNumber" ) {
            unsigned L = latest();
            if ( k == "num" ) switch ( s.value( "v", 0 ) ) {
                case 0: a["result"] = "latest"; return a.dump();
                case 1: L += 3; break;
                case 2: return "{}";
                case 3: a["result"] = 7; return a.dump();
                case 4: L = L > 1 ? L - 1 : L + 1; break;
                case 5: a["result"] = "xyzzy"; return a.dump();
            }
            a["result"] = std::to_string( L );
            return a.dump();
        }
        if ( m == "skale_getSnapshotSignature" ) {
            unsigned b = q["params"].is_array() ? q["params"][0].get< unsigned >() : q["params"].begin().value().get< unsigned >();
            dev::h256 h = hash( b );
            if ( !h && !mitm ) return error( "no such snapshot" );
            if ( mitm || k == "hash" || k == "ownkeyhash" ) h = lie;
            if ( k == "zero" ) h = dev::h256();
            G1 sig = G1::from( Keys::h( h ) * mykey );
            json o{ { "hash", h.hex() }, { "X", sig.X.v.str() }, { "Y", sig.Y.v.str() }, { "helper", "1" } };
            if ( k == "sig" ) { G1 w = G1::from( Fr( ( long ) ( 17 + r.below( 1000 ) ) ) ); o["X"] = w.X.v.str(); o["Y"] = w.Y.v.str(); }
            if ( k == "curve" ) o["X"] = std::to_string( r.below( 100000 ) );
            if ( k == "fields" ) { static const char* f[] = { "hash", "X", "Y" }; if ( r.chance( 700 ) ) o.erase( f[r.below( 3 )] ); else o[f[r.below( 3 )]] = json::array(); }
            answered[i][0]++;
            a["result"] = o;
            return a.dump();
        }
        if ( m == "skale_imaInfo" ) {
            auto pk = Keys::pub( k == "pubkey" ? mykey + Fr( 1L ) : mykey );
            json o; for ( int j = 0; j < 4; j++ ) o["BLSPublicKey" + std::to_string( j )] = pk[j];
            if ( k == "nokey" ) o.erase( "BLSPublicKey" + std::to_string( r.below( 4 ) ) );
            answered[i][1]++;
            a["result"] = o;
            return a.dump();
        }
        if ( m == "skale_getSnapshot" ) {
            serving[i] = q["params"]["blockNumber"];
            std::string b = body( ( int ) i, serving[i] );
            if ( b.empty() ) { a["result"] = json{ { "error", "no snapshot" } }; return a.dump(); }
            a["result"] = json{ { "dataSize", b.size() }, { "maxAllowedChunkSize", chunk } };
            return a.dump();
        }
        std::string b = body( ( int ) i, serving[i] );
        size_t from = q["params"]["from"], len = q["params"]["size"];
        return from >= b.size() ? "" : b.substr( from, len );
    }
};
// faulty nodes, at most as many as leave enough honest ones if "tolerable"
inline json draw( Rng& r, size_t n, bool serving, bool& tolerable ) {
    json s = json::array();
    size_t most = n - 1 >= need( n ) ? n - 1 - need( n ) : 0;
    tolerable = n - 1 >= need( n ) && r.chance( 800 );
    size_t f = tolerable ? r.below( most + 1 ) : r.below( n );
    bool crash_only = r.chance( 200 ), flaky = r.chance( 200 ), one = r.chance( 300 );
    static const char* kinds[] = { "hash", "sig", "curve", "fields", "zero", "down", "ownkeyhash", "pubkey", "nokey", "hash", "ownkey", "serve", "num", "serve" };
    std::string same = kinds[r.below( serving ? 14 : 10 )];
    std::vector< bool > bad( n );
    for ( size_t k = 0; k < f; ) { size_t i = r.range( 1, n - 1 ); if ( !bad[i] ) { bad[i] = true; k++; } }
    for ( size_t i = 0; i < n; i++ ) {
        json x{ { "kind", r.chance( 150 ) ? "slow" : "ok" } };
        if ( flaky && r.chance( 300 ) ) { x["kind"] = "flaky"; x["pm"] = r.range( 20, 600 ); }
        if ( bad[i] ) x["kind"] = crash_only ? std::string( "down" ) : one ? same : std::string( kinds[r.below( serving ? 14 : r.chance( 100 ) ? 11 : 10 )] );
        if ( x["kind"] == "num" ) x["v"] = r.below( 6 );
        if ( x["kind"] == "serve" ) { x["how"] = r.below( 5 ); x["seed"] = r.below( 1u << 30 ); }
        s.push_back( x );
    }
    // those who lie in the same way and can sign are too few to be right
    size_t liars = 0;
    for ( auto& x : s ) if ( ( x["kind"] == "hash" || x["kind"] == "zero" ) && ++liars >= ( 2 * n + 1 ) / 3 ) x["kind"] = "ownkeyhash";
    return s;
}
}  // namespace peers
