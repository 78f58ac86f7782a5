// Voting for the hash of a snapshot: the real SnapshotHashAgent against honest, slow, unreachable and lying nodes.
#include "peers.h"
#include <libskale/SnapshotHashAgent.h>
using namespace dev;
using namespace dev::eth;
namespace {
void gen( Rng& r, json& plan ) {
    gen_sched( r, plan, 1, true );
    json cfg;
    size_t n = r.chance( 300 ) ? 4 : r.chance( 400 ) ? 16 : r.range( 2, 16 );
    bool tol;
    cfg["peers"] = peers::draw( r, n, r.chance( 200 ), tol );
    cfg["seed"] = r.below( 1u << 30 );
    cfg["mitm"] = r.chance( 120 );
    cfg["key"] = r.chance( 600 ) ? "right" : r.chance( 500 ) ? "zero" : r.chance( 500 ) ? "other" : "bad";
    cfg["votes"] = r.range( 1, 3 );
    cfg["cfgkey"] = r.chance( 900 );      // does the configuration know the present common key
    plan["cfg"] = cfg;
    add_inc( plan );
    plan["min"] = json::array();
}
void run( Ctx& c ) {
    const char* P = c.prop.c_str();
    auto& cfg = c.cfg;
    peers::Net net( cfg["peers"], cfg["seed"] );
    net.mitm = cfg["mitm"];
    h256 H( u256( 99887766 ) * 12345 + cfg["seed"].get< unsigned >() );
    net.hash = [&]( unsigned b ) { return b == 10 ? H : h256(); };
    ext::http = std::ref( net );
    ChainParams p; net.configure( p );
    std::string key = cfg["key"];
    auto arr = key == "right" ? peers::Keys::pub( net.keys.common ) : key == "zero" ? std::array< std::string, 4 >{ "0", "0", "1", "0" } : key == "other" ? peers::Keys::pub( peers::Fr( 4711L ) ) : std::array< std::string, 4 >{ "1", "2", "3", "99" };
    bool cfgkey = cfg["cfgkey"];
    if ( !cfgkey ) p.nodeInfo.commonBLSPublicKeys = peers::Keys::pub( peers::Fr( 815L ) );
    bool known = key == "right" || cfgkey;
    size_t n = net.n, own = 0;
    for ( size_t i = 1; i < n; i++ ) if ( net.kind( i ) == "ownkey" ) own++;
    for ( int v = cfg["votes"]; v > 0; v-- ) {
        rt::mark( v );
        net.new_vote();
        SnapshotHashAgent agent( p, arr );
        std::vector< std::string > urls;
        try { urls = agent.getNodesToDownloadSnapshotFrom( 10 ); }
        catch ( const std::exception& e ) { rt::violation( P, "the vote throws: %s", e.what() ); }
        size_t right = net.right_votes( 0 ), need = peers::need( n );
        rt::log( "n=%zu need=%zu right=%zu urls=%zu", n, need, right, urls.size() );
        if ( urls.empty() ) {
            // K02 (see known-findings.txt): executions of this kind are judged only in its replay
            if ( own && !cfg.value( "strict", false ) ) { rt::probe( "vote without result, a node votes with a key of its own" ); continue; }
            CHECK( P, net.mitm || !known || right < need, "no hash is chosen although %zu of %zu nodes vote correctly%s", right, n, own ? " (a node votes with a key of its own)" : "" );
            rt::probe( "vote without result" );
            continue;
        }
        std::pair< h256, libff::alt_bn128_G1 > res;
        try { res = agent.getVotedHash(); } catch ( const std::exception& e ) { rt::violation( P, "nodes to download from are named, but there is no hash: %s", e.what() ); }
        CHECK( P, !net.mitm, "a hash signed with unknown keys was accepted" );
        CHECK( P, res.first == H, "a wrong hash was accepted" );
        CHECK( P, right >= need || ( own && right + own >= need ), "the hash was accepted although only %zu of %zu nodes vote for it", right, n );
        CHECK( P, res.second == peers::G1::from( peers::Keys::h( H ) * net.keys.common ), "the common signature is wrong" );
        std::set< std::string > seen;
        for ( auto& u : urls ) {
            size_t q = u.find( "10.0.0." ), i = strtoul( u.c_str() + q + 7, 0, 10 ) - 1;
            CHECK( P, i && i < n && seen.insert( u ).second, "%s is named as a source", u.c_str() );
            CHECK( P, u == "http://10.0.0." + std::to_string( i + 1 ) + ":" + std::to_string( 1000 + i * 10 + 3 ), "%s is not the address of a node", u.c_str() );
            std::string k = net.kind( i );
            CHECK( P, net.answered[i][0] && ( net.votes_right( i ) || k == "ownkey" ), "node %zu (%s), which did not vote validly for the hash, is named as a source", i, k.c_str() );
        }
        CHECK( P, seen.size() >= need, "only %zu sources are named", seen.size() );
        rt::probe( right + 1 < n ? "vote decided with faulty nodes" : "vote decided" );
    }
    ext::http = nullptr;
}
Scenario s( "vote", gen, run );
}  // namespace
