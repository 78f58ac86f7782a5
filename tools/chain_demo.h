// shared by the demonstrations that compare a disturbed node with an undisturbed one
#pragma once
#include "node.h"
#include <libethereum/BlockChain.h>
#include <thread>
using namespace node;
using namespace dev;
using namespace dev::eth;
static json T( const char* k, int s, int n, json more = json::object() ) { json t{ { "k", k }, { "s", s }, { "n", n }, { "p", 1 }, { "g", 250000 } }; for ( auto it = more.begin(); it != more.end(); ++it ) t[it.key()] = it.value(); return t; }
static json BLK( int i, json txs ) { return json{ { "ts", 1500000000 + 10 * i }, { "gp", 1 }, { "txs", txs } }; }
static void hook( Node& nd, int b );      // runs before block b of a disturbed node
static bool keep( Ctx& c, unsigned b, unsigned head ) ;   // block b must still be readable
static void demo_run( Ctx& c ) {
    bool ref = c.inc.value( "role", "node" ) == "ref";
    int N = ( int ) c.cfg["blocks"].size(), upto = c.inc.value( "upto", N );
    std::vector< std::string > B( N + 1 ), S( N + 1 );
    unsigned done = 0;
    for ( auto& j : journal() ) { if ( j["t"] == "ref" ) { B[j["bn"]] = j["b"]; S[j["bn"]] = j["s"]; } else if ( j["t"] == "done" && j["dir"] == c.inc["dir"] ) done = j["bn"]; }
    rt::mark( 0 );
    Node nd( c.root + "/" + c.inc.value( "dir", "ref" ), c.cfg );
    unsigned at = nd.number();
    if ( !ref && at < done ) rt::violation( "D", "block %u had been imported, after the restart the head is %u", done, at );
    for ( unsigned b = at + 1; b <= ( unsigned ) upto; b++ ) {
        if ( !ref ) hook( nd, b );
        json o = c.cfg["blocks"][b - 1]; o["bn"] = b;
        rt::mark( b );
        if ( !nd.block( o ) ) {
            if ( c.inc.value( "io", false ) ) rt::crash_now( "refused under disk errors" );   // that is allowed, pretending is not
            rt::violation( "D", "block %u is not imported", b );
        }
        std::string bt = nd.block_text( b ), st = nd.state_text();
        if ( ref ) { jot( json{ { "t", "ref" }, { "bn", b }, { "b", bt }, { "s", st } } ); continue; }
        if ( bt != B[b] ) rt::violation( "D", "block %u differs:\n%s\nexpected\n%s", b, bt.c_str(), B[b].c_str() );
        if ( st != S[b] ) rt::violation( "D", "state after block %u differs:\n%s\nexpected\n%s", b, st.c_str(), S[b].c_str() );
        jot( json{ { "t", "done" }, { "bn", b }, { "dir", c.inc["dir"] } } );
    }
    rt::mark( 1000 );
    if ( !ref )
        for ( unsigned b = 1; b <= nd.number(); b++ )
            if ( keep( c, b, nd.number() ) ) {
                std::string bt;
                try { bt = nd.block_text( b ); } catch ( const std::exception& e ) { bt = e.what(); }
                if ( bt != B[b] ) rt::violation( "D", "block %u can't be read back (head %u):\n%s\nexpected\n%s", b, nd.number(), bt.c_str(), B[b].c_str() );
            }
    nd.stop();
}
