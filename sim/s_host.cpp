// One node between its clients, its peers and the consensus engine: submissions, gossip, proposals, finalized blocks
// (own and foreign proposals), orderly stops, kills and planned exits.
#include "ext.h"
#include "node.h"
#include <libdevcore/CommonJS.h>
#include <libdevcore/SHA3.h>
#include <libethereum/BlockChain.h>
#include <libskale/State.h>
#include <libskutils/include/skutils/utils.h>
#include <sys/stat.h>
#include <fstream>
#include <set>
#include <thread>
using namespace node;
using namespace dev;
using namespace dev::eth;

static void gen( Rng& r, json& plan ) {
    bool deep = plan["tier"] == "thorough";
    std::string prof = plan["profile"];
    gen_sched( r, plan, prof == "stop" && r.chance( 300 ) ? 0 : 1 + r.chance( 400 ), true );
    if ( plan["sched"].count( "stallmax" ) ) plan["sched"]["stallmax"] = 5000;
    if ( plan["sched"].count( "mem" ) && plan["sched"]["mem"] < 100 ) plan["sched"]["mem"] = 100;
    json cfg;
    cfg["nodes"] = r.range( 1, 4 );
    cfg["gp"] = 1;
    bool mtm = r.chance( 600 ); if ( mtm ) cfg["mtm"] = true;
    cfg["gasLimit"] = r.chance( 500 ) ? 800000 : 3000000;
    if ( r.chance( 150 ) ) cfg["tq"] = { r.range( 4, 12 ), r.range( 2, 8 ), 12322916, 24645833 };
    int clients = ( int ) r.range( 1, 3 ), nets = ( int ) r.range( 0, 2 );
    auto tx = [&]( int s, int n ) {
        json t{ { "s", s }, { "n", n }, { "p", r.chance( 700 ) ? 1 : r.range( 1, 5 ) } };
        unsigned x = ( unsigned ) r.below( 100 );
        if ( x < 50 ) { t["k"] = "xfer"; t["a"] = r.below( 12 ); t["v"] = r.below( 5000 ); t["g"] = 21000; }
        else if ( x < 75 ) { t["k"] = "ctr"; t["g"] = r.chance( 800 ) ? 250000 : ( int ) cfg["gasLimit"]; }
        else if ( x < 90 ) { t["k"] = "store"; t["a"] = r.below( 6 ); t["b"] = r.below( 1000 ); t["g"] = 250000; }
        else { t["k"] = "rev"; t["g"] = 100000; }
        return t;
    };
    cfg["clients"] = json::array(); cfg["net"] = json::array();
    int total = 0;
    for ( int i = 0; i < clients; i++ ) {
        json c{ { "txs", json::array() }, { "ooo", mtm && r.chance( 500 ) ? r.range( 50, 400 ) : 0 }, { "dup", r.chance( 600 ) ? r.range( 50, 500 ) : 0 }, { "bad", r.chance( 400 ) ? 200 : 0 }, { "slow", r.chance( 500 ) ? r.range( 100, 200000 ) : 100 }, { "seed", r.below( 1u << 30 ) }, { "alt", r.chance( 400 ) ? r.range( 50, 400 ) : 0 } };
        int n = ( int ) r.skew( 1, deep ? 24 : 12 );
        for ( int k = 0; k < n; k++ ) c["txs"].push_back( tx( i, k ) );
        total += n;
        cfg["clients"].push_back( c );
    }
    for ( int i = 0; i < nets; i++ ) {
        json c{ { "txs", json::array() } };
        int n = ( int ) r.skew( 1, 10 );
        for ( int k = 0; k < n; k++ ) c["txs"].push_back( tx( 3 + i, k ) );
        cfg["net"].push_back( c );
    }
    cfg["rounds"] = json::array();
    int rounds = ( int ) r.skew( 3, deep ? 24 : 14 );
    unsigned foreign = r.chance( 300 ) ? 0 : ( unsigned ) r.range( 100, 800 );
    for ( int i = 0; i < rounds; i++ ) {
        json o{ { "kind", r.chance( foreign ) ? "foreign" : "mine" }, { "seed", r.below( 1u << 30 ) }, { "limit", r.chance( 600 ) ? 100 : r.range( 1, 5 ) } };
        if ( o["kind"] == "foreign" && r.chance( 350 ) ) o["catchup"] = true;
        if ( o["kind"] == "foreign" && r.chance( 100 ) ) o["junk"] = true;
        if ( r.chance( 400 ) ) o["delay"] = r.below( r.chance( 500 ) ? 2000 : 200000 );
        cfg["rounds"].push_back( o );
    }
    cfg["netop"] = { { "seed", r.below( 1u << 30 ) }, { "loss", r.chance( 500 ) ? r.below( 600 ) : 0 }, { "dup", r.chance( 500 ) ? r.below( 400 ) : 0 }, { "late", r.chance( 500 ) ? r.below( 500 ) : 0 }, { "echo", r.chance( 500 ) ? r.below( 300 ) : 0 }, { "garbage", r.chance( 500 ) ? r.below( 500 ) : 0 }, { "senderr", r.chance( 250 ) ? r.below( 400 ) : 0 } };
    plan["cfg"] = cfg;
    int incs = prof == "stop" ? ( int ) r.range( 1, 4 ) : r.chance( 700 ) ? 1 : ( int ) r.range( 2, 3 );
    for ( int i = 0; i < incs; i++ ) {
        json& inc = add_inc( plan );
        if ( i == incs - 1 && prof != "stop" ) break;
        if ( i == incs - 1 ) { if ( r.chance( 300 ) ) inc["stop"] = json{ { "us", r.below( 3000000 ) } }; break; }
        unsigned x = ( unsigned ) r.below( 100 );
        if ( prof == "stop" ? x < 65 : x < 40 ) inc["stop"] = json{ { "us", r.chance( 300 ) ? r.below( 100000 ) : r.below( 6000000 ) } };
        else if ( prof == "stop" && x < 80 ) inc["rot"] = r.range( 0, 6 );   // planned exit some seconds from the start
        else inc["faults"].push_back( mk_fault( r.chance( 800 ) ? "crash" : "torn_write_crash", ( int ) r.range( 0, rounds ), ( int ) r.range( 0, r.chance( 500 ) ? 6 : 60 ), 1, r.below( 1000 ) ) );
    }
    // the operator plans (and changes) the exit while the node runs; times are relative to the moment of the call
    if ( prof == "stop" ) for ( auto& inc : plan["incs"] ) if ( r.chance( 350 ) ) {
        inc["sched"] = json::array();
        for ( int i = ( int ) r.range( 1, 3 ); i > 0; i-- ) inc["sched"].push_back( json{ r.below( r.chance( 500 ) ? 50000 : 2000000 ), r.chance( 300 ) ? -( int ) r.below( 5 ) : ( int ) r.below( 8 ) } );
        if ( r.chance( 400 ) ) {
            static const char* kinds[] = { "crash", "torn_write_crash", "eio", "enospc", "short_write" };
            std::string k = kinds[r.below( &inc == &plan["incs"].back() ? 0 : 5 ) % 5];
            if ( &inc == &plan["incs"].back() ) k = kinds[r.range( 2, 4 )];
            bool kill = k[0] == 'c' || k[0] == 't';
            inc["faults"].push_back( mk_fault( k.c_str(), -1, ( int ) r.below( kill ? 8 : 4 ), ( int ) ( kill ? 1 : r.range( 1, 3 ) ), r.below( 1000 ), kill && r.chance( 400 ) ? "skaled.status" : "rotation.json" ) );
        }
    }
    for ( auto& inc : plan["incs"] ) if ( r.chance( 250 ) ) inc["faults"].push_back( mk_fault( "slow_disk", -1, ( int ) r.below( 400 ), ( int ) r.range( 1, 20 ), r.range( 1000, 300000 ) ) );
    plan["min"] = json::array( { "/cfg/rounds", "/cfg/clients", "/cfg/net", "/incs/*/faults" } );
}

namespace {
struct W {   // everything the harness knows; touched only inside NoPreempt sections
    Ctx* c; Node* nd; json cfg;
    bool mtm, limits;
    std::atomic< bool > stop{ false }, over{ false };   // over: the node was asked to stop
    std::atomic< int > mine{ 0 }, rounds{ 0 }, netdone{ 0 };
    // known to the rest of the network: (sender, nonce) -> transaction
    std::map< std::pair< int, uint64_t >, bytes > network;
    std::set< h256 > before;             // known to the network before this incarnation
    std::set< h256 > injected;           // delivered to this node by peers
    std::map< h256, std::pair< int, uint64_t > > id;
    std::map< h256, int > accepted;      // by clients: value of mine when it happened
    std::map< h256, unsigned > executed; // block
    std::map< h256, std::string > refused;
    std::map< h256, int > sent, failed;
    size_t sent_seen = 0;
    std::set< h256 > junk, given;        // given: in blocks handed to the node
    // the planned exit: times the node may consider valid, -1 for none; touched: those planned during an import
    std::set< int64_t > plan{ -1 }, touched, going;
    bool rotated = false;
};
struct Quiet { rt::NoPreempt np; Quiet() { rt::set_root_enabled( false ); } ~Quiet() { rt::set_root_enabled( true ); } };
bool exit_reported( const std::string& dir ) {   // what the node's supervisor reads
    Quiet q;
    std::ifstream i( dir + "/skaled.status" );
    if ( !i ) return false;
    try { json j; i >> j; return j["exitState"]["ExitTimeReached"]; }
    catch ( const std::exception& ) { rt::violation( "C11", "the status file is not readable" ); }
}
}
// the operator plans the exit
static void schedule( W& w, int64_t t ) {
    { rt::NoPreempt np; jot( json{ { "t", "try" }, { "T", t } } ); w.plan.insert( t ); w.touched.insert( t ); w.going.insert( t ); }
    bool ok = true;
    try { w.nd->client->setSchainExitTime( t ); } catch ( const std::exception& e ) { ok = false; }
    rt::probe( ok ? "exit planned" : "planning the exit failed" );
    rt::log( "exit planned for %ld: %d", ( long ) t, ok );
    rt::NoPreempt np;
    w.going.erase( t );
    jot( json{ { "t", ok && !w.rotated ? "set" : "tried" }, { "T", t } } );
    if ( ok && !w.rotated ) w.plan = { t };
}
static void note_sent( W& w ) {
    for ( ; w.sent_seen < ext::sent.size(); w.sent_seen++ ) {
        bytes b = jsToBytes( ext::sent[w.sent_seen] );
        h256 h = sha3( b );
        w.sent[h]++;
        CHECK( "C10", w.id.count( h ), "the node sent something to its peers which is not a transaction it was given: %s", ext::sent[w.sent_seen].substr( 0, 60 ).c_str() );
        CHECK( "C10", w.sent[h] == 1 || w.limits, "transaction %lu of account %d was sent to the peers twice", w.id[h].second, w.id[h].first );
        CHECK( "C10", w.id[h].first < 3 || w.given.count( h ), "transaction %lu of account %d came from a peer and was sent to the peers again", w.id[h].second, w.id[h].first );
    }
}
static u256 head_root( Client& cl, unsigned n ) { return h256::Arith( cl.blockInfo( cl.hashFromNumber( n ) ).stateRoot() ); }

static bool give_block( W& w, const std::vector< bytes >& txs, unsigned bn, bool own ) {
    Client& cl = *w.nd->client;
    uint64_t ts = rt::wall_us() / 1000000;
    uint64_t prev = ( uint64_t ) cl.blockInfo( cl.hashFromNumber( bn - 1 ) ).timestamp();
    if ( ts < prev ) ts = prev;
    std::map< int, uint64_t > n0, cnt;
    for ( auto& b : txs ) { auto it = w.id.find( sha3( b ) ); if ( it != w.id.end() ) cnt[it->second.first]++; }
    for ( auto& p : cnt ) n0[p.first] = ( uint64_t ) cl.countAt( addr( p.first ) );
    { rt::NoPreempt np; for ( auto& b : txs ) w.given.insert( sha3( b ) ); }
    std::set< int64_t > plan;
    { rt::NoPreempt np; plan = w.plan; w.touched.clear(); }
    bool ok = w.nd->block_raw( txs, ts, bn, 1, head_root( cl, bn - 1 ), own ? 1 : 2 );
    if ( ok ) {
        { rt::NoPreempt np; plan.insert( w.touched.begin(), w.touched.end() ); }
        bool must = true, may = false, asked = ExitHandler::shouldExit();
        for ( auto t : plan ) if ( t >= 0 && t <= ( int64_t ) ts ) may = true; else must = false;
        CHECK( "C11", asked || !must, "block %u of time %lu was imported and the node does not exit although that was planned for %ld", bn, ts, ( long ) *plan.begin() );
        CHECK( "C11", may || !asked, "the node exits after block %u of time %lu although that was not planned", bn, ts );
        if ( asked ) {
            CHECK( "C11", ExitHandler::requestedExitCode() == ExitHandler::ec_rotation_complete, "a planned exit ends with code %d", ( int ) ExitHandler::requestedExitCode() );
            CHECK( "C11", w.nd->stub->need_exit, "consensus is not told of the planned exit" );
            CHECK( "C11", exit_reported( w.nd->dir ), "the planned exit is not reported to the operator" );
            // consensus may have one more block at hand
            w.nd->block_raw( {}, ts + 1, bn + 1, 1, head_root( cl, bn ), 2 );
            CHECK( "C11", cl.number() == bn, "block %u was imported although the node had to exit at block %u", bn + 1, bn );
            rt::NoPreempt np;
            w.rotated = true;
            // it could not be deleted: the node exits again if it is restarted
            struct stat st;
            rt::set_root_enabled( false );
            bool left = !stat( ( w.nd->dir + "/rotation.json" ).c_str(), &st );
            rt::set_root_enabled( true );
            jot( json{ { "t", left ? "reached" : "rotated" } } );
            rt::probe( "planned exit" );
        }
    }
    CHECK( "C08", ok || w.over, "block %u with %zu transactions was not imported", bn, txs.size() );
    if ( !ok ) return false;
    auto hs = cl.blockChain().transactionHashes( cl.blockChain().numberHash( bn ) );
    CHECK( "C08", hs.size() == txs.size(), "block %u was finalized with %zu transactions but holds %zu", bn, txs.size(), hs.size() );
    for ( size_t i = 0; i < hs.size(); i++ ) {
        CHECK( "C08", hs[i] == sha3( txs[i] ), "transaction %zu of block %u is not the one that was finalized", i, bn );
        if ( w.junk.count( hs[i] ) ) continue;
        CHECK( "C08", !w.executed.count( hs[i] ), "transaction %lu of account %d is in block %u and again in block %u", w.id[hs[i]].second, w.id[hs[i]].first, w.executed[hs[i]], bn );
        w.executed[hs[i]] = bn;
        jot( json{ { "t", "exec" }, { "h", hs[i].hex() }, { "bn", bn } } );
    }
    for ( auto& p : cnt ) {
        uint64_t n1 = ( uint64_t ) cl.countAt( addr( p.first ) );
        CHECK( own ? "C09" : "C08", n1 == n0[p.first] + p.second, "block %u has %lu valid transactions of account %d but moved its transaction count from %lu to %lu", bn, p.second, p.first, n0[p.first], n1 );
    }
    if ( txs.size() ) rt::log( "block %u %s %zu", bn, own ? "own" : "foreign", txs.size() );
    rt::probe( own ? "own proposal finalized" : "foreign proposal finalized" );
    if ( txs.size() ) rt::probe( "transaction executed", txs.size() );
    return true;
}
static std::vector< bytes > foreign_block( W& w, const json& rd, bool junk_ok ) {
    std::map< int, uint64_t > next;
    for ( int s = 0; s < 5; s++ ) next[s] = ( uint64_t ) w.nd->client->countAt( addr( s ) );
    rt::NoPreempt np;
    note_sent( w );
    Rng r( rd.value( "seed", 1ull ) );
    json op = w.cfg["netop"];
    // what the peers got from this node
    std::vector< bytes > out;
    uint64_t gas = 0;
    for ( int tries = 0, misses = 0; tries < 12 && misses < 4; tries++ ) {
        int s = ( int ) r.below( 5 );
        auto it = w.network.find( { s, next[s] } );
        if ( it == w.network.end() ) { misses++; continue; }
        Transaction t( it->second, CheckTransaction::None );
        gas += ( uint64_t ) t.gas();
        if ( gas > ( uint64_t ) w.cfg["gasLimit"] ) break;
        out.push_back( it->second ); next[s]++;
    }
    if ( junk_ok && rd.value( "junk", false ) ) {
        json t{ { "k", "xfer" }, { "s", 5 }, { "n", 50 + r.below( 9 ) + 100 * w.rounds }, { "g", 21000 }, { "a", 1 } };
        bytes b = tx_bytes( t );
        w.junk.insert( sha3( b ) );
        out.push_back( b );
    }
    return out;
}
static void consensus( W& w ) {
    Client& cl = *w.nd->client;
    bool alt = false;
    for ( auto& cj : w.cfg["clients"] ) if ( cj.value( "alt", 0 ) ) alt = true;
    while ( !w.stop && !w.nd->stub->need_exit ) {
        unsigned n = cl.number(), bn = n + 1;
        json rd = bn <= w.cfg["rounds"].size() ? w.cfg["rounds"][bn - 1] : json{ { "kind", alt && bn % 3 == 0 ? "foreign" : "mine" }, { "limit", 100 }, { "seed", bn } };
        rt::mark( bn );
        bool own = rd["kind"] == "mine";
        std::thread cu;
        bool catchup = rd.value( "catchup", false ), created = false;
        if ( catchup ) {
            uint64_t us = Rng( rd["seed"].get< uint64_t >() + 5 ).below( 30000 );
            cu = std::thread( [&] { std::this_thread::sleep_for( std::chrono::microseconds( us ) ); if ( w.nd->stub->need_exit ) return; created = give_block( w, foreign_block( w, rd, false ), bn, false ); rt::probe( "block from catch-up during proposal" ); } );
        }
        u256 root;
        std::map< int, uint64_t > cnt0;
        for ( int s = 0; s < 5; s++ ) cnt0[s] = ( uint64_t ) cl.countAt( addr( s ) );
        size_t limit = rd.value( "limit", 100 );
        auto prop = w.nd->pending( limit, root );
        rt::probe( prop.empty() ? "empty proposal" : "proposal" );
        unsigned n1 = cl.number();
        u256 hroot = head_root( cl, n );
        bool exiting = w.nd->stub->need_exit || w.over;
        {
            rt::NoPreempt np;
            note_sent( w );
            CHECK( "C09", prop.size() <= limit, "a proposal has %zu transactions, more than the %zu asked for", prop.size(), limit );
            std::set< h256 > seen;
            std::map< int, uint64_t > next;
            u256 gas = 0;
            for ( auto& b : prop ) {
                h256 h = sha3( b );
                auto it = w.id.find( h );
                CHECK( "C09", it != w.id.end(), "a proposal contains a transaction nobody submitted" );
                int s = it->second.first; uint64_t nn = it->second.second;
                CHECK( "C09", seen.insert( h ).second, "a proposal contains transaction %lu of account %d twice", nn, s );
                if ( n1 == n ) CHECK( "C09", !w.executed.count( h ), "the proposal for block %u contains transaction %lu of account %d, which was executed in block %u", bn, nn, s, w.executed[h] );
                Transaction t( b, CheckTransaction::None );
                gas += t.gas();
                if ( !next.count( s ) ) next[s] = n1 == n ? cnt0[s] : nn;
                CHECK( "C09", next[s] == nn, "the proposal for block %u lists transaction %lu of account %d where number %lu is due", bn, nn, s, next[s] );
                next[s]++;
            }
            CHECK( "C09", gas <= u256( ( uint64_t ) w.cfg["gasLimit"] ), "the transactions of a proposal need %s gas, more than a block may use", gas.str().c_str() );
            if ( !exiting && n1 == n ) CHECK( "C09", root == hroot, "a proposal comes with a state root which is not that of the last block" );
        }
        if ( rd.count( "delay" ) ) std::this_thread::sleep_for( std::chrono::microseconds( rd["delay"].get< uint64_t >() ) );
        if ( cu.joinable() ) cu.join();
        if ( w.rotated ) w.over = true;
        if ( w.nd->stub->need_exit || w.over ) break;
        if ( !catchup ) give_block( w, own ? prop : foreign_block( w, rd, true ), bn, own );
        if ( w.rotated ) w.over = true;
        rt::mark( 3000 + bn );
        w.rounds++;
        if ( own ) w.mine++;
        // consensus needs time as well
        std::this_thread::sleep_for( std::chrono::microseconds( 500 + ( own && prop.empty() ? 50000 : 0 ) ) );
    }
}

static void client_thread( W& w, int s ) {
    json cj = w.cfg["clients"][s];
    Rng r( cj["seed"].get< uint64_t >() + 77 * w.c->index );
    Client& cl = *w.nd->client;
    int T = ( int ) cj["txs"].size();
    uint64_t slow = cj["slow"];
    std::vector< bytes > bs;
    for ( auto& t : cj["txs"] ) bs.push_back( tx_bytes( t ) );
    auto submit = [&]( int n, bool again ) {
        h256 h = sha3( bs[n] );
        std::string err;
        bool old = w.before.count( h ) || w.injected.count( h ) || w.accepted.count( h );
        int wait = w.mine;
        try { cl.importTransaction( Transaction( bs[n], CheckTransaction::Everything ) ); } catch ( const std::exception& e ) { err = e.what(); }
        rt::NoPreempt np;
        rt::log( "submit %d/%d: %s", s, n, err.empty() ? "ok" : err.substr( 0, 40 ).c_str() );
        if ( err.empty() ) { if ( !w.accepted.count( h ) ) w.accepted[h] = wait; rt::probe( "transaction accepted" ); if ( again ) rt::probe( "repeated submission accepted" ); }
        else if ( !w.over ) {
            bool known = w.accepted.count( h ) || w.before.count( h ) || w.injected.count( h ) || old;
            if ( !w.limits ) CHECK( "C08", known, "transaction %d of account %d is next and valid but was refused: %s", n, s, err.substr( 0, 300 ).c_str() );
            rt::probe( "transaction refused" );
        }
    };
    auto late = [&]( int n ) {   // transaction n was accepted; is it still not executed after many own blocks?
        rt::NoPreempt np;
        h256 h = sha3( bs[n] );
        if ( w.limits || !w.accepted.count( h ) || w.over || w.stop ) return;
        CHECK( "C08", w.mine - w.accepted[h] < 120, "transaction %d of account %d was accepted, is executable and is still not executed after %d own proposals were finalized", n, s, w.mine - w.accepted[h] );
    };
    auto nap = [&] { std::this_thread::sleep_for( std::chrono::microseconds( 50 + r.below( slow ) ) ); };
    int n = ( int ) ( uint64_t ) cl.countAt( addr( s ) );
    std::vector< int > order;
    for ( int i = n; i < T; i++ ) order.push_back( i );
    if ( w.mtm ) for ( size_t i = 0; i + 1 < order.size(); i++ ) if ( r.chance( cj["ooo"] ) ) std::swap( order[i], order[i + 1 + r.below( std::min< size_t >( 2, order.size() - i - 1 ) )] );
    for ( int k : order ) {
        if ( w.over || w.stop ) return;
        nap();
        if ( r.chance( cj["bad"] ) ) {   // cannot be accepted
            json t{ { "k", "xfer" }, { "s", s }, { "n", k }, { "g", 21000 }, { "a", 1 } };
            const char* what = "";
            switch ( r.below( 5 ) ) {
            case 0: t["g"] = 20999; what = "less gas than it needs"; break;
            case 1: t["vx"] = "2000000000000000000000"; what = "more value than the account has"; break;
            case 2: t["g"] = 3000001; what = "more gas than a block has"; break;
            case 3: t["p"] = 0; what = "a gas price below the minimum"; break;
            case 4: if ( n < 1 ) t["g"] = 1; else t["n"] = r.below( n ); what = "an old nonce"; break;
            }
            bool acc = true;
            try { cl.importTransaction( make_tx( t ) ); } catch ( const std::exception& ) { acc = false; }
            CHECK( "C08", !acc, "a transaction with %s was accepted", what );
        }
        if ( !w.mtm ) {
            for ( ;; ) {
                n = ( int ) ( uint64_t ) cl.countAt( addr( s ) );
                if ( n >= k || w.over || w.stop ) break;
                if ( w.limits && n < k && r.chance( 100 ) ) submit( n, true );
                late( n );
                std::this_thread::sleep_for( std::chrono::microseconds( 20000 ) );
            }
            if ( n > k ) continue;
        }
        if ( r.chance( cj.value( "alt", 0 ) ) ) {   // to another node, which does not manage to tell this one
            rt::NoPreempt np;
            w.network[{ s, ( uint64_t ) k }] = bs[k];
            jot( json{ { "t", "net" }, { "b", toHex( bs[k] ) } } );
            rt::probe( "transaction submitted to another node" );
            continue;
        }
        submit( k, false );
        if ( r.chance( cj["dup"] ) ) {
            int d = r.chance( 600 ) ? k : ( int ) r.range( 0, k );
            uint64_t us = r.chance( 500 ) ? 0 : r.below( 200000 );
            if ( us ) std::this_thread::sleep_for( std::chrono::microseconds( us ) );
            if ( w.accepted.count( sha3( bs[d] ) ) ) submit( d, true );
        }
    }
    // all of it is executed before long
    for ( ;; ) {
        n = ( int ) ( uint64_t ) cl.countAt( addr( s ) );
        if ( n >= T || w.over || w.stop ) break;
        if ( w.limits ) for ( int k = n; k < T; k++ ) submit( k, true );
        late( n );
        std::this_thread::sleep_for( std::chrono::microseconds( 50000 ) );
    }
    if ( n >= T ) rt::probe( "client done" );
}
// the peers: gossip in both directions, with loss, duplicates, reordering and garbage
static void peers( W& w ) {
    json op = w.cfg["netop"];
    Rng r( op["seed"].get< uint64_t >() + 31 * w.c->index );
    std::vector< std::string > todo;
    {
        rt::NoPreempt np;
        for ( size_t i = 0; i < w.cfg["net"].size(); i++ )
            for ( auto& t : w.cfg["net"][i]["txs"] ) {
                bytes b = tx_bytes( t );
                if ( w.executed.count( sha3( b ) ) && r.chance( 700 ) ) continue;
                if ( r.chance( op["loss"] ) ) { w.network[{ t["s"].get< int >(), t["n"].get< uint64_t >() }] = b; rt::shm().net_drop++; continue; }
                todo.push_back( toJS( b ) );
                if ( r.chance( op["dup"] ) ) { todo.push_back( toJS( b ) ); rt::shm().net_dup++; }
            }
        for ( size_t i = 0; i < todo.size(); i++ ) if ( r.chance( op["late"] ) ) { std::swap( todo[i], todo[r.below( todo.size() )] ); rt::shm().net_reorder++; }
    }
    size_t heard = 0, at = 0;
    while ( !w.over && !w.stop ) {
        std::this_thread::sleep_for( std::chrono::microseconds( r.below( 60000 ) ) );
        rt::NoPreempt np;
        if ( r.chance( op["senderr"] ) ) ext::send_errors = ( int ) r.range( 1, 2 );
        for ( ; heard < ext::sent.size(); heard++ ) {
            bytes b = jsToBytes( ext::sent[heard] );
            h256 h = sha3( b );
            if ( !w.id.count( h ) ) continue;
            if ( !r.chance( op["loss"] ) ) w.network[w.id[h]] = b;
            if ( r.chance( op["echo"] ) ) { w.injected.insert( h ); ext::inject( ext::sent[heard] ); rt::probe( "gossip echoed" ); }
        }
        if ( r.chance( op["garbage"] ) ) {
            static const char* g[] = { "", "0x", "0x1", "zz", "0xzz", "0xc0", "0x80", "0x02c0", "0x01", "0xf8ff", "0xffffffffffffffffffff", "f86b808504a817c800825208", "{\"json\":1}" };
            std::string s = g[r.below( sizeof g / sizeof *g )];
            if ( r.chance( 300 ) && todo.size() ) { s = todo[r.below( todo.size() )]; s.resize( r.below( s.size() ) ); }
            if ( r.chance( 100 ) ) s = "0x" + std::string( 20000, 'f' );
            ext::inject( s ); rt::probe( "garbage from a peer" );
        }
        if ( at < todo.size() && r.chance( 600 ) ) {
            bytes b = jsToBytes( todo[at] ); h256 h = sha3( b );
            w.injected.insert( h );
            w.network[w.id[h]] = b;
            ext::inject( todo[at++] );
            rt::log( "inject %d/%lu", w.id[h].first, w.id[h].second );
            rt::probe( "gossip received" );
        }
        if ( at == todo.size() ) w.netdone = 1;
    }
}

static void run( Ctx& c ) {
    W w; w.c = &c; w.cfg = c.cfg; w.mtm = c.cfg.value( "mtm", false ); w.limits = c.cfg.count( "tq" );
    for ( const char* q : { "clients", "net" } )
        for ( auto& cj : c.cfg[q] ) for ( auto& t : cj["txs"] ) { bytes b = tx_bytes( t ); w.id[sha3( b )] = { t["s"], t["n"] }; }
    for ( auto& j : journal() ) {
        if ( j["t"] == "net" ) { bytes b = fromHex( j["b"].get< std::string >() ); h256 h = sha3( b ); w.before.insert( h ); w.network[w.id[h]] = b; }
        if ( j["t"] == "exec" ) w.executed[h256( j["h"].get< std::string >() )] = j["bn"];
        if ( j["t"] == "try" ) { w.plan.insert( j["T"].get< int64_t >() ); w.going.insert( j["T"].get< int64_t >() ); }
        if ( j["t"] == "set" ) { w.plan = { j["T"].get< int64_t >() }; w.going.clear(); }
        if ( j["t"] == "tried" ) w.going.clear();
        if ( j["t"] == "rotated" ) { w.plan = w.going; w.plan.insert( -1 ); }
        if ( j["t"] == "reached" ) w.plan.insert( -1 );
    }
    w.going.clear();
    // killed in the middle of a planned exit: then the operator has been told, or the plan is still there
    if ( exit_reported( c.root + "/n" ) ) { jot( json{ { "t", "reached" } } ); w.plan.insert( -1 ); }
    ext::on_send = []( const std::string& m ) { jot( json{ { "t", "net" }, { "b", m.substr( 2 ) } } ); };
    rt::mark( 0 );
    c.cfg["status"] = true;
    Node nd( c.root + "/n", c.cfg, nullptr, false );
    w.nd = &nd;
    // after a kill the last block may be stored without having been reported
    {
        unsigned n = nd.number(), last = 0;
        for ( auto& p : w.executed ) last = std::max( last, p.second );
        for ( unsigned b = 1; b <= n; b++ ) for ( auto& h : nd.client->blockChain().transactionHashes( nd.client->blockChain().numberHash( b ) ) ) if ( w.id.count( h ) ) {
            if ( w.executed.count( h ) ) CHECK( "C08", w.executed[h] == b, "transaction %lu of account %d is in blocks %u and %u", w.id[h].second, w.id[h].first, w.executed[h], b );
            w.executed[h] = b;
        }
        CHECK( "C08", n >= last, "block %u was imported but after a restart the head is %u", last, n );
    }
    uint64_t t0 = rt::wall_us() / 1000000;
    if ( c.inc.count( "rot" ) ) schedule( w, t0 + c.inc["rot"].get< uint64_t >() );
    nd.stub->loop = [&w] { consensus( w ); };
    nd.start();
    if ( !c.inc.count( "stop" ) || c.inc["stop"]["us"] != 0 ) {
        std::vector< std::thread > th;
        for ( size_t i = 0; i < c.cfg["clients"].size(); i++ ) th.emplace_back( [&w, i] { client_thread( w, ( int ) i ); } );
        std::thread pt( [&w] { peers( w ); } );
        if ( c.inc.count( "sched" ) ) th.emplace_back( [&w, &c] {
            for ( auto& x : c.inc["sched"] ) {
                std::this_thread::sleep_for( std::chrono::microseconds( x[0].get< uint64_t >() ) );
                if ( w.over || w.rotated ) return;
                schedule( w, ( int64_t ) ( rt::wall_us() / 1000000 ) + x[1].get< int >() );
            }
        } );
        if ( c.inc.count( "stop" ) ) {
            uint64_t us = c.inc["stop"]["us"];
            for ( uint64_t e = rt::now_us() + us; rt::now_us() < e; ) std::this_thread::sleep_for( std::chrono::microseconds( std::min< uint64_t >( 100000, e - std::min( e, rt::now_us() ) + 1 ) ) );
            w.over = true;
        }
        if ( c.inc.count( "rot" ) ) {
            while ( !w.over ) {
                CHECK( "C11", rt::now_us() / 1000000 < c.inc["rot"].get< uint64_t >() + 120 || w.plan.count( -1 ), "the planned exit does not happen" );
                // saving or cancelling the plan failed: it may happen or not
                if ( rt::now_us() / 1000000 > ( w.plan.count( -1 ) ? c.inc["rot"].get< uint64_t >() + 20 : 200 ) ) break;
                std::this_thread::sleep_for( std::chrono::milliseconds( 20 ) );
            }
        }
        for ( auto& t : th ) t.join();
        if ( !w.over ) {
            // let everything settle: the last transactions are broadcast, late gossip arrives
            for ( int i = 0; i < 400 && !( w.netdone && ext::inbox_size() == 0 ); i++ ) std::this_thread::sleep_for( std::chrono::milliseconds( 20 ) );
        }
        w.stop = true;
        pt.join();
    }
    if ( w.over ) rt::probe( "stopped in the middle" );
    bool full = !w.over;
    w.over = true;
    rt::watchdog( 60000000, "orderly stop does not finish" );
    unsigned n0 = nd.number();
    rt::set_property( "C11" );
    nd.stop();
    rt::watchdog( 0, "" );
    ( void ) n0;
    rt::probe( "orderly stop" );
    rt::NoPreempt np;
    note_sent( w );
    for ( auto& m : ext::failed ) w.failed[sha3( jsToBytes( m ) )]++;
    if ( full ) {
        for ( auto& p : w.accepted ) {
            if ( w.limits && !w.executed.count( p.first ) ) continue;
            CHECK( "C08", w.executed.count( p.first ), "transaction %lu of account %d was accepted and never executed", w.id[p.first].second, w.id[p.first].first );
            if ( w.injected.count( p.first ) || w.before.count( p.first ) || w.limits ) continue;
            int k = w.sent[p.first] + w.failed[p.first];
            CHECK( "C10", k == 1, "transaction %lu of account %d was accepted from a client and given to the peers %d times", w.id[p.first].second, w.id[p.first].first, k );
        }
    }
    nd.destroy();
}
static Scenario s( "host", gen, run );
