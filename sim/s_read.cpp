// What clients read while blocks are imported: balances, nonces, storage, calls, gas estimates, blocks and receipts, from
// concurrent threads.  The contract WIDE keeps nine counters that every transaction to it moves together, so whatever a
// call returns tells at which transaction boundary it looked at the state.
#include "node.h"
#include <libethereum/BlockChain.h>
#include <libskale/State.h>
#include <thread>
using namespace node;
using namespace dev;
using namespace dev::eth;
namespace {
struct Ref {
    std::vector< std::string > blk, st;
    std::vector< uint64_t > cnt;                        // transactions of WIDE executed up to and including a block
    std::vector< std::vector< uint64_t > > nonce;       // of each sender
    std::vector< std::vector< std::string > > bal;      // of each sender
    struct Tx { unsigned bn; std::string h; uint64_t cnt; };   // cnt: after this transaction
    std::vector< Tx > txs;
    uint64_t est[2] = { 0, 0 };                         // gas for a transaction to WIDE: the first one, later ones
};
Ref load() {
    Ref r;
    for ( auto& j : journal() ) {
        if ( j["t"] == "ref" ) {
            r.blk.push_back( j["blk"] ); r.st.push_back( j["st"] ); r.cnt.push_back( j["cnt"] ); r.nonce.push_back( j["nonce"].get< std::vector< uint64_t > >() ); r.bal.push_back( j["bal"].get< std::vector< std::string > >() );
            for ( auto& x : j["txs"] ) r.txs.push_back( Ref::Tx{ ( unsigned ) r.blk.size() - 1, x[0], x[1] } );
            if ( j.count( "est" ) ) r.est[j["cnt"] != 0] = j["est"];
        }
    }
    return r;
}
void gen( Rng& r, json& plan ) {
    bool deep = plan["tier"] == "thorough";
    gen_sched( r, plan, 1, true );
    json cfg; cfg["gp"] = 1;
    if ( r.chance( 250 ) ) cfg["mtm"] = true;
    if ( r.chance( 150 ) ) { cfg["dbLimit"] = r.range( 10, 60 ) * 1000; if ( r.chance( 400 ) ) cfg["archive"] = true; }
    int n = ( int ) r.skew( 2, deep ? 16 : 9 );
    uint64_t ts = 1500000000 + r.below( 50 );
    if ( r.chance( 300 ) ) {
        json p = json::object();
        for ( auto nm : { "SkipInvalidTransactionsPatch", "StorageDestructionPatch", "ContractStorageZeroValuePatch", "RevertableFSPatch", "ContractStoragePatch", "CorrectForkInPowPatch" } ) if ( r.chance( 500 ) ) p[nm] = 1500000000 + ( r.chance( 500 ) ? 1 : r.range( 1, n * 10 ) );
        cfg["patches"] = p;
    }
    TxGen g( r ); g.wide = true; g.bhash = false; g.bad_pm = r.chance( 300 ) ? 200 : 0;
    cfg["blocks"] = json::array();
    for ( int b = 1; b <= n; b++ ) { ts += r.range( 1, 12 ); json x = g.block( b, b, ts, deep ? 9 : 6 ); x.erase( "op" ); x.erase( "id" ); x.erase( "bn" ); cfg["blocks"].push_back( x ); }
    plan["cfg"] = cfg;
    json& ri = add_inc( plan ); ri["role"] = "ref"; ri["seq"] = true;
    int at = 0;
    for ( int q = ( int ) r.range( 1, 3 ); q > 0; q-- ) {
        json& i = add_inc( plan );
        i["role"] = "node";
        if ( q > 1 ) {
            at = ( int ) r.range( at, n );
            if ( r.chance( 500 ) ) i["upto"] = at; else i["faults"].push_back( mk_fault( r.chance( 800 ) ? "crash" : "torn_write_crash", at, ( int ) r.below( 60 ), 1, r.below( 500 ) ) );
        }
        i["load"] = json::array();
        for ( int k = ( int ) r.range( 1, 3 ); k > 0; k-- ) i["load"].push_back( json{ { "n", r.skew( 3, deep ? 60 : 30 ) }, { "seed", r.below( 1u << 30 ) }, { "pause", r.chance( 500 ) ? 200 : r.chance( 500 ) ? 2000 : 30000 } } );
        if ( r.chance( 200 ) ) i["faults"].push_back( mk_fault( "slow_disk", -1, ( int ) r.below( 800 ), ( int ) r.range( 1, 15 ), r.range( 1000, 500000 ) ) );
        if ( r.chance( 200 ) ) i["gap"] = r.range( 100, 300000 );   // between blocks
    }
    plan["min"] = json::array( { "/cfg/blocks", "/cfg/blocks/*/txs", "/incs/*/load", "/incs/*/faults" } );
}
std::string diff_line( const std::string& a, const std::string& b ) {
    size_t i = 0;
    while ( i < a.size() && i < b.size() && a[i] == b[i] ) i++;
    size_t s = a.rfind( 0x0a, i ); s = ( s == std::string::npos || s > i ) ? 0 : s + 1;
    auto line = [&]( const std::string& x ) { return s < x.size() ? x.substr( s, x.find( 0x0a, s ) - s ) : std::string( "<end>" ); };
    return "expected {" + line( a ) + "} got {" + line( b ) + "}";
}
struct Shared { Node* nd; const Ref* ref; std::string prop; std::atomic< bool > stop{ false }; std::atomic< int > epoch{ 0 };   /* odd while blocks are imported */  unsigned N; bool rot; };
uint64_t word( const bytes& b, size_t i ) { u256 v = fromBigEndian< u256 >( bytesConstRef( b.data() + 32 * i, 32 ) ); return v > 1000000 ? ~0ull : ( uint64_t ) v; }
// one client; it must never see the state go back
struct Reader {
    Shared& s; Rng r; uint64_t seen = 0; std::vector< uint64_t > nseen; unsigned bseen = 0; int e0 = 0;
    Reader( Shared& sh, uint64_t seed ) : s( sh ), r( seed ), nseen( NKEYS ) {}
    unsigned before() {
        unsigned n = s.nd->client->number();
        CHECK( s.prop.c_str(), n >= bseen && n <= s.N, "the head was block %u and is block %u", bseen, n );
        bseen = n;
        return n;
    }
    // a value of one of the counters, requested when the head was n0
    void count( uint64_t v, unsigned n0, const char* what ) {
        unsigned n1 = s.nd->client->number();
        uint64_t lo = std::max( s.ref->cnt[n0], seen ), hi = s.ref->cnt[std::min( n1 + 1, s.N )];
        CHECK( s.prop.c_str(), v >= lo, "%s shows %lu transactions although %lu were executed before the request (head %u)", what, v, lo, n0 );
        CHECK( s.prop.c_str(), v <= hi, "%s shows %lu transactions, of which only %lu can have been executed (head %u)", what, v, hi, n1 );
        seen = v;
        if ( v > s.ref->cnt[n1] ) rt::probe( "read inside a block being imported" );
    }
    void call( bool pay ) {
        e0 = s.epoch;
        unsigned n0 = before();
        ExecutionResult x;
        try { x = s.nd->client->call( addr( ( int ) r.below( NKEYS ) ), pay ? 1 : 0, Address( WIDE ), pay ? bytes( 1, 1 ) : bytes(), 1000000, 1,
#ifdef HISTORIC_STATE
                  LatestBlock,
#endif
                  FudgeFactor::Lenient ); }
        catch ( const std::exception& e ) { refuse( "call", e ); return; }
        if ( pay ) { CHECK( s.prop.c_str(), x.excepted == TransactionException::None, "a call that changes storage fails (%d)", ( int ) x.excepted ); rt::probe( "call that writes" ); return; }
        CHECK( s.prop.c_str(), x.excepted == TransactionException::None && x.output.size() == 288, "a call fails (%d, %zu bytes)", ( int ) x.excepted, x.output.size() );
        for ( int i = 1; i < 9; i++ ) CHECK( s.prop.c_str(), word( x.output, i ) == word( x.output, 0 ), "one call sees counter 0 at %lu and counter %d at %lu", word( x.output, 0 ), i, word( x.output, i ) );
        count( word( x.output, 0 ), n0, "a call" );
        rt::probe( "call" );
    }
    void refuse( const char* what, const std::exception& e ) {
        rt::log( "%s refused: %.200s", what, e.what() ); rt::probe( "read refused" );
        CHECK( s.prop.c_str(), s.epoch != e0 || ( e0 & 1 ), "%s is refused although no block is being imported: %.300s", what, e.what() );
    }
    void op() {
        Client& c = *s.nd->client;
        e0 = s.epoch;
        switch ( r.below( 11 ) ) {
        case 0: case 1: case 2: call( false ); break;
        case 3: call( true ); break;
        case 4: { unsigned n0 = before(); u256 v; try { v = c.stateAt( Address( WIDE ), r.below( 8 ) ); } catch ( const std::exception& e ) { refuse( "a storage read", e ); break; } count( ( uint64_t ) v, n0, "storage" ); break; }
        case 5: { unsigned n0 = before(); u256 v; try { v = c.balanceAt( Address( WIDE ) ); } catch ( const std::exception& e ) { refuse( "a balance read", e ); break; } count( ( uint64_t ) v, n0, "the balance" ); break; }
        case 6: {
            int a = ( int ) r.below( NKEYS ); unsigned n0 = before(); u256 v;
            try { v = c.countAt( addr( a ) ); } catch ( const std::exception& e ) { refuse( "a nonce read", e ); break; }
            unsigned n1 = c.number(); uint64_t lo = std::max( nseen[a], s.ref->nonce[n0][a] ), hi = s.ref->nonce[std::min( n1 + 1, s.N )][a];
            CHECK( s.prop.c_str(), v >= lo && v <= hi, "the nonce of account %d is %s, not within [%lu, %lu] (head %u..%u)", a, v.str().c_str(), lo, hi, n0, n1 );
            nseen[a] = ( uint64_t ) v;
            break;
        }
        case 7: {   // what is announced is complete
            unsigned n0 = before(); if ( !n0 ) break;
            unsigned b = s.rot || r.chance( 600 ) ? n0 : ( unsigned ) r.range( 1, n0 );
            std::string t;
            try { t = s.nd->block_text( b, true ); } catch ( const std::exception& e ) { if ( s.rot ) break; rt::violation( s.prop.c_str(), "block %u of %u cannot be read: %.300s", b, n0, e.what() ); }
            if ( s.rot && c.number() > n0 ) break;   // may have been rotated away
            CHECK( s.prop.c_str(), t == s.ref->blk[b], "block %u reads differently while blocks are imported: %s", b, diff_line( s.ref->blk[b], t ).c_str() );
            rt::probe( "block read" );
            break;
        }
        case 8: {   // who sees a receipt sees its effects
            if ( s.ref->txs.empty() ) break;
            auto& x = s.ref->txs[r.below( s.ref->txs.size() )];
            bool known = false;
            try { known = c.isKnownTransaction( h256( x.h ) ); } catch ( const std::exception& e ) { refuse( "a transaction lookup", e ); break; }
            if ( !known ) { CHECK( s.prop.c_str(), s.rot || c.number() < x.bn || ( e0 & 1 ), "transaction of block %u is unknown at head %u", x.bn, c.number() ); break; }
            unsigned n0 = before(); u256 v;
            try { v = c.stateAt( Address( WIDE ), r.below( 8 ) ); } catch ( const std::exception& e ) { refuse( "a storage read", e ); break; }
            CHECK( s.prop.c_str(), v >= x.cnt, "a transaction of block %u is in the chain, but storage shows only %s of %lu transactions", x.bn, v.str().c_str(), x.cnt );
            count( ( uint64_t ) v, n0, "storage" );
            rt::probe( "receipt before state" );
            break;
        }
        case 9: {   // the estimate is the gas of one of the states of the time
            unsigned n0 = before();
            auto e = c.estimateGas( addr( 0 ), 1, Address( WIDE ), bytes( 1, 1 ), 2000000, 1, GasEstimationCallback() );
            if ( !e.first ) { CHECK( s.prop.c_str(), s.epoch != e0 || ( e0 & 1 ), "a gas estimate is refused although no block is being imported" ); rt::probe( "estimate refused" ); break; }
            bool first = s.ref->cnt[n0] == 0, last = s.ref->cnt[std::min( c.number() + 1, s.N )] == 0;
            if ( first != last ) break;
            CHECK( s.prop.c_str(), e.first == s.ref->est[!first], "gas is estimated as %s instead of %lu", e.first.str().c_str(), s.ref->est[!first] );
            rt::probe( "estimate" );
            break;
        }
        case 10: {  // one view of everything
            unsigned n0 = before();
            skale::State st = c.state().createStateReadOnlyCopy();
            uint64_t v = ( uint64_t ) st.storage( Address( WIDE ), 3 );
            if ( r.chance( 300 ) ) std::this_thread::sleep_for( std::chrono::microseconds( r.range( 10, 3000 ) ) );
            for ( int i = 0; i < 8; i++ ) { auto w = st.storage( Address( WIDE ), i ); CHECK( s.prop.c_str(), w == v, "one view shows counters at %lu and %s", v, w.str().c_str() ); }
            CHECK( s.prop.c_str(), st.balance( Address( WIDE ) ) == v, "one view shows counters at %lu and the balance %s", v, st.balance( Address( WIDE ) ).str().c_str() );
            count( v, n0, "one view" );
            break;
        }
        }
    }
};
void client( Shared& s, json l ) {
    Reader rd( s, l["seed"] );
    Rng p( l["seed"].get< uint64_t >() + 1 );
    for ( int i = l["n"]; i > 0 && !s.stop; i-- ) {
        std::this_thread::sleep_for( std::chrono::microseconds( p.below( l["pause"].get< int >() ) ) );
        rd.op();
    }
}
void run( Ctx& c ) {
    int N = ( int ) c.cfg["blocks"].size();
    const char* P = c.prop.c_str();
    auto blk = [&]( int b ) { json o = c.cfg["blocks"][b - 1]; o["bn"] = b; return o; };
    if ( c.inc["role"] == "ref" ) {
        Node nd( c.root + "/ref", c.cfg );
        for ( int b = 0; b <= N; b++ ) {
            rt::mark( b );
            uint64_t cnt = ( uint64_t ) nd.client->balanceAt( Address( WIDE ) );
            if ( b ) CHECK( P, nd.block( blk( b ) ), "an undisturbed node fails to import block %d", b );
            json txs = json::array();
            if ( b ) {
                auto& bc = nd.client->blockChain(); h256 h = bc.numberHash( b ); unsigned i = 0;
                auto raw = bc.transactions( h );
                for ( auto& t : raw ) {
                    Transaction x( t, CheckTransaction::None, true );
                    if ( bc.transactionReceipt( h, i ).statusCode() && x.to() == Address( WIDE ) ) cnt++;
                    txs.push_back( json{ x.sha3().hex(), cnt } ); i++;
                }
            }
            CHECK( P, cnt == nd.client->balanceAt( Address( WIDE ) ), "balance and receipts differ: %lu, %s", cnt, nd.client->balanceAt( Address( WIDE ) ).str().c_str() );
            json no = json::array(), ba = json::array();
            for ( int a = 0; a < NKEYS; a++ ) { no.push_back( ( uint64_t ) nd.client->countAt( addr( a ) ) ); ba.push_back( nd.client->balanceAt( addr( a ) ).str() ); }
            auto e = nd.client->estimateGas( addr( 0 ), 1, Address( WIDE ), bytes( 1, 1 ), 2000000, 1, GasEstimationCallback() );
            jot( json{ { "t", "ref" }, { "blk", b ? nd.block_text( b ) : "" }, { "st", nd.state_text() }, { "cnt", cnt }, { "nonce", no }, { "bal", ba }, { "txs", txs }, { "est", ( uint64_t ) e.first } } );
        }
        nd.stop();
        return;
    }
    Ref ref = load();
    rt::mark( 0 );
    Node nd( c.root + "/n", c.cfg );
    Shared s; s.nd = &nd; s.ref = &ref; s.prop = c.prop; s.N = N; s.rot = c.cfg.value( "dbLimit", 0 ) > 0;
    unsigned at = nd.number();
    // a restart in the middle of a block: the state is ahead of the head until the block is finished
    if ( !( s.epoch & 1 ) ) s.epoch++;
    std::vector< std::thread > th;
    for ( auto& l : c.inc["load"] ) th.emplace_back( [&s, l] { client( s, l ); } );
    int upto = c.inc.value( "upto", N );
    Reader self( s, 5 );
    for ( int b = at + 1; b <= upto; b++ ) {
        rt::mark( b );
        CHECK( P, nd.block( blk( b ) ), "block %d was not imported (head is %u)", b, nd.number() );
        if ( s.epoch & 1 ) s.epoch++;
        self.call( false );
        CHECK( P, self.seen == ref.cnt[b], "after block %d a call shows %lu instead of %lu transactions", b, self.seen, ref.cnt[b] );
        { std::string t = nd.state_text( true ); CHECK( P, t == ref.st[b], "the state after block %d differs: %.300s", b, t.c_str() ); }
        if ( c.inc.count( "gap" ) ) std::this_thread::sleep_for( std::chrono::microseconds( c.inc["gap"].get< int >() ) );
        if ( !( s.epoch & 1 ) ) s.epoch++;
    }
    if ( upto >= ( int ) at + 1 || at == 0 ) if ( s.epoch & 1 ) s.epoch++;
    for ( int i = 0; i < 6; i++ ) self.op();
    rt::mark( 3000 );

    { s.stop = true; for ( auto& t : th ) t.join(); }
    rt::watchdog( 120000000, "orderly stop does not finish" );
    nd.stop();
    rt::watchdog( 0, "" );
    s.stop = true;
    for ( auto& t : th ) if ( t.joinable() ) t.join();
}
Scenario sc( "read", gen, run );
}  // namespace
