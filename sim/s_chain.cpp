// The whole node core fed with a log of consensus blocks.  The first incarnation executes the log undisturbed and
// records what every block and state looks like; every other incarnation runs a node that is crashed, restarted,
// starved of disk space, loaded with concurrent clients ... and must come out identical.
#include <libethereum/SchainPatch.h>
#include "node.h"
#include <libethereum/BlockChain.h>
#include <libskale/State.h>
#include <sstream>
#include <thread>
using namespace node;
using namespace dev;
using namespace dev::eth;

#ifdef HISTORIC_STATE
#define HISTBLK LatestBlock,
#else
#define HISTBLK
#endif
struct Ref { std::vector< std::string > blk, st; };
static Ref ref_from_journal() {
    Ref r;
    for ( auto& j : journal() )
        if ( j["t"] == "ref" ) {
            size_t b = j["bn"];
            if ( r.blk.size() <= b ) { r.blk.resize( b + 1 ); r.st.resize( b + 1 ); }
            r.blk[b] = j["blk"]; r.st[b] = j["st"];
        }
    return r;
}
static std::string diff_line( const std::string& a, const std::string& b ) {
    size_t i = 0;
    while ( i < a.size() && i < b.size() && a[i] == b[i] ) i++;
    size_t s = a.rfind( '\n', i ); s = ( s == std::string::npos || s > i ) ? 0 : s + 1;
    auto line = [&]( const std::string& x ) { return s < x.size() ? x.substr( s, x.find( '\n', s ) - s ) : std::string( "<end>" ); };
    return "expected {" + line( a ) + "} got {" + line( b ) + "}";
}

#ifdef HISTORIC_STATE
// what an archive node says about the state after block b; empty when it is what it was
static std::string hist_diff( Client& c, const std::string& st, unsigned b ) {
    std::istringstream in( st );
    std::string l;
    while ( std::getline( in, l ) ) {
        if ( l.size() < 41 || l[40] != ' ' ) continue;
        Address a( l.substr( 0, 40 ) );
        std::istringstream w( l.substr( 41 ) );
        std::string f, code;
        std::ostringstream o;
        size_t us = l.find( " u=" );
        o << a.hex() << " n=" << c.historicStateCountAt( a, b ) << " b=" << c.historicStateBalanceAt( a, b ) << " c=" << sha3( c.historicStateCodeAt( a, b ) ).hex().substr( 0, 10 );
        size_t e = l.find( ' ', us + 3 );
        o << ( e == std::string::npos ? l.substr( us ) : l.substr( us, e - us ) );
        bool store = false;
        if ( e != std::string::npos ) {
            std::istringstream k( l.substr( e ) );
            while ( k >> f ) { u256 key( "0x" + f.substr( 0, f.find( ':' ) ) ); o << " " << std::hex << key << ":" << c.historicStateAt( a, key, b ) << std::dec; store = true; }
        }
        if ( o.str() != l ) return "expected {" + l + "} got {" + o.str() + "}";
        if ( store ) for ( int k = 0; k < 8; k++ ) {   // what is not set is zero
            std::ostringstream kk; kk << " " << std::hex << k << ":";
            if ( l.find( kk.str(), us ) == std::string::npos && c.historicStateAt( a, k, b ) != 0 ) return a.hex() + " has a value at " + std::to_string( k ) + " that was not there";
        }
    }
    return "";
}
#endif
// ------------------------------------------------------------------------------------------------ generator
static void gen( Rng& r, json& plan ) {
    std::string prof = plan["profile"];
    bool deep = plan["tier"] == "thorough";
    gen_sched( r, plan, prof == "crash" ? ( int ) r.below( 2 ) : 1 );
    json cfg;
    cfg["gp"] = r.chance( 700 ) ? 1 : 3;
    if ( r.chance( 250 ) ) cfg["mtm"] = true;
    if ( r.chance( 200 ) ) cfg["emptyMs"] = 1000;
    if ( r.chance( 300 ) ) cfg["gasLimit"] = 800000;
    bool rotation = prof == "rotation" || r.chance( 200 );
    if ( rotation ) cfg["dbLimit"] = r.range( 2, 40 ) * 1000;
    if ( rotation && r.chance( 300 ) ) cfg["archive"] = true;
    uint64_t ts0 = 1500000000;
    int n = ( int ) r.skew( 2, deep ? 12 : 7 );
    if ( prof == "rotation" ) n += ( int ) r.range( 2, 8 );
    if ( r.chance( 400 ) ) {   // patches switched on somewhere around
        json p = json::object();
        static const char* names[] = { "SkipInvalidTransactionsPatch", "StorageDestructionPatch", "ContractStorageZeroValuePatch", "CorrectForkInPowPatch", "PushZeroPatch", "PrecompiledConfigPatch", "PowCheckPatch", "RevertableFSPatch", "ContractStoragePatch", "EIP1559TransactionsPatch", "VerifyDaSigsPatch", "FastConsensusPatch", "VerifyBlsSyncPatch", "FlexibleDeploymentPatch", "ExternalGasPatch" };
        for ( auto nm : names ) if ( r.chance( 400 ) ) p[nm] = ts0 + ( r.chance( 500 ) ? 1 : r.range( 1, n * 10 ) );
        cfg["patches"] = p;
    }
    if ( r.chance( 250 ) ) { json g = json::array(); g.push_back( ts0 + r.range( 1, n * 10 ) ); if ( r.chance( 500 ) ) g.push_back( ts0 + n * 10 + r.range( -5, 20 ) ); g.push_back( ~0ull ); cfg["groups"] = g; }
    TxGen g( r );
    g.gp = cfg["gp"];
    if ( rotation ) g.bhash = false;   // BLOCKHASH needs 256 stored blocks; the tiny limits used here keep fewer
    if ( r.chance( 200 ) ) { g.dups = true; cfg["dups"] = true; }
    if ( prof == "hist" && r.chance( 500 ) ) g.wide = true;
    if ( r.chance( 200 ) ) {   // before ExternalGasPatch the price in work is known to depend on when it was looked at
        cfg["pow"] = 1; cfg["patches"]["ExternalGasPatch"] = 1; g.pow = true;
        if ( !cfg["patches"].count( "CorrectForkInPowPatch" ) && r.chance( 700 ) ) cfg["patches"]["CorrectForkInPowPatch"] = ts0 + r.range( 1, n * 10 );
    }
    if ( cfg.count( "patches" ) && cfg["patches"].count( "EIP1559TransactionsPatch" ) || r.chance( 100 ) ) g.typed = true;
    if ( r.chance( 250 ) ) g.bad_pm = 0;
    if ( r.chance( 250 ) ) g.bad_pm = 300;
    bool hist = prof == "hist";
    if ( hist ) { plan["exe"] = "simh"; cfg["hist"] = true; prof = r.chance( 500 ) ? "crash" : "replica"; }
    bool fsp = prof == "fs", kills = fsp && r.chance( 600 );
    if ( fsp ) {
        cfg["fs"] = true; g.typed = false; g.bad_pm = 0; g.fs = kills ? 1 : 2; g.dups = false; cfg.erase( "dups" ); g.pow = false; cfg["gasLimit"] = 30000000;
        if ( cfg.count( "patches" ) ) cfg["patches"].erase( "RevertableFSPatch" );
        if ( r.chance( 700 ) ) cfg["patches"]["RevertableFSPatch"] = r.chance( 500 ) ? ( uint64_t ) 1 : ts0 + r.range( 1, n * 10 );
        if ( kills ) { prof = "crash"; } else prof = "replica";
    }
    cfg["blocks"] = json::array();
    uint64_t ts = ts0;
    for ( int b = 1; b <= n; b++ ) {
        ts += r.chance( 800 ) ? 10 : r.chance( 500 ) ? 1 : 0;
        json blk = g.block( b, b, ts, r.chance( 300 ) ? 14 : 6 );
        blk.erase( "bn" ); blk.erase( "op" ); blk.erase( "id" );
        cfg["blocks"].push_back( blk );
    }
    plan["cfg"] = cfg;
    json& ref = add_inc( plan );
    ref["role"] = "ref"; ref["seq"] = true;
    auto load = [&]( json& inc ) {
        json l = json::array();
        if ( r.chance( 600 ) ) l.push_back( json{ { "kind", "read" }, { "n", r.range( 3, 25 ) }, { "seed", r.below( 1u << 30 ) } } );
        if ( r.chance( 300 ) ) l.push_back( json{ { "kind", "read" }, { "n", r.range( 3, 25 ) }, { "seed", r.below( 1u << 30 ) } } );
        if ( r.chance( 600 ) ) l.push_back( json{ { "kind", "submit" }, { "n", r.range( 2, 20 ) }, { "seed", r.below( 1u << 30 ) } } );
        if ( r.chance( 300 ) ) l.push_back( json{ { "kind", "propose" }, { "n", r.range( 1, 4 ) }, { "seed", r.below( 1u << 30 ) } } );
        inc["load"] = l;
        // transactions that are proposed by this node some blocks before they are finalized
        if ( r.chance( prof == "replica" ? 500 : 150 ) ) { json e = json::array(); for ( int b = 1; b <= n; b++ ) if ( r.chance( 400 ) ) e.push_back( json{ b, r.range( 1, 4 ) } ); inc["early"] = e; }
    };
    auto crash_fault = [&]( int lo, int hi ) {
        int m = ( int ) r.range( lo, hi );
        const char* kind = r.chance( 750 ) ? "crash" : "torn_write_crash";
        int txs = m ? ( int ) cfg["blocks"][m - 1]["txs"].size() : 120;
        int k = ( int ) ( r.chance( prof == "rotation" ? 400 : 800 ) ? r.range( 0, txs + 2 ) : r.range( 0, 70 ) );
        return mk_fault( kind, m, k, 1, kind[0] == 't' ? r.below( 1000 ) : 0 );
    };
    if ( prof == "replica" ) {
        // restarts at block boundaries, concurrent clients, different mempools
        int reps = ( int ) r.range( 1, 3 );
        for ( int q = 1; q <= reps; q++ ) {
            int parts = r.chance( 500 ) ? 1 : ( int ) r.range( 2, 3 ), upto = 0;
            for ( int p = 1; p <= parts; p++ ) {
                json& i = add_inc( plan );
                i["role"] = "node"; i["dir"] = q;
                if ( p < parts ) { upto = ( int ) r.range( upto, n ); i["upto"] = upto; }
                if ( r.chance( 200 ) ) i["abrupt"] = true;   // no orderly stop
                load( i );
                if ( r.chance( 300 ) ) i["faults"].push_back( mk_fault( "slow_disk", -1, ( int ) r.below( 300 ), ( int ) r.range( 1, 20 ), r.range( 1000, 2000000 ) ) );
            }
        }
    } else if ( prof == "ioerr" || prof == "k01" ) {
        if ( prof == "ioerr" ) plan["known"] = "wal";   // tell the history of known finding K01 apart
        // LevelDB's log writer goes out of step after a failed write (known finding K01): stay within one log block
        size_t bytes = 0; int keep = 0;
        if ( prof == "k01" ) keep = n;   // not registered: only to demonstrate that finding
        else for ( auto& b : cfg["blocks"] ) { size_t m = b["txs"].size(); bytes += m * ( m + 1 ) / 2 * 420 + m * 300; if ( bytes > 26000 ) break; keep++; }
        if ( keep < 1 ) { keep = 1; while ( cfg["blocks"][0]["txs"].size() > 8 ) cfg["blocks"][0]["txs"].erase( 8 ); }
        while ( ( int ) cfg["blocks"].size() > keep ) cfg["blocks"].erase( cfg["blocks"].size() - 1 );
        n = keep;
        plan["cfg"] = cfg;
        int c = ( int ) r.range( 1, 3 );
        for ( int q = 0; q < c; q++ ) {
            json& i = add_inc( plan );
            i["role"] = "node"; i["dir"] = 1; i["exit_ok"] = true; i["io"] = true;
            int e = ( int ) r.range( 1, 2 );
            bool sw = prof != "k01" && r.chance( 200 );   // a short write followed by an error is known finding K01
            for ( int z = 0; z < e; z++ ) {
                const char* kind = sw || ( prof == "k01" && z == 0 ) ? "short_write" : r.chance( 600 ) ? "eio" : "enospc";
                // transient (1..8 operations) or for good
                int cnt = r.chance( 600 ) ? ( int ) r.range( 1, 8 ) : 1000000;
                int m = ( int ) r.range( r.chance( 150 ) ? 0 : 1, n );
                int txs = m ? ( int ) cfg["blocks"][m - 1]["txs"].size() : 120;
                i["faults"].push_back( mk_fault( kind, m, ( int ) r.range( 0, r.chance( 800 ) ? txs + 2 : 60 ), cnt, r.below( 1000 ) ) );
            }
            if ( r.chance( 300 ) ) load( i );
        }
        json& i = add_inc( plan ); i["role"] = "node"; i["dir"] = 1;
    } else {   // crash, rotation
        int c = ( int ) r.skew( 1, deep ? 8 : 4 ), at = 0;
        for ( int q = 0; q < c; q++ ) {
            json& i = add_inc( plan );
            i["role"] = "node"; i["dir"] = 1;
            int lo = r.chance( 120 ) ? 0 : at;
            json f = crash_fault( lo, std::min( n, lo + 3 ) );
            at = std::max( at, f["mark"].get< int >() );
            i["faults"].push_back( f );
            if ( r.chance( 250 ) ) load( i );
        }
        json& i = add_inc( plan ); i["role"] = "node"; i["dir"] = 1;
        if ( r.chance( 500 ) ) { json& i2 = add_inc( plan ); i2["role"] = "node"; i2["dir"] = 1; }   // reopened once more
    }
    if ( hist && r.chance( 300 ) ) { auto& incs = plan["incs"]; incs[r.range( 1, ( int ) incs.size() - 1 )]["wipe"] = true; }
    plan["min"] = json::array( { "/cfg/blocks", "/cfg/blocks/*/txs", "/incs/*/load", "/incs/*/faults" } );
}

// ------------------------------------------------------------------------------------------------ clients
static void pause_a_bit( Rng& r ) { if ( r.chance( 500 ) ) std::this_thread::sleep_for( std::chrono::microseconds( r.below( 3000 ) ) ); else rt::point( "client" ); }

static u256 total_of( const std::string& st ) {
    u256 t = 0; size_t p = 0;
    while ( ( p = st.find( " b=", p ) ) != std::string::npos ) { p += 3; t += u256( st.substr( p, st.find( ' ', p ) - p ) ); }
    return t;
}
struct Shared {
    Node* nd; const Ref* ref; json blocks;
    bool clean;                     // the state is at a block boundary
    std::atomic< bool > stop{ false };
    std::string prop;
    u256 total = 0;
};
static uint64_t nonce_in( const std::string& st, int a ) {
    size_t p = st.find( addr( a ).hex() + " n=" );
    return p == std::string::npos ? 0 : strtoull( st.c_str() + p + 43, 0, 10 );
}
static void reader( Shared& s, json l ) {
    Rng r( l["seed"] );
    unsigned seen = 0;
    uint64_t nonces[NKEYS] = { 0 };
    Client& c = *s.nd->client;
    for ( int i = l["n"]; i > 0 && !s.stop; i-- ) {
        pause_a_bit( r );
        unsigned n = c.number();
        CHECK( s.prop.c_str(), n >= seen, "the head went backwards from block %u to block %u", seen, n );
        seen = n;
        rt::probe( "concurrent read" );
        if ( s.nd->cfg.value( "fs", false ) && s.nd->cfg.count( "patches" ) && s.nd->cfg["patches"].value( "RevertableFSPatch", 0 ) == 1 && r.chance( 400 ) ) {   // file operations in calls leave no trace
            TxGen g( r ); g.fs = 2; g.bad_pm = 0;
            json t;
            do t = g.tx1(); while ( !FsModel::uses( t ) );
            Transaction x = make_tx( t );
            try {
                if ( r.chance( 500 ) ) c.call( x.sender(), 0, x.to(), x.data(), 450000, 1, HISTBLK FudgeFactor::Lenient );
                else c.estimateGas( x.sender(), 0, x.to(), x.data(), 450000, 1, GasEstimationCallback() );
            } catch ( const std::exception& ) {}
            rt::probe( "file operation in a call" );
            continue;
        }
        switch ( r.below( 4 ) ) {
        case 0: {   // a finished block can be read completely
            unsigned b = ( unsigned ) r.range( n ? 1 : 0, n );
            if ( s.nd->cfg.value( "dbLimit", 0 ) && !s.nd->cfg.value( "archive", false ) ) b = n;
            if ( b == 0 || b >= s.ref->blk.size() ) break;
            std::string t;
            try { t = s.nd->block_text( b, true ); } catch ( const std::exception& e ) { if ( c.number() != n && s.nd->cfg.value( "dbLimit", 0 ) ) break; rt::violation( s.prop.c_str(), "block %u is the head but reading it failed: %s", b, e.what() ); }
            if ( t != s.ref->blk[b] && c.number() != n && s.nd->cfg.value( "dbLimit", 0 ) ) break;   // rotated away meanwhile
            CHECK( s.prop.c_str(), t == s.ref->blk[b], "a client read block %u differently: %s", b, diff_line( s.ref->blk[b], t ).c_str() );
            break;
        }
        case 1: {   // nonces: between the values of the blocks around, and never backwards
            int a = ( int ) r.below( NKEYS );
            uint64_t v = ( uint64_t ) c.countAt( addr( a ) );
            unsigned n1 = c.number();
            uint64_t lo = nonce_in( s.ref->st[n], a ), hi = nonce_in( s.ref->st[std::min< size_t >( n1 + 1, s.ref->st.size() - 1 )], a );
            CHECK( s.prop.c_str(), v >= lo && v <= hi, "a client saw transaction count %lu of account %d while the head moved from %u to %u, where it goes from %lu to %lu", v, a, n, n1, lo, hi );
            CHECK( s.prop.c_str(), v >= nonces[a], "a client saw the transaction count of account %d go back from %lu to %lu", a, nonces[a], v );
            nonces[a] = v;
            break;
        }
        case 2: {   // one consistent view: value is neither created nor destroyed
            u256 sum = 0;
            skale::State st = c.state().createStateReadOnlyCopy();
            for ( auto& p : st.addresses() ) sum += p.second;
            CHECK( s.prop.c_str(), sum == s.total, "one consistent view of all accounts holds %s in total instead of %s", sum.str().c_str(), s.total.str().c_str() );
            break;
        }
        case 3: {
            bool bh = !s.nd->cfg.value( "dbLimit", 0 ) && r.chance( 500 );
            try { c.call( addr( 0 ), 0, Address( bh ? BHASH : STORE ), bytes( bh ? 32 : 64, 0 ), 300000, 1, HISTBLK FudgeFactor::Lenient ); } catch ( const std::exception& ) {}
            break;
        }
        }
    }
}
static void submitter( Shared& s, json l ) {
    Rng r( l["seed"] );
    std::vector< json > all;
    for ( auto& b : s.blocks ) for ( auto& t : b["txs"] ) all.push_back( t );
    TxGen g( r );
    for ( int i = l["n"]; i > 0 && !s.stop; i-- ) {
        pause_a_bit( r );
        json t = all.size() && r.chance( 700 ) ? all[r.below( all.size() )] : g.tx();
        try {
            bytes b = tx_bytes( t );
            if ( r.chance( 500 ) ) s.nd->client->importTransaction( Transaction( b, CheckTransaction::Everything ) );
            else s.nd->host->receiveTransaction( toHex( b ) );
            rt::probe( "mempool submission accepted" );
        } catch ( const std::exception& ) { rt::probe( "mempool submission refused" ); }
    }
}
static void proposer( Shared& s, json l ) {
    Rng r( l["seed"] );
    for ( int i = l["n"]; i > 0 && !s.stop; i-- ) {
        pause_a_bit( r );
        u256 root;
        s.nd->pending( r.range( 1, 20 ), root );
        rt::probe( "proposal requested" );
    }
}

// submits and proposes transactions of this and some later blocks
static void early( Shared& s, int b, int k ) {
    for ( int i = b; i < b + k && i <= ( int ) s.blocks.size(); i++ )
        for ( auto& t : s.blocks[i - 1]["txs"] )
            try { s.nd->client->importTransaction( Transaction( tx_bytes( t ), CheckTransaction::Everything, false, EIP1559TransactionsPatch::isEnabledInWorkingBlock() ) ); } catch ( const std::exception& ) {}
    u256 root;
    for ( int i = 0; i < 30; i++ ) if ( s.nd->pending( 100, root ).size() ) { rt::probe( "proposed early" ); break; }
}

// ------------------------------------------------------------------------------------------------ one incarnation
static json block_op( const Ctx& c, int b ) { json o = c.cfg["blocks"][b - 1]; o["bn"] = b; return o; }

static void run( Ctx& c ) {
    int N = ( int ) c.cfg["blocks"].size();
    const char* P = c.prop.c_str();
    if ( c.inc.value( "role", "node" ) == "ref" ) {
        Node nd( c.root + "/ref", c.cfg );
        FsModel fm; uint64_t prev_ts = 1500000000, fspatch = c.cfg.count( "patches" ) ? c.cfg["patches"].value( "RevertableFSPatch", 0ull ) : 0;
        jot( json{ { "t", "ref" }, { "bn", 0 }, { "blk", "" }, { "st", nd.state_text() } } );
        for ( int b = 1; b <= N; b++ ) {
            rt::mark( b );
            if ( !nd.block( block_op( c, b ) ) ) { rt::log( "reference did not import block %d", b ); rt::violation( P, "an undisturbed node fails to import block %d", b ); }
            std::string bt = nd.block_text( b );
            CHECK( P, bt.find( "BROKEN" ) == std::string::npos, "block %d does not have one receipt for each transaction: %s", b, bt.substr( bt.find( "BROKEN" ), 60 ).c_str() );
            if ( bt.find( " at=" ) != std::string::npos )
                for ( size_t i = 0, q = 0; ( q = bt.find( " at=", q ) ) != std::string::npos; i++, q++ )
                    CHECK( P, bt.compare( q + 4, bt.find( '\n', q ) - q - 4, bt.substr( bt.find( "hash=" ) + 5, 8 ) + "/" + std::to_string( i ) ) == 0, "transaction %zu of block %d is not found where it is: %s", i, b, bt.substr( q, 20 ).c_str() );
            if ( c.cfg.value( "fs", false ) ) {   // file storage against the sequential model
                for ( auto& t : c.cfg["blocks"][b - 1]["txs"] ) {
                    if ( !FsModel::uses( t ) ) continue;
                    bool ok = fm.tx( t, fspatch && fspatch <= prev_ts );
                    size_t q = bt.find( tx_hash( t ).hex().substr( 0, 16 ) + " st=" );
                    CHECK( P, q != std::string::npos, "block %d does not contain the file storage transaction %s", b, t.dump().c_str() );
                    CHECK( P, bt[q + 20] == ( ok ? '1' : '0' ), "block %d: the status of %s is %c", b, t.dump().c_str(), bt[q + 20] );
                    rt::probe( ok ? "file storage transaction" : "failed file storage transaction" );
                }
                prev_ts = c.cfg["blocks"][b - 1]["ts"];
                std::string got = fs_text( nd.dir ), want = fm.text();
                CHECK( P, got == want, "file storage after block %d is not what its transactions did: %s", b, diff_line( want, got ).c_str() );
            }
            jot( json{ { "t", "ref" }, { "bn", b }, { "blk", bt }, { "st", nd.state_text() } } );
        }
        nd.stop();
        return;
    }
    Ref ref = ref_from_journal();
    int dir = c.inc.value( "dir", 1 );
    unsigned durable = 0;
    for ( auto& j : journal() ) if ( j["t"] == "done" && j["dir"] == dir ) durable = j["bn"];
    bool io = c.inc.value( "io", false );
    rt::mark( 0 );
    std::unique_ptr< Node > np;
#ifdef HISTORIC_STATE
    int hist_from = 0;
    if ( c.inc.value( "wipe", false ) ) {   // a node that kept no historic state so far becomes an archive node
        jot( json{ { "t", "wiped" }, { "dir", dir } } );
        for ( const char* w : { "historic_roots", "historic_state" } ) {
            std::string f = c.root + "/n" + std::to_string( dir ) + "/" + w;
            if ( boost::filesystem::exists( f ) ) boost::filesystem::rename( f, f + ".old" + std::to_string( journal().size() ) );
        }
    }
    for ( auto& j : journal() ) if ( j.value( "dir", 0 ) == dir ) { if ( j["t"] == "wiped" ) hist_from = -1; else if ( j["t"] == "hist_from" ) hist_from = j["bn"]; }
#endif
    try { np.reset( new Node( c.root + "/n" + std::to_string( dir ), c.cfg ) ); }
    catch ( const std::exception& e ) {
        if ( io ) { rt::probe( "start refused" ); rt::crash_now( "start failed under disk errors" ); }
        rt::violation( P, "the node does not start after %s: %s", durable ? "a restart" : "a crash", e.what() );
    }
    Node& nd = *np;
    bool rot = c.cfg.value( "dbLimit", 0 ) > 0, arch = c.cfg.value( "archive", false );
    unsigned at = nd.number();
    CHECK( P, at >= durable, "after a restart the head is block %u although block %u had been imported", at, durable );
    CHECK( P, at <= durable + 1, "after a restart the head is block %u, one more than ever started", at );
    if ( at > durable ) rt::probe( "crash after the block was stored" );
    std::string st = nd.state_text( true );
    bool clean = st == ref.st[at];
    if ( !clean ) rt::probe( "restart with a partly executed block" );
    auto verify = [&]( unsigned b ) {
        std::string t;
        try { t = nd.block_text( b, true ); } catch ( const std::exception& e ) { if ( io && b == nd.number() ) rt::crash_now( "read error" ); rt::violation( P, "block %u cannot be read: %s", b, e.what() ); }
        CHECK( P, t == ref.blk[b], "block %u differs from the undisturbed node: %s", b, diff_line( ref.blk[b], t ).c_str() );
    };
    if ( at ) for ( unsigned b = rot && !arch ? at : 1; b <= at; b++ ) verify( b );
#ifdef HISTORIC_STATE
    if ( hist_from < 0 ) { hist_from = at + 1; jot( json{ { "t", "hist_from" }, { "dir", dir }, { "bn", hist_from } } ); rt::probe( "archive node made of an ordinary one" ); }
    auto verify_hist = [&]( unsigned upto ) {
        for ( unsigned b = std::max< unsigned >( hist_from, rot && !arch && upto ? upto : 0 ); b <= upto; b++ ) {
            std::string d;
            try { d = hist_diff( *nd.client, ref.st[b], b ); } catch ( const std::exception& e ) { d = std::string( "it cannot be read: " ) + e.what(); }
            CHECK( P, d.empty(), "the archive node does not know the state after block %u any more, at block %u: %s", b, upto, d.c_str() );
            rt::probe( "historic state read" );
        }
    };
    verify_hist( at );
#endif
    if ( at == ( unsigned ) N ) CHECK( P, clean, "state after the last block differs: %s", diff_line( ref.st[at], st ).c_str() );
    Shared sh; sh.nd = &nd; sh.ref = &ref; sh.blocks = c.cfg["blocks"]; sh.clean = clean; sh.prop = c.prop; sh.total = total_of( ref.st[0] );
    std::vector< std::thread > th;
    for ( auto& l : c.inc.value( "load", json::array() ) ) {
        std::string k = l["kind"];
        th.emplace_back( [&sh, l, k] { if ( k == "read" ) reader( sh, l ); else if ( k == "submit" ) submitter( sh, l ); else proposer( sh, l ); } );
    }
    int upto = std::min( N, c.inc.value( "upto", N ) );
    for ( int b = ( int ) at + 1; b <= upto; b++ ) {
        rt::log( "disk ops %lu before block %d (%zu txs)", rt::disk_ops(), b, c.cfg["blocks"][b-1]["txs"].size() );
        if ( c.inc.count( "early" ) ) for ( auto& e : c.inc["early"] ) if ( e[0] == b ) { rt::mark( 4000 + b ); early( sh, b, e[1] ); }
        rt::mark( b );
        bool ok = nd.block( block_op( c, b ) );
        if ( io && !ok ) {
            // refusing is allowed, pretending is not: whatever it reports must be true after the restart
            rt::probe( "block refused under disk errors" );
            rt::crash_now( "block import failed under disk errors" );
        }
        CHECK( P, ok, "block %d was not imported (head is %u)", b, nd.number() );
        rt::mark( 2000 );
        verify( b );
        std::string s2 = nd.state_text( true );
        CHECK( P, s2 == ref.st[b], "state after block %d differs from the undisturbed node: %s", b, diff_line( ref.st[b], s2 ).c_str() );
#ifdef HISTORIC_STATE
        verify_hist( b );
#endif
        jot( json{ { "t", "done" }, { "dir", dir }, { "bn", b } } );
        sh.clean = true;
    }
    rt::mark( 3000 );
    sh.stop = true;
    for ( auto& t : th ) t.join();
    if ( c.inc.value( "abrupt", false ) ) return;
    rt::watchdog( 120000000, "orderly stop does not finish" );
    nd.stop();
    rt::watchdog( 0, "" );
}
static Scenario s( "chain", gen, run );
