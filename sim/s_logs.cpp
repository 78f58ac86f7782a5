// Log queries and filters: what eth_getLogs and eth_getFilterChanges are made of, against the list of logs the blocks
// really contain, through restarts, crashes, rotation, archives, cache eviction and concurrent imports.
#include "node.h"
#include <libethereum/BlockChain.h>
#include <libethereum/LogFilter.h>
#include <boost/filesystem.hpp>
#include <sys/stat.h>
#include <thread>
using namespace node;
using namespace dev;
using namespace dev::eth;
namespace dev { namespace eth {
extern unsigned c_maxCacheSize __attribute__( ( weak ) );
extern unsigned c_minCacheSize __attribute__( ( weak ) );
} }

// one log as the reference knows it
struct Log {
    unsigned bn = 0, ti = 0, li = 0;
    Address a; h256s t; bytes d; h256 th, bh;
};
struct Ref {
    std::vector< std::vector< Log > > logs;   // by block
    std::vector< h256 > hash;
};
static std::string text( const Log& l ) {
    std::string s = "block " + std::to_string( l.bn ) + " tx " + std::to_string( l.ti ) + " log " + std::to_string( l.li ) + " of " + l.a.hex().substr( 34 ) + " topics";
    for ( auto& t : l.t ) s += " " + t.hex().substr( 60 );
    return s + " data " + toHex( l.d ).substr( l.d.size() > 2 ? l.d.size() * 2 - 4 : 0 ) + " txhash " + l.th.hex().substr( 0, 8 ) + " blockhash " + l.bh.hex().substr( 0, 8 );
}
static Ref load_ref() {
    Ref r;
    for ( auto& j : journal() )
        if ( j["t"] == "ref" ) {
            size_t b = j["bn"];
            if ( r.logs.size() <= b ) { r.logs.resize( b + 1 ); r.hash.resize( b + 1 ); }
            r.hash[b] = h256( j["h"].get< std::string >() );
            for ( auto& e : j["l"] ) {
                Log l; l.bn = ( unsigned ) b; l.ti = e[0]; l.li = e[1]; l.a = Address( e[2].get< std::string >() );
                for ( auto& t : e[3] ) l.t.push_back( h256( t.get< std::string >() ) );
                l.d = fromHex( e[4].get< std::string >() ); l.th = h256( e[5].get< std::string >() ); l.bh = r.hash[b];
                r.logs[b].push_back( l );
            }
        }
    return r;
}
static Log of( const LocalisedLogEntry& e ) {
    Log l; l.bn = ( unsigned ) e.blockNumber; l.ti = e.transactionIndex; l.li = e.logIndex; l.a = e.address; l.t = e.topics; l.d = e.data; l.th = e.transactionHash; l.bh = e.blockHash;
    return l;
}

// a filter, and what it means
struct Fil {
    uint64_t from = 0, to = 0; int tags = 0;      // tags: 1 = to is "latest", 2 = to is "pending"
    std::vector< Address > a; std::vector< h256 > t[4];
    LogFilter make() const {
        LogFilter f( ( BlockNumber ) from, tags == 1 ? LatestBlock : tags == 2 ? PendingBlock : ( unsigned ) to );
        for ( auto& x : a ) f.address( x );
        for ( int i = 0; i < 4; i++ ) for ( auto& x : t[i] ) f.topic( i, x );
        return f;
    }
    bool match( const Log& l ) const {
        if ( a.size() && std::find( a.begin(), a.end(), l.a ) == a.end() ) return false;
        for ( size_t i = 0; i < 4; i++ )
            if ( t[i].size() && ( i >= l.t.size() || std::find( t[i].begin(), t[i].end(), l.t[i] ) == t[i].end() ) ) return false;
        return true;
    }
    std::string str() const {
        std::string s = "[" + std::to_string( from ) + ".." + ( tags == 1 ? "latest" : tags == 2 ? "pending" : std::to_string( to ) ) + "]";
        for ( auto& x : a ) s += " address " + x.hex().substr( 34 );
        for ( int i = 0; i < 4; i++ ) if ( t[i].size() ) { s += " topic" + std::to_string( i ); for ( auto& x : t[i] ) s += " " + x.hex().substr( 60 ); }
        return s;
    }
};
static Fil gen_filter( Rng& r, unsigned n, unsigned N ) {
    Fil f;
    switch ( r.below( 5 ) ) {
    case 0: f.from = 0; f.tags = ( int ) r.range( 1, 2 ); break;
    case 1: f.from = r.below( n + 1 ); f.tags = ( int ) r.range( 1, 2 ); break;
    case 2: f.from = r.below( n + 1 ); f.to = r.range( f.from, n ); break;
    case 3: f.from = f.to = r.below( n + 1 ); break;
    default: f.from = r.below( N + 3 ); f.to = r.range( f.from, N + 4 ); if ( r.chance( 300 ) ) { f.to = 0; f.tags = 1; } break;
    }
    auto ad = [&] { return r.chance( 80 ) ? Address( 0x99 ) : r.chance( 100 ) ? Address( CTR ) : r.chance( 150 ) ? Address( LOGGER ) : Address( LOGX + r.pick( std::vector< int >{ 0, 1, 2, 3, 4, 8, 9, 10, 11, 12, 16, 17 } ) ); };
    if ( r.chance( 600 ) ) for ( int i = r.chance( 700 ) ? 1 : 3; i > 0; i-- ) f.a.push_back( ad() );
    for ( int p = 0; p < 4; p++ )
        if ( r.chance( p == 0 ? 450 : 250 ) ) for ( int i = r.chance( 700 ) ? 1 : 2; i > 0; i-- ) f.t[p].push_back( h256( u256( r.below( 5 ) ) ) );
    return f;
}

// ------------------------------------------------------------------------------------------------ generator
static json gen_logtx( Rng& r, TxGen& g ) {
    if ( r.chance( 150 ) ) return g.tx();
    int s = ( int ) r.below( NKEYS - 1 );
    json t{ { "s", s }, { "n", g.nonce[s]++ }, { "p", g.gp }, { "g", 150000 }, { "k", "logx" }, { "b", r.below( 4 ) } };
    t["a"] = r.pick( std::vector< int >{ 0, 1, 2, 3, 4, 8, 9, 10, 11, 12, 16, 17 } );
    json w = json::array();
    for ( int i = 0; i < 4; i++ ) w.push_back( r.below( 5 ) );
    t["t"] = w;
    if ( r.chance( 50 ) ) t["g"] = 22500;   // runs out of gas
    return t;
}
static void gen( Rng& r, json& plan ) {
    std::string prof = plan["profile"];
    bool deep = plan["tier"] == "thorough", watch = prof == "watch";
    gen_sched( r, plan, watch ? 1 + ( int ) r.below( 2 ) : 1 );
    json cfg;
    cfg["gp"] = 1;
    if ( r.chance( 200 ) ) cfg["gasLimit"] = 800000;
    int rot = ( int ) r.below( 4 );   // 0, 1: no rotation; 2: rotation; 3: archive
    int n = ( int ) r.skew( 3, watch ? 12 : deep ? 45 : 24 );
    if ( r.chance( 300 ) && !watch ) n += 12;
    if ( rot >= 2 && !( watch && r.chance( 700 ) ) ) {
        cfg["dbLimit"] = r.range( 5, 200 ) * 1000;
        if ( rot == 3 ) cfg["archive"] = true;
    }
    if ( r.chance( 300 ) ) { int mx = ( int ) r.range( 20, 150 ) * 1000; cfg["cache"] = json{ mx, r.below( mx ) }; }
    bool hot = !watch && ( prof == "hot" || r.chance( 150 ) );   // everything is evicted from the caches after every block, under heavy reading
    if ( hot ) { int mx = ( int ) r.range( 8, 25 ) * 1000; cfg["cache"] = json{ mx, r.below( mx ) }; }
    TxGen g( r ); g.bhash = false; g.kills = false;
    g.bad_pm = r.chance( 500 ) ? 0 : 150;
    uint64_t ts = 1500000000;
    cfg["blocks"] = json::array();
    for ( int b = 1; b <= n; b++ ) {
        json blk{ { "ts", ts += 10 }, { "gp", 1 }, { "txs", json::array() } };
        int k = r.chance( 350 ) ? 0 : ( int ) r.skew( 1, 6 );
        for ( int i = 0; i < k; i++ ) blk["txs"].push_back( gen_logtx( r, g ) );
        cfg["blocks"].push_back( blk );
    }
    plan["cfg"] = cfg;
    json& ref = add_inc( plan ); ref["role"] = "ref"; ref["seq"] = true;
    int parts = ( int ) r.range( 1, watch ? 2 : 4 ), at = 0;
    for ( int p = 1; p <= parts; p++ ) {
        json& i = add_inc( plan );
        i["role"] = "node";
        bool lastp = p == parts;
        if ( !lastp ) {
            at = ( int ) r.range( at, n );
            if ( r.chance( 500 ) ) {
                i["upto"] = at;
                if ( r.chance( 400 ) ) i["abrupt"] = true;
            } else {
                int m = std::min( n, std::max( 1, at ) );
                i["faults"].push_back( mk_fault( r.chance( 800 ) ? "crash" : "torn_write_crash", m, ( int ) r.range( 0, r.chance( 600 ) ? 6 : 70 ), 1, r.below( 1000 ) ) );
            }
        }
        json pa = json::array();   // simulated seconds pass before a block (cache eviction happens every five)
        for ( int b = 1; b <= n; b++ ) if ( r.chance( cfg.count( "cache" ) ? 500 : 80 ) ) pa.push_back( json{ b, r.range( 1, 12 ) } );
        i["pause"] = pa;
        if ( !watch ) {
            json q = json::array();
            for ( int b = 0; b <= n; b++ ) if ( b == n || r.chance( 300 ) ) q.push_back( json{ b, r.below( 1u << 30 ), r.range( 2, b == n ? 20 : 6 ) } );
            i["q"] = q;
            json l = json::array();
            for ( int k = hot ? ( int ) r.range( 1, 4 ) : ( int ) r.below( 3 ); k > 0; k-- ) l.push_back( json{ { "kind", "query" }, { "seed", r.below( 1u << 30 ) }, { "n", hot ? r.range( 40, 160 ) : r.range( 3, 25 ) }, { "sync", hot ? 1 : 0 } } );
            if ( hot ) for ( int b = 1; b <= n; b++ ) if ( r.chance( 700 ) ) i["pause"].push_back( json{ b, r.range( 5, 7 ) } );
            i["load"] = l;
        } else {
            json l = json::array();
            for ( int k = ( int ) r.range( 1, 4 ); k > 0; k-- ) l.push_back( json{ { "kind", "watch" }, { "seed", r.below( 1u << 30 ) }, { "n", r.range( 4, 40 ) } } );
            i["load"] = l;
        }
    }
    plan["min"] = json::array( { "/cfg/blocks", "/cfg/blocks/*/txs", "/incs/*/load", "/incs/*/faults", "/incs/*/q", "/incs/*/pause" } );
}

// ------------------------------------------------------------------------------------------------ clients
struct Shared {
    Node* nd; const Ref* ref; std::string prop; unsigned N;
    std::atomic< bool > stop{ false };
    std::atomic< unsigned > importing{ 0 };   // the highest block whose import began
    // rotations of the block database seen so far, and in which of them a block was written (the size of the ring is 5)
    std::atomic< unsigned > gen{ 0 };
    std::vector< unsigned > bgen;
    std::atomic< unsigned > done{ 0 };        // the highest block after which rotations were counted
    bool kept( unsigned b ) const { unsigned d = done, i = importing; return b > gone && b < bgen.size() && bgen[b] + RING > gen + ( i > d ? 1 : 0 ); }
    unsigned gone = 0;   // the last block that was gone when the node started
    static const unsigned RING = 5;
};
// what tells one set of database pieces from the next one
static std::string pieces( const std::string& root ) {
    std::string r; boost::system::error_code ec;
    for ( boost::filesystem::recursive_directory_iterator i( root, ec ), e; i != e; i.increment( ec ) ) {
        if ( ec ) break;
        std::string p = i->path().string();
        struct stat st;
        if ( p.find( "blocks_and_extras" ) == std::string::npos || !boost::filesystem::is_directory( *i ) || ::stat( p.c_str(), &st ) ) continue;
        r += p + ":" + std::to_string( st.st_ino ) + " ";
    }
    return r;
}
static void query( Shared& s, Rng& r ) {
    const char* P = s.prop.c_str();
    Client& c = *s.nd->client;
    const BlockChain& bc = c.blockChain();
    bool pruned = s.nd->cfg.value( "dbLimit", 0 ) && !s.nd->cfg.value( "archive", false );
    unsigned n0 = c.number();
    Fil f = gen_filter( r, n0, s.N );
    LocalisedLogEntries got = c.logs( f.make() );
    unsigned n1 = c.number();
    rt::probe( "log query" );
    uint64_t hi = f.tags ? ~0ull : f.to;
    std::vector< const Log* > must, may;
    for ( unsigned b = ( unsigned ) f.from; b <= n1 && b <= hi && b < s.ref->logs.size(); b++ )
        for ( auto& l : s.ref->logs[b] ) if ( f.match( l ) ) { may.push_back( &l ); if ( b <= n0 && ( !pruned || s.kept( b ) ) ) must.push_back( &l ); }
    if ( must.size() ) rt::probe( "log query with results" );
    auto why = [&] { std::string d; for ( unsigned b = 1; b <= n1; b++ ) { h256 h = s.ref->hash[b]; char t[100]; snprintf( t, 100, " %u:%d nh%d blk%d rc%d", b, ( int ) bc.isKnown( h ), bc.numberHash( b ) == h, ( int ) bc.block( h ).size(), ( int ) bc.receipts( h ).receipts.size() ); d += t; } rt::log( "DBG %s n0 %u n1 %u now %u got %d must %d:%s", f.str().c_str(), n0, n1, c.number(), ( int ) got.size(), ( int ) must.size(), d.c_str() ); for ( auto& e : got ) rt::log( "got %s", text( of( e ) ).c_str() ); };
    size_t m = 0, k = 0;
    for ( auto& e : got ) {
        if ( !e.mined ) continue;
        Log l = of( e );
        std::string t = text( l );
        while ( m < may.size() && text( *may[m] ) != t ) {
            if ( k < must.size() && may[m] == must[k] ) why(), rt::violation( P, "query %s with the head at %u..%u misses {%s}; the next one returned is {%s}", f.str().c_str(), n0, n1, text( *must[k] ).c_str(), t.c_str() );
            m++;
        }
        if ( m >= may.size() ) why();
        CHECK( P, m < may.size(), "query %s with the head at %u..%u returned {%s}, which is not a matching log of that range in order", f.str().c_str(), n0, n1, t.c_str() );
        if ( k < must.size() && may[m] == must[k] ) k++;
        m++;
    }
    CHECK( P, k == must.size(), "query %s with the head at %u..%u misses {%s}", f.str().c_str(), n0, n1, text( *must[k] ).c_str() );
}
static void pause_a_bit( Rng& r ) { if ( r.chance( 500 ) ) std::this_thread::sleep_for( std::chrono::microseconds( r.below( 3000 ) ) ); else rt::point( "client" ); }
static void querier( Shared& s, json l ) {
    Rng r( l["seed"] );
    for ( int i = l["n"]; i > 0 && !s.stop; i-- ) {
        if ( l.value( "sync", 0 ) && r.chance( 600 ) ) while ( s.importing == s.done && !s.stop ) std::this_thread::sleep_for( std::chrono::milliseconds( 100 ) );
        pause_a_bit( r ); query( s, r );
    }
}
// a client with some filters of its own
struct W { unsigned id; bool chain; Fil f; unsigned lo, lo1; uint64_t polled; size_t bpos; unsigned next; std::vector< std::string > got; std::vector< h256 > gotb; };
static void check_watch( Shared& s, W& w, unsigned b0, unsigned b1, bool final_ ) {
    // b0: every block up to here was imported before the poll began; b1: no later block had begun when it ended
    const char* P = s.prop.c_str();
    if ( w.chain ) {
        size_t i = 0; unsigned b = w.lo + 1;
        if ( i < w.gotb.size() && b <= w.lo1 ) while ( b <= w.lo1 && b < s.ref->hash.size() && s.ref->hash[b] != w.gotb[0] ) b++;   // imported while it was installed
        for ( ; i < w.gotb.size(); i++, b++ )
            CHECK( P, b < s.ref->hash.size() && b <= b1 && s.ref->hash[b] == w.gotb[i], "the block filter %u installed between blocks %u and %u delivered as event %zu a block that is not block %u", w.id, w.lo, w.lo1, i, b );
        CHECK( P, b > b0 || ( w.gotb.empty() && w.lo1 >= b0 ), "the block filter %u installed between blocks %u and %u did not deliver block %u although blocks up to %u are finalized", w.id, w.lo, w.lo1, b, b0 );
        return;
    }
    size_t i = 0;
    for ( unsigned b = w.lo + 1; b <= b1 && b < s.ref->logs.size(); b++ ) {
        std::vector< std::string > ex;
        for ( auto& l : s.ref->logs[b] ) if ( w.f.match( l ) ) ex.push_back( text( l ) );
        if ( ex.empty() ) continue;
        bool have = i < w.got.size() && w.got[i] == ex[0];
        if ( !have ) {
            if ( b <= w.lo1 || b > b0 ) continue;
            rt::violation( P, "the filter %u for %s installed between blocks %u and %u did not deliver {%s} (block %u is finalized); delivered instead: {%s}", w.id, w.f.str().c_str(), w.lo, w.lo1, ex[0].c_str(), b0, i < w.got.size() ? w.got[i].c_str() : "nothing" );
        }
        for ( auto& e : ex ) {
            CHECK( P, i < w.got.size() && w.got[i] == e, "the filter %u for %s delivered {%s} instead of {%s}", w.id, w.f.str().c_str(), i < w.got.size() ? w.got[i].c_str() : "nothing", e.c_str() );
            i++;
        }
    }
    CHECK( P, i == w.got.size(), "the filter %u for %s installed between blocks %u and %u delivered {%s}, which it should not (or not again)", w.id, w.f.str().c_str(), w.lo, w.lo1, w.got[i].c_str() );
}
static void watcher( Shared& s, json l ) {
    Rng r( l["seed"] );
    Client& c = *s.nd->client;
    std::vector< W > ws;
    auto poll = [&]( W& w ) {
        unsigned b0 = c.number();
        uint64_t at = rt::now_us();
        LocalisedLogEntries e;
        try { e = c.checkWatch( w.id ); }
        catch ( const std::exception& x ) {
            if ( rt::now_us() - w.polled > 19000000 ) { rt::probe( "filter expired" ); return false; }
            rt::violation( s.prop.c_str(), "polling the filter %u failed %lu ms after it was last used: %s", w.id, ( rt::now_us() - w.polled ) / 1000, x.what() );
        }
        unsigned b1 = s.importing;
        if ( rt::now_us() - w.polled > 19000000 ) { rt::probe( "filter near expiry" ); return false; }   // may have expired (and its number reused)
        w.polled = at;
        rt::probe( "filter polled" );
        for ( auto& x : e ) {
            if ( x.isSpecial ) { w.gotb.push_back( x.special ); continue; }
            if ( !x.mined ) continue;
            w.got.push_back( text( of( x ) ) );
        }
        // delivery may lag behind the head until the import is through
        check_watch( s, w, b0 && b0 == b1 ? b0 - 1 : b0 ? b0 - 1 : 0, b1, false );
        return true;
    };
    for ( int i = l["n"]; i > 0 && !s.stop; i-- ) {
        pause_a_bit( r );
        unsigned x = ( unsigned ) r.below( 10 );
        if ( ws.size() < 4 && ( ws.empty() || x < 3 ) ) {
            W w; w.chain = r.chance( 250 );
            if ( !w.chain ) {
                Rng rf( r.chance( 600 ) ? r.below( 3 ) : r.u64() );   // often the same filters as others use
                w.f = gen_filter( rf, s.N, s.N ); w.f.from = 0; w.f.tags = 2; w.f.to = 0;
            }
            w.polled = rt::now_us();
            unsigned n = c.number();
            w.lo = n ? n - 1 : 0;   // the head's events may still be on the way
            w.id = w.chain ? c.ClientBase::installWatch( h256( u256( 1 ) ), Reaping::Automatic ) : c.ClientBase::installWatch( w.f.make(), Reaping::Automatic );
            w.lo1 = s.importing;
            ws.push_back( w );
            rt::probe( "filter installed" );
        } else if ( x < 8 ) {
            size_t k = r.below( ws.size() );
            if ( !poll( ws[k] ) ) ws.erase( ws.begin() + k );
        } else {
            size_t k = r.below( ws.size() );
            bool ok = c.uninstallWatch( ws[k].id );
            if ( !ok && rt::now_us() - ws[k].polled < 19000000 ) rt::violation( s.prop.c_str(), "uninstalling the filter %u failed", ws[k].id );
            ws.erase( ws.begin() + k );
            rt::probe( "filter uninstalled" );
        }
    }
    while ( !s.stop && ws.size() ) {   // keep polling until the chain ends
        std::this_thread::sleep_for( std::chrono::milliseconds( r.range( 1, 4000 ) ) );
        for ( size_t k = 0; k < ws.size(); ) if ( poll( ws[k] ) ) k++; else ws.erase( ws.begin() + k );
    }
    // everything is finalized now
    for ( auto& w : ws ) if ( poll( w ) ) { unsigned b = c.number(); check_watch( s, w, b, b, true ); }
}

// ------------------------------------------------------------------------------------------------ one incarnation
static void run( Ctx& c ) {
    int N = ( int ) c.cfg["blocks"].size();
    const char* P = c.prop.c_str();
    auto op = [&]( int b ) { json o = c.cfg["blocks"][b - 1]; o["bn"] = b; return o; };
    if ( c.inc.value( "role", "node" ) == "ref" ) {
        json cfg = c.cfg; cfg.erase( "dbLimit" ); cfg.erase( "archive" );
        Node nd( c.root + "/ref", cfg );
        for ( int b = 0; b <= N; b++ ) {
            rt::mark( b );
            if ( b ) CHECK( P, nd.block( op( b ) ), "an undisturbed node fails to import block %d", b );
            const BlockChain& bc = nd.client->blockChain();
            h256 h = bc.numberHash( b );
            json l = json::array();
            auto txs = bc.transactionHashes( h );
            unsigned li = 0;
            for ( size_t i = 0; b && i < txs.size(); i++ ) {
                TransactionReceipt rec = bc.transactionReceipt( h, ( unsigned ) i );
                for ( auto& e : rec.log() ) {
                    json t = json::array(); for ( auto& x : e.topics ) t.push_back( x.hex() );
                    l.push_back( json{ i, li++, e.address.hex(), t, toHex( e.data ), txs[i].hex() } );
                }
            }
            jot( json{ { "t", "ref" }, { "bn", b }, { "h", h.hex() }, { "l", l } } );
        }
        nd.stop();
        return;
    }
    if ( c.cfg.count( "cache" ) && &c_maxCacheSize && &c_minCacheSize ) { c_maxCacheSize = c.cfg["cache"][0]; c_minCacheSize = c.cfg["cache"][1]; }
    Ref ref = load_ref();
    rt::mark( 0 );
    Node nd( c.root + "/n", c.cfg );
    unsigned at = nd.number();
    Shared sh; sh.nd = &nd; sh.ref = &ref; sh.prop = c.prop; sh.N = N; sh.importing = sh.done = at;
    sh.bgen.resize( N + 2 );
    for ( unsigned b = 0; b <= at; b++ ) if ( b && !nd.client->blockChain().isKnown( ref.hash[b] ) ) sh.gone = b;
    sh.gen = Shared::RING - 1;   // what is there now may go with the next rotation
    bool pruned = c.cfg.value( "dbLimit", 0 ) && !c.cfg.value( "archive", false );
    std::string pcs = pruned ? pieces( c.root + "/n" ) : "";
    auto queries = [&]( int b ) {
        for ( auto& q : c.inc.value( "q", json::array() ) )
            if ( q[0] == b ) { Rng r( q[1] ); for ( int i = q[2]; i > 0; i-- ) query( sh, r ); }
    };
    queries( ( int ) at );
    std::vector< std::thread > th;
    for ( auto& l : c.inc.value( "load", json::array() ) ) {
        std::string k = l["kind"];
        th.emplace_back( [&sh, l, k] { if ( k == "query" ) querier( sh, l ); else watcher( sh, l ); } );
    }
    int upto = std::min( N, c.inc.value( "upto", N ) );
    for ( int b = ( int ) at + 1; b <= upto; b++ ) {
        for ( auto& p : c.inc.value( "pause", json::array() ) ) if ( p[0] == b ) std::this_thread::sleep_for( std::chrono::seconds( p[1].get< int >() ) );
        rt::mark( b );
        sh.importing = b;
        CHECK( P, nd.block( op( b ) ), "block %d was not imported (head is %u)", b, nd.number() );
        if ( pruned ) {
            std::string now = pieces( c.root + "/n" );
            if ( now != pcs ) { sh.gen++; pcs = now; rt::probe( "rotation" ); }
            sh.bgen[b] = sh.gen;
        }
        sh.done = b;
        rt::mark( 2000 );
        CHECK( P, nd.client->blockChain().numberHash( b ) == ref.hash[b], "block %d has another hash than on the undisturbed node", b );
        queries( b );
    }
    sh.stop = true;
    for ( auto& t : th ) t.join();
    rt::mark( 3000 );
    if ( c.inc.value( "abrupt", false ) ) return;
    rt::watchdog( 120000000, "orderly stop does not finish" );
    nd.stop();
    rt::watchdog( 0, "" );
}
static Scenario s( "logs", gen, run );
