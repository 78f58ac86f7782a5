// Snapshots: the first incarnation runs the chain undisturbed and records what every block, state and snapshot looks
// like and what it serves to joining nodes; other incarnations run nodes that are killed, restarted, loaded with
// clients downloading snapshots, repaired, or joined from a (possibly damaged) snapshot file - and must come out identical.
#include "node.h"
#include "ext.h"
#include "main_glue.h"
#include "peers.h"
#include <libdevcore/FileSystem.h>
#include <libdevcore/LevelDB.h>
#include <libdevcrypto/Hash.h>
#include <libethereum/BlockChain.h>
#include <libskale/SnapshotManager.h>
#include <libskale/State.h>
#include <libskale/UnsafeRegion.h>
#include <libweb3jsonrpc/Skale.h>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <thread>
using namespace node;
using namespace dev;
using namespace dev::eth;
namespace fs2 = std::filesystem;

namespace {
struct Quiet { rt::NoPreempt np; Quiet() { rt::set_root_enabled( false ); } ~Quiet() { rt::set_root_enabled( true ); } };
std::string slurp( const std::string& p ) { Quiet q; std::ifstream i( p, std::ios::binary ); std::stringstream ss; ss << i.rdbuf(); return ss.str(); }
void spill( const std::string& p, const std::string& s ) { Quiet q; std::error_code ec; fs2::create_directories( fs2::path( p ).parent_path(), ec ); std::ofstream o( p, std::ios::binary ); o << s; }

struct Ref {
    std::vector< std::string > blk, st;
    std::vector< u256 > root;
    std::map< int, std::string > snap;    // block -> hash
    std::map< int, std::string > file;    // block -> served file
};
Ref ref_from_journal() {
    Ref r;
    for ( auto& j : journal() ) {
        if ( j["t"] == "ref" ) { r.blk.push_back( j["blk"] ); r.st.push_back( j["st"] ); r.root.push_back( u256( j["root"].get< std::string >() ) ); }
        if ( j["t"] == "snap" ) r.snap[j["bn"]] = j["hash"];
        if ( j["t"] == "file" ) r.file[j["bn"]] = j["path"];
    }
    return r;
}
std::string diff_line( const std::string& a, const std::string& b ) {
    size_t i = 0;
    while ( i < a.size() && i < b.size() && a[i] == b[i] ) i++;
    size_t s = a.rfind( '\n', i ); s = ( s == std::string::npos || s > i ) ? 0 : s + 1;
    auto line = [&]( const std::string& x ) { return s < x.size() ? x.substr( s, x.find( '\n', s ) - s ) : std::string( "<end>" ); };
    return "expected {" + line( a ) + "} got {" + line( b ) + "}";
}

struct Run {
    Ctx& c; std::string dir; json cfg;
    std::shared_ptr< SnapshotManager > sm;
    std::unique_ptr< Node > nd;
    std::unique_ptr< db::LevelDB > prices;
    std::string missing;   // a file that was not there when the node was opened
    Run( Ctx& cc, const std::string& d ) : c( cc ), dir( d ), cfg( cc.cfg ) {}
    u256 root_of( unsigned b ) { return u256( h256::Arith( nd->client->blockInfo( nd->client->hashFromNumber( b ) ).stateRoot() ) ); }
    void open_sm() { init_dir( dir ); sm = std::make_shared< SnapshotManager >( params( cfg ), dir, "" ); }
    void open_node() {
        // what the other volumes hold: the consensus databases and the contents of file storage
        Quiet* q = new Quiet;
        std::error_code ec;
        for ( auto& f : cfg["files"] ) {
            fs2::path p = dir + "/filestorage/" + f[0].get< std::string >();
            if ( fs2::exists( p ) ) continue;
            missing = f[0];
            fs2::create_directories( p.parent_path(), ec );
            std::ofstream( p ) << f[1].get< std::string >();
            // finished uploads have their hash next to them
            if ( f[2].get< bool >() ) {
                std::string rel = p.string().substr( p.string().find( "filestorage" ) );
                std::ofstream( p.string() + "._hash" ) << sha( sha( rel ).asBytes(), sha( f[1].get< std::string >() ).asBytes() );
            }
        }
        delete q;
        prices.reset( new db::LevelDB( dir + "/prices_1.db/db.0" ) );
        nd.reset( new Node( dir, cfg, sm ) );
    }
    static h256 sha( bytes a, const bytes& b ) { a.insert( a.end(), b.begin(), b.end() ); return dev::sha256( bytesConstRef( a.data(), a.size() ) ); }
    static h256 sha( const std::string& s ) { return dev::sha256( s ); }
    bool block( int b, const u256& root ) {
        // consensus stores what it needs before it hands the block over
        std::string k = "1.0:" + std::to_string( b ), v = std::to_string( b * 3 + 1 );
        prices->insert( db::Slice( k ), db::Slice( v ) );
        spill( dir + "/blocks_1.db/last", std::to_string( b ) );
        json blk = cfg["blocks"][b - 1];
        std::vector< std::vector< uint8_t > > txs;
        for ( auto& t : blk["txs"] ) txs.push_back( tx_bytes( t ) );
        return nd->block_raw( txs, blk["ts"], b, blk.value( "gp", 1ull ), root, 1 );
    }
    // do the other volumes fit to a chain with this head
    std::string volumes( unsigned at ) {
        if ( at && missing.size() ) return "the file '" + missing + "' is missing";
        std::string x = slurp( dir + "/blocks_1.db/last" ); unsigned last = x.empty() ? 0 : ( unsigned ) std::stoul( x );
        if ( last != at && last != at + 1 ) return "the last block of consensus is " + std::to_string( last );
        for ( unsigned b = 1; b <= at + 2; b++ ) { bool have = prices->exists( db::Slice( "1.0:" + std::to_string( b ) ) ); if ( b != at + 1 && have != ( b <= at ) ) return "consensus' record of block " + std::to_string( b ) + ( have ? " is there" : " is missing" ); }
        return "";
    }
    // numbers of the snapshots on disk
    std::vector< int > kept() {
        Quiet q; std::vector< int > r; std::error_code ec;
        for ( auto& d : fs2::directory_iterator( dir + "/snapshots", ec ) ) r.push_back( atoi( d.path().filename().c_str() ) );
        std::sort( r.begin(), r.end() );
        return r;
    }
    // "" while it has none
    std::string hash_of( int n ) {
        try { if ( !sm->isSnapshotHashPresent( n ) ) return ""; return sm->getSnapshotHash( n ).hex(); }
        catch ( const SnapshotManager::SnapshotAbsent& ) { return ""; }
    }
    void await_hash( int n ) {
        for ( int i = 0; hash_of( n ).empty(); i++ ) {
            CHECK( c.prop.c_str(), i < 3000, "the hash of snapshot %d is never computed", n );
            std::this_thread::sleep_for( std::chrono::milliseconds( 200 ) );
        }
    }
};

// ------------------------------------------------------------------------------------------------ generator
void gen( Rng& r, json& plan ) {
    std::string prof = plan["profile"];
    bool deep = plan["tier"] == "thorough";
    gen_sched( r, plan, prof == "replica" ? 1 : ( int ) r.below( 2 ) );
    json cfg;
    cfg["gp"] = 1; cfg["nodes"] = 1;
    if ( r.chance( 250 ) ) cfg["mtm"] = true;
    if ( r.chance( 250 ) ) { cfg["dbLimit"] = r.range( 4, 40 ) * 1000; if ( r.chance( 300 ) ) cfg["archive"] = true; }
    int n = ( int ) r.skew( 4, deep ? 14 : 10 );
    cfg["snapInt"] = r.range( 5, 35 );
    cfg["snapTimeout"] = json{ r.range( 30, 400 ), r.range( 8, 60 ) };
    uint64_t ts0 = 1500000000;
    if ( r.chance( 300 ) ) {
        json p = json::object();
        static const char* names[] = { "SkipInvalidTransactionsPatch", "StorageDestructionPatch", "ContractStorageZeroValuePatch", "PushZeroPatch", "PowCheckPatch", "ContractStoragePatch", "VerifyBlsSyncPatch" };
        for ( auto nm : names ) if ( r.chance( 400 ) ) p[nm] = ts0 + ( r.chance( 500 ) ? 1 : r.range( 1, n * 10 ) );
        cfg["patches"] = p;
    }
    cfg["files"] = json::array();
    for ( int i = ( int ) r.range( 0, 4 ); i > 0; i-- )
        cfg["files"].push_back( json{ std::string( r.chance( 500 ) ? "a/" : "b/c/" ) + "f" + std::to_string( r.below( 30 ) ), std::string( r.below( 200 ), 'a' + ( char ) r.below( 20 ) ), r.chance( 600 ) } );
    TxGen g( r );
    g.bhash = !cfg.count( "dbLimit" );
    if ( r.chance( 250 ) ) g.bad_pm = 300;
    cfg["blocks"] = json::array();
    uint64_t ts = ts0 + r.below( 30 );
    for ( int b = 1; b <= n; b++ ) {
        ts += r.chance( 800 ) ? r.range( 5, 15 ) : r.chance( 500 ) ? 1 : r.chance( 500 ) ? 0 : 60;
        json blk = g.block( b, b, ts, 4 );
        blk.erase( "bn" ); blk.erase( "op" ); blk.erase( "id" );
        cfg["blocks"].push_back( blk );
    }
    plan["cfg"] = cfg;
    add_inc( plan )["role"] = "ref";
    plan["incs"][0]["seq"] = true;
    auto load = [&]( json& inc ) {
        json l = json::array();
        for ( int i = ( int ) r.range( 0, 2 ); i > 0; i-- ) l.push_back( json{ { "kind", "download" }, { "n", r.range( 2, 8 ) }, { "seed", r.below( 1u << 30 ) } } );
        if ( r.chance( 400 ) ) l.push_back( json{ { "kind", "ask" }, { "n", r.range( 3, 30 ) }, { "seed", r.below( 1u << 30 ) } } );
        inc["load"] = l;
        if ( r.chance( 200 ) ) inc["pause"] = r.range( 100, 20000 );   // ms between blocks
    };
    // how the node a joining one downloads from behaves, attempt by attempt
    auto net = [&]( json& inc ) {
        json a = json::array();
        for ( int i = ( int ) r.range( 0, 2 ); i > 0; i-- ) {
            json x{ { "chunk", r.range( 2000, 60000 ) } };
            switch ( r.below( 7 ) ) {
            case 0: x["drop"] = r.below( 12 ); break;                          // a call that fails
            case 1: x["cut"] = r.below( 1000 ); break;                         // the file ends early
            case 2: x["forge"] = 3; x["seed"] = r.below( 1u << 30 ); break;      // one wrong byte
            case 3: x["swap"] = true; break;                                   // another block's snapshot
            case 4: x["short"] = r.below( 12 ); break;                         // a fragment comes back shorter than asked for
            case 5: x["forge"] = r.range( 1, 2 ); x["seed"] = r.below( 1u << 30 ); break;         // changed contents
            case 6: x["busy"] = true; break;
            }
            a.push_back( x );
        }
        a.push_back( json{ { "chunk", r.range( 2000, 200000 ) } } );
        inc["net"] = a;
        if ( r.chance( 300 ) ) inc["older"] = true;
        if ( r.chance( 500 ) ) {
            bool tol;
            inc["peers"] = peers::draw( r, r.chance( 500 ) ? 4 : r.range( 4, 10 ), true, tol );
            inc["seed"] = r.below( 1u << 30 );
            inc["chunk"] = r.range( 3000, 200000 );
            if ( r.chance( 100 ) ) inc["mitm"] = true;
        }
    };
    auto crash = [&]( int m, bool join ) {
        static const char* filters[] = { "", "", "", "", "snapshots/", "snapshot_hash", "skaled.lock", "prices", "state", "diffs" };
        const char* kind = r.chance( 750 ) ? "crash" : "torn_write_crash";
        const char* f = filters[r.below( 10 )];
        int k = ( int ) ( *f ? r.below( 8 ) : r.chance( 600 ) ? r.range( 0, 40 ) : r.range( 0, join ? 400 : 250 ) );
        return mk_fault( kind, m, k, 1, kind[0] == 't' ? r.below( 1000 ) : 0, f );
    };
    auto slow = [&]( json& i ) { if ( r.chance( 300 ) ) i["faults"].push_back( mk_fault( "slow_disk", -1, ( int ) r.below( 1500 ), ( int ) r.range( 1, 20 ), r.range( 1000, 3000000 ) ) ); };
    if ( prof == "replica" ) {
        for ( int q = 1, qs = ( int ) r.range( 1, 2 ); q <= qs; q++ ) {
            int parts = ( int ) r.range( 1, 3 ), upto = 0;
            for ( int p = 1; p <= parts; p++ ) {
                json& i = add_inc( plan );
                i["role"] = "node"; i["dir"] = q;
                if ( p < parts ) { upto = ( int ) r.range( upto, n ); i["upto"] = upto; }
                if ( r.chance( 400 ) ) i["abrupt"] = true;
                load( i ); slow( i );
            }
        }
    } else if ( prof == "join" ) {
        bool sync = r.chance( 300 ), had = !sync && r.chance( 500 );
        auto mode = [&]( json& i ) { if ( sync ) i["sync"] = true; else i["join"] = true; };
        if ( had ) { json& i = add_inc( plan ); i["role"] = "node"; i["dir"] = 1; i["upto"] = r.range( 1, n ); }
        for ( int q = ( int ) r.range( 0, 3 ); q > 0; q-- ) {
            json& i = add_inc( plan );
            i["role"] = "node"; i["dir"] = 1; mode( i ); net( i );
            static const char* vols[] = { "n1/filestorage", "n1/prices", "n1/blocks_1", "n1/12041", "n1/prices" };
            if ( r.chance( 350 ) ) i["faults"].push_back( mk_fault( "crash", 5000, ( int ) r.below( 12 ), 1, 0, vols[r.below( 5 )] ) );
            else i["faults"].push_back( crash( r.chance( 750 ) ? 5000 : ( int ) r.range( 1, n ), true ) );
        }
        json& i = add_inc( plan ); i["role"] = "node"; i["dir"] = 1; mode( i ); net( i ); if ( r.chance( 500 ) ) load( i ); slow( i );
        if ( r.chance( 400 ) ) { json& i2 = add_inc( plan ); i2["role"] = "node"; i2["dir"] = 1; if ( sync ) i2["sync"] = true; else i2["join"] = r.chance( 500 ); net( i2 ); }
    } else {
        int at = 0;
        for ( int q = ( int ) r.skew( 1, deep ? 7 : 4 ); q > 0; q-- ) {
            json& i = add_inc( plan );
            i["role"] = "node"; i["dir"] = 1; net( i );
            int m = ( int ) r.range( r.chance( 100 ) ? 0 : at, std::min( n, at + 3 ) );
            i["faults"].push_back( crash( m, false ) );
            at = std::max( at, m );
            if ( r.chance( 300 ) ) load( i );
        }
        json& i = add_inc( plan ); i["role"] = "node"; i["dir"] = 1; net( i ); load( i );
        if ( r.chance( 300 ) ) { json& i2 = add_inc( plan ); i2["role"] = "node"; i2["dir"] = 1; net( i2 ); }
    }
    plan["min"] = json::array( { "/cfg/blocks", "/cfg/blocks/*/txs", "/cfg/files", "/incs/*/load", "/incs/*/net", "/incs/*/faults" } );
}

// ------------------------------------------------------------------------------------------------ clients
struct Shared { Run* r; const Ref* ref; std::atomic< bool > stop{ false }; dev::rpc::Skale* face = nullptr; std::string xfer; std::atomic< int > serial{ 0 }; int index; };

void download_client( Shared& s, json l ) {
    Rng r( l["seed"] );
    Client& c = *s.r->nd->client;
    const char* P = s.r->c.prop.c_str();
    int64_t tmo = s.r->cfg["snapTimeout"][0], inact = s.r->cfg["snapTimeout"][1];
    for ( int i = l["n"]; i > 0 && !s.stop; i-- ) {
        std::this_thread::sleep_for( std::chrono::milliseconds( r.below( r.chance( 300 ) ? 30000 : 1000 ) ) );
        int64_t L = c.getLatestSnapshotBlockNumer();
        if ( L < 0 ) { if ( !c.number() ) continue; L = 0; }
        unsigned bn = r.chance( 800 ) ? ( unsigned ) L : 0;
        json q{ { "blockNumber", bn } }, a;
        time_t t0 = time( nullptr );
        try { a = s.face->impl_skale_getSnapshot( q, c ); }
        catch ( const std::exception& ) {
            CHECK( P, c.getLatestSnapshotBlockNumer() != L || bn == 0 || s.stop, "serving snapshot %u failed although it is the latest one", bn );
            rt::probe( "snapshot went away while serialized" ); continue;
        }
        if ( a.count( "error" ) ) { rt::probe( "snapshot request refused" ); continue; }
        size_t size = a["dataSize"];
        CHECK( P, size > 0, "snapshot %u is served as an empty file", bn );
        std::string got; bool expired = false, slow = r.chance( 200 );
        time_t last = t0;
        while ( got.size() < size && !s.stop ) {
            size_t chunk = r.range( 1000, 90000 );
            if ( slow || r.chance( 50 ) ) std::this_thread::sleep_for( std::chrono::milliseconds( r.below( 1 + inact * 800 ) ) );
            std::vector< uint8_t > v;
            if ( r.chance( 500 ) ) v = s.face->impl_skale_downloadSnapshotFragmentBinary( json{ { "from", got.size() }, { "size", chunk } } );
            else {
                json f = s.face->impl_skale_downloadSnapshotFragmentJSON( json{ { "from", got.size() }, { "size", chunk } } );
                if ( f.is_object() && f.count( "data" ) ) v = skutils::tools::base64::decodeBin( f["data"].get< std::string >() );
            }
            time_t now = time( nullptr );
            if ( v.empty() || now - t0 >= tmo || now - last >= inact ) { expired = true; if ( v.empty() ) CHECK( P, now - t0 >= tmo - 1 || now - last >= inact - 1, "the served snapshot %u was removed %ld s after the request and %ld s after the last fragment (limits %ld and %ld)", bn, ( long ) ( now - t0 ), ( long ) ( now - last ), ( long ) tmo, ( long ) inact ); break; }
            last = now;
            got.append( v.begin(), v.end() );
        }
        if ( expired ) { rt::probe( "download expired" ); continue; }
        if ( s.stop && got.size() < size ) break;
        CHECK( P, got.size() == size, "%zu bytes of snapshot %u were announced and %zu served", size, bn, got.size() );
        std::string p = s.xfer + "/served-" + std::to_string( s.index ) + "-" + std::to_string( s.serial++ );
        spill( p, got );
        jot( json{ { "t", "file" }, { "bn", bn }, { "path", p } } );
        rt::probe( "snapshot downloaded" );
    }
}
void ask_client( Shared& s, json l ) {
    Rng r( l["seed"] );
    Client& c = *s.r->nd->client;
    const char* P = s.r->c.prop.c_str();
    for ( int i = l["n"]; i > 0 && !s.stop; i-- ) {
        std::this_thread::sleep_for( std::chrono::microseconds( r.below( r.chance( 300 ) ? 2000000 : 3000 ) ) );
        int64_t L = c.getLatestSnapshotBlockNumer();
        int64_t q = r.chance( 600 ) ? L : ( int64_t ) r.below( s.ref->blk.size() );
        if ( q < 0 ) continue;
        std::string h;
        try { h = c.getSnapshotHash( ( unsigned ) q ).hex(); } catch ( const std::exception& ) { rt::probe( "hash not available" ); continue; }
        if ( h == std::string( 64, '0' ) ) { CHECK( P, L <= 0 || q != L || c.getLatestSnapshotBlockNumer() != L, "the latest snapshot %ld has no hash", ( long ) q ); continue; }
        CHECK( P, s.ref->snap.count( ( int ) q ), "a hash of snapshot %ld is reported, which nobody takes", ( long ) q );
        CHECK( P, s.ref->snap.at( ( int ) q ) == h, "snapshot %ld has the hash %s here and %s on the undisturbed node", ( long ) q, h.c_str(), s.ref->snap.at( ( int ) q ).c_str() );
        rt::probe( "hash asked" );
    }
}

// ------------------------------------------------------------------------------------------------ joining
struct Server {   // answers the joining node's requests with a file
    std::string body; size_t chunk = 1000000; int drop = -1, cut = -1, shrt = -1, calls = 0; bool busy = false;
    std::string operator()( const std::string&, const std::string& req ) {
        json q = json::parse( req ), a{ { "jsonrpc", "2.0" }, { "id", 1 } };
        int k = calls++;
        if ( k == drop ) throw std::runtime_error( "connection lost" );
        if ( q["method"] == "skale_getSnapshot" ) {
            if ( busy ) a["result"] = json{ { "error", "too early" }, { "timeValid", 1500000000 } };
            else a["result"] = json{ { "dataSize", body.size() }, { "maxAllowedChunkSize", chunk } };
            return a.dump();
        }
        size_t from = q["params"]["from"], n = q["params"]["size"];
        if ( from >= body.size() ) return "";
        std::string s = body.substr( from, n );
        if ( k == shrt ) s.resize( s.size() / 2 );
        return s;
    }
};
// Positions of a snapshot file that its hash covers: contents of the file storage (what 1), of the state and the
// unarchived block databases (what 2) or both (3).  Index and filter blocks of table files, archived pieces and the
// consensus databases are not part of the hash.
std::vector< std::pair< size_t, size_t > > vital( const std::string& body, int what ) {
    std::vector< std::pair< size_t, size_t > > r;
    size_t p = 0;
    while ( p < body.size() ) {
        size_t n = body.find( '\n', p ); if ( n == std::string::npos ) break;
        std::string l = body.substr( p, n - p ); p = n + 1;
        if ( l[0] != 'F' ) continue;
        size_t len = strtoull( l.c_str() + l.rfind( ' ' ) + 1, 0, 10 ), at = p;
        p += len;
        if ( ( what & 1 ) && l.find( "filestorage" ) != std::string::npos && l.find( "._hash" ) == std::string::npos && len ) r.push_back( { at, len } );
        bool chain = l.find( "blocks_and_extras/" ) != std::string::npos ? l.find( "archive" ) == std::string::npos : l.find( "12041/state" ) != std::string::npos;
        if ( !( what & 2 ) || !chain ) continue;
        if ( l.find( ".log " ) != std::string::npos && len > 60 ) r.push_back( { at + 20, len - 20 } );
        if ( l.find( ".ldb " ) != std::string::npos ) {
            static const std::string key = "filter.leveldb.BuiltinBloomFilter2";
            size_t k = body.rfind( key, at + len );
            if ( k == std::string::npos || k < at ) continue;
            size_t off = 0; int sh = 0;
            for ( k += key.size(); ; k++, sh += 7 ) { off |= size_t( body[k] & 0x7f ) << sh; if ( !( body[k] & 0x80 ) ) break; }
            if ( off && off < len ) r.push_back( { at, off } );
        }
    }
    return r;
}
// one wrong byte; "" if there is nothing to damage
std::string forge( const std::string& body, int what, uint64_t seed ) {
    Rng r( seed );
    auto v = vital( body, what );
    if ( v.empty() ) return "";
    auto f = v[r.below( v.size() )];
    std::string s = body;
    s[f.first + r.below( f.second )] ^= ( char ) ( 1 + r.below( 255 ) );
    return s;
}

// what the main function does with --download-snapshot; the chain's votes are the undisturbed node's hashes
int join( Run& R, const Ref& ref ) {
    Ctx& c = R.c;
    const char* P = c.prop.c_str();
    std::vector< int > avail;
    for ( auto& f : ref.file ) if ( f.first > 0 ) avail.push_back( f.first );
    if ( avail.empty() ) return -1;
    int N = avail.back();
    if ( c.inc.value( "older", false ) ) N = avail[avail.size() / 2];
    auto& sm = R.sm;
    rt::mark( 5000 );
    jot( json{ { "t", "join" }, { "dir", c.inc.value( "dir", 1 ) }, { "bn", N } } );
    bool ok = false;
    // the latest snapshot may be here already
    try {
        if ( sm->isSnapshotHashPresent( N ) ) {
            std::string h = sm->getSnapshotHash( N ).hex();
            if ( h == ref.snap.at( N ) ) { sm->cleanupButKeepSnapshot( N ); sm->restoreSnapshot( N ); ok = true; rt::probe( "restored a local snapshot" ); }
            else rt::probe( "local snapshot has another hash" );
        }
    } catch ( const std::exception& e ) { rt::log( "no local snapshot: %s", e.what() ); }
    json net = c.inc.value( "net", json::array( { json::object() } ) );
    for ( size_t a = 0; !ok && a < net.size(); a++ ) {
        json& x = net[a];
        sm->cleanup();
        Server sv; sv.body = slurp( ref.file.at( N ) );
        sv.chunk = x.value( "chunk", 100000 ); sv.drop = x.value( "drop", -1 ); sv.shrt = x.value( "short", -1 ); sv.busy = x.value( "busy", false );
        // the last byte-level damage: "swap" takes the snapshot of another block
        bool clean = !x.count( "drop" ) && !x.count( "short" ) && !x.count( "busy" ), must = false;
        if ( x.count( "cut" ) ) { sv.body.resize( sv.body.size() * x["cut"].get< size_t >() / 1000 ); clean = false; must = true; }
        if ( x.count( "swap" ) ) { if ( avail.size() < 2 ) continue; sv.body = slurp( ref.file.at( avail[avail[0] == N ? 1 : 0] ) ); clean = false; must = true; }
        if ( x.count( "forge" ) ) { sv.body = forge( sv.body, x["forge"], x["seed"] ); if ( sv.body.empty() ) continue; clean = false; must = x["forge"] == 1; }
        // a shortened fragment makes the received file different; so does a lost one
        ext::http = std::ref( sv );
        bool accepted = false; std::string why;
        try {
            unsigned bn = N; std::string err; bool ok2;
            boost::filesystem::path to = sm->getDiffPath( N );
            try { ok2 = dev::rpc::snapshot::download( "http://10.0.0.2:1234", bn, to, []( size_t, size_t ) { return true; }, true, &err ); if ( !ok2 ) throw std::runtime_error( err ); }
            catch ( ... ) { boost::filesystem::remove( to ); throw; }
            sm->importDiff( N );
            sm->computeSnapshotHash( N, true );
            std::string h = sm->getSnapshotHash( N ).hex();
            accepted = h == ref.snap.at( N );
            if ( !accepted ) why = "hash " + h + " instead of " + ref.snap.at( N );
            boost::filesystem::remove( to );
        } catch ( const std::exception& e ) { why = nested_exception_what( e ); }
        ext::http = nullptr;
        rt::log( "join attempt %zu %s: %s", a, x.dump().c_str(), accepted ? "accepted" : why.c_str() );
        CHECK( P, accepted || !clean, "the untouched snapshot of block %d is not accepted: %s", N, why.c_str() );
        CHECK( P, !( accepted && must ), "a damaged snapshot of block %d (%s) was accepted", N, x.dump().c_str() );
        rt::probe( accepted ? clean ? "snapshot accepted" : "snapshot accepted from a faulty network" : "snapshot rejected" );
        if ( !accepted ) { sm->cleanup(); continue; }
        sm->restoreSnapshot( N );
        ok = true;
    }
    // snapshot of block 0
    bool have0 = false;
    try { sm->isSnapshotHashPresent( 0 ); have0 = true; } catch ( const SnapshotManager::SnapshotAbsent& ) {}
    if ( ok && !have0 && ref.file.count( 0 ) ) {
        Server sv; sv.body = slurp( ref.file.at( 0 ) ); ext::http = std::ref( sv );
        unsigned z = 0; std::string err;
        boost::filesystem::path to = sm->getDiffPath( 0 );
        bool d = dev::rpc::snapshot::download( "http://10.0.0.2:1234", z, to, []( size_t, size_t ) { return true; }, true, &err );
        CHECK( P, d, "download of snapshot 0 failed: %s", err.c_str() );
        sm->importDiff( 0 );
        sm->computeSnapshotHash( 0, true );
        CHECK( P, sm->getSnapshotHash( 0 ).hex() == ref.snap.at( 0 ), "the untouched snapshot of block 0 has the hash %s instead of %s", sm->getSnapshotHash( 0 ).hex().c_str(), ref.snap.at( 0 ).c_str() );
        boost::filesystem::remove( to );
        ext::http = nullptr;
    }
    if ( !ok ) return -1;
    jot( json{ { "t", "joined" }, { "dir", c.inc.value( "dir", 1 ) }, { "bn", N } } );
    return N;
}

// the real main program's download, from a group of nodes; -1: nothing was downloaded, and that is all right
int join_peers( Run& R, const Ref& ref ) {
    Ctx& c = R.c;
    const char* P = c.prop.c_str();
    std::vector< int > avail;
    for ( auto& f : ref.file ) if ( f.first > 0 ) avail.push_back( f.first );
    if ( avail.empty() ) return -1;
    int N = c.inc.value( "older", false ) ? avail[avail.size() / 2] : avail.back();
    rt::mark( 5000 );
    jot( json{ { "t", "join" }, { "dir", c.inc.value( "dir", 1 ) }, { "bn", N } } );
    peers::Net net( c.inc["peers"], c.inc["seed"] );
    net.mitm = c.inc.value( "mitm", false );
    net.chunk = c.inc.value( "chunk", 50000 );
    net.latest = [&] { return ( unsigned ) N; };
    net.hash = [&]( unsigned b ) { return ( int ) b == N || ( b == 0 && ref.file.count( 0 ) ) ? h256( ref.snap.at( b ) ) : h256(); };
    std::map< std::pair< int, unsigned >, std::string > bodies;
    net.body = [&]( int i, unsigned b ) -> std::string {
        auto it = bodies.find( { i, b } );
        if ( it != bodies.end() ) return it->second;
        std::string s;
        if ( ( int ) b == N || ( b == 0 && ref.file.count( 0 ) ) ) s = slurp( ref.file.at( b ) );
        if ( s.size() && net.kind( i ) == "serve" ) {
            Rng r( net.spec[i]["seed"] );
            switch ( net.spec[i].value( "how", 0 ) ) {
            case 0: s.resize( r.below( s.size() ) ); break;
            case 1: s = forge( s, 3, r.u64() ); break;
            case 2: s = slurp( ref.file.at( b ? 0 : N ) ); break;
            case 3: s = forge( s, 1, r.u64() ); break;
            case 4: s = forge( s, 2, r.u64() ); break;
            }
        }
        return bodies[{ i, b }] = s;
    };
    ext::http = std::ref( net );
    auto p = params( R.cfg );
    net.configure( p );
    setDataDir( R.dir );
    srand( c.inc["seed"].get< unsigned >() );
    size_t honest = 0; bool own = false;
    for ( size_t i = 1; i < net.n; i++ ) { std::string k = net.kind( i ); if ( k == "ok" || k == "slow" ) honest++; if ( k == "ownkey" ) own = true; }
    bool must = honest >= peers::need( net.n ) && !own && !net.mitm, done = false;
    std::string why;
    // after a failure the program exits and is started again
    for ( int tries = must ? 20 : 2; tries > 0 && !done; tries-- ) {
        rt::log( "download from %zu nodes, %zu honest", net.n, honest );
        try {
            net.new_vote();
            glue::download( R.sm, p, "", true );
            done = true;
            bool have0 = false;
            try { R.sm->isSnapshotHashPresent( 0 ); have0 = true; } catch ( const SnapshotManager::SnapshotAbsent& ) {}
            if ( !have0 ) { done = false; net.new_vote(); glue::download( R.sm, p, "", false ); done = true; }
        } catch ( const std::exception& e ) { why = nested_exception_what( e ); rt::probe( "join failed" ); }
    }
    ext::http = nullptr;
    CHECK( P, done || !must, "a node cannot join although %zu of %zu nodes are healthy: %s", honest, net.n, why.c_str() );
    if ( !done ) return -1;
    rt::probe( "joined from a group of nodes" );
    CHECK( P, !net.mitm, "a snapshot signed with unknown keys was put into use" );
    jot( json{ { "t", "joined" }, { "dir", c.inc.value( "dir", 1 ) }, { "bn", N } } );
    return N;
}

// ------------------------------------------------------------------------------------------------ one incarnation
void run( Ctx& c ) {
    int N = ( int ) c.cfg["blocks"].size();
    const char* P = c.prop.c_str();
    std::string xfer = c.root + "/xfer";
    ext::set_root( c.root );
    if ( c.inc.value( "role", "node" ) == "ref" ) {
        Run R( c, c.root + "/ref" );
        R.open_sm(); R.open_node();
        jot( json{ { "t", "ref" }, { "bn", 0 }, { "blk", "" }, { "st", R.nd->state_text() }, { "root", R.root_of( 0 ).str() } } );
        int exported = -1;
        auto serve = [&]( int n ) { spill( xfer + "/" + std::to_string( n ), slurp( R.nd->client->createSnapshotFile( n ).string() ) ); jot( json{ { "t", "file" }, { "bn", n }, { "path", xfer + "/" + std::to_string( n ) } } ); };
        for ( int b = 1; b <= N; b++ ) {
            rt::mark( b );
            CHECK( P, R.block( b, R.root_of( b - 1 ) ), "an undisturbed node fails to import block %d", b );
            for ( int n : R.kept() ) if ( n == b || ( n == 0 && b == 1 ) ) { R.await_hash( n ); jot( json{ { "t", "snap" }, { "bn", n }, { "hash", R.hash_of( n ) } } ); rt::probe( "snapshot taken" ); }
            if ( b == 1 ) serve( 0 );
            int L = ( int ) R.nd->client->getLatestSnapshotBlockNumer();
            if ( L > 0 && L != exported ) { exported = L; serve( L ); }
            jot( json{ { "t", "ref" }, { "bn", b }, { "blk", R.nd->block_text( b ) }, { "st", R.nd->state_text() }, { "root", R.root_of( b ).str() } } );
        }
        R.nd->stop();
        R.nd.release();
        return;
    }
    Ref ref = ref_from_journal();
    int dirn = c.inc.value( "dir", 1 );
    int durable = 0, target = 0; bool joining = false;
    for ( auto& j : journal() ) if ( j.value( "dir", -1 ) == dirn ) {
        if ( j["t"] == "done" ) { durable = j["bn"]; joining = false; }
        if ( j["t"] == "join" ) { joining = true; durable = 0; target = j["bn"]; }
        if ( j["t"] == "joined" ) { joining = false; durable = j["bn"]; }
        if ( j["t"] == "wiped" ) { joining = true; durable = 0; }
    }
    if ( c.inc.value( "join", false ) ) joining = true;
    Run R( c, c.root + "/n" + std::to_string( dirn ) );
    rt::mark( 0 );
    init_dir( R.dir );
    if ( UnsafeRegion::isActive() ) {
        // skaled refuses to start; its data directory is emptied and it is started again to download a snapshot
        rt::probe( "stopped inside an unsafe region" );
        { Quiet q; std::error_code ec; for ( auto& d : fs2::directory_iterator( R.dir ) ) fs2::remove_all( d, ec ); }
        jot( json{ { "t", "wiped" }, { "dir", dirn } } );
        joining = true; durable = 0;
    }
    unsigned at = 0; bool fresh = false;
    try {
        R.open_sm();
        if ( c.inc.value( "sync", false ) ) {
            // a sync node downloads a snapshot as long as its chain is empty
            auto p = params( R.cfg ); bool empty;
            { BlockChain bc( p, R.dir ); empty = bc.number() == 0; }
            if ( !empty && joining ) { rt::probe( "sync node starts after an interrupted join" ); durable = target; fresh = true; }
            joining = empty;
        }
        if ( joining ) { bool grp = c.inc.count( "peers" ); int n = grp ? join_peers( R, ref ) : join( R, ref ); if ( n < 0 ) { if ( ref.file.size() > 1 && !grp ) rt::violation( P, "no snapshot could be restored" ); R.sm->cleanup(); { Quiet q; std::error_code ec; fs2::remove_all( R.dir, ec ); } R.open_sm(); durable = 0; } else durable = n; }
        rt::mark( 0 );
        R.open_node();
    } catch ( const std::exception& e ) { rt::violation( P, "the node does not start: %s", nested_exception_what( e ).c_str() ); }
    Node& nd = *R.nd;
    at = nd.number();
    bool rot = c.cfg.value( "dbLimit", 0 ) > 0, arch = c.cfg.value( "archive", false );
    CHECK( P, ( int ) at >= durable, "after a restart the head is block %u although block %d had been imported", at, durable );
    CHECK( P, ( int ) at <= durable + 1, "after a restart the head is block %u, one more than ever started", at );
    { std::string v = R.volumes( at ); CHECK( P, v.empty(), "the head is block %u but %s", at, v.c_str() ); }
    auto verify = [&]( unsigned b ) {
        std::string t;
        try { t = nd.block_text( b, true ); } catch ( const std::exception& e ) { rt::violation( P, "block %u cannot be read: %s", b, e.what() ); }
        CHECK( P, t == ref.blk[b], "block %u differs from the undisturbed node: %s", b, diff_line( ref.blk[b], t ).c_str() );
    };
    if ( at ) for ( unsigned b = rot && !arch ? at : 1; b <= at; b++ ) verify( b );
    jot( json{ { "t", "done" }, { "dir", dirn }, { "bn", at } } );
    std::string st = nd.state_text( true );
    if ( at == ( unsigned ) N || ( ( joining || fresh ) && at == ( unsigned ) durable ) ) CHECK( P, st == ref.st[at], "state at block %u differs: %s", at, diff_line( ref.st[at], st ).c_str() );
    bool was_clean = st == ref.st[at];
    if ( !was_clean ) rt::probe( "restart with a partly executed block" );
    auto check_snaps = [&]( unsigned b ) {
        int cnt = 0, last = 0;
        for ( int n : R.kept() ) {
            CHECK( P, ref.snap.count( n ) || n == 0, "a snapshot of block %d was taken, which the undisturbed node does not take", n );
            std::string h = R.hash_of( n );
            if ( !h.empty() ) CHECK( P, h == ref.snap.at( n ), "snapshot %d has the hash %s here and %s on the undisturbed node", n, h.c_str(), ref.snap.at( n ).c_str() );
            if ( n ) cnt++, last = n;
        }
        int due = 0; for ( auto& s : ref.snap ) if ( s.first <= ( int ) b ) due = s.first;
        CHECK( P, last == due, "after block %u the latest snapshot is that of block %d instead of %d", b, last, due );
        if ( due == ( int ) b ) CHECK( P, cnt <= 3, "%d snapshots are kept", cnt );
    };
    if ( at ) check_snaps( at );
    Shared sh; sh.r = &R; sh.ref = &ref; sh.xfer = xfer; sh.index = c.index;
    std::unique_ptr< dev::rpc::Skale > face( new dev::rpc::Skale( *nd.client, nullptr ) );
    sh.face = face.get();
    std::vector< std::thread > th;
    for ( auto& l : c.inc.value( "load", json::array() ) ) th.emplace_back( [&sh, l] { if ( l["kind"] == "download" ) download_client( sh, l ); else ask_client( sh, l ); } );
    int upto = std::min( N, c.inc.value( "upto", N ) );
    for ( int b = ( int ) at + 1; b <= upto; b++ ) {
        rt::mark( b );
        rt::log( "disk ops %lu before block %d", rt::disk_ops(), b );
        bool ok = R.block( b, ref.root[b - 1] );
        CHECK( P, ok, "block %d was not imported (head is %u)", b, nd.number() );
        verify( b );
        std::string s2 = nd.state_text( true );
        CHECK( P, s2 == ref.st[b], "state after block %d differs from the undisturbed node: %s", b, diff_line( ref.st[b], s2 ).c_str() );
        check_snaps( b );
        jot( json{ { "t", "done" }, { "dir", dirn }, { "bn", b } } );
        if ( c.inc.count( "pause" ) ) std::this_thread::sleep_for( std::chrono::milliseconds( c.inc["pause"].get< int >() ) );
    }
    if ( !c.inc.value( "abrupt", false ) ) {
        auto k = R.kept();
        if ( nd.number() && k.size() ) { if ( k.back() ) R.await_hash( k.back() ); if ( k.front() == 0 && !c.inc.value( "sync", false ) ) R.await_hash( 0 ); check_snaps( nd.number() ); }
    }
    rt::mark( 3000 );
    sh.stop = true;
    for ( auto& t : th ) t.join();
    if ( c.inc.value( "abrupt", false ) ) { face.release(); R.nd.release(); R.prices.release(); return; }
    rt::watchdog( 120000000, "orderly stop does not finish" );
    face.reset();
    nd.stop();
    rt::watchdog( 0, "" );
    R.nd.release();
}
Scenario s( "snap", gen, run );
}  // namespace
