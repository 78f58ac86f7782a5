// shared by the demonstrations about snapshots: a node whose volumes hold what they hold in reality
#pragma once
#include "node.h"
#include "ext.h"
#include <libdevcore/LevelDB.h>
#include <libdevcore/FileSystem.h>
#include <libethereum/BlockChain.h>
#include <libskale/SnapshotManager.h>
#include <libskale/UnsafeRegion.h>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <thread>
using namespace node;
using namespace dev;
using namespace dev::eth;
namespace fs2 = std::filesystem;
struct Quiet { rt::NoPreempt np; Quiet() { rt::set_root_enabled( false ); } ~Quiet() { rt::set_root_enabled( true ); } };
static std::string slurp( const std::string& p ) { Quiet q; std::ifstream i( p, std::ios::binary ); std::stringstream ss; ss << i.rdbuf(); return ss.str(); }
static void spill( const std::string& p, const std::string& s ) { Quiet q; std::error_code ec; fs2::create_directories( fs2::path( p ).parent_path(), ec ); std::ofstream o( p, std::ios::binary ); o << s; }
struct Snap {
    std::string dir; json cfg;
    std::shared_ptr< SnapshotManager > sm;
    std::unique_ptr< Node > nd;
    std::unique_ptr< db::LevelDB > prices;
    Snap( const std::string& d, const json& c ) : dir( d ), cfg( c ) { ext::set_root( fs2::path( d ).parent_path().string() ); init_dir( d ); sm = std::make_shared< SnapshotManager >( params( c ), d, "" ); }
    void open() {
        prices.reset( new db::LevelDB( dir + "/prices_1.db/db.0" ) );
        nd.reset( new Node( dir, cfg, sm ) );
    }
    u256 root_of( unsigned b ) { return u256( h256::Arith( nd->client->blockInfo( nd->client->hashFromNumber( b ) ).stateRoot() ) ); }
    bool block( int b, uint64_t ts ) {
        std::string k = "1.0:" + std::to_string( b ), v = std::to_string( b * 3 + 1 );
        prices->insert( db::Slice( k ), db::Slice( v ) );
        spill( dir + "/blocks_1.db/last", std::to_string( b ) );
        spill( dir + "/filestorage/f", std::to_string( b ) );
        json t{ { "k", "xfer" }, { "s", 0 }, { "n", b - 1 }, { "p", 1 }, { "g", 21000 }, { "a", 3 }, { "v", 7 + b } };
        return nd->block_raw( { tx_bytes( t ) }, ts, b, 1, root_of( b - 1 ), 1 );
    }
    std::vector< int > kept() {
        Quiet q; std::vector< int > r; std::error_code ec;
        for ( auto& d : fs2::directory_iterator( dir + "/snapshots", ec ) ) r.push_back( atoi( d.path().filename().c_str() ) );
        std::sort( r.begin(), r.end() );
        return r;
    }
    bool has_hash( int n ) { try { return sm->isSnapshotHashPresent( n ); } catch ( const SnapshotManager::SnapshotAbsent& ) { return false; } }
    void await_hash( int n ) { for ( int i = 0; !has_hash( n ); i++ ) { if ( i == 2000 ) rt::violation( "D", "the hash of snapshot %d is never computed", n ); std::this_thread::sleep_for( std::chrono::milliseconds( 100 ) ); } }
    void close() { nd->stop(); nd.release(); prices.reset(); }
};
