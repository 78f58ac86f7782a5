#include "node.h"
#include "ext.h"
#include <libdevcore/CommonIO.h>
#include <libdevcore/FileSystem.h>
#include <libdevcore/SHA3.h>
#include <libdevcrypto/Hash.h>
#include <libethashseal/GenesisInfo.h>
#include <libethcore/SealEngine.h>
#include <libethereum/Account.h>
#include <libethereum/GasPricer.h>
#include <libethereum/InstanceMonitor.h>
#include <libethereum/Precompiled.h>
#include <libethereum/SchainPatch.h>
#include <libethereum/Transaction.h>
#include <libskale/ConsensusGasPricer.h>
#include <libskale/State.h>
#include <libskale/UnsafeRegion.h>
#include <boost/filesystem.hpp>
#include <fstream>
#include <algorithm>
#include <sstream>

using namespace dev;
using namespace dev::eth;

namespace node {

const KeyPair& key( int i ) {
    static std::vector< KeyPair > ks = [] {
        std::vector< KeyPair > v;
        for ( int i = 0; i < NKEYS + 2; i++ ) v.emplace_back( Secret( sha3( "sim key " + std::to_string( i ) ) ) );
        return v;
    }();
    return ks[i];
}
Address addr( int i ) {
    if ( i < NKEYS + 2 ) return key( i ).address();
    return Address( i );
}

static const char* const RT_CTR = "600054600101806000556000523360206000a100";
static const char* const RT_STORE = "6020356000355560203560003560006000a200";
static const char* const RT_REV = "600160005560006000fd";
static const char* const RT_LOOP = "5b600056";
// storage[1]=calldata0; storage[2]=call(REV)
static const char* const RT_CALLREV = "600035600155600060006000600060006110035af160025500";
// logs: LOG1 topic = calldata0, data = caller ; repeated twice with LOG0
static const char* const RT_LOGGER = "3360005260003560206000a160206000a000";
// for i = calldata0 down to 1: storage[i] = calldata32
//  6000 35 5b(03) 80 15 6014 57 602035 81 55 6001 90 03 6003 56 5b 00
static const char* const RT_MANY = "6000355b80156015576020358155600190036003565b00";
static const char* const RT_KILL = "3660065733ff5b600035600190550000";
// storage[number] = blockhash(number-1) ^ timestamp ^ coinbase
static const char* const RT_BHASH = "600143034042184118435500";
// creates a child contract with storage side effects: CREATE(0,0,len) of init code "600160005500"
static const char* const RT_CRE = "656001600055006000526006601a6000f060005500";

// without data: returns storage 0..7 and its own balance; with data: adds 1 to each
static const char* const RT_WIDE = "366100495760005461000052600154610020526002546100405260035461006052600454610080526005546100a0526006546100c0526007546100e0523031610100526101206000f35b60005460010160005560015460010160015560025460010160025560035460010160035560045460010160045560055460010160055560065460010160065560075460010160075500";

// two calls (address, input length; address, input length; mode; inputs), their success + 1 in storage 0 and 1; then reverts in mode 1
static const char* const RT_FSX = "366000600037" "60006000602035" "60a0" "6000" "600035" "620249f0" "f1" "6001016000" "55"
                                  "60006000606035" "60a060203501" "6000" "604035" "620249f0" "f1" "6001016001" "55"
                                  "608035604857005b60006000fd";
static const char* const FSOPS[] = { "createFile", "uploadChunk", "readChunk", "getFileSize", "deleteFile", "createDirectory", "deleteDirectory", "calculateFileHash" };
enum { F_CREATE, F_UPLOAD, F_READ, F_SIZE, F_DEL, F_MKDIR, F_RMDIR, F_HASH };

Account contract( const std::string& code, std::map< u256, u256 > st = {}, u256 bal = 0 ) {
    Account a( 1, bal );
    a.setCode( fromHex( code ), 0 );
    for ( auto& p : st ) a.setStorage( p.first, p.second );
    return a;
}

// LOGn: topics are calldata words 1..n, data is calldata word 0
static std::string code_log( int n ) {
    static const char* const off[] = { "00", "20", "40", "60", "80" };
    std::string c = "600035600052";
    for ( int i = n; i >= 1; i-- ) c += std::string( "60" ) + off[i] + "35";
    c += std::string( "60206000a" ) + char( '0' + n );
    return c;
}
ChainParams params( const json& cfg ) {
    ChainParams p;
    p.sealEngineName = NoProof::name();
    p.allowFutureBlocks = true;
    p.difficulty = p.minimumDifficulty;
    p.gasLimit = cfg.value( "gasLimit", 3000000ull );
    p.istanbulForkBlock = 0;
    p.constantinopleForkBlock = 0; p.constantinopleFixForkBlock = 0; p.byzantiumForkBlock = 0; p.EIP158ForkBlock = 0; p.EIP150ForkBlock = 0; p.homesteadForkBlock = 0;
    p.networkID = 1; p.chainID = cfg.value( "chainID", 1 ); p.skaleDisableChainIdCheck = true;
    p.extraData = bytes( 8, 0x5a );
    p.timestamp = 1500000000;
    p.accountInitialFunds = 0;
    p.externalGasDifficulty = ~u256( 0 );
    if ( cfg.count( "pow" ) ) p.externalGasDifficulty = u256( ( uint64_t ) cfg["pow"] );
    auto& s = p.sChain;
    s.nodeGroups.clear();
    if ( cfg.count( "groups" ) ) {
        int k = 0;
        for ( auto& g : cfg["groups"] ) {
            NodeGroup ng; ng.finishTs = g.get< uint64_t >();
            ng.blsPublicKey = { std::to_string( 100 + k ), "0", "1", "0" };
            ng.nodes.push_back( GroupNode{ u256( 10 + k ), u256( 0 ), "0x" + std::string( 128, 'a' + k ) } );
            s.nodeGroups.push_back( ng ); k++;
        }
    } else s.nodeGroups = { { {}, uint64_t( -1 ), { "0", "0", "1", "0" } } };
    for ( int i = 0; i < cfg.value( "nodes", 0 ); i++ ) { sChainNode n; n.id = u256( i + 1 ); n.ip = "10.0.0." + std::to_string( i + 1 ); n.port = 1231; n.sChainIndex = i + 1; n.publicKey = "0x" + std::string( 128, 'a' + i ); s.nodes.push_back( n ); }
    if ( s.nodes.size() ) p.nodeInfo.id = 1;
    p.nodeInfo.testSignatures = true;
    p.nodeInfo.archiveMode = cfg.value( "archive", false );
    s.freeContractDeployment = true;
    s.blockAuthor = Address( 0xa0 );
    s.multiTransactionMode = cfg.value( "mtm", false );
    s.dbStorageLimit = cfg.value( "dbLimit", 0ull );
    s.snapshotIntervalSec = cfg.value( "snapInt", -1 );
    if ( cfg.count( "snapTimeout" ) ) { s.snapshotDownloadTimeout = cfg["snapTimeout"][0]; s.snapshotDownloadInactiveTimeout = cfg["snapTimeout"][1]; }
    s.contractStorageLimit = cfg.value( "storLimit", 1000000000ll );
    s.emptyBlockIntervalMs = cfg.value( "emptyMs", -1 );
    if ( cfg.count( "patches" ) )
        for ( auto it = cfg["patches"].begin(); it != cfg["patches"].end(); ++it ) {
            for ( size_t e = 0; e < ( size_t ) SchainPatchEnum::PatchesCount; e++ )
                if ( getPatchNameForEnum( ( SchainPatchEnum ) e ) == it.key() ) s._patchTimestamps[e] = it.value().get< time_t >();
        }
    for ( int i = 0; i < NKEYS; i++ ) p.genesisState[addr( i )] = Account( 0, u256( i == NKEYS - 1 ? 3000000ull : 1000000000000000000ull ) );
    p.genesisState[Address( CTR )] = contract( RT_CTR );
    p.genesisState[Address( STORE )] = contract( RT_STORE, { { 1, 11 }, { 2, 22 } } );
    p.genesisState[Address( REV )] = contract( RT_REV );
    p.genesisState[Address( LOOP )] = contract( RT_LOOP );
    p.genesisState[Address( CALLREV )] = contract( RT_CALLREV );
    p.genesisState[Address( LOGGER )] = contract( RT_LOGGER );
    p.genesisState[Address( MANY )] = contract( RT_MANY );
    p.genesisState[Address( BHASH )] = contract( RT_BHASH );
    p.genesisState[Address( WIDE )] = contract( RT_WIDE );
    if ( cfg.value( "fs", false ) ) {
        p.genesisState[Address( FSX )] = contract( RT_FSX );
        for ( int i = 0; i < 8; i++ ) p.precompiled[Address( 0x0b + i )] = PrecompiledContract( 15, 3, PrecompiledRegistrar::executor( FSOPS[i] ) );
    }
    p.genesisState[Address( CRE )] = contract( RT_CRE, {}, 0 );
    for ( int i = 0; i < 5; i++ ) p.genesisState[Address( LOGX + i )] = p.genesisState[Address( LOGX + 8 + i )] = contract( code_log( i ) + "00" );
    p.genesisState[Address( MULTI )] = contract( code_log( 2 ) + code_log( 1 ) + code_log( 0 ) + code_log( 3 ) + "00" );
    p.genesisState[Address( LOGREV )] = contract( code_log( 2 ) + "60006000fd" );
    for ( int i = 0; i < 4; i++ ) p.genesisState[Address( KILL0 + i )] = contract( RT_KILL, { { 5, 50 + i }, { 6, 60 } }, 1000 + i );
    return p;
}

static bytes w32( uint64_t v ) { return toBigEndian( u256( v ) ); }
static bytes cat( bytes a, const bytes& b ) { a.insert( a.end(), b.begin(), b.end() ); return a; }

static Address fs_owner( int o ) { return Address( 0xf5f5000000000001ull + o ); }
static bytes fs_data( const json& c ) {
    std::string f = c["f"];
    bytes r = cat( h256( fs_owner( c.value( "o", 0 ) ), h256::AlignRight ).asBytes(), w32( f.size() ) );
    bytes n( f.begin(), f.end() ); n.resize( ( f.size() + 31 ) / 32 * 32 ); r = cat( r, n );
    switch ( c["op"].get< int >() ) {
    case F_CREATE: r = cat( r, w32( c["a"] ) ); break;
    case F_READ: r = cat( cat( r, w32( c["a"] ) ), w32( c["b"] ) ); break;
    case F_UPLOAD: {
        r = cat( cat( r, w32( c["a"] ) ), w32( c["b"] ) );
        int n = c["b"].get< int >() - c.value( "short", 0 ); uint64_t x = c.value( "x", 1 );
        bytes d; for ( int i = 0; i < n; i++ ) d.push_back( ( uint8_t )( x * 37 + i * ( x + 1 ) ) );
        r = cat( r, d ); break;
    }
    }
    return r;
}
static void skeleton( const json& d, TransactionSkeleton& t ) {
    std::string k = d.value( "k", "xfer" );
    t.nonce = d.value( "n", 0ull );
    t.value = d.value( "v", 0ull );
    t.gas = d.value( "g", 200000ull );
    t.gasPrice = d.value( "p", 1ull );
    if ( d.count( "vx" ) ) t.value = u256( d["vx"].get< std::string >() );
    uint64_t a = d.value( "a", 0ull ), b = d.value( "b", 0ull );
    t.creation = false;
    if ( k == "xfer" ) t.to = addr( ( int ) a );
    else if ( k == "ctr" ) t.to = Address( CTR );
    else if ( k == "store" ) { t.to = Address( STORE ); t.data = cat( w32( a ), w32( b ) ); }
    else if ( k == "rev" ) t.to = Address( REV );
    else if ( k == "loop" ) t.to = Address( LOOP );
    else if ( k == "callrev" ) { t.to = Address( CALLREV ); t.data = w32( a ); }
    else if ( k == "log" ) { t.to = Address( LOGGER ); t.data = w32( a ); }
    else if ( k == "logx" ) { t.to = Address( LOGX + a ); t.data = w32( b ); for ( auto& x : d["t"] ) t.data = cat( t.data, w32( x ) ); }
    else if ( k == "many" ) { t.to = Address( MANY ); t.data = cat( w32( a ), w32( b ) ); }
    else if ( k == "bhash" ) t.to = Address( BHASH );
    else if ( k == "wide" ) { t.to = Address( WIDE ); t.data = bytes( 1, 1 ); if ( !d.count( "vx" ) ) t.value = 1; }
    else if ( k == "fs" ) { t.to = Address( 0x0b + d["op"].get< int >() ); t.data = fs_data( d ); }
    else if ( k == "fsx" ) {
        t.to = Address( FSX );
        bytes in[2]; uint64_t to[2] = { 0, 0 };
        for ( int i = 0; i < 2; i++ ) { const json& c = d["c"][i]; if ( !c.count( "op" ) ) { to[i] = c.value( "to", 0 ); continue; } in[i] = fs_data( c ); to[i] = 0x0b + c["op"].get< int >(); }
        t.data = cat( cat( cat( w32( to[0] ), w32( in[0].size() ) ), cat( w32( to[1] ), w32( in[1].size() ) ) ), w32( d.value( "mode", 0 ) ) );
        t.data = cat( cat( t.data, in[0] ), in[1] );
    }
    else if ( k == "cre" ) t.to = Address( CRE );
    else if ( k == "kill" ) t.to = Address( KILL0 + a );
    else if ( k == "kset" ) { t.to = Address( KILL0 + a ); t.data = w32( b ); }
    else if ( k == "to" ) { t.to = Address( d.value( "to", "0x0" ) ); t.data = fromHex( d.value( "data", "" ) ); }
    else if ( k == "create" ) {
        t.creation = true;
        bytes rt = fromHex( RT_CTR );
        t.data = fromHex( "60" + toHex( bytes{ ( uint8_t ) rt.size() } ) + "600c60003960" + toHex( bytes{ ( uint8_t ) rt.size() } ) + "6000f3" + RT_CTR );
    } else if ( k == "badcreate" ) { t.creation = true; t.data = fromHex( "60016000556000600055fe" ); }
    if ( d.count( "pad" ) ) { bytes z( d["pad"].get< size_t >(), 1 ); t.data = cat( t.data, z ); }
}
bytes tx_bytes( const json& d ) {
    std::string k = d.value( "k", "xfer" );
    if ( k == "raw" ) return fromHex( d["raw"].get< std::string >() );
    TransactionSkeleton t;
    skeleton( d, t );
    Transaction tx = t.creation ? Transaction( t.value, t.gasPrice, t.gas, t.data, t.nonce ) : Transaction( t.value, t.gasPrice, t.gas, t.to, t.data, t.nonce );
    if ( d.count( "chain" ) ) tx.forceChainId( d["chain"] );   // replay protected
    int ty = d.value( "ty", 0 ), bad = d.value( "bad", 0 );
    bytes r;
    if ( ty ) {   // EIP-2930, EIP-1559
        RLPStream fields[2];
        for ( int q = 0; q < 2; q++ ) {
            RLPStream& f = fields[q];
            f.appendList( ( ty == 1 ? 8 : 9 ) + 3 * q + ( q && bad == 2 ) );
            f << d.value( "chain", 1ull ) << t.nonce;
            if ( ty == 2 ) f << u256( d.value( "tip", 0ull ) );
            f << t.gasPrice << t.gas;
            if ( t.creation ) f << ""; else f << t.to;
            f << t.value << t.data;
            int al = d.value( "al", 0 );
            f.appendList( al );
            for ( int i = 0; i < al; i++ ) { if ( bad == 3 ) { f << h256( i ); continue; } f.appendList( 2 ) << Address( CTR + i ); f.appendList( 1 ) << h256( i ); }
            if ( q == 0 ) {
                bytes u = cat( bytes{ ( uint8_t ) ty }, f.out() );
                SignatureStruct sg( sign( key( d.value( "s", 0 ) ).secret(), sha3( u ) ) );
                r.resize( 65 ); memcpy( r.data(), sg.r.data(), 32 ); memcpy( r.data() + 32, sg.s.data(), 32 ); r[64] = sg.v;
            } else {
                if ( bad == 1 ) memset( r.data() + 32, 0xff, 32 );
                f << r[64] << u256( h256( bytesConstRef( r.data(), 32 ) ) ) << u256( h256( bytesConstRef( r.data() + 32, 32 ) ) );
                if ( bad == 2 ) f << u256( 5 );
            }
        }
        r = cat( bytes{ ( uint8_t ) ty }, fields[1].out() );
    } else {
        tx.sign( key( d.value( "s", 0 ) ).secret() );
        r = tx.toBytes();
    }
    if ( d.count( "cut" ) && r.size() ) r.resize( r.size() - 1 - d["cut"].get< size_t >() % r.size() );
    if ( k == "badsig" && r.size() > 4 ) { r[r.size() - 33 - 5] ^= 0x5a; }
    return r;
}
h256 tx_hash( const json& d ) { return sha3( tx_bytes( d ) ); }
Transaction make_tx( const json& d ) { return Transaction( tx_bytes( d ), CheckTransaction::Everything ); }

std::string sha( const std::string& s ) { return sha3( s ).hex().substr( 0, 20 ); }

void init_dir( const std::string& dir ) {
    static bool once = ( NoProof::init(), true ); ( void ) once;
    static std::string done;
    boost::filesystem::create_directories( dir );
    setenv( "DATA_DIR", dir.c_str(), 1 );
    setDataDir( dir );
    if ( done != dir ) UnsafeRegion::init( dir );
    done = dir;
}
Node::Node( const std::string& d, const json& c, std::shared_ptr< SnapshotManager > sm, bool st ) : dir( d ), cfg( c ) {
    init_dir( dir );
    monitor = std::make_shared< InstanceMonitor >( dir, cfg.value( "status", false ) ? std::make_shared< StatusAndControlFile >( dir ) : nullptr );
    TransactionQueue::Limits l{ 1024, 1024, 12322916, 24645833 };
    if ( cfg.count( "tq" ) ) { l.currentLimit = cfg["tq"][0]; l.futureLimit = cfg["tq"][1]; l.currentLimitBytes = cfg["tq"][2]; l.futureLimitBytes = cfg["tq"][3]; }
    ChainParams p = params( cfg );
    client = std::make_unique< Client >( p, p.networkID, std::shared_ptr< GasPricer >(), sm, monitor, dir, WithExisting::Trust, l );
    client->setAuthor( p.sChain.blockAuthor );
    StubFactory f;
    host = std::make_shared< SkaleHost >( *client, &f, monitor );
    stub = f.result;
    stub->price = cfg.value( "gp", 1 );
    client->setGasPricer( std::make_shared< ConsensusGasPricer >( *host ) );
    client->injectSkaleHost( host );
    if ( st ) start();
}
void Node::start() { client->startWorking(); }
void Node::stop() { if ( stopped ) return; stopped = true; client->stopWorking(); }
void Node::destroy() { client.reset(); host.reset(); stub = nullptr; stopped = true; }
Node::~Node() {}

bool Node::block_raw( const std::vector< std::vector< uint8_t > >& txs, uint64_t ts, uint64_t id, uint64_t gp, const u256& root, uint64_t winner ) {
    stub->ext.createBlock( txs, ts, 0, id, gp, root, winner );
    return client->number() == id;
}
bool Node::block( const json& b ) {
    std::vector< std::vector< uint8_t > > txs;
    for ( auto& t : b["txs"] ) txs.push_back( tx_bytes( t ) );
    return block_raw( txs, b["ts"], b["bn"], b.value( "gp", 1ull ) );
}
std::string fs_text( const std::string& dir ) {
    namespace bfs = boost::filesystem;
    std::string base = dir + "/filestorage/";
    std::map< std::string, std::string > m;
    if ( bfs::exists( base ) )
        for ( bfs::recursive_directory_iterator it( base ), e; it != e; ++it ) {
            std::string p = it->path().string(), rel = p.substr( base.size() );
            if ( bfs::is_directory( it->path() ) ) { m[rel] = "dir"; continue; }
            std::ifstream f( p, std::ios::binary );
            std::string c( ( std::istreambuf_iterator< char >( f ) ), std::istreambuf_iterator< char >() );
            m[rel] = std::to_string( c.size() ) + " " + sha( c );
        }
    std::string o;
    for ( auto& p : m ) o += "file " + p.first + " " + p.second + "\n";
    return o;
}
std::string FsModel::text() const {
    std::map< std::string, std::string > m;
    for ( auto& d : dirs ) m[d.first] = "dir";
    for ( auto& f : files ) m[f.first] = std::to_string( f.second.size() ) + " " + sha( f.second );
    std::string o;
    for ( auto& p : m ) o += "file " + p.first + " " + p.second + "\n";
    return o;
}
bool FsModel::call( const json& c, std::vector< Op >& out ) const {
    std::string own = fs_owner( c.value( "o", 0 ) ).hex(), p = own + "/" + c["f"].get< std::string >();
    uint64_t a = c.value( "a", 0ull ), b = c.value( "b", 0ull );
    auto size = [&]() -> int64_t { auto i = files.find( p ); return i == files.end() ? -1 : ( int64_t ) i->second.size(); };
    switch ( c["op"].get< int >() ) {
    case F_CREATE:
        if ( p.size() > 6 && p.substr( p.size() - 6 ) == "._hash" ) { if ( !dirs.count( own ) ) out.push_back( { F_MKDIR, own, 0, "" } ); return false; }
        if ( !dirs.count( own ) ) out.push_back( { F_MKDIR, own, 0, "" } );
        out.push_back( { F_CREATE, p, a, "" } ); return true;
    case F_UPLOAD: {
        if ( size() < 0 || ( int64_t )( a + b ) > size() || c.value( "short", 0 ) ) return false;
        bytes in = fs_data( c );
        out.push_back( { F_UPLOAD, p, a, std::string( ( const char* ) in.data() + in.size() - b, b ) } ); return true;
    }
    case F_READ: return size() >= 0 && ( int64_t )( a + b ) <= size();
    case F_SIZE: return size() >= 0;
    case F_DEL: out.push_back( { F_DEL, p, 0, "" } ); out.push_back( { F_DEL, p + "._hash", 0, "" } ); return true;
    case F_MKDIR: out.push_back( { F_MKDIR, p, 0, "" } ); return true;
    case F_RMDIR: if ( !dirs.count( p ) ) return false; out.push_back( { F_DEL, p + "._hash", 0, "" } ); out.push_back( { F_RMDIR, p, 0, "" } ); return true;
    case F_HASH: if ( size() < 0 ) return false; out.push_back( { F_HASH, p, 0, "" } ); return true;
    }
    return false;
}
void FsModel::apply( const Op& o ) {
    std::string up = o.path.substr( 0, o.path.rfind( '/' ) );
    switch ( o.k ) {
    case F_CREATE: if ( dirs.count( up ) ) { std::string& c = files[o.path]; c.clear(); if ( o.a ) { c.assign( o.a, '\0' ); c.back() = '0'; } } break;
    case F_UPLOAD: { auto i = files.find( o.path ); if ( i != files.end() ) i->second.replace( o.a, o.data.size(), o.data ); break; }
    case F_DEL: files.erase( o.path ); break;
    case F_MKDIR: for ( size_t i = 0; i != std::string::npos; ) { i = o.path.find( '/', i + 1 ); dirs[o.path.substr( 0, i )] = true; } break;
    case F_RMDIR: {
        auto in = [&]( const std::string& x ) { return x == o.path || x.compare( 0, o.path.size() + 1, o.path + "/" ) == 0; };
        for ( auto i = files.begin(); i != files.end(); ) if ( in( i->first ) ) i = files.erase( i ); else ++i;
        for ( auto i = dirs.begin(); i != dirs.end(); ) if ( in( i->first ) ) i = dirs.erase( i ); else ++i;
        break;
    }
    case F_HASH: {
        auto i = files.find( o.path );
        if ( i == files.end() ) break;
        bytes x = cat( sha256( "filestorage/" + o.path ).asBytes(), sha256( i->second ).asBytes() );
        std::ostringstream t; t << sha256( bytesConstRef( &x ) );
        files[o.path + "._hash"] = t.str();
    }
    }
}
bool FsModel::tx( const json& t, bool cached ) {
    std::vector< Op > q;
    auto one = [&]( const json& c ) { size_t at = q.size(); bool ok = call( c, q ); if ( !cached ) { for ( size_t i = at; i < q.size(); i++ ) apply( q[i] ); q.clear(); } return ok; };
    bool ok = true;
    if ( t["k"] == "fs" ) ok = one( t );   // (a refused createFile may still create the directory of its owner)
    else { for ( auto& c : t["c"] ) if ( c.count( "op" ) ) one( c ); ok = t.value( "mode", 0 ) == 0; if ( !ok ) q.clear(); }
    for ( auto& o : q ) apply( o );
    return ok;
}
std::string Node::state_text( bool concurrent ) const {
    std::unique_ptr< rt::NoPreempt > np( concurrent ? nullptr : new rt::NoPreempt );
    std::ostringstream o;
    skale::State s = client->state().createStateReadOnlyCopy();
    auto m = s.addresses();
    std::vector< Address > v;
    for ( auto& p : m ) v.push_back( p.first );
    std::sort( v.begin(), v.end() );
    for ( auto& a : v ) {
        o << a.hex() << " n=" << s.getNonce( a ) << " b=" << s.balance( a ) << " c=" << s.codeHash( a ).hex().substr( 0, 10 ) << " u=" << s.storageUsed( a );
        std::map< u256, u256 > st;
        for ( auto& p : s.storage( a ) ) st[p.second.first] = p.second.second;
        for ( auto& p : st ) o << " " << std::hex << p.first << ":" << p.second << std::dec;
        o << "\n";
    }
    o << "total " << s.storageUsedTotal() << "\n";
    if ( cfg.value( "fs", false ) ) o << fs_text( dir );
    return o.str();
}
std::string Node::block_text( unsigned n, bool concurrent ) const {
    std::unique_ptr< rt::NoPreempt > np( concurrent ? nullptr : new rt::NoPreempt );
    std::ostringstream o;
    const BlockChain& bc = client->blockChain();
    h256 h = bc.numberHash( n );
    BlockHeader bh = bc.info( h );
    o << n << " hash=" << h.hex().substr( 0, 16 ) << " parent=" << bh.parentHash().hex().substr( 0, 16 ) << " root=" << bh.stateRoot().hex().substr( 0, 8 ) << " ts=" << bh.timestamp()
      << " gas=" << bh.gasUsed() << " bloom=" << sha3( bh.logBloom().asBytes() ).hex().substr( 0, 8 ) << " rr=" << bh.receiptsRoot().hex().substr( 0, 8 ) << " tr=" << bh.transactionsRoot().hex().substr( 0, 8 )
      << " by=" << bh.author().hex().substr( 0, 6 ) << "\n";
    auto txs = bc.transactionHashes( h );
    size_t nr = n ? bc.receipts( h ).receipts.size() : 0;
    if ( n && nr != txs.size() && ( !concurrent || bc.isKnown( h ) ) ) o << "  BROKEN: " << txs.size() << " transactions and " << nr << " receipts\n";
    unsigned i = 0;
    for ( auto& t : txs ) {
        auto r = bc.transactionReceipt( h, i );
        auto loc = bc.transactionLocation( t );
        o << "  " << t.hex().substr( 0, 16 ) << " st=" << ( r.hasStatusCode() ? ( int ) r.statusCode() : -1 ) << " cum=" << r.cumulativeGasUsed() << " logs=" << r.log().size();
        for ( auto& l : r.log() ) o << " [" << l.address.hex().substr( 34 ) << " " << l.topics.size() << " " << sha3( l.data ).hex().substr( 0, 6 ) << "]";
        if ( !cfg.value( "dups", false ) ) o << " at=" << loc.first.hex().substr( 0, 8 ) << "/" << loc.second;
        o << "\n";
        i++;
    }
    return o.str();
}

json TxGen::tx() {
    if ( dups && past.size() && r.chance( 150 ) ) return past[r.below( past.size() )];
    // a transaction which could not be executed yet when it was first seen
    if ( dups && r.chance( 300 ) )
        for ( auto& t : past )
            if ( t.count( "s" ) && t.value( "k", "" ) != "raw" && t["n"] == nonce[t["s"].get< int >()] && !again[t.dump()]++ ) { nonce[t["s"].get< int >()]++; return t; }
    for ( ;; ) {
        json t = tx1();
        std::string id = t.dump();
        if ( t["k"] == "badsig" || t.count( "ty" ) ) { bytes b = tx_bytes( t ); id = toHex( b ); }   // different descriptions, same bytes
        if ( seen[id]++ ) continue;
        if ( t["k"] == "raw" && t["raw"].get< std::string >().size() < 24 && !dups ) continue;
        past.push_back( t );
        return t;
    }
}
// a gas price for which the transaction pays with proof of work for [lo, hi) gas
uint64_t pow_price( const Address& a, uint64_t n, uint64_t lo, uint64_t hi, uint64_t from ) {
    rt::Shm& S = rt::shm();
    const size_t N = sizeof S.powtab / sizeof S.powtab[0];
    if ( !S.pow_ready ) { for ( uint64_t p = 0; p < N; p++ ) S.powtab[p] = ( uint64_t )( u256( dev::sha3( u256( p ) ) ) >> 192 ); S.pow_ready = 1; }
    uint64_t base = ( uint64_t )( u256( dev::sha3( a.ref() ) ^ dev::sha3( u256( n ) ) ) >> 192 );
    for ( size_t i = 0; i < N; i++ ) {
        uint64_t p = ( from + i ) % N, h = base ^ S.powtab[p];
        if ( h >> 51 || !p ) continue;
        uint64_t g = ~0ull / ( h + 1 );
        if ( g > lo + 5 && g + 5 < hi ) return p;
    }
    return from;
}
json TxGen::tx1() {
    json t;
    int s = ( int ) r.below( NKEYS );
    t["s"] = s;
    t["p"] = gp + ( r.chance( 300 ) ? r.below( 5 ) : 0 );
    t["n"] = nonce[s];
    unsigned x = ( unsigned ) r.below( 100 );
    bool poor = s == NKEYS - 1;
    t["g"] = poor ? 100000 : 250000;
    if ( x < 20 ) { t["k"] = "xfer"; t["a"] = r.below( 12 ); t["v"] = r.below( 5000 ); if ( r.chance( 500 ) ) t["g"] = 21000; }
    else if ( x < 32 ) t["k"] = "ctr";
    else if ( x < 50 ) { t["k"] = "store"; t["a"] = r.below( 6 ); t["b"] = r.chance( 350 ) ? 0 : r.below( 1000 ); }
    else if ( x < 55 ) t["k"] = "rev";
    else if ( x < 58 ) { t["k"] = "loop"; t["g"] = 60000; }
    else if ( wide && x < 80 ) t["k"] = "wide";
    else if ( x < 64 ) { t["k"] = "callrev"; t["a"] = r.below( 50 ); }
    else if ( x < 71 ) { t["k"] = "log"; t["a"] = r.below( 8 ); }
    else if ( x < 76 ) { t["k"] = "many"; t["a"] = r.range( 1, 7 ); t["b"] = r.chance( 300 ) ? 0 : r.range( 1, 99 ); }
    else if ( x < 80 && bhash ) t["k"] = "bhash";
    else if ( x < 84 ) t["k"] = "cre";
    else if ( x < 87 && kills ) { t["k"] = "kill"; t["a"] = r.below( 4 ); }
    else if ( x < 92 ) { t["k"] = "kset"; t["a"] = r.below( 4 ); t["b"] = r.below( 9 ); }
    else if ( x < 97 ) t["k"] = "create";
    else t["k"] = "badcreate";
    if ( fs && !poor && r.chance( 600 ) ) {
        auto call = [&]() {
            static const char* const names[] = { "a", "b", "d/a", "d/b", "e/c", "d/x/a" };
            static const char* const dn[] = { "d", "e", "d/x" };
            static const int w[] = { F_CREATE, F_CREATE, F_CREATE, F_UPLOAD, F_UPLOAD, F_UPLOAD, F_UPLOAD, F_READ, F_SIZE, F_DEL, F_MKDIR, F_MKDIR, F_RMDIR, F_HASH, F_HASH };
            json c; int op;
            do op = w[r.below( sizeof w / sizeof *w )]; while ( op == F_RMDIR && fs == 1 );
            c["op"] = op; c["o"] = r.below( 2 ); c["f"] = op == F_MKDIR || op == F_RMDIR ? dn[r.below( 3 )] : names[r.below( 6 )];
            if ( op == F_CREATE ) { c["a"] = r.chance( 100 ) ? 0 : r.range( 1, 90 ); if ( r.chance( 50 ) ) c["f"] = "a._hash"; }
            if ( op == F_UPLOAD || op == F_READ ) { c["a"] = r.below( 40 ); c["b"] = r.range( r.chance( 100 ) ? 0 : 1, 50 ); }
            if ( op == F_UPLOAD ) { c["x"] = r.below( 200 ); if ( r.chance( 60 ) ) c["short"] = r.range( 1, c["b"].get< int >() ); }
            return c;
        };
        t.erase( "a" ); t.erase( "b" ); t.erase( "v" );
        t["g"] = 250000;
        if ( r.chance( 600 ) ) { t["k"] = "fs"; json c = call(); for ( auto it = c.begin(); it != c.end(); ++it ) t[it.key()] = it.value(); }
        else {
            t["k"] = "fsx"; t["g"] = 450000;
            t["c"] = json::array( { call(), fs == 2 && r.chance( 600 ) ? call() : json::object() } );
            if ( r.chance( 150 ) ) { t["c"][1] = fs == 2 || t["c"][1].count( "op" ) ? call() : t["c"][0]; t["c"][0] = json{ { "to", REV } }; }
            if ( r.chance( 250 ) ) t["mode"] = 1;
        }
        nonce[s]++;
    } else if ( r.chance( bad_pm ) ) {
        switch ( r.below( 8 ) ) {
        case 0: t["n"] = nonce[s] + r.range( 1, 4 ); break;            // gap
        case 1: t["n"] = nonce[s] ? r.below( nonce[s] ) : 7; break;   // old
        case 2: t["p"] = 0; break;                                    // below the block gas price
        case 3: t["vx"] = "2000000000000000000000"; break;            // more than anyone has
        case 4: t["g"] = 90000000; break;                             // above the block limit
        case 5: { std::string s; for ( int i = r.range( 0, 60 ); i > 0; i-- ) s += "0123456789abcdef"[r.below( 16 )]; if ( s.size() & 1 ) s.pop_back(); if ( r.chance( 300 ) ) s = std::vector< std::string >{ "c0", "c3010203", "83abcdef", "80", "02", "01c0", "02c0", "c0c0", "00" }[r.below( 9 )]; t = json{ { "k", "raw" }, { "raw", s } }; break; }
        case 6: t["g"] = 20000; break;                                // below intrinsic gas
        case 7: t["k"] = "badsig"; t["a"] = 3; break;
        }
    } else {
        if ( pow && !poor && r.chance( 150 ) ) {
            // with some data the required gas depends on the fork that is looked at
            int pad = ( int ) r.range( 0, 3 ) * 100;
            t["k"] = "ctr"; t.erase( "a" ); t.erase( "b" ); t.erase( "v" ); t["g"] = 250000;
            uint64_t ist = 21000 + 16 * pad, con = 21000 + 68 * pad;
            if ( pad ) t["pad"] = pad;
            t["p"] = r.chance( 700 ) && pad ? pow_price( addr( s ), nonce[s], ist + 22000 > con ? ist : ist + 22000, con, 1 + r.below( 1000000 ) ) : pow_price( addr( s ), nonce[s], con, 600000, 1 + r.below( 1000000 ) );
            t["pow"] = true;
        }
        nonce[s]++;
    }
    if ( typed && t["k"] != "fs" && t["k"] != "fsx" && t["k"] != "raw" && t["k"] != "badsig" && r.chance( 350 ) ) {
        t["ty"] = r.range( 1, 2 );
        if ( r.chance( 500 ) ) t["al"] = r.below( 3 );
        if ( t["ty"] == 2 && r.chance( 500 ) ) t["tip"] = r.below( 9 );
        if ( r.chance( bad_pm / 3 ) ) t["chain"] = 2;
        if ( r.chance( bad_pm / 2 ) ) { t["cut"] = r.below( 150 ); }
        if ( r.chance( bad_pm / 2 ) ) { t["bad"] = r.range( 1, 3 ); if ( t["bad"] == 3 ) t["al"] = 2; }
        if ( ( t.count( "cut" ) || t.count( "chain" ) || t.count( "bad" ) ) && nonce[s] ) nonce[s]--;
    } else if ( t["k"] != "raw" && r.chance( 100 ) ) t["chain"] = 1;
    return t;
}
json TxGen::block( int id, unsigned bn, uint64_t ts, int maxtx ) {
    json b{ { "op", "block" }, { "id", id }, { "bn", bn }, { "ts", ts }, { "gp", gp }, { "txs", json::array() } };
    int n = r.chance( 120 ) ? 0 : ( int ) r.range( 1, maxtx );
    for ( int i = 0; i < n; i++ ) b["txs"].push_back( tx() );
    return b;
}
}  // namespace node
