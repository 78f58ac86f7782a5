// A real skaled core (Client + SkaleHost + TransactionQueue + BlockChain + State + LevelDB) under the simulator,
// with the consensus engine replaced by a stub the scenario drives.
#pragma once
#include "scn.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <libconsensus/node/ConsensusInterface.h>
#include <libdevcrypto/Common.h>
#include <libethereum/ChainParams.h>
#include <libethereum/Client.h>
#include <libethereum/SkaleHost.h>
#include <libethereum/TransactionQueue.h>
#include <atomic>
#include <functional>
#include <memory>
#include <mutex>

namespace node {
constexpr int NKEYS = 6;
const dev::KeyPair& key( int i );
dev::Address addr( int i );
// predeployed contracts
enum { CTR = 0x1001, STORE = 0x1002, REV = 0x1003, LOOP = 0x1004, CALLREV = 0x1005, KILL0 = 0x1010 /* ..KILL0+3 */, LOGGER = 0x1006, MANY = 0x1007, BHASH = 0x1008, CRE = 0x1009,
       LOGX = 0x1100 /* ..+4: LOGn of the first n topics given; +8..+12: the same code */, MULTI = 0x1110, LOGREV = 0x1111, WIDE = 0x1120, FSX = 0x1130 };
dev::eth::ChainParams params( const json& cfg );
dev::bytes tx_bytes( const json& d );
dev::h256 tx_hash( const json& d );      // sha3 of the bytes
dev::eth::Transaction make_tx( const json& d );

uint64_t pow_price( const dev::Address& a, uint64_t n, uint64_t lo, uint64_t hi, uint64_t from );   // gas price that pays [lo, hi) gas with proof of work

class Stub : public ConsensusInterface {
public:
    ConsensusExtFace& ext;
    std::atomic< bool > need_exit{ false };
    u256 price = 1;
    std::function< void() > loop;           // what the consensus thread does, if anything
    std::atomic< bool > looping{ false };
    explicit Stub( ConsensusExtFace& e ) : ext( e ) {}
    void parseFullConfigAndCreateNode( const std::string&, const std::string& ) override {}
    void startAll() override {}
    void bootStrapAll() override { if ( loop ) { looping = true; loop(); looping = false; } }
    void exitGracefully() override { need_exit = true; }
    consensus_engine_status getStatus() const override { return need_exit && !looping ? CONSENSUS_EXITED : CONSENSUS_ACTIVE; }
    u256 getPriceForBlockId( uint64_t ) const override { return price; }
    u256 getRandomForBlockId( uint64_t b ) const override { return b * 7 + 3; }
};
class StubFactory : public ConsensusFactory {
public:
    mutable Stub* result = nullptr;
    std::unique_ptr< ConsensusInterface > create( ConsensusExtFace& e ) const override { result = new Stub( e ); return std::unique_ptr< ConsensusInterface >( result ); }
};

void init_dir( const std::string& dir );   // what the main function does with the data directory before anything else
struct Node {
    std::string dir;
    json cfg;
    std::shared_ptr< InstanceMonitor > monitor;
    std::unique_ptr< dev::eth::Client > client;
    std::shared_ptr< SkaleHost > host;
    Stub* stub = nullptr;
    bool stopped = false;
    std::vector< dev::eth::TransactionQueue::Limits > lim;
    Node( const std::string& dir, const json& cfg, std::shared_ptr< SnapshotManager > sm = nullptr, bool start = true );
    ~Node();
    void start();
    void stop();          // orderly stop (what the main function does on exit)
    void destroy();
    unsigned number() const { return client->number(); }
    // calls createBlock like the consensus engine; true when the chain advanced to it
    bool block( const json& blk );
    bool block_raw( const std::vector< std::vector< uint8_t > >& txs, uint64_t ts, uint64_t id, uint64_t gp, const u256& root = 0, uint64_t winner = 1 );
    std::vector< std::vector< uint8_t > > pending( size_t limit, u256& root ) { return stub->ext.pendingTransactions( limit, root ); }
    // canonical text of the account state
    std::string state_text( bool concurrent = false ) const;
    // canonical text of block n as the node reports it (header hash, transactions, receipts, locations)
    std::string block_text( unsigned n, bool concurrent = false ) const;
};
// file storage of a node, as text, and a sequential model of it
std::string fs_text( const std::string& dir );
struct FsModel {
    std::map< std::string, std::string > files;   // path below filestorage -> contents
    std::map< std::string, bool > dirs;
    // executes one transaction's file storage calls; returns the expected status
    bool tx( const json& t, bool cached );
    std::string text() const;
    static bool uses( const json& t ) { std::string k = t.value( "k", "" ); return k == "fs" || k == "fsx"; }
private:
    struct Op { int k; std::string path; uint64_t a; std::string data; };
    bool call( const json& c, std::vector< Op >& out ) const;
    void apply( const Op& o );
};
std::string sha( const std::string& s );   // short hash for comparisons
// random transaction of a sender
struct TxGen {
    Rng& r;
    std::map< int, uint64_t > nonce;   // next valid nonce per sender, as if every valid transaction was executed
    unsigned bad_pm = 120;             // permille of intentionally bad transactions
    uint64_t gp = 1;
    bool kills = true, bhash = true, pow = false, typed = false, wide = false;
    int fs = 0;                        // file storage: 1: only transactions that may be executed twice, 2: all
    bool dups = false;                 // may repeat earlier transactions
    std::vector< json > past; std::map< std::string, int > seen, again;
    explicit TxGen( Rng& rr ) : r( rr ) {}
    json tx();                         // updates nonce
    json tx1();
    json block( int id, unsigned bn, uint64_t ts, int maxtx );
};
}  // namespace node
