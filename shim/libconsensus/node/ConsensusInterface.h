// Shim: interface of the (proprietary-submodule) SKALE consensus engine as skaled sees it.
#pragma once
#include <array>
#include <boost/multiprecision/cpp_int.hpp>
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <vector>
using u256 = boost::multiprecision::number< boost::multiprecision::cpp_int_backend< 256, 256, boost::multiprecision::unsigned_magnitude, boost::multiprecision::unchecked, void > >;
template < class T > using ptr = std::shared_ptr< T >;
#define ORACLE_SUCCESS 0
#define ORACLE_RESULT_NOT_READY 1
#define ORACLE_INTERNAL_SERVER_ERROR 2
enum consensus_engine_status { CONSENSUS_ACTIVE = 0, CONSENSUS_EXITED = 1 };
class ConsensusInterface {
public:
    struct SyncInfo { bool isSyncing = false; uint64_t startingBlock = 0; uint64_t currentBlock = 0; uint64_t highestBlock = 0; };
    virtual ~ConsensusInterface() = default;
    virtual void parseFullConfigAndCreateNode( const std::string& _jsonConfig, const std::string& _gethURL ) = 0;
    virtual void startAll() = 0;
    virtual void bootStrapAll() = 0;
    virtual void exitGracefully() = 0;
    virtual consensus_engine_status getStatus() const = 0;
    virtual u256 getPriceForBlockId( uint64_t _blockId ) const = 0;
    virtual u256 getRandomForBlockId( uint64_t _blockId ) const { return 0; }
    virtual uint64_t getEmptyBlockIntervalMs() const { return 0; }
    virtual void setEmptyBlockIntervalMs( uint64_t ) {}
    virtual uint64_t submitOracleRequest( const std::string&, std::string&, std::string& ) { return 0; }
    virtual uint64_t checkOracleResult( const std::string&, std::string& ) { return 0; }
    virtual std::map< std::string, uint64_t > getConsensusDbUsage() const { return {}; }
    virtual SyncInfo getSyncInfo() { return {}; }
};
class ConsensusExtFace {
public:
    typedef std::vector< std::vector< uint8_t > > transactions_vector;
    virtual ~ConsensusExtFace() = default;
    virtual transactions_vector pendingTransactions( size_t _limit, u256& _stateRoot ) = 0;
    virtual void createBlock( const transactions_vector& _approvedTransactions, uint64_t _timeStamp, uint32_t _timeStampMs, uint64_t _blockID,
        u256 _gasPrice, u256 _stateRoot, uint64_t _winningNodeIndex ) = 0;
    virtual void terminateApplication() = 0;
};
