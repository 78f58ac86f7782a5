// Shim: the engine itself is replaced by the simulator's consensus; constructing the default one aborts.
#pragma once
#include <libconsensus/node/ConsensusInterface.h>
#include <cstdlib>
class ConsensusEngine : public ConsensusInterface {
public:
    ConsensusEngine( ConsensusExtFace&, uint64_t, uint64_t, uint64_t, std::map< std::string, uint64_t >, uint64_t ) { std::abort(); }
    void setSGXKeyInfo( const std::string&, std::string&, std::string&, std::string&, std::string& ) {}
    void setPublicKeyInfo( std::shared_ptr< std::vector< std::string > >&, std::shared_ptr< std::vector< std::shared_ptr< std::vector< std::string > > > >&, size_t, size_t, bool ) {}
    void setRotationHistory( std::shared_ptr< std::map< uint64_t, std::vector< std::string > > >, std::shared_ptr< std::map< uint64_t, std::string > >, std::shared_ptr< std::map< uint64_t, std::vector< uint64_t > > > ) {}
    void parseFullConfigAndCreateNode( const std::string&, const std::string& ) override {}
    void startAll() override {} void bootStrapAll() override {} void exitGracefully() override {}
    consensus_engine_status getStatus() const override { return CONSENSUS_EXITED; }
    u256 getPriceForBlockId( uint64_t ) const override { return 0; }
};
