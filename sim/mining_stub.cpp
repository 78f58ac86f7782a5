// Proof-of-work mining is not part of a SKALE node; these satisfy the linker and must never be called.
#include <libethashseal/EthashCPUMiner.h>
#include <libethashseal/EthashClient.h>
#include <cstdlib>
namespace dev { namespace eth {
EthashClient& asEthashClient( Interface& ) { abort(); }
EthashClient* asEthashClient( Interface* ) { return nullptr; }
bool EthashClient::isMining() const { abort(); }
u256 EthashClient::hashrate() const { abort(); }
std::tuple< h256, h256, h256 > EthashClient::getEthashWork() { abort(); }
bool EthashClient::submitEthashWork( h256 const&, h64 const& ) { abort(); }
void EthashClient::submitExternalHashrate( u256 const&, h256 const& ) { abort(); }
unsigned EthashCPUMiner::s_numInstances = 0;
EthashCPUMiner::EthashCPUMiner( GenericMiner< EthashProofOfWork >::ConstructionInfo const& _ci ) : GenericMiner< EthashProofOfWork >( _ci ) { abort(); }
EthashCPUMiner::~EthashCPUMiner() {}
void EthashCPUMiner::kickOff() {}
void EthashCPUMiner::pause() {}
std::string EthashCPUMiner::platformInfo() { return ""; }
} }
