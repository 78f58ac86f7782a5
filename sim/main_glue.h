#pragma once
#include <memory>
#include <string>
class SnapshotManager;
namespace dev { namespace eth { struct ChainParams; } }
namespace glue {
// downloadAndProccessSnapshot() of main.cpp: throws when nothing could be downloaded
void download( std::shared_ptr< SnapshotManager >& sm, const dev::eth::ChainParams& p, const std::string& url, bool regular );
}
