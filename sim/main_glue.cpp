// Makes the snapshot download logic of skaled's main program (file-local functions of main.cpp) callable.
// Everything else in main.cpp, including main itself, is unreferenced and dropped by the linker.
#include <libskale/httpserveroverride.h>
#include <libweb3jsonrpc/rapidjson_handlers.h>
#include <libskale/SnapshotManager.h>
struct __attribute__( ( visibility( "hidden" ) ) ) ConcreteServer : SkaleServerOverride {
    using SkaleServerOverride::SkaleServerOverride;
    bool SendResponse( const std::string&, void* = nullptr ) override { return false; }
};
#define SkaleServerOverride ConcreteServer
#define main __attribute__( ( visibility( "hidden" ) ) ) skaled_main
#include <skaled/main.cpp>
#undef main
#include "main_glue.h"
namespace glue {
void download( std::shared_ptr< SnapshotManager >& sm, const dev::eth::ChainParams& p, const std::string& url, bool regular ) { downloadAndProccessSnapshot( sm, p, url, regular ); }
}
