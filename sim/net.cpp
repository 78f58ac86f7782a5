// Simulated HTTP transport under the two client classes skaled uses (jsonrpc::HttpClient and skutils::rest::client).
#include "ext.h"
#include "rt.h"
#include <jsonrpccpp/client/connectors/httpclient.h>
#include <jsonrpccpp/common/exception.h>
#include <skutils/rest_call.h>

namespace ext { std::function< std::string( const std::string&, const std::string& ) > http; }

namespace jsonrpc {
HttpClient::HttpClient( const std::string& u ) : url( u ), timeout( 10000 ) {}
HttpClient::~HttpClient() {}
void HttpClient::SetUrl( const std::string& u ) { url = u; }
void HttpClient::SetTimeout( long t ) { timeout = t; }
void HttpClient::AddHeader( const std::string&, const std::string& ) {}
void HttpClient::RemoveHeader( const std::string& ) {}
void HttpClient::SendRPCMessage( const std::string& m, std::string& r ) {
    rt::point( "http" );
    if ( !ext::http ) throw JsonRpcException( Errors::ERROR_CLIENT_CONNECTOR, "no network" );
    try { r = ext::http( url, m ); } catch ( const std::runtime_error& e ) { throw JsonRpcException( Errors::ERROR_CLIENT_CONNECTOR, e.what() ); }
}
}

namespace skutils { namespace rest {
long g_nClientConnectionTimeoutMS = 10000;
data_t::data_t() {}
data_t::data_t( const data_t& d ) { assign( d ); }
data_t::~data_t() {}
data_t& data_t::operator=( const data_t& d ) { assign( d ); return *this; }
bool data_t::is_json() const { return content_type_ == "application/json"; }
bool data_t::is_binary() const { return content_type_ == "application/octet-stream"; }
bool data_t::empty() const { return s_.empty(); }
void data_t::clear() { s_.clear(); err_s_.clear(); content_type_.clear(); ei_.clear(); }
void data_t::assign( const data_t& d ) { if ( this != &d ) { s_ = d.s_; err_s_ = d.err_s_; content_type_ = d.content_type_; ei_ = d.ei_; } }
nlohmann::json data_t::extract_json() const { try { return nlohmann::json::parse( s_ ); } catch ( ... ) { return nlohmann::json::object(); } }
std::string data_t::extract_json_id() const { return ""; }
client::client( long ) {}
client::client( const skutils::url& u, long ) { u_ = u; }
client::client( const std::string& u, long ) { u_ = u; }
client::client( const char* u, long ) { u_ = u; }
client::~client() {}
bool client::open( const skutils::url& u, std::chrono::milliseconds, size_t ) { u_ = u; return true; }
bool client::open( const std::string& u, std::chrono::milliseconds w, size_t c ) { return open( skutils::url( u ), w, c ); }
bool client::open( const char* u, std::chrono::milliseconds w, size_t c ) { return open( skutils::url( u ), w, c ); }
void client::close() {}
bool client::is_open() const { return true; }
long client::client_connection_timeout() const { return 10000; }
void client::client_connection_timeout( long ) {}
data_t client::call( const nlohmann::json& j, bool a, e_data_fetch_strategy e, std::chrono::milliseconds w, size_t c, bool r ) { return call( j.dump(), a, e, w, c, r ); }
data_t client::call( const std::string& s, bool, e_data_fetch_strategy e, std::chrono::milliseconds, size_t, bool ) {
    rt::point( "rest" );
    data_t d;
    if ( !ext::http ) { d.err_s_ = "no network"; return d; }
    try {
        d.s_ = ext::http( u_.str(), s );
        d.content_type_ = e == e_data_fetch_strategy::edfs_nearest_binary ? "application/octet-stream" : "application/json";
    } catch ( const std::runtime_error& x ) { d.err_s_ = x.what(); }
    return d;
}
} }
