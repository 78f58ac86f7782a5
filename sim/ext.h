#pragma once
#include <functional>
#include <string>
#include <vector>
namespace ext {
void set_root( const std::string& r );          // btrfs operations stay inside
extern std::vector< std::string > sent;         // everything the node's broadcaster put on the wire
extern std::vector< std::string > failed;         // what it tried to send in vain
extern std::function< void( const std::string& ) > on_send;
extern int send_errors;                         // fail the next n sends
void inject( const std::string& m );            // deliver a message to the node
size_t inbox_size();
}
#include <functional>
namespace ext {
// simulated HTTP: (url, request body) -> response body; throw std::runtime_error for a transport failure
extern std::function< std::string( const std::string&, const std::string& ) > http;
}
