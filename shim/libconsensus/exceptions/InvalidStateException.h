#pragma once
#include <stdexcept>
class InvalidStateException : public std::runtime_error { public: InvalidStateException( const std::string& a, const std::string& = "" ) : std::runtime_error( a ) {} };
