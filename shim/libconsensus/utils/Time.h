#pragma once
#include <cstdint>
#include <sys/time.h>
class Time { public: static uint64_t getCurrentTimeMs() { struct timeval tv; gettimeofday( &tv, nullptr ); return (uint64_t) tv.tv_sec * 1000 + tv.tv_usec / 1000; } };
