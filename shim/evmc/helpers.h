#pragma once
#include <evmc/evmc.h>
union evmc_result_optional_storage { uint8_t bytes[24]; void* pointer; };
static inline union evmc_result_optional_storage* evmc_get_optional_storage( struct evmc_result* r ) { return (union evmc_result_optional_storage*) &r->create_address; }
static inline const union evmc_result_optional_storage* evmc_get_const_optional_storage( const struct evmc_result* r ) { return (const union evmc_result_optional_storage*) &r->create_address; }
