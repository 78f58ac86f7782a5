// Shim: the subset of EVMC v6 that skaled uses.
#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { EVMC_ABI_VERSION = 6 };
typedef struct evmc_bytes32 { uint8_t bytes[32]; } evmc_bytes32;
typedef struct evmc_bytes32 evmc_uint256be;
typedef struct evmc_address { uint8_t bytes[20]; } evmc_address;
enum evmc_call_kind { EVMC_CALL = 0, EVMC_DELEGATECALL = 1, EVMC_CALLCODE = 2, EVMC_CREATE = 3, EVMC_CREATE2 = 4 };
enum evmc_flags { EVMC_STATIC = 1 };
struct evmc_message { enum evmc_call_kind kind; uint32_t flags; int32_t depth; int64_t gas; evmc_address destination; evmc_address sender;
    const uint8_t* input_data; size_t input_size; evmc_uint256be value; evmc_bytes32 create2_salt; };
struct evmc_tx_context { evmc_uint256be tx_gas_price; evmc_address tx_origin; evmc_address block_coinbase; int64_t block_number;
    int64_t block_timestamp; int64_t block_gas_limit; evmc_uint256be block_difficulty; evmc_uint256be chain_id; };
enum evmc_status_code { EVMC_SUCCESS = 0, EVMC_FAILURE = 1, EVMC_REVERT = 2, EVMC_OUT_OF_GAS = 3, EVMC_INVALID_INSTRUCTION = 4,
    EVMC_UNDEFINED_INSTRUCTION = 5, EVMC_STACK_OVERFLOW = 6, EVMC_STACK_UNDERFLOW = 7, EVMC_BAD_JUMP_DESTINATION = 8,
    EVMC_INVALID_MEMORY_ACCESS = 9, EVMC_CALL_DEPTH_EXCEEDED = 10, EVMC_STATIC_MODE_VIOLATION = 11, EVMC_PRECOMPILE_FAILURE = 12,
    EVMC_CONTRACT_VALIDATION_FAILURE = 13, EVMC_ARGUMENT_OUT_OF_RANGE = 14, EVMC_WASM_UNREACHABLE_INSTRUCTION = 15, EVMC_WASM_TRAP = 16,
    EVMC_INTERNAL_ERROR = -1, EVMC_REJECTED = -2, EVMC_OUT_OF_MEMORY = -3 };
struct evmc_result; struct evmc_context; struct evmc_instance;
typedef void ( *evmc_release_result_fn )( const struct evmc_result* );
struct evmc_result { enum evmc_status_code status_code; int64_t gas_left; const uint8_t* output_data; size_t output_size;
    evmc_release_result_fn release; evmc_address create_address; uint8_t padding[4]; };
enum evmc_storage_status { EVMC_STORAGE_UNCHANGED = 0, EVMC_STORAGE_MODIFIED = 1, EVMC_STORAGE_MODIFIED_AGAIN = 2, EVMC_STORAGE_ADDED = 3, EVMC_STORAGE_DELETED = 4 };
enum evmc_revision { EVMC_FRONTIER, EVMC_HOMESTEAD, EVMC_TANGERINE_WHISTLE, EVMC_SPURIOUS_DRAGON, EVMC_BYZANTIUM, EVMC_CONSTANTINOPLE,
    EVMC_PETERSBURG, EVMC_ISTANBUL, EVMC_BERLIN, EVMC_LONDON };
enum evmc_set_option_result { EVMC_SET_OPTION_SUCCESS = 0, EVMC_SET_OPTION_INVALID_NAME = 1, EVMC_SET_OPTION_INVALID_VALUE = 2 };
struct evmc_instance { const int abi_version; const char* name; const char* version; };

#ifdef __cplusplus
}
#endif
