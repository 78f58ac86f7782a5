#pragma once
#include <evmc/evmc.h>
#include <evmc/helpers.h>
#include <cstdlib>
#include <utility>
namespace evmc {
struct address : evmc_address { constexpr address( evmc_address i = {} ) noexcept : evmc_address{ i } {} };
struct bytes32 : evmc_bytes32 { constexpr bytes32( evmc_bytes32 i = {} ) noexcept : evmc_bytes32{ i } {} };
using uint256be = bytes32;
class result : private evmc_result {
public:
    using evmc_result::gas_left; using evmc_result::output_data; using evmc_result::output_size; using evmc_result::status_code; using evmc_result::create_address;
    explicit result( evmc_result const& r ) noexcept : evmc_result{ r } {}
    ~result() noexcept { if ( release ) release( this ); }
    result( result&& o ) noexcept : evmc_result{ o } { o.release = nullptr; }
    result( result const& ) = delete;
};
class Host {
public:
    virtual ~Host() = default;
    virtual bool account_exists( const address& ) noexcept = 0;
    virtual bytes32 get_storage( const address&, const bytes32& ) noexcept = 0;
    virtual evmc_storage_status set_storage( const address&, const bytes32&, const bytes32& ) noexcept = 0;
    virtual uint256be get_balance( const address& ) noexcept = 0;
    virtual size_t get_code_size( const address& ) noexcept = 0;
    virtual bytes32 get_code_hash( const address& ) noexcept = 0;
    virtual size_t copy_code( const address&, size_t, uint8_t*, size_t ) noexcept = 0;
    virtual void selfdestruct( const address&, const address& ) noexcept = 0;
    virtual result call( const evmc_message& ) noexcept = 0;
    virtual evmc_tx_context get_tx_context() noexcept = 0;
    virtual bytes32 get_block_hash( int64_t ) noexcept = 0;
    virtual void emit_log( const address&, const uint8_t*, size_t, const bytes32[], size_t ) noexcept = 0;
};
class vm {
public:
    vm() = default; explicit vm( evmc_instance* i ) noexcept : m_i( i ) {}
    bool is_abi_compatible() const noexcept { return true; }
    const char* name() const noexcept { return "none"; }
    const char* version() const noexcept { return "0"; }
    evmc_set_option_result set_option( const char*, const char* ) noexcept { return EVMC_SET_OPTION_INVALID_NAME; }
    result execute( Host&, evmc_revision, const evmc_message&, const uint8_t*, size_t ) noexcept { std::abort(); }
private:
    evmc_instance* m_i = nullptr;
};
}
