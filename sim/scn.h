// scenario framework: a scenario generates plans (pure data) from a seed and executes one incarnation of a plan.
#pragma once
#include "rt.h"
#include <nlohmann/json.hpp>
#include <map>
#include <string>
#include <vector>

using json = nlohmann::json;

struct Rng {
    uint64_t s;
    explicit Rng( uint64_t seed ) : s( seed ) {}
    uint64_t u64() {
        uint64_t z = ( s += 0x9e3779b97f4a7c15ULL );
        z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ULL;
        z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebULL;
        return z ^ ( z >> 31 );
    }
    uint64_t below( uint64_t n ) { return n ? u64() % n : 0; }
    int64_t range( int64_t a, int64_t b ) { return a + ( int64_t ) below( ( uint64_t )( b - a + 1 ) ); }
    bool chance( unsigned permille ) { return below( 1000 ) < permille; }
    template < class V > auto pick( const V& v ) -> decltype( v[0] ) { return v[below( v.size() )]; }
    // small sizes are common, big ones happen
    int64_t skew( int64_t a, int64_t b ) { int64_t x = range( a, b ); return chance( 500 ) ? a + ( x - a ) / 3 : x; }
};

struct Ctx {
    json plan;
    json cfg;
    json ops;          // operations of this incarnation
    json inc;          // the incarnation object
    int index;
    bool last;
    std::string root;  // scratch directory of this run
    std::string prop;  // the property this run is about
};

struct Scenario {
    const char* name;
    void ( *gen )( Rng& r, json& plan );   // plan["property"], plan["profile"], plan["tier"] are set; fills cfg, sched, incs
    void ( *run )( Ctx& c );
    Scenario* next;
    Scenario( const char* n, void ( *g )( Rng&, json& ), void ( *r )( Ctx& ) );
    static Scenario* first;
};

// schedule knobs, swarm style.  level 0: mostly sequential, 1: normal, 2: heavy preemption
void gen_sched( Rng& r, json& plan, int level, bool mem = false );
// crash/torn/… faults
json mk_fault( const char* kind, int mark, int k, int n = 1, uint64_t arg = 0, const char* filter = "" );
// add an incarnation
json& add_inc( json& plan );

// the journal survives crashes of an incarnation (it belongs to the simulator, not to the node)
void jot( const json& rec );
std::vector< json > journal();

#define CHECK( prop, cond, ... ) do { if ( !( cond ) ) rt::violation( prop, __VA_ARGS__ ); } while ( 0 )

std::string hexs( const std::string& b );
