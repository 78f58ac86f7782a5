// smoke scenario for the runtime itself: threads, condvars, disk writes
#include "scn.h"
#include <condition_variable>
#include <fstream>
#include <future>
#include <mutex>
#include <thread>
#include <atomic>
#include <unordered_map>
static void gen( Rng& r, json& plan ) {
    gen_sched( r, plan, 2 );
    plan["cfg"] = { { "threads", r.range( 2, 6 ) } };
    json& i = add_inc( plan );
    for ( int k = 0; k < 5; k++ ) i["ops"].push_back( { { "id", k }, { "n", r.range( 1, 50 ) } } );
    if ( r.chance( 500 ) ) { i["faults"].push_back( mk_fault( "crash", ( int ) r.below( 5 ), ( int ) r.below( 4 ) ) ); }
    add_inc( plan )["ops"].push_back( { { "id", 10 }, { "n", 3 } } );
}
static void run( Ctx& c ) {
    std::mutex m; std::condition_variable cv; int turn = 0; std::atomic< int > total{ 0 };
    for ( auto& op : c.ops ) {
        rt::mark( op["id"] );
        std::vector< std::thread > th;
        int n = op["n"];
        for ( int t = 0; t < ( int ) c.cfg["threads"]; t++ ) th.emplace_back( [&, t] {
            for ( int i = 0; i < n; i++ ) { std::unique_lock< std::mutex > l( m ); turn = t; cv.notify_all(); cv.wait_for( l, std::chrono::milliseconds( 5 ), [&] { return turn != t; } ); total++; }
        } );
        for ( auto& t : th ) t.join();
        auto f = std::async( std::launch::async, [] { return 5; } );
        total += f.get();
        std::ofstream( c.root + "/f" + std::to_string( n ) ) << total;
        rt::log( "op %d total %d turn %d", ( int ) op["id"], ( int ) total, turn );
        jot( { { "op", op["id"] } } );
    }
    if ( c.last ) rt::log( "journal %zu", journal().size() );
}
static Scenario s( "smoke", gen, run );
