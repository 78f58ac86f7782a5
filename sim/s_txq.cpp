// The transaction queue (mempool) under concurrent clients.
//  profile "model": short concurrent histories, checked for linearizability against a small sequential model
//  profile "load":  importers, broadcaster, proposer and block importer running together near the limits; invariants
#include "node.h"
#include <libethereum/TransactionQueue.h>
#include <set>
#include <thread>
using namespace node;
using namespace dev;
using namespace dev::eth;

static void gen( Rng& r, json& plan ) {
    std::string prof = plan["profile"];
    bool deep = plan["tier"] == "thorough";
    gen_sched( r, plan, 2, true );
    json cfg;
    int senders = ( int ) r.range( 1, 4 ), maxn = ( int ) r.range( 2, 6 );
    // pool of transactions: several per (sender, nonce)
    json pool = json::array();
    int np = prof == "model" ? ( int ) r.range( 3, 12 ) : ( int ) r.range( 8, deep ? 60 : 40 );
    std::set< std::string > seen;
    for ( int i = 0; i < np; i++ ) {
        json t{ { "k", "xfer" }, { "s", r.below( senders ) }, { "n", r.below( prof == "model" ? maxn : maxn * 3 ) }, { "g", r.range( 30000, 30003 ) }, { "gp", r.range( 1, 4 ) }, { "v", 1 }, { "d", 0 } };
        if ( !seen.insert( t.dump() ).second ) continue;
        pool.push_back( t );
    }
    cfg["pool"] = pool;
    if ( prof == "load" ) {
        if ( r.chance( 500 ) ) cfg["lim"] = { r.range( 3, 20 ), r.range( 2, 10 ), r.chance( 500 ) ? 12322916 : r.range( 300, 2000 ), r.chance( 500 ) ? 24645833 : r.range( 300, 1000 ) };
        cfg["bcast"] = r.chance( 700 );
    }
    plan["cfg"] = cfg;
    json& inc = add_inc( plan );
    json th = json::array();
    int nt = prof == "model" ? ( int ) r.range( 1, 4 ) : ( int ) r.range( 2, 5 );
    int total = prof == "model" ? ( int ) r.range( 4, 16 ) : nt * ( int ) r.range( 5, 30 );
    for ( int t = 0; t < nt; t++ ) th.push_back( json::array() );
    static const int wsets[3][12] = { { 40, 8, 12, 6, 6, 6, 4, 4, 4, 3, 4, 3 }, { 60, 4, 20, 0, 10, 4, 0, 0, 0, 0, 2, 0 }, { 35, 15, 10, 20, 5, 5, 2, 2, 2, 2, 1, 1 } };
    const int* ws = wsets[r.below( 3 )];
    int wt = 0; for ( int i = 0; i < 12; i++ ) wt += ws[i];
    for ( int i = 0; i < total; i++ ) {
        int x = ( int ) r.below( wt ), k = 0;
        while ( x >= ws[k] ) x -= ws[k++];
        json o;
        int t = pool.empty() ? 0 : ( int ) r.below( pool.size() );
        switch ( k ) {
        case 0: o = { { "o", "import" }, { "t", t } }; if ( r.chance( 150 ) ) o["retry"] = true; if ( r.chance( 200 ) ) o["fut"] = true; break;
        case 1: o = { { "o", "drop" }, { "t", t } }; break;
        case 2: o = { { "o", "good" }, { "t", t } }; break;
        case 3: o = { { "o", "setfut" }, { "t", t } }; break;
        case 4: o = { { "o", "top" }, { "l", r.chance( 500 ) ? 100 : r.range( 1, 5 ) } }; break;
        case 5: o = { { "o", prof == "load" ? "top" : "topcat" }, { "l", r.chance( 500 ) ? 1 : r.range( 1, 4 ) } }; break;
        case 6: o = { { "o", "known" } }; break;
        case 7: o = { { "o", "maxn" }, { "s", r.below( senders ) } }; break;
        case 8: o = { { "o", "maxc" }, { "s", r.below( senders ) } }; break;
        case 9: o = { { "o", "wait" }, { "s", r.below( senders ) } }; break;
        case 10: o = { { "o", "status" } }; break;
        case 11: o = { { "o", "futs" } }; break;
        }
        th[r.below( nt )].push_back( o );
    }
    inc["ops"] = th;
    plan["min"] = json::array( { "/incs/*/ops/*", "/incs/*/ops" } );
}

// ------------------------------------------------------------------------------------------------ sequential model
struct Info { h256 h; int s; u256 n; u256 gp; size_t bytes; };
struct M {
    // nonce -> (pool index, category)
    std::map< int, std::map< u256, std::pair< int, int > > > cur, fut;
    std::set< int > dropped;
    std::string key() const {
        std::string o;
        for ( auto& a : cur ) for ( auto& b : a.second ) o += "c" + std::to_string( b.second.first ) + "." + std::to_string( b.second.second );
        for ( auto& a : fut ) for ( auto& b : a.second ) o += "f" + std::to_string( b.second.first ) + "." + std::to_string( b.second.second );
        for ( auto d : dropped ) o += "d" + std::to_string( d );
        return o;
    }
};
struct Op { json o; uint64_t a, b; std::vector< int > list; int64_t v = 0; std::vector< int64_t > st; };
static std::vector< Info > I;
static bool known( const M& m, int t ) {
    auto f = [&]( const std::map< int, std::map< u256, std::pair< int, int > > >& x ) { auto a = x.find( I[t].s ); if ( a == x.end() ) return false; auto b = a->second.find( I[t].n ); return b != a->second.end() && b->second.first == t; };
    return f( m.cur ) || f( m.fut );
}
static void promote( M& m, int s, u256 n ) {
    auto f = m.fut.find( s );
    if ( f == m.fut.end() ) return;
    for ( ;; ) {
        n += 1;
        auto it = f->second.find( n );
        if ( it == f->second.end() ) break;
        // an entry already current under this nonce keeps its slot (does not happen in the histories the model accepts)
        m.cur[s].insert( { n, it->second } );
        f->second.erase( it );
    }
    if ( f->second.empty() ) m.fut.erase( s );
}
static void set_future( M& m, int t ) {
    auto c = m.cur.find( I[t].s );
    if ( c == m.cur.end() ) return;
    auto it = c->second.find( I[t].n );
    if ( it == c->second.end() || it->second.first != t ) return;
    auto& f = m.fut[I[t].s];
    for ( auto k = it; k != c->second.end(); ++k ) f.insert( { k->first, { k->second.first, 0 } } );   // to be broadcast again when promoted
    c->second.erase( it, c->second.end() );
    if ( c->second.empty() ) m.cur.erase( I[t].s );
}
static void removec( M& m, int t ) {
    auto c = m.cur.find( I[t].s );
    if ( c == m.cur.end() ) return;
    auto it = c->second.find( I[t].n );
    if ( it == c->second.end() || it->second.first != t ) return;
    c->second.erase( it );
    if ( c->second.empty() ) m.cur.erase( I[t].s );
}
// nonce order per sender
static std::string order_problem( const std::vector< int >& l ) {
    std::map< int, u256 > last; std::set< int > seen;
    for ( int t : l ) {
        if ( !seen.insert( t ).second ) return "the same transaction is listed twice";
        auto it = last.find( I[t].s );
        if ( it != last.end() && it->second == I[t].n ) return "two transactions of one sender with the same nonce";
        if ( it != last.end() && it->second > I[t].n ) return "transactions of one sender out of nonce order";
        last[I[t].s] = I[t].n;
    }
    return "";
}
// the listed ones must be a nonce-closed selection among those allowed
static bool selection_ok( const M& m, const std::vector< int >& l, size_t limit, int maxcat ) {
    size_t avail = 0;
    std::set< int > got( l.begin(), l.end() );
    for ( auto& a : m.cur ) {
        bool gap = false;
        for ( auto& b : a.second ) {
            if ( b.second.second > maxcat ) continue;
            avail++;
            bool in = got.count( b.second.first );
            if ( in && gap ) return false;      // a later nonce was chosen before an earlier one
            if ( !in ) gap = true; else got.erase( b.second.first );
        }
    }
    return got.empty() && l.size() == std::min( limit, avail );
}
static bool step_model( M& m, const Op& op ) {
    std::string k = op.o["o"];
    int t = op.o.value( "t", 0 );
    if ( k == "import" ) {
        auto f = m.fut.find( I[t].s );
        if ( f != m.fut.end() && f->second.erase( I[t].n ) && f->second.empty() ) m.fut.erase( f );   // documented: re-inserting pushes a stuck transaction
        ImportResult want;
        if ( known( m, t ) ) want = ImportResult::AlreadyKnown;
        else if ( m.dropped.count( t ) && !op.o.value( "retry", false ) ) want = ImportResult::AlreadyInChain;
        else if ( m.cur.count( I[t].s ) && m.cur[I[t].s].count( I[t].n ) ) { want = ImportResult::SameNonceAlreadyInQueue; if ( op.o.value( "fut", false ) ) set_future( m, t ); }
        else {
            want = ImportResult::Success;
            m.cur[I[t].s][I[t].n] = { t, 0 };
            promote( m, I[t].s, I[t].n );
            if ( op.o.value( "fut", false ) ) set_future( m, t );
        }
        return op.v == ( int64_t ) want;
    }
    if ( k == "drop" ) { if ( known( m, t ) ) { m.dropped.insert( t ); removec( m, t ); } return true; }
    if ( k == "good" ) { promote( m, I[t].s, I[t].n ); removec( m, t ); return true; }
    if ( k == "setfut" ) { set_future( m, t ); return true; }
    if ( k == "top" ) return selection_ok( m, op.list, op.o["l"].get< size_t >(), 1000 );
    if ( k == "topcat" ) {
        size_t avail = 0;
        for ( auto& a : m.cur ) for ( auto& b : a.second ) avail += b.second.second == 0;
        if ( op.list.size() != std::min( op.o["l"].get< size_t >(), avail ) ) return false;
        std::set< int > got( op.list.begin(), op.list.end() );
        for ( int x : op.list ) {
            if ( !m.cur.count( I[x].s ) ) return false;
            auto& mm = m.cur[I[x].s];
            auto it = mm.find( I[x].n );
            if ( it == mm.end() || it->second.first != x || it->second.second != 0 ) return false;
            // not ahead of the transaction just before it
            if ( it != mm.begin() && std::prev( it )->second.second == 0 && !got.count( std::prev( it )->second.first ) ) return false;
        }
        for ( int x : op.list ) m.cur[I[x].s][I[x].n].second = 1;
        return true;
    }
    if ( k == "known" || k == "futs" ) {
        std::set< int > s;
        if ( k == "known" ) for ( auto& a : m.cur ) for ( auto& b : a.second ) s.insert( b.second.first );
        for ( auto& a : m.fut ) for ( auto& b : a.second ) s.insert( b.second.first );
        return op.list.size() == s.size() && std::set< int >( op.list.begin(), op.list.end() ) == s;
    }
    if ( k == "maxn" || k == "maxc" ) {
        int s = op.o["s"]; u256 x = 0;
        if ( m.cur.count( s ) ) x = m.cur[s].rbegin()->first + 1;
        if ( k == "maxn" && m.fut.count( s ) ) x = std::max( x, u256( m.fut[s].rbegin()->first + 1 ) );
        return x == op.v;
    }
    if ( k == "wait" ) { int s = op.o["s"]; size_t x = 0; if ( m.cur.count( s ) ) x += m.cur[s].size(); if ( m.fut.count( s ) ) x += m.fut[s].size(); return ( int64_t ) x == op.v; }
    if ( k == "status" ) {
        int64_t c = 0, f = 0, cb = 0, fb = 0;
        for ( auto& a : m.cur ) for ( auto& b : a.second ) { c++; cb += I[b.second.first].bytes; }
        for ( auto& a : m.fut ) for ( auto& b : a.second ) { f++; fb += I[b.second.first].bytes; }
        return op.st == std::vector< int64_t >{ c, f, cb, fb, ( int64_t ) m.dropped.size() };
    }
    return false;
}
static bool exec( TransactionQueue& q, Op& op, std::vector< Transaction >& pool, std::map< h256, int >& idx ) {
    std::string k = op.o["o"];
    auto ids = [&]( const Transactions& l ) { for ( auto& t : l ) { auto it = idx.find( t.sha3() ); op.list.push_back( it == idx.end() ? -1 : it->second ); } };
    op.a = rt::step();
    if ( k == "import" ) op.v = ( int64_t ) q.import( pool[op.o["t"]], op.o.value( "retry", false ) ? IfDropped::Retry : IfDropped::Ignore, op.o.value( "fut", false ) );
    else if ( k == "drop" ) q.drop( I[op.o["t"]].h );
    else if ( k == "good" ) q.dropGood( pool[op.o["t"]] );
    else if ( k == "setfut" ) q.setFuture( I[op.o["t"]].h );
    else if ( k == "top" ) ids( q.topTransactions( op.o["l"].get< unsigned >(), []( const Transaction& ) { return true; } ) );
    else if ( k == "topcat" ) ids( q.topTransactionsSync( op.o["l"].get< unsigned >(), 0, 1 ) );
    else if ( k == "known" ) { for ( auto& h : q.knownTransactions() ) { auto it = idx.find( h ); op.list.push_back( it == idx.end() ? -1 : it->second ); } }
    else if ( k == "futs" ) ids( q.debugGetFutureTransactions() );
    else if ( k == "maxn" ) op.v = ( int64_t ) q.maxNonce( addr( op.o["s"] ) );
    else if ( k == "maxc" ) op.v = ( int64_t ) q.maxCurrentNonce( addr( op.o["s"] ) );
    else if ( k == "wait" ) op.v = q.waiting( addr( op.o["s"] ) );
    else if ( k == "status" ) { auto s = q.status(); op.st = { ( int64_t ) s.current, ( int64_t ) s.future, ( int64_t ) s.currentBytes, ( int64_t ) s.futureBytes, ( int64_t ) s.dropped }; }
    op.b = rt::step();
    return true;
}
static std::string show( const Op& o ) {
    std::string s = o.o.dump() + " [" + std::to_string( o.a ) + "," + std::to_string( o.b ) + "] -> ";
    if ( o.st.size() ) { for ( auto x : o.st ) s += std::to_string( x ) + " "; return s; }
    if ( o.list.size() ) { for ( auto x : o.list ) s += "#" + std::to_string( x ) + " "; return s; }
    return s + std::to_string( o.v );
}
struct Lin {
    std::vector< Op* > ops;
    std::set< std::string > dead;
    std::vector< Op* > best, cur;
    uint64_t work = 0; bool gaveup = false;
    bool go( uint64_t done, uint64_t half, const M& m ) {
        if ( done == ( ( 1ull << ops.size() ) - 1 ) ) return true;
        if ( ++work > 200000 ) { gaveup = true; return true; }
        std::string key = std::to_string( done ) + "/" + std::to_string( half & ~done ) + "|" + m.key();
        if ( dead.count( key ) ) return false;
        uint64_t mb = ~0ull;
        for ( size_t i = 0; i < ops.size(); i++ ) if ( !( done >> i & 1 ) ) mb = std::min( mb, ops[i]->b );
        for ( size_t i = 0; i < ops.size(); i++ )
            if ( !( done >> i & 1 ) && ops[i]->a <= mb ) {
                // re-inserting a waiting transaction is not one atomic step for readers: it is absent for a moment
                if ( !( half >> i & 1 ) && ops[i]->o["o"] == "import" ) {
                    int t = ops[i]->o["t"];
                    auto f = m.fut.find( I[t].s );
                    if ( f != m.fut.end() && f->second.count( I[t].n ) ) {
                        M n = m;
                        auto g = n.fut.find( I[t].s );
                        g->second.erase( I[t].n );
                        if ( g->second.empty() ) n.fut.erase( g );
                        if ( go( done, half | 1ull << i, n ) ) return true;
                    }
                }
                M n = m;
                if ( !step_model( n, *ops[i] ) ) continue;
                cur.push_back( ops[i] );
                if ( cur.size() > best.size() ) best = cur;
                if ( go( done | 1ull << i, half, n ) ) return true;
                cur.pop_back();
            }
        dead.insert( key );
        return false;
    }
};

static void run( Ctx& c ) {
    const char* P = c.prop.c_str();
    std::vector< Transaction > pool; std::map< h256, int > idx; std::vector< int > alias;
    {
        I.clear();
        for ( auto& t : c.cfg["pool"] ) {
            pool.push_back( make_tx( t ) );
            Transaction& x = pool.back();
            x.safeSender();
            alias.push_back( idx.count( x.sha3() ) ? idx[x.sha3()] : ( int ) I.size() );
            idx[x.sha3()] = alias.back();
            I.push_back( Info{ x.sha3(), t["s"], x.nonce(), x.gasPrice(), x.toBytes().size() } );
        }
    }
    bool load = c.plan["profile"] == "load";
    TransactionQueue::Limits L{ 1024, 1024, 12322916, 24645833 };
    bool limited = c.cfg.count( "lim" );
    if ( limited ) { L.currentLimit = c.cfg["lim"][0]; L.futureLimit = c.cfg["lim"][1]; L.currentLimitBytes = c.cfg["lim"][2]; L.futureLimitBytes = c.cfg["lim"][3]; }
    TransactionQueue q( L );
    std::vector< std::vector< Op > > ops;
    for ( auto& t : c.ops ) { ops.emplace_back(); for ( auto& o : t ) if ( o.value( "t", 0 ) < ( int ) pool.size() ) { Op x; x.o = o; if ( o.count( "t" ) ) x.o["t"] = alias[o["t"].get< int >()]; ops.back().push_back( x ); } }
    std::vector< std::thread > th;
    std::atomic< bool > stop{ false };
    std::map< int, int > bc;   // broadcast count (single broadcaster)
    bool dups = false;
    for ( size_t t = 0; t < ops.size(); t++ )
        th.emplace_back( [&, t] {
            for ( auto& o : ops[t] ) {
                exec( q, o, pool, idx );
                std::string k = o.o["o"];
                for ( int x : o.list ) CHECK( P, x >= 0, "the queue returned a transaction that nobody submitted" );
                if ( k == "top" || k == "topcat" ) {
                    std::string e = order_problem( o.list );
                    CHECK( P, e.empty(), "selection from the queue: %s (%s)", e.c_str(), show( o ).c_str() );
                }
                if ( load && k == "status" && limited ) {
                    // promotion of waiting transactions when one is mined may exceed the limit for a moment; imports restore it
                    CHECK( P, ( size_t ) o.st[1] <= L.futureLimit && ( size_t ) o.st[3] <= L.futureLimitBytes, "the waiting area holds %ld transactions, %ld bytes; its limits are %zu, %zu", o.st[1], o.st[3], L.futureLimit, L.futureLimitBytes );
                    CHECK( P, o.st[0] <= 100000 && o.st[2] <= 100000000, "queue size counters have wrapped: %ld transactions, %ld bytes", o.st[0], o.st[2] );
                }
            }
        } );
    std::thread b;
    if ( load && c.cfg.value( "bcast", false ) )
        b = std::thread( [&] {
            while ( !stop ) {
                Transactions l = q.topTransactionsSync( 1, 0, 1 );
                for ( auto& t : l ) { auto it = idx.find( t.sha3() ); CHECK( P, it != idx.end(), "unknown transaction broadcast" ); bc[it->second]++; }
            }
        } );
    for ( auto& t : th ) t.join();
    if ( b.joinable() ) {
        // everything still pending is broadcast before long
        int polls = 0;   // not only time: injected stalls make it jump
        for ( ;; ) {
            bool all = true;
            auto l = q.topTransactions( 10000, []( const Transaction& ) { return true; } );
            { rt::NoPreempt np; for ( auto& t : l ) { auto it = idx.find( t.sha3() ); if ( it == idx.end() || !bc[it->second] ) all = false; } }
            if ( all ) break;
            CHECK( P, ++polls < 100, "a pending transaction is still not handed to the broadcaster after the broadcaster has had 2 s to ask" );
            std::this_thread::sleep_for( std::chrono::milliseconds( 20 ) );
        }
        stop = true;
        b.join();
    }
    // quiescent checks
    auto cur = q.topTransactions( 100000, []( const Transaction& ) { return true; } );
    auto fut = q.debugGetFutureTransactions();
    auto kn = q.knownTransactions();
    auto st = q.status();
    size_t cb = 0, fb = 0; std::set< h256 > all; std::vector< int > cl;
    for ( auto& t : cur ) { cb += t.toBytes().size(); all.insert( t.sha3() ); cl.push_back( idx[t.sha3()] ); }
    for ( auto& t : fut ) { fb += t.toBytes().size(); all.insert( t.sha3() ); }
    CHECK( P, all.size() == cur.size() + fut.size(), "a transaction is both pending and waiting" );
    CHECK( P, st.current == cur.size() && st.future == fut.size(), "the queue reports %zu pending and %zu waiting transactions but holds %zu and %zu", st.current, st.future, cur.size(), fut.size() );
    CHECK( P, st.currentBytes == cb && st.futureBytes == fb, "the queue reports %zu pending and %zu waiting bytes but holds %zu and %zu", st.currentBytes, st.futureBytes, cb, fb );
    CHECK( P, kn.size() == all.size(), "the queue says it knows %zu transactions but holds %zu", kn.size(), all.size() );
    for ( auto& h : kn ) CHECK( P, all.count( h ), "the queue says it knows a transaction it does not hold" );
    std::string e = order_problem( cl );
    CHECK( P, e.empty(), "final contents of the queue: %s", e.c_str() );
    if ( !load ) {
        Lin l;
        for ( auto& t : ops ) for ( auto& o : t ) l.ops.push_back( &o );
        // final state as the last operations
        static const char* fin[] = { "top", "futs", "known", "status", "topcat" };
        std::vector< Op > f;
        for ( auto k : fin ) { Op o; o.o = { { "o", k }, { "l", 1000 } }; f.push_back( o ); }
        for ( int s = 0; s < 4; s++ ) { Op o; o.o = { { "o", "maxn" }, { "s", s } }; f.push_back( o ); o.o = { { "o", "wait" }, { "s", s } }; f.push_back( o ); }
        uint64_t base = rt::step() + 1;
        for ( auto& o : f ) { exec( q, o, pool, idx ); o.a = base++; o.b = base++; l.ops.push_back( &o ); }
        bool ok = l.go( 0, 0, M() );
        if ( l.gaveup ) rt::probe( "linearizability search gave up" );
        if ( !ok ) {
            std::string h;
            for ( auto o : l.best ) h += show( *o ) + "; ";
            h += " -- then none of: ";
            for ( auto o : l.ops ) if ( std::find( l.best.begin(), l.best.end(), o ) == l.best.end() ) { h += show( *o ) + "; "; }
            rt::violation( P, "no sequential order of the queue operations explains what the clients saw: %s", h.substr( 0, 2500 ).c_str() );
        }
        rt::probe( "linearizability checked" );
    }
}
static Scenario s( "txq", gen, run );
