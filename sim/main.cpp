// driver: sim batch ... | sim exec FILE | sim gen ... | sim list
#include "scn.h"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <ftw.h>

#include <libdevcore/Log.h>
#include <boost/log/core.hpp>

using namespace rt;

Scenario* Scenario::first = nullptr;
Scenario::Scenario( const char* n, void ( *g )( Rng&, json& ), void ( *r )( Ctx& ) ) : name( n ), gen( g ), run( r ), next( first ) { first = this; }
static Scenario* find_scenario( const std::string& n ) {
    for ( auto* s = Scenario::first; s; s = s->next ) if ( n == s->name ) return s;
    return nullptr;
}

// ------------------------------------------------------------------ helpers used by scenarios
void gen_sched( Rng& r, json& plan, int level, bool mem ) {
    json s;
    int mode = 0;
    if ( level == 1 ) { auto x = r.below( 10 ); mode = x < 2 ? 0 : x < 7 ? 1 : 2; }
    if ( level >= 2 ) { auto x = r.below( 10 ); mode = x < 7 ? 1 : 2; }
    s["mode"] = mode;
    static const int gaps[] = { 2, 3, 5, 8, 15, 30, 80, 300 };
    s["gap"] = mode == 1 ? gaps[r.below( 8 )] : 0;
    if ( mode == 2 ) { s["depth"] = r.range( 1, 6 ); static const int lens[] = { 200, 1000, 5000, 20000, 60000 }; s["len"] = lens[r.below( 5 )]; }
    if ( mem && mode && r.chance( 700 ) ) { static const int mg[] = { 10, 30, 100, 400, 2000 }; s["mem"] = mg[r.below( 5 )]; }
    if ( mode && r.chance( 300 ) ) s["spur"] = ( int ) ( 20 + r.below( 200 ) );
    if ( r.chance( 150 ) ) { s["stall"] = ( int ) ( 50 + r.below( 500 ) ); s["stallmax"] = ( int ) ( r.chance( 500 ) ? 5000 : 3000000 ); }
    if ( r.chance( 600 ) ) s["dir"] = ( int ) ( 1 + r.below( 2 ) );
    plan["sched"] = s;
}
json mk_fault( const char* kind, int mark, int k, int n, uint64_t arg, const char* filter ) {
    json f{ { "kind", kind }, { "k", k } };
    if ( mark >= 0 ) f["mark"] = mark;
    if ( n != 1 ) f["n"] = n;
    if ( arg ) f["arg"] = arg;
    if ( filter && filter[0] ) f["filter"] = filter;
    return f;
}
json& add_inc( json& plan ) {
    if ( !plan.count( "incs" ) ) plan["incs"] = json::array();
    plan["incs"].push_back( json{ { "ops", json::array() }, { "faults", json::array() } } );
    return plan["incs"].back();
}
void jot( const json& rec ) {
    NoPreempt np;
    Shm& S = shm();
    std::string t = rec.dump() + "\n";
    observe( t );
    if ( S.journal_len + t.size() >= JOURNAL_CAP ) { rt::log( "journal full" ); finish( OUT_MACHINERY, 7 ); }
    memcpy( S.journal + S.journal_len, t.data(), t.size() );
    S.journal_len += t.size();
}
std::vector< json > journal() {
    NoPreempt np;
    Shm& S = shm();
    std::vector< json > out;
    size_t p = 0;
    while ( p < S.journal_len ) {
        const char* e = ( const char* ) memchr( S.journal + p, '\n', S.journal_len - p );
        size_t q = e - S.journal;
        out.push_back( json::parse( S.journal + p, S.journal + q ) );
        p = q + 1;
    }
    return out;
}
std::string hexs( const std::string& b ) {
    static const char* d = "0123456789abcdef"; std::string o;
    for ( unsigned char c : b ) { o += d[c >> 4]; o += d[c & 15]; }
    return o;
}

// ------------------------------------------------------------------ run supervision
static long raw_wait( pid_t p, int* st, int fl ) { return waitpid( p, st, fl ); }
static double real_now() { struct timespec ts; long r; __asm__ volatile( "syscall" : "=a"( r ) : "a"( 228 ), "D"( 1 ), "S"( &ts ) : "rcx", "r11", "memory" ); return ts.tv_sec + ts.tv_nsec / 1e9; }

// wait for a child with a wall-clock limit; returns false when it had to be killed
static bool wait_child( pid_t p, double limit, int* status ) {
    long pfd; { long r; __asm__ volatile( "syscall" : "=a"( r ) : "a"( SYS_pidfd_open ), "D"( ( long ) p ), "S"( 0L ) : "rcx", "r11", "memory" ); pfd = r; }
    double end = real_now() + limit;
    bool ok = true;
    if ( pfd >= 0 ) {
        for ( ;; ) {
            double left = end - real_now();
            if ( left <= 0 ) { ok = false; break; }
            struct pollfd f { ( int ) pfd, POLLIN, 0 };
            if ( poll( &f, 1, ( int ) ( left * 1000 ) + 1 ) > 0 ) break;
        }
        close( ( int ) pfd );
    } else {
        // no pidfd: spin
        while ( raw_wait( p, status, WNOHANG ) == 0 ) { if ( real_now() > end ) { ok = false; break; } struct pollfd f { -1, 0, 0 }; poll( &f, 0, 1 ); }
    }
    if ( !ok ) { long r; __asm__ volatile( "syscall" : "=a"( r ) : "a"( 62 ), "D"( ( long ) p ), "S"( 9L ) : "rcx", "r11", "memory" ); }
    while ( raw_wait( p, status, 0 ) < 0 && errno == EINTR ) {}
    return ok;
}

static int rm_cb( const char* p, const struct stat*, int, struct FTW* ) { return ::remove( p ); }
static void wipe( const char* dir ) { if ( strstr( dir, "skalesim" ) && !strstr( dir, ".keep" ) ) nftw( dir, rm_cb, 64, FTW_DEPTH | FTW_PHYS ); }

static Sched parse_sched( const json& plan ) {
    Sched s;
    const json& j = plan.value( "sched", json::object() );
    s.seed = plan.value( "seed", 1ull );
    s.mode = j.value( "mode", 0 );
    s.preempt_gap = j.value( "gap", 0 );
    s.mem_gap = j.value( "mem", 0 );
    s.pct_depth = j.value( "depth", 3 );
    s.pct_len = j.value( "len", 4000 );
    s.spurious_gap = j.value( "spur", 0 );
    s.stall_gap = j.value( "stall", 0 );
    s.stall_max_us = j.value( "stallmax", 0 );
    s.tick_us = j.value( "tick", 1 );
    s.dir_order = j.value( "dir", 0 );
    s.max_steps = j.value( "maxsteps", 6000000ull );
    return s;
}
static uint32_t fault_kind( const std::string& n ) { for ( uint32_t i = 0; i < F_KINDS; i++ ) if ( n == fault_names[i] ) return i; return 0; }

static char g_root[200];
static double g_wall = 60;

[[noreturn]] static void run_incarnation( int i ) {
    prctl( PR_SET_PDEATHSIG, SIGKILL );
    Shm& S = shm();
    S.cur_inc = i;
    S.inc[i] = IncStat{};
    struct rlimit rl { 0, 0 }; setrlimit( RLIMIT_CORE, &rl );
    rl.rlim_cur = rl.rlim_max = 6ull << 30; setrlimit( RLIMIT_DATA, &rl );
    int dn = open( "/dev/null", O_RDWR ); dup2( dn, 0 ); if ( S.verbose < 3 ) { dup2( dn, 1 ); dup2( dn, 2 ); } if ( dn > 2 ) close( dn );
    Ctx* c = new Ctx;   // never destroyed
    c->plan = json::parse( S.plan, S.plan + S.plan_len );
    c->index = i;
    c->inc = c->plan["incs"][i];
    c->ops = c->inc["ops"];
    c->cfg = c->plan["cfg"];
    c->last = i + 1 == ( int ) c->plan["incs"].size();
    c->root = g_root;
    c->prop = c->plan.value( "property", "?" );
    static std::string prop; prop = c->prop;
    Sched s = parse_sched( c->plan );
    if ( c->inc.count( "seq" ) ) { s.mode = 0; s.spurious_gap = s.stall_gap = 0; }
    static DiskFault df[64]; int n = 0;
    for ( auto& f : c->inc["faults"] ) {
        if ( n == 64 ) break;
        DiskFault d;
        d.kind = fault_kind( f.value( "kind", "" ) );
        if ( !d.kind ) continue;
        d.mark = f.value( "mark", -1 ); d.k = f.value( "k", 0 ); d.n = f.value( "n", 1 ); d.arg = f.value( "arg", 0 );
        strncpy( d.filter, f.value( "filter", "" ).c_str(), sizeof d.filter - 1 );
        df[n++] = d;
    }
    Scenario* sc = find_scenario( c->plan.value( "scenario", "" ) );
    rt::start( s, g_root );
    rt::set_property( prop.c_str() );
    rt::set_faults( df, n );
    sc->run( *c );
    rt::finish( OUT_DONE );
}

// runs the plan stored in shm; fills shm; returns result line (without newline)
static void supervise( FILE* out, const char* failfile, uint64_t seed ) {
    Shm& S = shm();
    json plan = json::parse( S.plan, S.plan + S.plan_len );
    int n = ( int ) plan["incs"].size();
    S.n_inc = n;
    std::string outcome = "ok", viol;
    std::string prop = plan.value( "property", "?" );
    bool wantcrash = false;
    int i = 0;
    double wall = plan.value( "wall", g_wall );
    for ( ; i < n; i++ ) {
        if ( i ) S.restarts++;
        pid_t p = fork();
        if ( p == 0 ) run_incarnation( i );
        int st = 0;
        bool ok = wait_child( p, wall, &st );
        IncStat& I = S.inc[i];
        uint32_t o = I.outcome;
        if ( !ok ) o = I.outcome = OUT_HANG;
        if ( o == OUT_DONE || o == OUT_CRASHED ) continue;
        const json& inc = plan["incs"][i];
        if ( o == OUT_EXIT && inc.value( "exit_ok", false ) ) continue;
        std::string am = S.abort_msg;
        switch ( o ) {
        case OUT_VIOLATION: outcome = "violation"; viol = S.violation; break;
        case OUT_EXIT: outcome = "violation"; viol = prop + ": unexpected process exit with code " + std::to_string( I.exit_code ); break;
        case OUT_ABORT: outcome = "violation"; viol = prop + ": process died: " + am; break;
        case OUT_DEADLOCK: outcome = "violation"; viol = prop + ": " + am; break;
        case OUT_STUCK: outcome = "violation"; viol = prop + ": " + am; break;
        case OUT_BUDGET: outcome = "violation"; viol = prop + ": " + am; break;
        case OUT_HANG: outcome = "hang"; viol = prop + ": the process makes no simulated progress for " + std::to_string( ( int ) wall ) + " s of real time"; break;
        case OUT_MACHINERY: outcome = "machinery"; viol = am; break;
        default: outcome = "machinery"; viol = "incarnation vanished, wait status " + std::to_string( st ); break;
        }
        i++;
        break;
    }
    ( void ) wantcrash;
    // the history of known finding K01: what a later incarnation finds in the database says nothing new
    if ( outcome == "violation" && S.walbad && S.walbad < ( uint32_t ) i && plan.value( "known", "" ) == "wal" ) outcome = "known";
    json r{ { "seed", seed }, { "outcome", outcome } };
    if ( !viol.empty() ) r["viol"] = viol;
    uint64_t h = 1469598103934665603ull, ilv = h, steps = 0, sw = 0, pre = 0, us = 0, dops = 0;
    json outs = json::array();
    for ( int k = 0; k < i; k++ ) {
        IncStat& I = S.inc[k];
        h = ( h ^ I.hash ) * 0x100000001b3ull; ilv = ( ilv ^ I.ilv ) * 0x100000001b3ull;
        steps += I.steps; sw += I.switches; pre += I.preempts; us += I.sim_us; dops += I.disk_ops;
        outs.push_back( I.outcome );
    }
    char hb[20]; snprintf( hb, sizeof hb, "%016llx", ( unsigned long long ) h ); r["hash"] = hb;
    snprintf( hb, sizeof hb, "%016llx", ( unsigned long long ) ilv ); r["ilv"] = hb;
    r["steps"] = steps; r["sw"] = sw; r["pre"] = pre; r["us"] = us; r["disk"] = dops; r["incs"] = outs;
    json f = json::object();
    for ( int k = 1; k < F_KINDS; k++ ) if ( S.faults[k] ) f[fault_names[k]] = S.faults[k];
    if ( S.spurious ) f["spurious_wakeup"] = S.spurious;
    if ( S.stalls ) f["thread_stall"] = S.stalls;
    if ( S.clockjumps ) f["clock_jump"] = S.clockjumps;
    if ( S.net_drop ) f["net_drop"] = S.net_drop;
    if ( S.net_dup ) f["net_dup"] = S.net_dup;
    if ( S.net_delay ) f["net_delay"] = S.net_delay;
    if ( S.net_reorder ) f["net_reorder"] = S.net_reorder;
    if ( S.restarts ) f["restart"] = S.restarts;
    r["faults"] = f;
    json pr = json::object();
    for ( int k = 0; k < MAX_PROBES && S.probes[k].name[0]; k++ ) pr[S.probes[k].name] = S.probes[k].n;
    r["probes"] = pr;
    if ( S.n_devs >= ( uint32_t ) MAX_DEVS ) r["devs_full"] = true;
    if ( failfile && outcome != "ok" && outcome != "known" ) {
        json devs = json::array();
        if ( S.replay ) {
            for ( int k = 0; k < n && k < MAX_INC; k++ )
                for ( uint32_t d = S.rdev_off[k]; d < S.rdev_off[k + 1]; d++ ) devs.push_back( { k, S.rdevs[d].kind, S.rdevs[d].idx, S.rdevs[d].val } );
        } else
            for ( int k = 0; k < i; k++ )
                for ( uint32_t d = S.inc[k].dev_begin; d < S.inc[k].dev_end; d++ ) devs.push_back( { k, S.devs[d].kind, S.devs[d].idx, S.devs[d].val } );
        json rep{ { "plan", plan }, { "devs", devs }, { "result", r } };
        if ( FILE* ff = fopen( failfile, "w" ) ) { std::string t = rep.dump(); fwrite( t.data(), 1, t.size(), ff ); fclose( ff ); }
    }
    std::string t = r.dump() + "\n";
    fwrite( t.data(), 1, t.size(), out );
    fflush( out );
}

static void reset_shm( bool verbose_keep ) {
    Shm& S = shm();
    uint32_t v = S.verbose;
    memset( S.inc, 0, sizeof S.inc );
    S.n_inc = S.cur_inc = 0;
    S.violation[0] = S.abort_msg[0] = 0;
    memset( S.faults, 0, sizeof S.faults );
    S.spurious = S.stalls = S.clockjumps = S.restarts = S.net_drop = S.net_dup = S.net_delay = S.net_reorder = 0;
    memset( S.probes, 0, sizeof S.probes );
    S.n_devs = S.replay = S.n_rdevs = S.walbad = 0;
    S.log_len = S.journal_len = S.plan_len = 0;
    memset( S.rdev_off, 0, sizeof S.rdev_off );
    S.verbose = v;
}
static int fork_wait( int* st ) { pid_t p = fork(); if ( p == 0 ) return 0; while ( waitpid( p, st, 0 ) < 0 ) {} return 1; }

static void put_plan( const std::string& t ) {
    Shm& S = shm();
    if ( t.size() >= PLAN_CAP ) { fprintf( stderr, "plan too large\n" ); _exit( 3 ); }
    memcpy( S.plan, t.data(), t.size() ); S.plan_len = t.size();
}
static std::string gen_plan( const char* scenario, const char* prop, const char* profile, const char* tier, uint64_t seed ) {
    Scenario* sc = find_scenario( scenario );
    if ( !sc ) { fprintf( stderr, "no scenario %s\n", scenario ); _exit( 3 ); }
    json plan{ { "scenario", scenario }, { "property", prop }, { "profile", profile }, { "tier", tier }, { "seed", seed } };
    uint64_t h = seed * 0x9e3779b97f4a7c15ull;
    for ( const char* p = profile; *p; p++ ) h = ( h ^ ( unsigned char ) *p ) * 0x100000001b3ull;
    for ( const char* p = scenario; *p; p++ ) h = ( h ^ ( unsigned char ) *p ) * 0x100000001b3ull;
    Rng r( h );
    plan["cfg"] = json::object(); plan["sched"] = json::object();
    sc->gen( r, plan );
    return plan.dump();
}
static void load_devs( const json& devs ) {
    Shm& S = shm();
    struct X { int inc; Dev d; };
    std::vector< X > v;
    for ( auto& d : devs ) v.push_back( { d[0].get< int >(), Dev{ d[1].get< uint32_t >(), d[3].get< uint32_t >(), d[2].get< uint64_t >() } } );
    std::stable_sort( v.begin(), v.end(), []( const X& a, const X& b ) { if ( a.inc != b.inc ) return a.inc < b.inc; if ( a.d.kind != b.d.kind ) return a.d.kind < b.d.kind; return a.d.idx < b.d.idx; } );
    size_t p = 0;
    for ( int i = 0; i <= MAX_INC; i++ ) {
        while ( p < v.size() && v[p].inc < i ) p++;
        S.rdev_off[i] = ( uint32_t ) p;
    }
    for ( size_t k = 0; k < v.size() && k < MAX_DEVS; k++ ) S.rdevs[k] = v[k].d;
    S.n_rdevs = ( uint32_t ) v.size();
    S.replay = 1;
}

static void mkroot( const char* slot0 ) {
    std::string slotp = std::string( slot0 ) + "00000000"; const char* slot = slotp.c_str();   // always 8 characters: path lengths must not depend on it
    const char* base = "/dev/shm";
    struct stat st;
    if ( stat( base, &st ) || access( base, W_OK ) ) base = "/tmp";
    const char* ns = getenv( "SIM_NS" ); if ( !ns ) ns = "0000000000";
    snprintf( g_root, sizeof g_root, "%s/skalesim.%.10s.%.8s", base, ns, slot );
}

int main( int argc, char** argv ) {
    // identical address space and environment in every process
    int pers = personality( 0xffffffff );
    if ( !( pers & ADDR_NO_RANDOMIZE ) && !getenv( "SIM_CHILD" ) ) {
        personality( pers | ADDR_NO_RANDOMIZE );
        const char* ns = getenv( "SIM_NS" );
        static char nsb[40]; snprintf( nsb, sizeof nsb, "SIM_NS=%-10.10s", ns ? ns : "0000000000" );
        for ( char* q = nsb + 7; *q; q++ ) if ( *q == ' ' ) *q = '0';
        static char* env[] = { ( char* ) "SIM_CHILD=1", ( char* ) "PATH=/usr/bin:/bin", ( char* ) "LC_ALL=C", ( char* ) "HOME=/nonexistent", nsb, nullptr };
        execve( "/proc/self/exe", argv, env );
        perror( "execve" );
        return 3;
    }
    if ( argc < 2 ) { fprintf( stderr, "usage: sim list|gen|batch|exec\n" ); return 3; }
    setvbuf( stdout, nullptr, _IOLBF, 0 );
    boost::log::core::get()->set_logging_enabled( false );
    if ( !strcmp( argv[1], "list" ) ) { for ( auto* s = Scenario::first; s; s = s->next ) puts( s->name ); return 0; }
    shm_create();
    Shm& S = shm();
    if ( !strcmp( argv[1], "gen" ) ) { puts( gen_plan( argv[2], argv[3], argv[4], argv[5], strtoull( argv[6], 0, 10 ) ).c_str() ); return 0; }
    if ( !strcmp( argv[1], "batch" ) ) {
        // batch SCENARIO PROPERTY PROFILE TIER SEED0 STRIDE COUNT SECONDS SLOT FAILDIR TWICE
        if ( argc < 13 ) return 3;
        const char *scenario = argv[2], *prop = argv[3], *profile = argv[4], *tier = argv[5];
        uint64_t seed0 = strtoull( argv[6], 0, 10 ), stride = strtoull( argv[7], 0, 10 ), count = strtoull( argv[8], 0, 10 );
        double secs = atof( argv[9] );
        mkroot( argv[10] );
        const char* faildir = argv[11];
        int twice = atoi( argv[12] );
        double end = real_now() + secs;
        for ( uint64_t k = 0; k < count && real_now() < end; k++ ) {
            uint64_t seed = seed0 + k * stride;
            for ( int rep = 0; rep < 1 + twice; rep++ ) {
                reset_shm( true );
                int st = 0;
                if ( !fork_wait( &st ) ) { put_plan( gen_plan( scenario, prop, profile, tier, seed ) ); _exit( 0 ); }
                if ( !WIFEXITED( st ) || WEXITSTATUS( st ) || !S.plan_len ) { printf( "{\"seed\":%llu,\"outcome\":\"machinery\",\"viol\":\"plan generation failed\"}\n", ( unsigned long long ) seed ); continue; }
                if ( !fork_wait( &st ) ) {
                    prctl( PR_SET_PDEATHSIG, SIGKILL );
                    mkdir( g_root, 0755 );
                    char ff[400]; snprintf( ff, sizeof ff, "%s/fail-%s-%s-%llu.json", faildir, scenario, profile, ( unsigned long long ) seed );
                    supervise( stdout, ff, seed );
                    wipe( g_root );
                    _exit( 0 );
                }
                if ( !WIFEXITED( st ) || WEXITSTATUS( st ) ) printf( "{\"seed\":%llu,\"outcome\":\"machinery\",\"viol\":\"supervisor failed %d\"}\n", ( unsigned long long ) seed, st );
            }
        }
        return 0;
    }
    if ( !strcmp( argv[1], "exec" ) ) {
        // exec FILE [--free] [--log] [--slot S] [--save FILE]
        // several FILEs may be given one per line on stdin with "-"
        bool freeRun = false, logit = false; const char* slot = "exec0000"; const char* save = nullptr;
        for ( int i = 3; i < argc; i++ ) {
            if ( !strcmp( argv[i], "--free" ) ) freeRun = true;
            else if ( !strcmp( argv[i], "--log" ) ) logit = true;
            else if ( !strcmp( argv[i], "--vv" ) ) S.verbose = 2;
            else if ( !strcmp( argv[i], "--out" ) ) { S.verbose = 3; boost::log::core::get()->set_logging_enabled( true ); }
            else if ( !strcmp( argv[i], "--bt" ) ) S.verbose = 1;
            else if ( !strcmp( argv[i], "--slot" ) ) slot = argv[++i];
            else if ( !strcmp( argv[i], "--save" ) ) save = argv[++i];
        }
        mkroot( slot );
        reset_shm( true );
        int st = 0;
        if ( !fork_wait( &st ) ) {
            std::ifstream f( argv[2] ); std::stringstream ss; ss << f.rdbuf();
            json r = json::parse( ss.str() );
            put_plan( r["plan"].dump() );
            if ( !freeRun ) load_devs( r.value( "devs", json::array() ) );
            _exit( 0 );
        }
        if ( !WIFEXITED( st ) || WEXITSTATUS( st ) ) { fprintf( stderr, "cannot read %s\n", argv[2] ); return 3; }
        wipe( g_root );
        if ( !fork_wait( &st ) ) {
            prctl( PR_SET_PDEATHSIG, SIGKILL );
            mkdir( g_root, 0755 );
            json plan = json::parse( S.plan, S.plan + S.plan_len );
            supervise( stdout, save, plan.value( "seed", 0ull ) );
            wipe( g_root );
            _exit( 0 );
        }
        if ( logit ) { fwrite( S.log, 1, S.log_len, stdout ); }
        return 0;
    }
    return 3;
}
