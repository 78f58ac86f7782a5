// simrt implementation.  See rt.h.  Nothing in here may call an interposed function while the simulation is active,
// except through the raw_* helpers below.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dirent.h>
#include <dlfcn.h>
#include <exception>
#include <execinfo.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <algorithm>
#include <map>
#include <random>
#include <vector>
#include <semaphore.h>
#include <stdarg.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/uio.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>

#pragma GCC diagnostic ignored "-Wunused-result"

// ------------------------------------------------------------------ raw system calls
static inline long raw6( long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0 ) {
    register long r10 __asm__( "r10" ) = d;
    register long r8 __asm__( "r8" ) = e;
    register long r9 __asm__( "r9" ) = f;
    long ret;
    __asm__ volatile( "syscall" : "=a"( ret ) : "a"( n ), "D"( a ), "S"( b ), "d"( c ), "r"( r10 ), "r"( r8 ), "r"( r9 ) : "rcx", "r11", "memory" );
    return ret;
}
static inline long ret_errno( long r ) {
    if ( r < 0 && r > -4096 ) { errno = ( int ) -r; return -1; }
    return r;
}
#define RAW( ... ) ret_errno( raw6( __VA_ARGS__ ) )
static void raw_futex_wait( volatile int* a, int v ) { raw6( SYS_futex, ( long ) a, FUTEX_WAIT_PRIVATE, v ); }
static void raw_futex_wake( volatile int* a ) { raw6( SYS_futex, ( long ) a, FUTEX_WAKE_PRIVATE, 1 ); }

namespace rt {

const char* const fault_names[F_KINDS] = { "none", "crash", "torn_write_crash", "eio", "enospc", "short_write", "slow_disk" };

// ------------------------------------------------------------------ state
enum BlockKind : int { B_NONE, B_MUTEX, B_COND, B_JOIN, B_FUTEX, B_SLEEP, B_RDLOCK, B_WRLOCK, B_SEM, B_ONCE, B_POLL, B_PRED, B_TOKEN };
static const char* const block_names[] = { "running", "mutex", "condvar", "join", "futex", "sleep", "rdlock", "wrlock", "sem", "once", "poll", "predicate", "token" };
enum TState : int { T_FREE, T_LIVE, T_EXITED, T_JOINED };

struct PollReq { int epfd; struct pollfd* fds; int nfds; struct pollfd one; };

struct Thread {
    volatile int go;
    TState state;
    int id;
    pthread_t pt;
    bool have_pt, detached, reaped;
    volatile int* ktid;
    void* ( *fn )( void* );
    void* arg;
    BlockKind bk;
    void* obj;
    bool woken;          // cond signalled / futex woken
    bool timed_out;
    uint64_t deadline;   // us in its clock, 0: none
    bool deadline_wall;
    bool ( *pred )( void* );
    void* pred_arg;
    PollReq pr;
    uint64_t fdgen_seen;
    uint64_t prio;       // PCT
    uint64_t seq;        // wait order
    int key_rounds;
    uint64_t run_since;  // step when it was last switched in
    char name[24];
    const char* why;
    void* bt[24];
    int nbt;
};

static constexpr int MAXT = 1024;
static Thread T[MAXT];
static int nT = 0;
static __thread int tself __attribute__( ( tls_model( "initial-exec" ) ) ) = -1;

static struct {
    bool active;
    bool stopping;
    int cur;
    int nopreempt;
    Sched s;
    uint64_t now;          // us
    int64_t wall_off;      // us to add to now for the wall clock
    uint64_t steps, memcnt, switches, preempts, hash, ilv;
    uint64_t rs, ra, rm, rp;    // prng states: scheduling, application, mem, spurious/stalls
    uint64_t next_preempt, next_mem, next_spur, next_stall;
    uint64_t pct_points[16];
    int npct;
    uint64_t fdgen;
    uint64_t seq;
    uint64_t disk_ops, mark_ops;
    int mark_id;
    DiskFault faults[64];
    int nfaults;
    char root[256];
    size_t rootlen;
    bool root_on;
    uint64_t wd_deadline;
    const char* wd_what;
    ExitHook exit_hook;
    const char* prop;
    int last_exited;
    bool replay;
    const Dev* rd[D_KINDS];    // replay cursors (sorted by idx), per kind arrays
    const Dev* rd_end[D_KINDS];
    pthread_key_t key;
    int inc;
} G;

static Shm* g_shm = nullptr;
Shm& shm() { return *g_shm; }
void shm_create() {
    void* p = mmap( ( void* ) 0x7c0000000000, sizeof( Shm ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0 );
    if ( p == MAP_FAILED ) { perror( "mmap shm" ); _exit( 3 ); }
    g_shm = ( Shm* ) p;
    g_shm->magic = 0x51ed;
}

static inline uint64_t mix64( uint64_t z ) {
    z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ULL;
    z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebULL;
    return z ^ ( z >> 31 );
}
static inline uint64_t rnd( uint64_t& s ) { return mix64( s += 0x9e3779b97f4a7c15ULL ); }
static inline void hmix( uint64_t v ) { G.hash = ( G.hash ^ v ) * 0x100000001b3ULL; G.hash ^= G.hash >> 29; }
// geometric-ish gap with the given mean
static inline uint64_t gap( uint64_t& s, uint32_t mean ) {
    if ( mean <= 1 ) return 1;
    return 1 + rnd( s ) % ( 2ull * mean - 1 );
}

bool active() { return G.active && tself >= 0; }
uint64_t now_us() { return G.now; }
int64_t wall_us() { return ( int64_t ) G.now + G.wall_off; }
uint64_t step() { return G.steps; }
int self() { return tself; }
uint64_t disk_ops() { return G.disk_ops; }
int cur_mark() { return G.mark_id; }
void set_exit_hook( ExitHook h ) { G.exit_hook = h; }
void set_property( const char* p ) { G.prop = p; }
const char* property() { return G.prop ? G.prop : "?"; }
NoPreempt::NoPreempt() { G.nopreempt++; }
NoPreempt::~NoPreempt() { G.nopreempt--; }
void set_root_enabled( bool on ) { G.root_on = on; }

static void vlog( const char* fmt, va_list ap ) {
    Shm& S = *g_shm;
    char buf[1500];
    int h = snprintf( buf, sizeof buf, "[%u %llu t=%llu.%06llu T%d] ", S.cur_inc, ( unsigned long long ) G.steps,
        ( unsigned long long ) ( G.now / 1000000 ), ( unsigned long long ) ( G.now % 1000000 ), tself );
    int n = vsnprintf( buf + h, sizeof buf - h - 1, fmt, ap );
    if ( n < 0 ) return;
    n = h + n;
    if ( n > ( int ) sizeof buf - 2 ) n = sizeof buf - 2;
    buf[n++] = '\n';
    for ( int i = 0; i < n; i++ ) G.hash = ( G.hash ^ ( unsigned char ) buf[i] ) * 0x100000001b3ULL;
    if ( S.log_len + n < LOG_CAP ) { memcpy( S.log + S.log_len, buf, n ); S.log_len += n; }
}
void log( const char* fmt, ... ) {
    va_list ap; va_start( ap, fmt ); vlog( fmt, ap ); va_end( ap );
}
void observe( const void* p, size_t n ) { for ( size_t i = 0; i < n; i++ ) hmix( ( ( const unsigned char* ) p )[i] ); }
void observe( const std::string& s ) { observe( s.data(), s.size() ); }
void probe( const char* name, uint64_t n ) {
    Shm& S = *g_shm;
    for ( int i = 0; i < MAX_PROBES; i++ ) {
        if ( !S.probes[i].name[0] ) { strncpy( S.probes[i].name, name, sizeof( S.probes[i].name ) - 1 ); S.probes[i].n = n; return; }
        if ( !strncmp( S.probes[i].name, name, sizeof( S.probes[i].name ) - 1 ) ) { S.probes[i].n += n; return; }
    }
}

// ------------------------------------------------------------------ end of an incarnation
static void save_stats( Outcome o, int code ) {
    Shm& S = *g_shm;
    IncStat& I = S.inc[G.inc];
    I.outcome = o; I.exit_code = code; I.steps = G.steps; I.switches = G.switches; I.sim_us = G.now; I.disk_ops = G.disk_ops;
    I.preempts = G.preempts; I.hash = G.hash; I.ilv = G.ilv; I.dev_end = S.n_devs;
}
[[noreturn]] static void die( Outcome o, int code ) {
    save_stats( o, code );
    raw6( SYS_exit_group, 100 + o );
    __builtin_unreachable();
}
void finish( Outcome o, int code ) { die( o, code ); }
static void set_msg( char* dst, size_t cap, const char* fmt, va_list ap, const char* prefix ) {
    if ( dst[0] ) return;
    int h = snprintf( dst, cap, "%s", prefix );
    vsnprintf( dst + h, cap - h, fmt, ap );
}
void violation( const char* prop, const char* fmt, ... ) {
    char pre[64]; snprintf( pre, sizeof pre, "%s: ", prop );
    va_list ap; va_start( ap, fmt ); set_msg( g_shm->violation, sizeof g_shm->violation, fmt, ap, pre ); va_end( ap );
    log( "VIOLATION %s", g_shm->violation );
    die( OUT_VIOLATION, 0 );
}
static void abort_msg( const char* fmt, ... ) { va_list ap; va_start( ap, fmt ); set_msg( g_shm->abort_msg, sizeof g_shm->abort_msg, fmt, ap, "" ); va_end( ap ); }
void crash_now( const char* why ) { log( "CRASH %s", why ); die( OUT_CRASHED, 0 ); }

static void describe( Thread& t, std::string& o ) {
    char b[200];
    snprintf( b, sizeof b, "  T%d '%s' %s obj=%p%s%s dl=%llu", t.id, t.name, t.state == T_LIVE ? block_names[t.bk] : "exited", t.obj, t.why ? " " : "", t.why ? t.why : "", ( unsigned long long ) t.deadline );
    o += b;
    if ( t.bk == B_MUTEX && t.obj ) { snprintf( b, sizeof b, " held by T%d", ( ( pthread_mutex_t* ) t.obj )->__data.__owner - 1 ); o += b; }
    o += "\n";
    if ( t.nbt > 0 ) {
        char** sy = backtrace_symbols( t.bt, t.nbt );
        for ( int i = 2; sy && i < t.nbt; i++ ) {
            std::string s = sy[i];
            auto l = s.find( '(' ), r = s.find( '+', l == std::string::npos ? 0 : l );
            if ( l != std::string::npos && r != std::string::npos && r > l + 1 ) {
                std::string m = s.substr( l + 1, r - l - 1 );
                int st = 0; char* d = abi::__cxa_demangle( m.c_str(), 0, 0, &st );
                s = d ? d : m;
            }
            o += "      " + s.substr( 0, 160 ) + "\n";
        }
    }
}
std::string thread_dump() {
    std::string o;
    G.nopreempt++;
    for ( int i = 0; i < nT; i++ ) if ( T[i].state == T_LIVE ) describe( T[i], o );
    G.nopreempt--;
    return o;
}
static void log_dump() {
    std::string d = thread_dump();
    size_t p = 0;
    while ( p < d.size() ) { size_t q = d.find( '\n', p ); if ( q == std::string::npos ) q = d.size(); log( "%s", d.substr( p, q - p ).c_str() ); p = q + 1; }
}

// ------------------------------------------------------------------ deviations
static inline void rec_dev( uint32_t kind, uint64_t idx, uint32_t val ) {
    Shm& S = *g_shm;
    if ( S.n_devs < ( uint32_t ) MAX_DEVS ) { Dev& d = S.devs[S.n_devs++]; d.kind = kind; d.idx = idx; d.val = val; }
}
static inline uint32_t replay_val( int kind, uint64_t idx ) {
    while ( G.rd[kind] < G.rd_end[kind] && G.rd[kind]->idx < idx ) G.rd[kind]++;
    if ( G.rd[kind] < G.rd_end[kind] && G.rd[kind]->idx == idx ) return ( G.rd[kind]++ )->val;
    return 0;
}

// ------------------------------------------------------------------ runnable?
static bool poll_ready( Thread& t );
static inline uint64_t dl_mono( const Thread& t ) {
    if ( !t.deadline ) return UINT64_MAX;
    if ( !t.deadline_wall ) return t.deadline;
    int64_t m = ( int64_t ) t.deadline - G.wall_off;
    return m < 1 ? 1 : ( uint64_t ) m;
}
static bool runnable( Thread& t ) {
    if ( t.state != T_LIVE ) return false;
    switch ( t.bk ) {
    case B_NONE: return true;
    case B_MUTEX: if ( ( ( pthread_mutex_t* ) t.obj )->__data.__lock == 0 ) return true; break;
    case B_COND: case B_FUTEX: case B_TOKEN: if ( t.woken ) return true; break;
    case B_JOIN: { Thread& o = *( Thread* ) t.obj; if ( o.state != T_LIVE ) return true; break; }
    case B_SLEEP: break;
    case B_RDLOCK: { pthread_rwlock_t* l = ( pthread_rwlock_t* ) t.obj; if ( l->__data.__writers == 0 ) return true; break; }
    case B_WRLOCK: { pthread_rwlock_t* l = ( pthread_rwlock_t* ) t.obj; if ( l->__data.__writers == 0 && l->__data.__readers == 0 ) return true; break; }
    case B_SEM: if ( *( volatile int* ) t.obj > 0 ) return true; break;
    case B_ONCE: if ( *( volatile int* ) t.obj != 1 ) return true; break;
    case B_POLL: if ( poll_ready( t ) ) return true; break;
    case B_PRED: if ( t.pred( t.pred_arg ) ) return true; break;
    }
    return t.deadline && dl_mono( t ) <= G.now;
}

[[noreturn]] static void deadlock() {
    log( "DEADLOCK: no thread can run and no timer is pending" );
    log_dump();
    abort_msg( "deadlock: no thread can run and no timer is pending\n%s", thread_dump().c_str() );
    die( OUT_DEADLOCK, 0 );
}
static void check_limits() {
    if ( G.steps > G.s.max_steps ) {
        log( "BUDGET" ); log_dump();
        abort_msg( "step budget %llu exhausted\n%s", ( unsigned long long ) G.s.max_steps, thread_dump().c_str() );
        die( OUT_BUDGET, 0 );
    }
    if ( G.wd_deadline && G.now > G.wd_deadline ) {
        const char* w = G.wd_what; G.wd_deadline = 0;
        log( "STUCK %s", w ); log_dump();
        abort_msg( "no progress within the simulated-time bound: %s\n%s", w, thread_dump().c_str() );
        die( OUT_STUCK, 0 );
    }
}

// pick a thread to run.  self_ok: the current thread may continue.  forced: it should not (yield)
static int pick( int cur, bool self_ok, bool yield ) {
    for ( ;; ) {
        int cand[MAXT], nc = 0;
        // candidates in cyclic order after cur
        for ( int i = 1; i <= nT; i++ ) {
            int k = ( cur + i ) % nT;
            if ( k == cur ) { if ( self_ok ) continue; if ( !runnable( T[k] ) ) continue; cand[nc++] = k; continue; }
            if ( runnable( T[k] ) ) cand[nc++] = k;
        }
        if ( self_ok ) {
            if ( nc == 0 ) return cur;
            bool starve = G.steps - T[cur].run_since > 20000;
            uint32_t v = 0;
            if ( G.replay ) {
                v = replay_val( D_SCHED, G.steps );
                if ( v > ( uint32_t ) nc ) v = nc;
            } else if ( G.s.mode == 1 ) {
                if ( G.steps >= G.next_preempt ) {
                    v = 1 + rnd( G.rs ) % nc;
                    G.next_preempt = G.steps + gap( G.rs, G.s.preempt_gap );
                }
            } else if ( G.s.mode == 2 ) {
                int b = -1;
                for ( int i = 0; i < nc; i++ ) if ( T[cand[i]].prio > T[cur].prio && ( b < 0 || T[cand[i]].prio > T[cand[b]].prio ) ) b = i;
                if ( b >= 0 && !yield ) v = b + 1;
            }
            if ( starve || yield ) {
                if ( v == 0 ) return cand[0];       // deterministic rule, not a deviation
            }
            if ( v ) {
                if ( !G.replay ) rec_dev( D_SCHED, G.steps, v );
                G.preempts++;
                return cand[v - 1];
            }
            return cur;
        }
        if ( nc ) {
            uint32_t v = 0;
            if ( nc > 1 ) {
                if ( G.replay ) v = replay_val( D_SCHED, G.steps ) % nc;
                else if ( G.s.mode == 1 ) v = rnd( G.rs ) % nc;
                else if ( G.s.mode == 2 ) { for ( int i = 1; i < nc; i++ ) if ( T[cand[i]].prio > T[cand[v]].prio ) v = i; }
                if ( v && !G.replay ) rec_dev( D_SCHED, G.steps, v );
            }
            return cand[v];
        }
        // nothing can run: jump to the earliest deadline
        uint64_t best = UINT64_MAX;
        for ( int i = 0; i < nT; i++ ) if ( T[i].state == T_LIVE && T[i].bk != B_NONE ) { uint64_t d = dl_mono( T[i] ); if ( d < best ) best = d; }
        if ( best == UINT64_MAX ) {
            if ( G.wd_deadline ) { G.now = G.wd_deadline + 1; check_limits(); }
            deadlock();
        }
        if ( G.wd_deadline && best > G.wd_deadline ) { G.now = G.wd_deadline + 1; check_limits(); }
        if ( best > G.now ) G.now = best;
        if ( G.s.max_time_us && G.now > G.s.max_time_us ) { log( "TIME LIMIT" ); abort_msg( "simulated time limit\n%s", thread_dump().c_str() ); die( OUT_BUDGET, 1 ); }
    }
}
static void reap_exited() {
    if ( G.last_exited >= 0 ) {
        Thread& e = T[G.last_exited];
        G.last_exited = -1;
        // wait until the kernel has really finished with it
        int v;
        while ( ( v = *e.ktid ) != 0 ) raw6( SYS_futex, ( long ) e.ktid, FUTEX_WAIT, v );
        if ( e.detached ) {
            static int ( *rj )( pthread_t, void** ) = ( int ( * )( pthread_t, void** ) ) dlsym( RTLD_NEXT, "pthread_join" );
            rj( e.pt, nullptr );
            e.state = T_JOINED; e.have_pt = false;
        }
    }
}
static void switch_to( int k ) {
    int me = tself;
    if ( k == me ) return;
    G.switches++;
    G.cur = k;
    G.ilv = ( G.ilv ^ ( uint64_t ) ( k + 1 ) ) * 0x100000001b3ULL; G.ilv ^= G.ilv >> 31;
    hmix( 0x5000 + k );
    T[k].run_since = G.steps;
    T[k].go = 1;
    raw_futex_wake( &T[k].go );
    if ( me < 0 ) return;
    while ( !T[me].go ) raw_futex_wait( &T[me].go, 0 );
    T[me].go = 0;
    reap_exited();
}

static void side_faults() {
    if ( G.replay ) {
        uint32_t v = replay_val( D_STALL, G.steps );
        if ( v ) { G.now += v; g_shm->stalls++; }
        v = replay_val( D_SPUR, G.steps );
        if ( v ) {
            uint32_t c = 0;
            for ( int i = 0; i < nT; i++ ) if ( T[i].state == T_LIVE && T[i].bk == B_COND && !T[i].woken && ++c == v ) { T[i].woken = true; g_shm->spurious++; break; }
        }
        return;
    }
    if ( G.s.stall_gap && G.steps >= G.next_stall ) {
        G.next_stall = G.steps + gap( G.rp, G.s.stall_gap );
        uint32_t v = 1 + rnd( G.rp ) % ( G.s.stall_max_us ? G.s.stall_max_us : 1000 );
        rec_dev( D_STALL, G.steps, v ); G.now += v; g_shm->stalls++;
    }
    if ( G.s.spurious_gap && G.steps >= G.next_spur ) {
        G.next_spur = G.steps + gap( G.rp, G.s.spurious_gap );
        uint32_t c = 0;
        for ( int i = 0; i < nT; i++ ) if ( T[i].state == T_LIVE && T[i].bk == B_COND && !T[i].woken ) c++;
        if ( c ) {
            uint32_t v = 1 + rnd( G.rp ) % c, w = v;
            for ( int i = 0; i < nT; i++ ) if ( T[i].state == T_LIVE && T[i].bk == B_COND && !T[i].woken && --w == 0 ) { T[i].woken = true; break; }
            rec_dev( D_SPUR, G.steps, v ); g_shm->spurious++;
        }
    }
}
enum PK { P_LOCK = 1, P_UNLOCK, P_TRY, P_SIGNAL, P_CREATE, P_EXIT, P_DISK, P_TIME, P_YIELD, P_BLOCK, P_MEM, P_ATOMIC, P_FD, P_USER };
static void sched_point( int kind, bool yield = false ) {
    if ( !G.active || tself < 0 ) return;
    G.steps++;
    G.now += G.s.tick_us;
    hmix( kind * 64 + tself );
    check_limits();
    if ( G.nopreempt ) return;
    side_faults();
    if ( G.npct && G.s.mode == 2 ) for ( int i = 0; i < G.npct; i++ ) if ( G.pct_points[i] == G.steps ) T[tself].prio = G.npct - i;
    switch_to( pick( tself, true, yield ) );
}
void point( const char* ) { sched_point( P_USER ); }

// block the current thread until runnable() holds for it; returns false on timeout
static bool block( BlockKind k, void* obj, uint64_t deadline, bool wall, const char* why = nullptr ) {
    Thread& t = T[tself];
    G.steps++;
    G.now += G.s.tick_us;
    hmix( P_BLOCK * 64 + tself + k * 4096 );
    if ( G.nopreempt ) {
        log_dump();
        abort_msg( "machinery: blocking (%s) inside a no-preempt section", block_names[k] ); die( OUT_MACHINERY, 2 );
    }
    t.bk = k; t.obj = obj; t.deadline = deadline; t.deadline_wall = wall; t.timed_out = false; t.why = why; t.seq = ++G.seq;
    if ( g_shm->verbose ) { G.nopreempt++; t.nbt = backtrace( t.bt, 24 ); G.nopreempt--; }
    check_limits();
    side_faults();
    if ( G.npct && G.s.mode == 2 ) for ( int i = 0; i < G.npct; i++ ) if ( G.pct_points[i] == G.steps ) t.prio = G.npct - i;
    int n = pick( tself, false, false );
    if ( n != tself ) switch_to( n ); else { T[tself].run_since = G.steps; }
    // decide why we run
    bool ok = true;
    if ( t.deadline && dl_mono( t ) <= G.now ) {
        uint64_t d = t.deadline; t.deadline = 0;
        ok = runnable( t );
        t.deadline = d;
    }
    t.bk = B_NONE; t.deadline = 0; t.obj = nullptr; t.why = nullptr;
    t.timed_out = !ok;
    return ok;
}
bool block_until( bool ( *pred )( void* ), void* arg, uint64_t timeout, const char* why ) {
    Thread& t = T[tself];
    t.pred = pred; t.pred_arg = arg;
    return block( B_PRED, nullptr, timeout ? G.now + timeout : 0, false, why );
}
void advance_us( uint64_t us ) { G.now += us; }
void clock_jump_us( int64_t us ) { G.wall_off += us; g_shm->clockjumps++; }
void watchdog( uint64_t us, const char* what ) { G.wd_deadline = us ? G.now + us : 0; G.wd_what = what; }
uint64_t app_random() { return rnd( G.ra ); }
void thread_name( const char* n ) { if ( tself >= 0 ) { strncpy( T[tself].name, n, sizeof( T[tself].name ) - 1 ); } }
int live_threads() { int c = 0; for ( int i = 0; i < nT; i++ ) if ( T[i].state == T_LIVE ) c++; return c; }

void set_faults( const DiskFault* f, int n ) { if ( n > 64 ) n = 64; memcpy( G.faults, f, n * sizeof( DiskFault ) ); G.nfaults = n; }
void mark( int m ) { G.mark_id = m; G.mark_ops = 0; }

// ------------------------------------------------------------------ fatal conditions
static void fatal_signal( int sig, siginfo_t* si, void* ) {
    if ( G.stopping ) _exit( 99 );
    G.stopping = true;
    G.nopreempt++;
    void* bt[40]; int n = backtrace( bt, 40 );
    Thread t{}; t.id = tself; t.state = T_LIVE; memcpy( t.bt, bt, sizeof( void* ) * ( n > 24 ? 24 : n ) ); t.nbt = n > 24 ? 24 : n;
    std::string d; describe( t, d );
    abort_msg( "fatal signal %d (address %p)\n%s", sig, si ? si->si_addr : nullptr, d.c_str() );
    log( "FATAL SIGNAL %d", sig );
    log( "%s", d.substr( 0, 1200 ).c_str() );
    die( OUT_ABORT, sig );
}
static void on_terminate() {
    std::string what = "std::terminate";
    if ( auto* ti = abi::__cxa_current_exception_type() ) {
        int st = 0; char* d = abi::__cxa_demangle( ti->name(), 0, 0, &st );
        what += std::string( ": uncaught " ) + ( d ? d : ti->name() );
        try { throw; } catch ( const std::exception& e ) { what += std::string( " what: " ) + std::string( e.what() ).substr( 0, 600 ); } catch ( ... ) {}
    }
    if ( g_shm && G.active ) { abort_msg( "%s", what.c_str() ); log( "%s", what.c_str() ); }
    abort();
}

static void thread_key_dtor( void* p );

void start( const Sched& s, const char* root ) {
    Shm& S = *g_shm;
    memset( &G.s, 0, sizeof G.s );
    G.s = s;
    G.inc = S.cur_inc;
    G.now = 1000000;
    G.wall_off = 1700000000ll * 1000000ll;
    G.hash = 0xcbf29ce484222325ULL; G.ilv = G.hash;
    uint64_t b = s.seed ^ ( 0x1234567ull * ( G.inc + 1 ) );
    G.rs = mix64( b ); G.ra = mix64( b + 77 ); G.rm = mix64( b + 991 ); G.rp = mix64( b + 5519 );
    G.replay = S.replay != 0;
    S.inc[G.inc].dev_begin = S.n_devs;
    if ( G.replay ) {
        // rdevs of this incarnation are grouped by kind
        const Dev* a = S.rdevs + S.rdev_off[G.inc]; const Dev* e = S.rdevs + S.rdev_off[G.inc + 1];
        for ( int k = 0; k < D_KINDS; k++ ) { G.rd[k] = a; while ( a < e && ( int ) a->kind == k ) a++; G.rd_end[k] = a; }
    }
    G.next_preempt = gap( G.rs, s.preempt_gap ? s.preempt_gap : 1 );
    if ( G.replay ) G.next_mem = G.rd[D_MEM] < G.rd_end[D_MEM] ? G.rd[D_MEM]->idx : UINT64_MAX;
    else G.next_mem = s.mem_gap ? gap( G.rm, s.mem_gap ) : UINT64_MAX;
    G.next_spur = gap( G.rp, s.spurious_gap ? s.spurious_gap : 1 );
    G.next_stall = gap( G.rp, s.stall_gap ? s.stall_gap : 1 );
    G.npct = s.mode == 2 ? ( s.pct_depth > 16 ? 16 : s.pct_depth ) : 0;
    for ( int i = 0; i < G.npct; i++ ) G.pct_points[i] = 1 + rnd( G.rs ) % ( s.pct_len ? s.pct_len : 1000 );
    snprintf( G.root, sizeof G.root, "%s", root ? root : "" );
    G.rootlen = strlen( G.root );
    G.root_on = G.rootlen > 0;
    G.mark_id = -1;
    G.last_exited = -1;
    pthread_key_create( &G.key, thread_key_dtor );
    Thread& t = T[0];
    t = Thread{};
    t.id = 0; t.state = T_LIVE; t.pt = pthread_self(); t.have_pt = true; t.prio = 1000 + rnd( G.rs ) % 1000000; strcpy( t.name, "main" );
    nT = 1; tself = 0; G.cur = 0;
    struct sigaction sa; memset( &sa, 0, sizeof sa ); sa.sa_sigaction = fatal_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    static char alt[65536]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack( &ss, nullptr );
    for ( int sg : { SIGSEGV, SIGBUS, SIGILL, SIGFPE } ) sigaction( sg, &sa, nullptr );
    std::set_terminate( on_terminate );
    { void* w[4]; backtrace( w, 4 ); }   // load libgcc now
    G.active = true;
}

// ------------------------------------------------------------------ threads
static int ( *real_create )( pthread_t*, const pthread_attr_t*, void* ( * )( void* ), void* );
static int ( *real_join )( pthread_t, void** );
static void* trampoline( void* p ) {
    Thread& t = *( Thread* ) p;
    tself = t.id;
    t.ktid = ( volatile int* ) ( ( char* ) pthread_self() + 720 );
    while ( !t.go ) raw_futex_wait( &t.go, 0 );
    t.go = 0;
    if ( *t.ktid != ( int ) raw6( SYS_gettid ) ) { abort_msg( "machinery: unexpected struct pthread layout" ); die( OUT_MACHINERY, 3 ); }
    reap_exited();
    pthread_setspecific( G.key, &t );
    return t.fn( t.arg );
}
static void thread_key_dtor( void* p ) {
    Thread& t = *( Thread* ) p;
    if ( ++t.key_rounds < 3 ) { pthread_setspecific( G.key, p ); return; }
    // last thing this thread does: hand the token over
    G.steps++;
    hmix( P_EXIT * 64 + t.id );
    t.state = T_EXITED;
    t.bk = B_NONE;
    int n = pick( t.id, false, false );
    G.last_exited = t.id;
    tself = -1;
    switch_to( n );
}
static Thread* find( pthread_t p ) {
    for ( int i = nT - 1; i >= 0; i-- ) if ( T[i].have_pt && T[i].pt == p ) return &T[i];
    return nullptr;
}
static int alloc_thread() {
    for ( int i = 1; i < nT; i++ ) if ( T[i].state == T_JOINED ) { T[i] = Thread{}; T[i].id = i; return i; }
    if ( nT >= MAXT ) { abort_msg( "machinery: too many threads" ); die( OUT_MACHINERY, 4 ); }
    T[nT] = Thread{}; T[nT].id = nT;
    return nT++;
}

// ------------------------------------------------------------------ mutexes
static inline bool m_rec( pthread_mutex_t* m ) { return ( m->__data.__kind & 3 ) == PTHREAD_MUTEX_RECURSIVE; }
static int mtx_lock( pthread_mutex_t* m, bool timed, uint64_t dl, bool wall ) {
    int me = tself + 1;
    if ( m->__data.__lock && m->__data.__owner == me ) {
        if ( m_rec( m ) ) { m->__data.__count++; return 0; }
        if ( ( m->__data.__kind & 3 ) == PTHREAD_MUTEX_ERRORCHECK ) return EDEADLK;
    }
    sched_point( P_LOCK );
    while ( m->__data.__lock ) {
        if ( !block( B_MUTEX, m, timed ? ( dl ? dl : 1 ) : 0, wall ) ) { if ( m->__data.__lock ) return ETIMEDOUT; }
    }
    m->__data.__lock = 1; m->__data.__owner = me; m->__data.__count = 1;
    return 0;
}
static int mtx_unlock( pthread_mutex_t* m, bool pt = true ) {
    if ( m_rec( m ) && m->__data.__owner == tself + 1 && m->__data.__count > 1 ) { m->__data.__count--; return 0; }
    if ( ( m->__data.__kind & 3 ) != PTHREAD_MUTEX_NORMAL && m->__data.__lock && m->__data.__owner != tself + 1 ) return EPERM;
    m->__data.__lock = 0; m->__data.__owner = 0; m->__data.__count = 0;
    if ( pt ) sched_point( P_UNLOCK );
    return 0;
}
static inline uint64_t ts_us( const struct timespec* ts ) {
    if ( ts->tv_sec < 0 ) return 1;
    if ( ts->tv_sec > 4000000000000ll ) return 4000000000000ull * 1000000ull;
    uint64_t u = ( uint64_t ) ts->tv_sec * 1000000ull + ( ts->tv_nsec + 999 ) / 1000; return u ? u : 1;
}

// ------------------------------------------------------------------ condition variables
// layout of pthread_cond_t used by the simulator: first int = clock id
static int cond_wait( pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t dl, bool wall ) {
    Thread& t = T[tself];
    unsigned cnt = m->__data.__count;
    // a scheduling point between deciding to wait and waiting is covered by the lock/unlock points
    m->__data.__lock = 0; m->__data.__owner = 0; m->__data.__count = 0;
    t.woken = false;
    bool ok = block( B_COND, c, timed ? ( dl ? dl : 1 ) : 0, wall );
    int r = ok ? 0 : ETIMEDOUT;
    while ( m->__data.__lock ) block( B_MUTEX, m, 0, false );
    m->__data.__lock = 1; m->__data.__owner = tself + 1; m->__data.__count = cnt;
    return r;
}
static void cond_signal( pthread_cond_t* c, bool all ) {
    sched_point( P_SIGNAL );
    if ( all ) { for ( int i = 0; i < nT; i++ ) if ( T[i].state == T_LIVE && T[i].bk == B_COND && T[i].obj == c ) T[i].woken = true; return; }
    int w[MAXT], n = 0;
    for ( int i = 0; i < nT; i++ ) if ( T[i].state == T_LIVE && T[i].bk == B_COND && T[i].obj == c && !T[i].woken ) w[n++] = i;
    if ( !n ) return;
    int f = 0; for ( int i = 1; i < n; i++ ) if ( T[w[i]].seq < T[w[f]].seq ) f = i;
    if ( n > 1 ) {
        uint32_t v = 0;
        if ( G.replay ) v = replay_val( D_SIGNAL, G.steps ) % n;
        else if ( G.s.mode && rnd( G.rs ) % 4 == 0 ) { v = rnd( G.rs ) % n; if ( v ) rec_dev( D_SIGNAL, G.steps, v ); }
        f = ( f + v ) % n;
    }
    T[w[f]].woken = true;
}

// ------------------------------------------------------------------ futex (std::future, atomic wait, libstdc++ guards)
static long sim_futex( int* addr, int op, int val, const struct timespec* to, int* addr2, int val3 ) {
    int cmd = op & FUTEX_CMD_MASK;
    if ( cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET ) {
        sched_point( P_LOCK );
        if ( *( volatile int* ) addr != val ) { errno = EAGAIN; return -1; }
        Thread& t = T[tself];
        t.woken = false;
        uint64_t dl = 0; bool wall = false;
        if ( to ) {
            dl = ts_us( to );
            if ( cmd == FUTEX_WAIT ) dl += G.now; else wall = op & FUTEX_CLOCK_REALTIME;
        }
        if ( !block( B_FUTEX, addr, dl, wall ) ) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if ( cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET ) {
        sched_point( P_SIGNAL );
        int n = 0;
        while ( n < val ) {
            int b = -1;
            for ( int i = 0; i < nT; i++ ) if ( T[i].state == T_LIVE && T[i].bk == B_FUTEX && T[i].obj == addr && !T[i].woken && ( b < 0 || T[i].seq < T[b].seq ) ) b = i;
            if ( b < 0 ) break;
            T[b].woken = true; n++;
        }
        return n;
    }
    return RAW( SYS_futex, ( long ) addr, op, val, ( long ) to, ( long ) addr2, val3 );
}

// ------------------------------------------------------------------ file descriptors
enum FdKind : unsigned char { FD_OTHER, FD_DISK, FD_STREAM };
static unsigned char fdk[4096];
static char fdpath[4096][40];
static inline FdKind fd_kind( int fd ) { return fd >= 0 && fd < 4096 ? ( FdKind ) fdk[fd] : FD_OTHER; }
static bool under_root( const char* p ) { return G.rootlen && p && !strncmp( p, G.root, G.rootlen ); }
static uint8_t fdbad[4096];   // what failed appends did to a log: 1 nothing written, 2 a part written, 4 the last write was short
static uint64_t fdlost[4096];  // bytes of failed appends
static void fd_track( int fd, FdKind k, const char* path = nullptr ) {
    if ( fd < 0 || fd >= 4096 ) return;
    fdbad[fd] = 0; fdlost[fd] = 0;
    fdk[fd] = k;
    if ( path ) { size_t l = strlen( path ); const char* q = l > 39 ? path + l - 39 : path; strcpy( fdpath[fd], q ); } else fdpath[fd][0] = 0;
}
static bool poll_ready( Thread& t ) {
    if ( t.fdgen_seen == G.fdgen ) return false;
    t.fdgen_seen = G.fdgen;
    if ( t.pr.epfd >= 0 ) {
        struct pollfd p{ t.pr.epfd, POLLIN, 0 };
        return raw6( SYS_poll, ( long ) &p, 1, 0 ) != 0;
    }
    return raw6( SYS_poll, ( long ) t.pr.fds, t.pr.nfds, 0 ) != 0;
}
static bool wait_fd( int fd, short ev ) {
    Thread& t = T[tself];
    struct pollfd p{ fd, ev, 0 };
    sched_point( P_FD );
    if ( raw6( SYS_poll, ( long ) &p, 1, 0 ) != 0 ) return true;
    t.pr.epfd = -1; t.pr.one = p; t.pr.fds = &t.pr.one; t.pr.nfds = 1; t.fdgen_seen = G.fdgen;
    return block( B_POLL, nullptr, 0, false, "fd" );
}
static inline bool nonblock( int fd ) { return raw6( SYS_fcntl, fd, F_GETFL ) & O_NONBLOCK; }
static inline void fd_touch() { G.fdgen++; }

// a disk operation on the scratch root: crash point, fault point and scheduling point.
// returns 0 or an errno to inject; *land gets the number of bytes that should reach the file when limited
struct Verdict { int err = 0; bool torn = false; long limit = -1; };
static const char* const opn[] = { "create", "write", "truncate", "fsync", "rename", "unlink", "mkdir", "rmdir", "link", "copy", "open" };
enum DOp { DO_CREATE, DO_WRITE, DO_TRUNC, DO_FSYNC, DO_RENAME, DO_UNLINK, DO_MKDIR, DO_RMDIR, DO_LINK, DO_COPY, DO_OPEN };
static Verdict disk_op( DOp op, const char* path, size_t len ) {
    Verdict v;
    if ( !G.active || tself < 0 || !G.root_on ) return v;
    sched_point( P_DISK );
    uint64_t k = G.mark_ops++;
    G.disk_ops++;
    const char* tail = path;
    if ( tail ) { size_t l = strlen( tail ); if ( l > 38 ) tail += l - 38; }
    hmix( 0x9000 + op ); hmix( len );
    if ( g_shm->verbose > 1 ) log( "disk#%llu mark %d+%llu %s %s len=%zu", ( unsigned long long ) G.disk_ops - 1, G.mark_id, ( unsigned long long ) k, opn[op], tail ? tail : "", len );
    for ( int i = 0; i < G.nfaults; i++ ) {
        DiskFault& f = G.faults[i];
        if ( f.kind == F_NONE ) continue;
        if ( f.mark >= 0 && f.mark != G.mark_id ) continue;
        if ( f.filter[0] && ( !path || !strstr( path, f.filter ) ) ) continue;
        if ( f.filter[0] ) { if ( f.k > 0 ) { f.k--; continue; } }
        else if ( k < f.k ) continue;
        // fires
        uint32_t kind = f.kind;
        bool last = f.n <= 1;
        if ( ( kind == F_TORN || kind == F_SHORT ) && op != DO_WRITE && op != DO_COPY ) { if ( kind == F_TORN ) kind = F_CRASH; else continue; }
        if ( kind == F_SHORT && len < 2 ) continue;
        if ( last ) f.kind = F_NONE; else f.n--;
        g_shm->faults[kind]++;
        switch ( kind ) {
        case F_CRASH: log( "disk fault: crash before %s %s (mark %d+%llu)", opn[op], tail ? tail : "", G.mark_id, ( unsigned long long ) k ); crash_now( "disk" );
        case F_TORN: log( "disk fault: torn %s %s len=%zu (mark %d+%llu)", opn[op], tail ? tail : "", len, G.mark_id, ( unsigned long long ) k ); v.torn = true; v.limit = ( long ) ( len * f.arg / 1000 ); return v;
        case F_SHORT: v.limit = 1 + ( long ) ( ( len - 1 ) * f.arg / 1000 ); log( "disk fault: short %s %s %ld of %zu", opn[op], tail ? tail : "", v.limit, len ); return v;
        case F_EIO: log( "disk fault: EIO %s %s", opn[op], tail ? tail : "" ); v.err = EIO; return v;
        case F_ENOSPC: if ( op == DO_UNLINK || op == DO_RMDIR || op == DO_TRUNC || op == DO_FSYNC ) { g_shm->faults[kind]--; return v; } log( "disk fault: ENOSPC %s %s", opn[op], tail ? tail : "" ); v.err = ENOSPC; return v;
        case F_SLOW: G.now += f.arg; log( "disk fault: slow %s +%llu us", opn[op], ( unsigned long long ) f.arg ); break;
        }
    }
    return v;
}
int disk_point( const char*, const char* path ) { Verdict v = disk_op( DO_LINK, path, 0 ); return v.err; }
// a read-only snapshot volume (its directory has no write permission bits): .../snapshots/N/VOLUME/...
static bool in_ro_volume( const char* p ) {
    const char* q = strstr( p, "/snapshots/" );
    if ( !q || !( q = strchr( q + 11, '/' ) ) || !( q = strchr( q + 1, '/' ) ) ) return false;
    char v[512]; size_t n = q - p; if ( n >= sizeof v ) return false;
    memcpy( v, p, n ); v[n] = 0;
    struct stat st;
    return raw6( SYS_newfstatat, AT_FDCWD, ( long ) v, ( long ) &st, 0 ) == 0 && S_ISDIR( st.st_mode ) && !( st.st_mode & 0222 );
}
static const char* fdp( int fd ) { return fd >= 0 && fd < 4096 ? fdpath[fd] : nullptr; }

static bool urandom( const char* p ) { return p && ( !strcmp( p, "/dev/urandom" ) || !strcmp( p, "/dev/random" ) ); }
static int open_random() {
    int fd = ( int ) raw6( SYS_memfd_create, ( long ) "rnd", 0 );
    uint64_t b[64];
    for ( int i = 0; i < 64; i++ ) b[i] = rnd( G.ra );
    raw6( SYS_write, fd, ( long ) b, sizeof b );
    raw6( SYS_lseek, fd, 0, 0 );
    return fd;
}
static int sim_open( int dfd, const char* path, int flags, mode_t mode ) {
    if ( !G.active || tself < 0 ) return ( int ) RAW( SYS_openat, dfd, ( long ) path, flags, mode );
    if ( urandom( path ) ) return open_random();
    bool ur = under_root( path );
    if ( ur && ( flags & ( O_CREAT | O_TRUNC ) ) ) {
        if ( in_ro_volume( path ) ) { errno = EROFS; return -1; }
        Verdict v = disk_op( DO_CREATE, path, 0 );
        if ( v.err ) { errno = v.err; return -1; }
    }
    int fd = ( int ) RAW( SYS_openat, dfd, ( long ) path, flags, mode );
    if ( fd >= 0 ) fd_track( fd, ur ? FD_DISK : FD_OTHER, ur ? path : nullptr );
    return fd;
}

}  // namespace rt
using namespace rt;

#define ON ( G.active && tself >= 0 )
#define EXPORT extern "C" __attribute__( ( visibility( "default" ), used ) )

// ================================================================== interposed functions
EXPORT int pthread_create( pthread_t* out, const pthread_attr_t* attr, void* ( *fn )( void* ), void* arg ) {
    if ( !real_create ) real_create = ( decltype( real_create ) ) dlsym( RTLD_NEXT, "pthread_create" );
    if ( !ON ) {
        if ( g_shm ) { const char m[] = "simrt: thread created outside the simulation\n"; raw6( SYS_write, 2, ( long ) m, sizeof m - 1 ); raw6( SYS_exit_group, 98 ); }
        return real_create( out, attr, fn, arg );
    }
    int id = alloc_thread();
    Thread& t = T[id];
    t.fn = fn; t.arg = arg;
    pthread_attr_t a; bool useattr = false;
    if ( attr ) {
        int ds = 0; pthread_attr_getdetachstate( attr, &ds );
        if ( ds == PTHREAD_CREATE_DETACHED ) t.detached = true;
        size_t sz = 0; pthread_attr_getstacksize( attr, &sz );
        pthread_attr_init( &a ); if ( sz ) pthread_attr_setstacksize( &a, sz ); useattr = true;
    }
    t.prio = 1000 + rnd( G.rs ) % 1000000;
    snprintf( t.name, sizeof t.name, "t%d", id );
    t.state = T_LIVE;
    int r = real_create( &t.pt, useattr ? &a : nullptr, trampoline, &t );
    if ( r ) { t.state = T_JOINED; return r; }
    t.have_pt = true;
    *out = t.pt;
    sched_point( P_CREATE );
    return 0;
}
EXPORT int pthread_join( pthread_t p, void** ret ) {
    if ( !real_join ) real_join = ( decltype( real_join ) ) dlsym( RTLD_NEXT, "pthread_join" );
    if ( !ON ) return real_join( p, ret );
    Thread* t = find( p );
    if ( !t ) return ESRCH;
    if ( t->detached ) return EINVAL;
    if ( t->id == tself ) return EDEADLK;
    sched_point( P_LOCK );
    while ( t->state == T_LIVE ) block( B_JOIN, t, 0, false );
    if ( t->state == T_EXITED ) {
        int v; while ( ( v = *t->ktid ) != 0 ) raw6( SYS_futex, ( long ) t->ktid, FUTEX_WAIT, v );
        real_join( p, ret ); t->state = T_JOINED; t->have_pt = false;
    }
    return 0;
}
EXPORT int pthread_detach( pthread_t p ) {
    static int ( *rd )( pthread_t ) = ( int ( * )( pthread_t ) ) dlsym( RTLD_NEXT, "pthread_detach" );
    if ( !ON ) return rd( p );
    Thread* t = find( p );
    if ( !t ) return ESRCH;
    if ( t->detached ) return EINVAL;
    t->detached = true;
    if ( t->state == T_EXITED ) { if ( !real_join ) real_join = ( decltype( real_join ) ) dlsym( RTLD_NEXT, "pthread_join" ); real_join( p, nullptr ); t->state = T_JOINED; t->have_pt = false; }
    return 0;
}
EXPORT int pthread_mutex_lock( pthread_mutex_t* m ) { return ON ? mtx_lock( m, false, 0, false ) : 0; }
EXPORT int pthread_mutex_unlock( pthread_mutex_t* m ) { return ON ? mtx_unlock( m ) : 0; }
EXPORT int pthread_mutex_trylock( pthread_mutex_t* m ) {
    if ( !ON ) return 0;
    sched_point( P_TRY );
    int me = tself + 1;
    if ( m->__data.__lock ) {
        if ( m->__data.__owner == me && m_rec( m ) ) { m->__data.__count++; return 0; }
        return EBUSY;
    }
    m->__data.__lock = 1; m->__data.__owner = me; m->__data.__count = 1;
    return 0;
}
EXPORT int pthread_mutex_timedlock( pthread_mutex_t* m, const struct timespec* ts ) { return ON ? mtx_lock( m, true, ts_us( ts ), true ) : 0; }
EXPORT int pthread_mutex_clocklock( pthread_mutex_t* m, clockid_t c, const struct timespec* ts ) { return ON ? mtx_lock( m, true, ts_us( ts ), c == CLOCK_REALTIME ) : 0; }

EXPORT int pthread_cond_init( pthread_cond_t* c, const pthread_condattr_t* a ) {
    memset( c, 0, sizeof *c );
    clockid_t ck = CLOCK_REALTIME;
    if ( a ) pthread_condattr_getclock( a, &ck );
    *( int* ) c = ck;
    return 0;
}
EXPORT int pthread_cond_destroy( pthread_cond_t* ) { return 0; }
EXPORT int pthread_cond_wait( pthread_cond_t* c, pthread_mutex_t* m ) { return ON ? cond_wait( c, m, false, 0, false ) : 0; }
EXPORT int pthread_cond_timedwait( pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts ) { return ON ? cond_wait( c, m, true, ts_us( ts ), *( int* ) c == CLOCK_REALTIME ) : ETIMEDOUT; }
EXPORT int pthread_cond_clockwait( pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const struct timespec* ts ) { return ON ? cond_wait( c, m, true, ts_us( ts ), ck == CLOCK_REALTIME ) : ETIMEDOUT; }
EXPORT int pthread_cond_signal( pthread_cond_t* c ) { if ( ON ) cond_signal( c, false ); return 0; }
EXPORT int pthread_cond_broadcast( pthread_cond_t* c ) { if ( ON ) cond_signal( c, true ); return 0; }

static int rw_rd( pthread_rwlock_t* l, bool timed, uint64_t dl, bool wall ) {
    sched_point( P_LOCK );
    while ( l->__data.__writers ) {
        if ( ( int ) l->__data.__writers == tself + 1 ) return EDEADLK;
        if ( !block( B_RDLOCK, l, timed ? ( dl ? dl : 1 ) : 0, wall ) && l->__data.__writers ) return ETIMEDOUT;
    }
    l->__data.__readers++;
    return 0;
}
static int rw_wr( pthread_rwlock_t* l, bool timed, uint64_t dl, bool wall ) {
    sched_point( P_LOCK );
    while ( l->__data.__writers || l->__data.__readers ) {
        if ( ( int ) l->__data.__writers == tself + 1 ) return EDEADLK;
        if ( !block( B_WRLOCK, l, timed ? ( dl ? dl : 1 ) : 0, wall ) && ( l->__data.__writers || l->__data.__readers ) ) return ETIMEDOUT;
    }
    l->__data.__writers = tself + 1;
    return 0;
}
EXPORT int pthread_rwlock_rdlock( pthread_rwlock_t* l ) { return ON ? rw_rd( l, false, 0, false ) : 0; }
EXPORT int pthread_rwlock_wrlock( pthread_rwlock_t* l ) { return ON ? rw_wr( l, false, 0, false ) : 0; }
EXPORT int pthread_rwlock_timedrdlock( pthread_rwlock_t* l, const struct timespec* ts ) { return ON ? rw_rd( l, true, ts_us( ts ), true ) : 0; }
EXPORT int pthread_rwlock_timedwrlock( pthread_rwlock_t* l, const struct timespec* ts ) { return ON ? rw_wr( l, true, ts_us( ts ), true ) : 0; }
EXPORT int pthread_rwlock_clockrdlock( pthread_rwlock_t* l, clockid_t c, const struct timespec* ts ) { return ON ? rw_rd( l, true, ts_us( ts ), c == CLOCK_REALTIME ) : 0; }
EXPORT int pthread_rwlock_clockwrlock( pthread_rwlock_t* l, clockid_t c, const struct timespec* ts ) { return ON ? rw_wr( l, true, ts_us( ts ), c == CLOCK_REALTIME ) : 0; }
EXPORT int pthread_rwlock_tryrdlock( pthread_rwlock_t* l ) { if ( !ON ) return 0; sched_point( P_TRY ); if ( l->__data.__writers ) return EBUSY; l->__data.__readers++; return 0; }
EXPORT int pthread_rwlock_trywrlock( pthread_rwlock_t* l ) { if ( !ON ) return 0; sched_point( P_TRY ); if ( l->__data.__writers || l->__data.__readers ) return EBUSY; l->__data.__writers = tself + 1; return 0; }
EXPORT int pthread_rwlock_unlock( pthread_rwlock_t* l ) {
    if ( !ON ) return 0;
    if ( l->__data.__writers ) l->__data.__writers = 0; else if ( l->__data.__readers ) l->__data.__readers--;
    sched_point( P_UNLOCK );
    return 0;
}

EXPORT int sem_init( sem_t* s, int, unsigned v ) { memset( s, 0, sizeof *s ); *( int* ) s = ( int ) v; return 0; }
EXPORT int sem_destroy( sem_t* ) { return 0; }
EXPORT int sem_wait( sem_t* s ) {
    if ( !ON ) { --*( int* ) s; return 0; }
    sched_point( P_LOCK );
    while ( *( volatile int* ) s <= 0 ) block( B_SEM, s, 0, false );
    --*( int* ) s; return 0;
}
EXPORT int sem_trywait( sem_t* s ) { sched_point( P_TRY ); if ( *( int* ) s <= 0 ) { errno = EAGAIN; return -1; } --*( int* ) s; return 0; }
EXPORT int sem_timedwait( sem_t* s, const struct timespec* ts ) {
    if ( !ON ) { --*( int* ) s; return 0; }
    sched_point( P_LOCK );
    while ( *( volatile int* ) s <= 0 ) if ( !block( B_SEM, s, ts_us( ts ), true ) && *( volatile int* ) s <= 0 ) { errno = ETIMEDOUT; return -1; }
    --*( int* ) s; return 0;
}
EXPORT int sem_post( sem_t* s ) { ++*( int* ) s; sched_point( P_SIGNAL ); return 0; }
EXPORT int sem_getvalue( sem_t* s, int* v ) { *v = *( int* ) s; return 0; }

struct OnceGuard { int* c; bool done = false; ~OnceGuard() { *c = done ? 2 : 0; } };
EXPORT int pthread_once( pthread_once_t* o, void ( *fn )() ) {
    volatile int* c = ( volatile int* ) o;
    if ( *c == 2 ) return 0;
    if ( ON ) { sched_point( P_LOCK ); while ( *c == 1 ) block( B_ONCE, ( void* ) c, 0, false ); }
    if ( *c == 2 ) return 0;
    *c = 1;
    OnceGuard g{ ( int* ) o };
    fn();
    g.done = true;
    return 0;
}

// ---- time
static void fill_ts( clockid_t c, struct timespec* ts ) {
    int64_t u;
    if ( c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI ) u = wall_us(); else u = ( int64_t ) G.now;
    ts->tv_sec = u / 1000000; ts->tv_nsec = ( u % 1000000 ) * 1000;
}
static bool sim_time = false;  // outside an incarnation, time is frozen too (start of 2023-11-14)
EXPORT int clock_gettime( clockid_t c, struct timespec* ts ) noexcept {
    if ( !ON ) {
        if ( !g_shm ) { ts->tv_sec = 1700000000; ts->tv_nsec = 0; return 0; }
        if ( G.active ) { fill_ts( c, ts ); return 0; }
        ts->tv_sec = c == CLOCK_REALTIME ? 1700000000 : 1; ts->tv_nsec = 0; return 0;
    }
    sched_point( P_TIME );
    fill_ts( c, ts );
    return 0;
}
EXPORT int gettimeofday( struct timeval* tv, void* ) noexcept {
    struct timespec ts; clock_gettime( CLOCK_REALTIME, &ts );
    if ( tv ) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}
EXPORT time_t time( time_t* t ) noexcept { struct timespec ts; clock_gettime( CLOCK_REALTIME, &ts ); if ( t ) *t = ts.tv_sec; return ts.tv_sec; }
EXPORT clock_t clock() noexcept { return ( clock_t ) G.now; }
EXPORT clock_t times( struct tms* b ) noexcept { if ( b ) memset( b, 0, sizeof *b ); return ( clock_t ) ( G.now / 10000 ); }
EXPORT int timespec_get( struct timespec* ts, int base ) noexcept { clock_gettime( CLOCK_REALTIME, ts ); return base; }
static int do_sleep( uint64_t us ) {
    if ( !ON ) return 0;
    block( B_SLEEP, nullptr, G.now + ( us ? us : 1 ), false );
    return 0;
}
EXPORT int nanosleep( const struct timespec* a, struct timespec* rem ) { uint64_t us = ts_us( a ); if ( rem ) rem->tv_sec = rem->tv_nsec = 0; return do_sleep( us ); }   // the two may be the same object
EXPORT int clock_nanosleep( clockid_t c, int fl, const struct timespec* a, struct timespec* ) {
    if ( !ON ) return 0;
    if ( fl & TIMER_ABSTIME ) {
        bool wall = c == CLOCK_REALTIME;
        block( B_SLEEP, nullptr, ts_us( a ), wall );
        return 0;
    }
    return do_sleep( ts_us( a ) );
}
EXPORT int usleep( useconds_t u ) { return do_sleep( u ); }
EXPORT unsigned sleep( unsigned s ) { do_sleep( 1000000ull * s ); return 0; }
EXPORT int sched_yield() noexcept { sched_point( P_YIELD, true ); return 0; }

// ---- process exit
[[noreturn]] static void app_exit( int code ) {
    if ( ON && !G.stopping ) {
        rt::log( "application exit code %d", code );
        if ( G.exit_hook ) { G.stopping = true; G.exit_hook( code ); }
        die( OUT_EXIT, code );
    }
    if ( G.active && g_shm ) die( OUT_EXIT, code );
    raw6( SYS_exit_group, code );
    __builtin_unreachable();
}
EXPORT void _exit( int code ) { app_exit( code ); }
EXPORT void _Exit( int code ) noexcept { app_exit( code ); }
EXPORT void exit( int code ) noexcept {
    if ( ON ) app_exit( code );
    static void ( *re )( int ) = ( void ( * )( int ) ) dlsym( RTLD_NEXT, "exit" );
    re( code );
    __builtin_unreachable();
}
EXPORT void quick_exit( int code ) noexcept { app_exit( code ); }
EXPORT void abort() noexcept {
    if ( G.active && g_shm ) {
        G.nopreempt++;
        Thread t{}; t.id = tself; t.state = T_LIVE; t.nbt = backtrace( t.bt, 24 );
        std::string d; describe( t, d );
        abort_msg( "abort()\n%s", d.c_str() );
        rt::log( "ABORT %s", g_shm->abort_msg );
        die( OUT_ABORT, 6 );
    }
    raw6( SYS_exit_group, 134 );
    __builtin_unreachable();
}
EXPORT void __assert_fail( const char* a, const char* f, unsigned l, const char* fn ) noexcept {
    if ( G.active && g_shm ) {
        const char* b = strrchr( f, '/' );
        abort_msg( "assertion failed: %s (%s:%u %s)", a, b ? b + 1 : f, l, fn ? fn : "" );
        rt::log( "ASSERT %s", g_shm->abort_msg );
        die( OUT_ABORT, 6 );
    }
    fprintf( stderr, "assert %s %s:%u\n", a, f, l );
    raw6( SYS_exit_group, 134 );
    __builtin_unreachable();
}
EXPORT int raise( int s ) noexcept { if ( ON ) { abort_msg( "raise(%d)", s ); die( OUT_ABORT, s ); } return ( int ) RAW( SYS_tkill, raw6( SYS_gettid ), s ); }
EXPORT int kill( pid_t p, int s ) noexcept { if ( ON ) { rt::log( "kill(%d,%d) ignored", ( int ) p, s ); errno = EPERM; return -1; } return ( int ) RAW( SYS_kill, p, s ); }
EXPORT int system( const char* ) { if ( ON ) { errno = ENOSYS; return -1; } return -1; }
EXPORT FILE* popen( const char*, const char* ) { errno = ENOSYS; return nullptr; }

// ---- identity and randomness
EXPORT pid_t getpid() noexcept { return 4242; }
EXPORT int get_nprocs() noexcept { return 4; }
EXPORT int get_nprocs_conf() noexcept { return 4; }
EXPORT long sysconf( int n ) noexcept {
    if ( n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF ) return 4;
    static long ( *rs )( int ) = ( long ( * )( int ) ) dlsym( RTLD_NEXT, "sysconf" );
    return rs( n );
}
static void fill_rand( void* b, size_t n ) {
    unsigned char* p = ( unsigned char* ) b;
    while ( n ) { uint64_t v = rnd( G.ra ); size_t k = n < 8 ? n : 8; memcpy( p, &v, k ); p += k; n -= k; }
}
EXPORT ssize_t getrandom( void* b, size_t n, unsigned ) { fill_rand( b, n ); return ( ssize_t ) n; }
EXPORT int getentropy( void* b, size_t n ) { fill_rand( b, n ); return 0; }
namespace std {
void random_device::_M_init( const std::string& ) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return ( result_type ) ( rnd( G.ra ) >> 11 ); }
double random_device::_M_getentropy() const noexcept { return 32; }
}

// ---- syscall()
EXPORT long syscall( long n, ... ) noexcept {
    va_list ap; va_start( ap, n );
    long a = va_arg( ap, long ), b = va_arg( ap, long ), c = va_arg( ap, long ), d = va_arg( ap, long ), e = va_arg( ap, long ), f = va_arg( ap, long );
    va_end( ap );
    if ( n == SYS_getrandom ) { fill_rand( ( void* ) a, ( size_t ) b ); return b; }
    if ( ON ) {
        if ( n == SYS_futex ) return sim_futex( ( int* ) a, ( int ) b, ( int ) c, ( const struct timespec* ) d, ( int* ) e, ( int ) f );
        if ( n == SYS_gettid ) return 5000 + tself;
        if ( n == SYS_getpid ) return 4242;
        if ( n == 425 || n == 426 || n == 427 ) { errno = ENOSYS; return -1; }   // io_uring
    }
    return RAW( n, a, b, c, d, e, f );
}
EXPORT pid_t gettid() noexcept { return ON ? 5000 + tself : ( pid_t ) raw6( SYS_gettid ); }

// ---- files
#define MODE_ARG mode_t mode = 0; if ( flags & ( O_CREAT | O_TMPFILE ) ) { va_list ap; va_start( ap, flags ); mode = va_arg( ap, mode_t ); va_end( ap ); }
EXPORT int open( const char* p, int flags, ... ) { MODE_ARG return sim_open( AT_FDCWD, p, flags, mode ); }
EXPORT int open64( const char* p, int flags, ... ) { MODE_ARG return sim_open( AT_FDCWD, p, flags | O_LARGEFILE, mode ); }
EXPORT int openat( int d, const char* p, int flags, ... ) { MODE_ARG return sim_open( d, p, flags, mode ); }
EXPORT int openat64( int d, const char* p, int flags, ... ) { MODE_ARG return sim_open( d, p, flags | O_LARGEFILE, mode ); }
EXPORT int __open_2( const char* p, int flags ) { return sim_open( AT_FDCWD, p, flags, 0 ); }
EXPORT int __open64_2( const char* p, int flags ) { return sim_open( AT_FDCWD, p, flags, 0 ); }
EXPORT int __openat_2( int d, const char* p, int flags ) { return sim_open( d, p, flags, 0 ); }
EXPORT int __openat64_2( int d, const char* p, int flags ) { return sim_open( d, p, flags, 0 ); }
EXPORT int creat( const char* p, mode_t m ) { return sim_open( AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m ); }
EXPORT int creat64( const char* p, mode_t m ) { return sim_open( AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m ); }
static FILE* sim_fopen( const char* p, const char* m, const char* which ) {
    FILE* ( *rf )( const char*, const char* ) = ( FILE * ( * ) ( const char*, const char* ) ) dlsym( RTLD_NEXT, which );
    if ( !ON ) return rf( p, m );
    if ( urandom( p ) ) { int fd = open_random(); return fdopen( fd, "r" ); }
    bool ur = under_root( p );
    bool wr = strpbrk( m, "wa+" ) != nullptr;
    if ( ur && wr ) { Verdict v = disk_op( DO_CREATE, p, 0 ); if ( v.err ) { errno = v.err; return nullptr; } }
    FILE* f = rf( p, m );
    if ( f ) fd_track( fileno( f ), ur ? FD_DISK : FD_OTHER, ur ? p : nullptr );
    return f;
}
EXPORT FILE* fopen( const char* p, const char* m ) { return sim_fopen( p, m, "fopen" ); }
EXPORT FILE* fopen64( const char* p, const char* m ) { return sim_fopen( p, m, "fopen64" ); }
EXPORT int close( int fd ) {
    if ( ON && fd >= 0 && fd < 4096 ) { if ( fdk[fd] == FD_STREAM ) fd_touch(); fdk[fd] = FD_OTHER; }
    return ( int ) RAW( SYS_close, fd );
}
static ssize_t disk_write( int fd, const void* b, size_t n, off_t off, bool at ) {
    const char* path = fdp( fd );
    Verdict v = disk_op( DO_WRITE, path, n );
    size_t pl = path ? strlen( path ) : 0;
    if ( pl > 4 && !strcmp( path + pl - 4, ".log" ) ) {
        uint8_t& x = fdbad[fd];
        if ( v.err ) { x = ( x & 3 ) | ( x & 4 ? 2 : 1 ); fdlost[fd] += n; }
        else {
            uint64_t at = ( uint64_t ) raw6( SYS_lseek, fd, 0, SEEK_CUR );
            uint64_t vt = at + fdlost[fd];   // where the log writer believes it is
            if ( !g_shm->walbad && ( ( x & 2 ) || ( ( x & 1 ) && ( at / 32768 != ( at + n ) / 32768 || vt / 32768 != ( vt + n ) / 32768 ) ) ) ) g_shm->walbad = g_shm->cur_inc + 1;
            x = ( x & 3 ) | ( v.limit >= 0 ? 4 : 0 );
        }
    }
    if ( v.err ) { errno = v.err; return -1; }
    size_t len = v.limit >= 0 ? ( size_t ) v.limit : n;
    long r = 0;
    if ( len ) r = at ? RAW( SYS_pwrite64, fd, ( long ) b, len, off ) : RAW( SYS_write, fd, ( long ) b, len );
    if ( v.torn ) crash_now( "torn write" );
    return r;
}
EXPORT ssize_t write( int fd, const void* b, size_t n ) {
    if ( ON ) {
        FdKind k = fd_kind( fd );
        if ( k == FD_DISK ) return disk_write( fd, b, n, 0, false );
        if ( k == FD_STREAM ) { sched_point( P_FD ); ssize_t r = RAW( SYS_write, fd, ( long ) b, n ); fd_touch(); return r; }
    }
    return RAW( SYS_write, fd, ( long ) b, n );
}
EXPORT ssize_t pwrite( int fd, const void* b, size_t n, off_t o ) { if ( ON && fd_kind( fd ) == FD_DISK ) return disk_write( fd, b, n, o, true ); return RAW( SYS_pwrite64, fd, ( long ) b, n, o ); }
EXPORT ssize_t pwrite64( int fd, const void* b, size_t n, off64_t o ) { return pwrite( fd, b, n, o ); }
EXPORT ssize_t writev( int fd, const struct iovec* v, int c ) {
    if ( ON ) {
        FdKind k = fd_kind( fd );
        if ( k == FD_DISK ) {
            ssize_t tot = 0;
            for ( int i = 0; i < c; i++ ) {
                if ( !v[i].iov_len ) continue;
                ssize_t r = disk_write( fd, v[i].iov_base, v[i].iov_len, 0, false );
                if ( r < 0 ) return tot ? tot : r;
                tot += r;
                if ( ( size_t ) r < v[i].iov_len ) return tot;
            }
            return tot;
        }
        if ( k == FD_STREAM ) { sched_point( P_FD ); ssize_t r = RAW( SYS_writev, fd, ( long ) v, c ); fd_touch(); return r; }
    }
    return RAW( SYS_writev, fd, ( long ) v, c );
}
static int disk_simple( DOp op, const char* p ) { Verdict v = disk_op( op, p, 0 ); if ( v.err ) { errno = v.err; return -1; } return 0; }
EXPORT int fsync( int fd ) { if ( ON && fd_kind( fd ) == FD_DISK && disk_simple( DO_FSYNC, fdp( fd ) ) ) return -1; return 0; }
EXPORT int fdatasync( int fd ) { return fsync( fd ); }
EXPORT void sync() noexcept {}
EXPORT int syncfs( int ) noexcept { return 0; }
EXPORT int ftruncate( int fd, off_t l ) noexcept { if ( ON && fd_kind( fd ) == FD_DISK && disk_simple( DO_TRUNC, fdp( fd ) ) ) return -1; return ( int ) RAW( SYS_ftruncate, fd, l ); }
EXPORT int ftruncate64( int fd, off64_t l ) noexcept { return ftruncate( fd, l ); }
EXPORT int truncate( const char* p, off_t l ) noexcept { if ( ON && under_root( p ) && disk_simple( DO_TRUNC, p ) ) return -1; return ( int ) RAW( SYS_truncate, ( long ) p, l ); }
EXPORT int truncate64( const char* p, off64_t l ) noexcept { return truncate( p, l ); }
EXPORT int rename( const char* a, const char* b ) noexcept { if ( ON && under_root( a ) && disk_simple( DO_RENAME, b ) ) return -1; return ( int ) RAW( SYS_rename, ( long ) a, ( long ) b ); }
EXPORT int unlink( const char* p ) noexcept { if ( ON && under_root( p ) && disk_simple( DO_UNLINK, p ) ) return -1; return ( int ) RAW( SYS_unlink, ( long ) p ); }
EXPORT int rmdir( const char* p ) noexcept { if ( ON && under_root( p ) && disk_simple( DO_RMDIR, p ) ) return -1; return ( int ) RAW( SYS_rmdir, ( long ) p ); }
EXPORT int remove( const char* p ) noexcept {
    if ( ON && under_root( p ) && disk_simple( DO_UNLINK, p ) ) return -1;
    long r = raw6( SYS_unlink, ( long ) p );
    if ( r == -EISDIR ) return ( int ) RAW( SYS_rmdir, ( long ) p );
    return ( int ) ret_errno( r );
}
EXPORT int unlinkat( int d, const char* p, int f ) noexcept {
    // boost/libstdc++ remove_all work relative to directory descriptors: resolve through /proc to see the root
    if ( ON && G.rootlen ) {
        bool ur = under_root( p );
        char buf[512]; const char* full = p;
        if ( !ur && d >= 0 && p[0] != '/' ) {
            char ln[64]; snprintf( ln, sizeof ln, "/proc/self/fd/%d", d );
            long n = raw6( SYS_readlink, ( long ) ln, ( long ) buf, sizeof buf - 1 );
            if ( n > 0 ) { buf[n] = 0; ur = under_root( buf ); if ( ur ) { snprintf( buf + n, sizeof buf - n, "/%s", p ); full = buf; } }
        }
        if ( ur && disk_simple( f & AT_REMOVEDIR ? DO_RMDIR : DO_UNLINK, full ) ) return -1;
    }
    return ( int ) RAW( SYS_unlinkat, d, ( long ) p, f );
}
EXPORT int mkdir( const char* p, mode_t m ) noexcept {
    if ( ON && under_root( p ) ) { struct stat st; if ( raw6( SYS_stat, ( long ) p, ( long ) &st ) < 0 && disk_simple( DO_MKDIR, p ) ) return -1; }
    return ( int ) RAW( SYS_mkdir, ( long ) p, m );
}
EXPORT int link( const char* a, const char* b ) noexcept { if ( ON && under_root( b ) && disk_simple( DO_LINK, b ) ) return -1; return ( int ) RAW( SYS_link, ( long ) a, ( long ) b ); }
EXPORT int symlink( const char* a, const char* b ) noexcept { if ( ON && under_root( b ) && disk_simple( DO_LINK, b ) ) return -1; return ( int ) RAW( SYS_symlink, ( long ) a, ( long ) b ); }
EXPORT ssize_t sendfile( int o, int i, off_t* off, size_t n ) noexcept {
    if ( ON && fd_kind( o ) == FD_DISK ) {
        Verdict v = disk_op( DO_COPY, fdp( o ), n );
        if ( v.err ) { errno = v.err; return -1; }
        if ( v.torn ) { if ( v.limit ) raw6( SYS_sendfile, o, i, ( long ) off, 4096 ); crash_now( "torn copy" ); }
    }
    return RAW( SYS_sendfile, o, i, ( long ) off, n );
}
EXPORT ssize_t sendfile64( int o, int i, off64_t* off, size_t n ) noexcept { return sendfile( o, i, off, n ); }
EXPORT ssize_t copy_file_range( int, off64_t*, int, off64_t*, size_t, unsigned ) { errno = ENOSYS; return -1; }

// directory order is unspecified: the run decides it (0: by name, 1: by inode, i.e. order of creation, 2: shuffled)
struct DirList { std::vector< struct dirent64 > v; size_t pos = 0; };
static std::map< DIR*, DirList >& dirs() { static std::map< DIR*, DirList > m; return m; }
static struct dirent64* real_readdir( DIR* d ) {
    static struct dirent64* ( *rd )( DIR* ) = ( struct dirent64 * ( * ) ( DIR* ) ) dlsym( RTLD_NEXT, "readdir64" );
    return rd( d );
}
EXPORT struct dirent64* readdir64( DIR* d ) {
    if ( !ON || !G.rootlen ) return real_readdir( d );
    G.nopreempt++;
    struct dirent64* out = nullptr;
    auto& m = dirs();
    auto it = m.find( d );
    if ( it == m.end() ) {
        char ln[64], buf[512]; snprintf( ln, sizeof ln, "/proc/self/fd/%d", dirfd( d ) );
        long n = raw6( SYS_readlink, ( long ) ln, ( long ) buf, sizeof buf - 1 );
        buf[n > 0 ? n : 0] = 0;
        if ( !under_root( buf ) ) { out = real_readdir( d ); G.nopreempt--; return out; }
        it = m.emplace( d, DirList() ).first;
        while ( struct dirent64* e = real_readdir( d ) ) it->second.v.push_back( *e );
        auto& v = it->second.v;
        int how = G.s.dir_order;
        auto h = [&]( const struct dirent64& e ) { uint64_t x = G.s.seed * 0x9e3779b97f4a7c15ULL + 77; for ( const char* c = e.d_name; *c; c++ ) x = ( x ^ ( unsigned char ) *c ) * 0x100000001b3ULL; return x ^ ( x >> 29 ); };
        std::sort( v.begin(), v.end(), [&]( const struct dirent64& a, const struct dirent64& b ) {
            if ( how == 1 && a.d_ino != b.d_ino ) return a.d_ino < b.d_ino;
            if ( how == 2 && h( a ) != h( b ) ) return h( a ) < h( b );
            return strcmp( a.d_name, b.d_name ) < 0;
        } );
    }
    auto& L = it->second;
    if ( L.pos < L.v.size() ) out = &L.v[L.pos++];
    G.nopreempt--;
    return out;
}
EXPORT struct dirent* readdir( DIR* d ) { return ( struct dirent* ) readdir64( d ); }
EXPORT void rewinddir( DIR* d ) noexcept {
    static void ( *rr )( DIR* ) = ( void ( * )( DIR* ) ) dlsym( RTLD_NEXT, "rewinddir" );
    if ( ON ) { G.nopreempt++; dirs().erase( d ); G.nopreempt--; }
    rr( d );
}
EXPORT int closedir( DIR* d ) {
    static int ( *rc )( DIR* ) = ( int ( * )( DIR* ) ) dlsym( RTLD_NEXT, "closedir" );
    if ( ON ) { G.nopreempt++; dirs().erase( d ); G.nopreempt--; }
    return rc( d );
}

// ---- streams (pipes, sockets, eventfds)
EXPORT int pipe2( int* p, int fl ) noexcept { int r = ( int ) RAW( SYS_pipe2, ( long ) p, fl ); if ( !r && ON ) { fd_track( p[0], FD_STREAM ); fd_track( p[1], FD_STREAM ); } return r; }
EXPORT int pipe( int* p ) noexcept { return pipe2( p, 0 ); }
EXPORT int eventfd( unsigned v, int fl ) noexcept { int r = ( int ) RAW( SYS_eventfd2, v, fl ); if ( ON ) fd_track( r, FD_STREAM ); return r; }
EXPORT int socket( int d, int t, int p ) noexcept {
    if ( ON && d != AF_UNIX ) { errno = EAFNOSUPPORT; return -1; }
    int r = ( int ) RAW( SYS_socket, d, t, p ); if ( ON ) fd_track( r, FD_STREAM ); return r;
}
EXPORT int socketpair( int d, int t, int p, int* sv ) noexcept { int r = ( int ) RAW( SYS_socketpair, d, t, p, ( long ) sv ); if ( !r && ON ) { fd_track( sv[0], FD_STREAM ); fd_track( sv[1], FD_STREAM ); } return r; }
EXPORT int accept4( int fd, struct sockaddr* a, socklen_t* l, int fl ) {
    if ( ON && fd_kind( fd ) == FD_STREAM && !nonblock( fd ) ) wait_fd( fd, POLLIN );
    int r = ( int ) RAW( SYS_accept4, fd, ( long ) a, ( long ) l, fl ); if ( ON ) { fd_track( r, FD_STREAM ); fd_touch(); } return r;
}
EXPORT int accept( int fd, struct sockaddr* a, socklen_t* l ) { return accept4( fd, a, l, 0 ); }
EXPORT int connect( int fd, const struct sockaddr* a, socklen_t l ) { int r = ( int ) RAW( SYS_connect, fd, ( long ) a, l ); if ( ON ) fd_touch(); return r; }
EXPORT int shutdown( int fd, int h ) noexcept { int r = ( int ) RAW( SYS_shutdown, fd, h ); if ( ON ) { fd_touch(); sched_point( P_FD ); } return r; }
EXPORT ssize_t read( int fd, void* b, size_t n ) {
    if ( ON && fd_kind( fd ) == FD_STREAM ) { if ( !nonblock( fd ) ) wait_fd( fd, POLLIN ); ssize_t r = RAW( SYS_read, fd, ( long ) b, n ); fd_touch(); return r; }
    return RAW( SYS_read, fd, ( long ) b, n );
}
EXPORT ssize_t __read_chk( int fd, void* b, size_t n, size_t ) { return read( fd, b, n ); }
EXPORT ssize_t recvfrom( int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l ) {
    if ( ON && fd_kind( fd ) == FD_STREAM && !nonblock( fd ) && !( fl & MSG_DONTWAIT ) ) wait_fd( fd, POLLIN );
    ssize_t r = RAW( SYS_recvfrom, fd, ( long ) b, n, fl, ( long ) a, ( long ) l ); if ( ON ) fd_touch(); return r;
}
EXPORT ssize_t recv( int fd, void* b, size_t n, int fl ) { return recvfrom( fd, b, n, fl, nullptr, nullptr ); }
EXPORT ssize_t sendto( int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t l ) {
    if ( ON ) sched_point( P_FD );
    ssize_t r = RAW( SYS_sendto, fd, ( long ) b, n, fl, ( long ) a, l ); if ( ON ) fd_touch(); return r;
}
EXPORT ssize_t send( int fd, const void* b, size_t n, int fl ) { return sendto( fd, b, n, fl, nullptr, 0 ); }
EXPORT int poll( struct pollfd* f, nfds_t n, int to ) {
    if ( !ON ) return ( int ) RAW( SYS_poll, ( long ) f, n, to );
    sched_point( P_FD );
    int r = ( int ) RAW( SYS_poll, ( long ) f, n, 0 );
    if ( r || to == 0 ) return r;
    Thread& t = T[tself];
    t.pr.epfd = -1; t.pr.fds = f; t.pr.nfds = ( int ) n; t.fdgen_seen = G.fdgen;
    block( B_POLL, nullptr, to < 0 ? 0 : G.now + 1000ull * to, false, "poll" );
    return ( int ) RAW( SYS_poll, ( long ) f, n, 0 );
}
EXPORT int ppoll( struct pollfd* f, nfds_t n, const struct timespec* ts, const sigset_t* ) { return poll( f, n, ts ? ( int ) ( ts_us( ts ) / 1000 ) : -1 ); }
EXPORT int epoll_wait( int e, struct epoll_event* ev, int n, int to ) {
    if ( !ON ) return ( int ) RAW( SYS_epoll_wait, e, ( long ) ev, n, to );
    sched_point( P_FD );
    int r = ( int ) RAW( SYS_epoll_wait, e, ( long ) ev, n, 0 );
    if ( r || to == 0 ) return r;
    Thread& t = T[tself];
    t.pr.epfd = e; t.fdgen_seen = G.fdgen;
    block( B_POLL, nullptr, to < 0 ? 0 : G.now + 1000ull * to, false, "epoll" );
    return ( int ) RAW( SYS_epoll_wait, e, ( long ) ev, n, 0 );
}
EXPORT int epoll_pwait( int e, struct epoll_event* ev, int n, int to, const sigset_t* ) { return epoll_wait( e, ev, n, to ); }
EXPORT int epoll_ctl( int e, int op, int fd, struct epoll_event* ev ) noexcept { if ( ON ) fd_touch(); return ( int ) RAW( SYS_epoll_ctl, e, op, fd, ( long ) ev ); }
EXPORT int select( int n, fd_set* r, fd_set* w, fd_set* x, struct timeval* tv ) {
    if ( !ON ) return ( int ) RAW( SYS_select, n, ( long ) r, ( long ) w, ( long ) x, ( long ) tv );
    // translate into poll
    static __thread struct pollfd pf[64]; int k = 0;
    for ( int i = 0; i < n && k < 64; i++ ) {
        short e = 0; if ( r && FD_ISSET( i, r ) ) e |= POLLIN; if ( w && FD_ISSET( i, w ) ) e |= POLLOUT;
        if ( e ) { pf[k].fd = i; pf[k].events = e; pf[k].revents = 0; k++; }
    }
    if ( !k ) { if ( tv ) do_sleep( tv->tv_sec * 1000000ull + tv->tv_usec ); return 0; }
    int res = poll( pf, k, tv ? ( int ) ( tv->tv_sec * 1000 + ( tv->tv_usec + 999 ) / 1000 ) : -1 );
    if ( r ) FD_ZERO( r ); if ( w ) FD_ZERO( w ); if ( x ) FD_ZERO( x );
    int cnt = 0;
    if ( res > 0 ) for ( int i = 0; i < k; i++ ) {
        if ( r && ( pf[i].revents & ( POLLIN | POLLHUP | POLLERR ) ) && ( pf[i].events & POLLIN ) ) { FD_SET( pf[i].fd, r ); cnt++; }
        if ( w && ( pf[i].revents & POLLOUT ) ) { FD_SET( pf[i].fd, w ); cnt++; }
    }
    return cnt;
}

// ================================================================== instrumented memory accesses (-fsanitize=thread callbacks,
// no tsan runtime): every atomic operation is a scheduling point, every plain access may be one.
static inline void mem_access() {
    if ( !G.active || tself < 0 || G.nopreempt ) return;
    if ( ++G.memcnt < G.next_mem ) return;
    // candidates
    int cand[MAXT], nc = 0;
    for ( int i = 1; i < nT; i++ ) { int k = ( tself + i ) % nT; if ( runnable( T[k] ) ) cand[nc++] = k; }
    uint32_t v = 0;
    if ( G.replay ) {
        v = replay_val( D_MEM, G.memcnt );
        G.next_mem = G.rd[D_MEM] < G.rd_end[D_MEM] ? G.rd[D_MEM]->idx : UINT64_MAX;
        if ( v > ( uint32_t ) nc ) v = nc;
    } else {
        G.next_mem = G.memcnt + gap( G.rm, G.s.mem_gap );
        if ( nc ) { v = 1 + rnd( G.rm ) % nc; rec_dev( D_MEM, G.memcnt, v ); }
    }
    if ( !v ) return;
    G.preempts++;
    hmix( P_MEM * 64 + tself );
    switch_to( cand[v - 1] );
}
#define TS( n ) EXPORT void __tsan_##n( void* ) { mem_access(); }
TS( read1 ) TS( read2 ) TS( read4 ) TS( read8 ) TS( read16 ) TS( write1 ) TS( write2 ) TS( write4 ) TS( write8 ) TS( write16 )
TS( unaligned_read2 ) TS( unaligned_read4 ) TS( unaligned_read8 ) TS( unaligned_read16 ) TS( unaligned_write2 ) TS( unaligned_write4 ) TS( unaligned_write8 ) TS( unaligned_write16 )
TS( vptr_read ) TS( volatile_read1 ) TS( volatile_read2 ) TS( volatile_read4 ) TS( volatile_read8 ) TS( volatile_write1 ) TS( volatile_write2 ) TS( volatile_write4 ) TS( volatile_write8 )
TS( func_entry )
EXPORT void __tsan_vptr_update( void**, void* ) { mem_access(); }
EXPORT void __tsan_read_range( void*, long ) { mem_access(); }
EXPORT void __tsan_write_range( void*, long ) { mem_access(); }
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_init() {}
#define ATOM( B, T ) \
    EXPORT T __tsan_atomic##B##_load( const volatile T* a, int ) { sched_point( P_ATOMIC ); return *a; } \
    EXPORT void __tsan_atomic##B##_store( volatile T* a, T v, int ) { sched_point( P_ATOMIC ); __atomic_store_n( a, v, __ATOMIC_SEQ_CST ); } \
    EXPORT T __tsan_atomic##B##_exchange( volatile T* a, T v, int ) { sched_point( P_ATOMIC ); return __atomic_exchange_n( a, v, __ATOMIC_SEQ_CST ); } \
    EXPORT T __tsan_atomic##B##_fetch_add( volatile T* a, T v, int ) { sched_point( P_ATOMIC ); return __atomic_fetch_add( a, v, __ATOMIC_SEQ_CST ); } \
    EXPORT T __tsan_atomic##B##_fetch_sub( volatile T* a, T v, int ) { sched_point( P_ATOMIC ); return __atomic_fetch_sub( a, v, __ATOMIC_SEQ_CST ); } \
    EXPORT T __tsan_atomic##B##_fetch_and( volatile T* a, T v, int ) { sched_point( P_ATOMIC ); return __atomic_fetch_and( a, v, __ATOMIC_SEQ_CST ); } \
    EXPORT T __tsan_atomic##B##_fetch_or( volatile T* a, T v, int ) { sched_point( P_ATOMIC ); return __atomic_fetch_or( a, v, __ATOMIC_SEQ_CST ); } \
    EXPORT T __tsan_atomic##B##_fetch_xor( volatile T* a, T v, int ) { sched_point( P_ATOMIC ); return __atomic_fetch_xor( a, v, __ATOMIC_SEQ_CST ); } \
    EXPORT bool __tsan_atomic##B##_compare_exchange_strong( volatile T* a, T* e, T v, int, int ) { sched_point( P_ATOMIC ); return __atomic_compare_exchange_n( a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); } \
    EXPORT bool __tsan_atomic##B##_compare_exchange_weak( volatile T* a, T* e, T v, int, int ) { sched_point( P_ATOMIC ); return __atomic_compare_exchange_n( a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); } \
    EXPORT T __tsan_atomic##B##_compare_exchange_val( volatile T* a, T e, T v, int, int ) { sched_point( P_ATOMIC ); __atomic_compare_exchange_n( a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); return e; }
ATOM( 8, uint8_t ) ATOM( 16, uint16_t ) ATOM( 32, uint32_t ) ATOM( 64, uint64_t )
EXPORT void __tsan_atomic_thread_fence( int ) { __atomic_thread_fence( __ATOMIC_SEQ_CST ); }
EXPORT void __tsan_atomic_signal_fence( int ) {}
