// Simulated externals: btrfs volumes (directory trees), the ZeroMQ transport, and never-used mining entry points.
#include "rt.h"
#include "ext.h"
#include <cerrno>
#include <cstring>
#include <deque>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <vector>
#include <sys/stat.h>
#include <zmq.h>
#include <skutils/btrfs.h>
namespace fs = std::filesystem;

// ------------------------------------------------------------------ btrfs
// A volume is a directory tree.  create/delete/snapshot are single atomic steps (as the ioctls are), each one a disk
// operation of the simulated disk (crash and error point); send/receive stream and are not atomic.
namespace {
struct Quiet {   // harness-internal file work: no faults, no scheduling
    rt::NoPreempt np;
    Quiet() { rt::set_root_enabled( false ); }
    ~Quiet() { rt::set_root_enabled( true ); }
};
std::string g_root, g_last;
bool inside( const std::string& p ) { return !g_root.empty() && p.compare( 0, g_root.size(), g_root ) == 0 && p.find( "/../" ) == std::string::npos; }
int fail( int e ) { errno = e; return 1; }
const char* b_strerror() { return strerror( errno ); }
const char* b_last() { return g_last.c_str(); }
int b_present( const char* p ) { std::error_code ec; Quiet q; return fs::is_directory( p, ec ) ? 0 : fail( ENOENT ); }
const char* b_version() { return "sim"; }
int b_list( const char* ) { return 0; }
int b_create( const char* p ) {
    g_last = std::string( "btrfs subvolume create " ) + p;
    if ( int e = rt::disk_point( "btrfs-create", p ) ) return fail( e );
    Quiet q; std::error_code ec;
    if ( !inside( p ) ) return fail( EPERM );
    if ( fs::exists( p ) ) return fail( EEXIST );
    return fs::create_directory( p, ec ) ? 0 : fail( ec.value() );
}
int b_delete( const char* p ) {
    g_last = std::string( "btrfs subvolume delete " ) + p;
    std::string s = p;
    std::vector< std::string > victims;
    {
        Quiet q; std::error_code ec;
        if ( s.size() > 2 && s.compare( s.size() - 2, 2, "/*" ) == 0 ) {
            if ( fs::is_directory( s.substr( 0, s.size() - 2 ) ) )
                for ( auto& d : fs::directory_iterator( s.substr( 0, s.size() - 2 ), ec ) ) if ( d.is_directory() ) victims.push_back( d.path().string() );
            std::sort( victims.begin(), victims.end() );
        } else victims.push_back( s );
    }
    int r = victims.empty() ? fail( ENOENT ) : 0;
    for ( auto& v : victims ) {
        if ( int e = rt::disk_point( "btrfs-delete", v.c_str() ) ) return fail( e );
        Quiet q; std::error_code ec;
        if ( !inside( v ) ) return fail( EPERM );
        if ( !fs::is_directory( v, ec ) ) { r = fail( ENOENT ); continue; }
        fs::remove_all( v, ec );
        if ( ec ) r = fail( ec.value() );
    }
    return r;
}
int snap( const char* from, const char* to, bool ro ) {
    g_last = std::string( "btrfs subvolume snapshot " ) + from + " " + to;
    if ( int e = rt::disk_point( "btrfs-snapshot", to ) ) return fail( e );
    Quiet q; std::error_code ec;
    fs::path dst = to;
    if ( fs::is_directory( dst ) ) dst /= fs::path( from ).filename();
    if ( !inside( dst.string() ) || !inside( from ) ) return fail( EPERM );
    if ( !fs::is_directory( from ) ) return fail( ENOENT );
    if ( fs::exists( dst ) ) return fail( EEXIST );
    fs::copy( from, dst, fs::copy_options::recursive, ec );
    if ( ec ) return fail( ec.value() );
    fs::permissions( dst, ro ? fs::perms( 0555 ) : fs::perms( 0755 ), ec );
    return 0;
}
int b_snapshot( const char* from, const char* to ) { return snap( from, to, false ); }
int b_snapshot_r( const char* from, const char* to ) { return snap( from, to, true ); }
bool is_ro( const std::string& v ) { struct stat st; return stat( v.c_str(), &st ) == 0 && !( st.st_mode & 0222 ); }
int b_prop( const char* p, const char* name, const char* val ) {
    g_last = std::string( "btrfs property set " ) + p + " " + name + " " + val;
    if ( int e = rt::disk_point( "btrfs-property", p ) ) return fail( e );
    Quiet q; std::error_code ec;
    if ( !inside( p ) ) return fail( EPERM );
    if ( !fs::is_directory( p, ec ) ) return fail( ENOENT );
    fs::permissions( p, std::string( val ) == "true" ? fs::perms( 0555 ) : fs::perms( 0755 ), ec );
    return 0;
}
void pack( std::ostream& o, const fs::path& p, const std::string& rel ) {
    std::vector< fs::path > v;
    for ( auto& d : fs::directory_iterator( p ) ) v.push_back( d.path() );
    std::sort( v.begin(), v.end() );
    for ( auto& f : v ) {
        std::string r = rel + "/" + f.filename().string();
        if ( fs::is_directory( f ) ) { o << "D " << r << "\n"; pack( o, f, r ); }
        else { std::ifstream i( f, std::ios::binary ); std::stringstream ss; ss << i.rdbuf(); std::string c = ss.str(); o << "F " << r << " " << c.size() << "\n" << c; }
    }
}
int b_send( const char*, const char* file, const char* vols ) {
    g_last = std::string( "btrfs send -f " ) + file + " " + vols;
    std::stringstream o;
    {
        Quiet q;
        std::stringstream vs( vols ); std::string v;
        while ( vs >> v ) {
            if ( !fs::is_directory( v ) ) return fail( ENOENT );
            if ( !is_ro( v ) ) return fail( EINVAL );   // only read-only subvolumes can be sent
            o << "V " << fs::path( v ).filename().string() << "\n";
            pack( o, v, fs::path( v ).filename().string() );
        }
    }
    std::string s = o.str() + "E\n";
    std::ofstream f( file, std::ios::binary | std::ios::trunc );
    if ( !f ) return fail( errno ? errno : EIO );
    for ( size_t i = 0; i < s.size(); i += 65536 ) { f.write( s.data() + i, std::min< size_t >( 65536, s.size() - i ) ); f.flush(); if ( !f ) return fail( EIO ); }
    f.close();
    return f ? 0 : fail( EIO );
}
int b_receive( const char* file, const char* path ) {
    g_last = std::string( "btrfs receive -f " ) + file + " " + path;
    std::string s;
    { Quiet q; std::ifstream i( file, std::ios::binary ); if ( !i ) return fail( ENOENT ); std::stringstream ss; ss << i.rdbuf(); s = ss.str(); }
    size_t p = 0; bool end = false;
    while ( p < s.size() ) {
        size_t n = s.find( '\n', p ); if ( n == std::string::npos ) break;
        std::string l = s.substr( p, n - p ); p = n + 1;
        if ( l == "E" ) { end = true; break; }
        if ( l.size() < 3 ) break;
        std::string rest = l.substr( 2 );
        if ( l[0] == 'V' || l[0] == 'D' ) {
            std::string d = std::string( path ) + "/" + rest;
            if ( int e = rt::disk_point( "btrfs-receive", d.c_str() ) ) return fail( e );
            Quiet q; std::error_code ec;
            if ( !inside( d ) ) return fail( EPERM );
            if ( l[0] == 'V' && fs::exists( d ) ) return fail( EEXIST );
            fs::create_directory( d, ec );
        } else if ( l[0] == 'F' ) {
            size_t sp = rest.rfind( ' ' ); if ( sp == std::string::npos ) break;
            size_t len = strtoull( rest.c_str() + sp + 1, nullptr, 10 );
            if ( p + len > s.size() ) break;
            std::string f = std::string( path ) + "/" + rest.substr( 0, sp );
            if ( int e = rt::disk_point( "btrfs-receive", f.c_str() ) ) return fail( e );
            Quiet q;
            if ( !inside( f ) ) return fail( EPERM );
            std::ofstream o( f, std::ios::binary ); o.write( s.data() + p, len ); p += len;
        } else break;
    }
    if ( !end ) return fail( EIO );
    // received volumes become read-only
    Quiet q; std::error_code ec;
    for ( auto& d : fs::directory_iterator( path, ec ) ) if ( d.is_directory() ) fs::permissions( d, fs::perms( 0555 ), ec );
    return 0;
}
}  // namespace
btrfs_t btrfs = { b_strerror, b_last, b_present, b_version, { b_list, b_create, b_delete, b_snapshot, b_snapshot_r, b_prop }, b_receive, b_send };

// ------------------------------------------------------------------ ZeroMQ
namespace ext {
void set_root( const std::string& r ) { g_root = r; }
std::vector< std::string > sent;
int send_errors = 0;
std::vector< std::string > failed;
std::function< void( const std::string& ) > on_send;
static std::deque< std::string > inbox;
void inject( const std::string& m ) { inbox.push_back( m ); }
size_t inbox_size() { return inbox.size(); }
}  // namespace ext
namespace {
struct Ctx { int sockets = 0; bool term = false; };
struct Sock { Ctx* c; int type; int rcvtimeo = -1; bool closed = false; };
struct Msg { std::string* s; };
bool recv_ready( void* p ) { Sock* s = ( Sock* ) p; return s->c->term || !ext::inbox.empty(); }
bool ctx_idle( void* p ) { return ( ( Ctx* ) p )->sockets == 0; }
}
extern "C" {
void* zmq_ctx_new() { return new Ctx; }
int zmq_ctx_term( void* p ) {
    Ctx* c = ( Ctx* ) p; c->term = true; rt::point( "zmq_ctx_term" );
    if ( rt::active() ) rt::block_until( ctx_idle, c, 0, "zmq_ctx_term" );
    return 0;
}
void* zmq_socket( void* c, int t ) { Sock* s = new Sock{ ( Ctx* ) c, t }; s->c->sockets++; return s; }
int zmq_setsockopt( void* s, int o, const void* v, size_t n ) { if ( o == ZMQ_RCVTIMEO && n == 4 ) ( ( Sock* ) s )->rcvtimeo = *( const int* ) v; return 0; }
int zmq_connect( void*, const char* ) { return 0; }
int zmq_bind( void*, const char* ) { return 0; }
int zmq_close( void* p ) { Sock* s = ( Sock* ) p; if ( !s->closed ) { s->closed = true; s->c->sockets--; } rt::point( "zmq_close" ); return 0; }
int zmq_send( void*, const void* b, size_t n, int ) {
    rt::point( "zmq_send" );
    if ( ext::send_errors > 0 ) { ext::send_errors--; ext::failed.push_back( std::string( ( const char* ) b, n ) ); errno = EAGAIN; return -1; }
    ext::sent.push_back( std::string( ( const char* ) b, n ) );
    if ( ext::on_send ) ext::on_send( ext::sent.back() );
    return ( int ) n;
}
int zmq_msg_init( zmq_msg_t* m ) { ( ( Msg* ) m )->s = nullptr; return 0; }
int zmq_msg_recv( zmq_msg_t* m, void* p, int ) {
    Sock* s = ( Sock* ) p;
    rt::point( "zmq_recv" );
    if ( s->c->term ) { errno = ETERM; return -1; }
    if ( ext::inbox.empty() ) {
        bool ok = rt::block_until( recv_ready, s, s->rcvtimeo < 0 ? 0 : 1000ull * s->rcvtimeo, "zmq_recv" );
        if ( s->c->term ) { errno = ETERM; return -1; }
        if ( !ok || ext::inbox.empty() ) { errno = EAGAIN; return -1; }
    }
    ( ( Msg* ) m )->s = new std::string( ext::inbox.front() ); ext::inbox.pop_front();
    return ( int ) ( ( Msg* ) m )->s->size();
}
size_t zmq_msg_size( const zmq_msg_t* m ) { auto s = ( ( Msg* ) m )->s; return s ? s->size() : 0; }
void* zmq_msg_data( zmq_msg_t* m ) { auto s = ( ( Msg* ) m )->s; return s ? ( void* ) s->data() : nullptr; }
int zmq_msg_close( zmq_msg_t* m ) { delete ( ( Msg* ) m )->s; ( ( Msg* ) m )->s = nullptr; return 0; }
const char* zmq_strerror( int e ) { return strerror( e ); }
int zmq_errno() { return errno; }
}

// ------------------------------------------------------------------ never reached
extern "C" void* evmc_create_interpreter() { abort(); }
void MicroProfileOnThreadCreate( const char* ) {}
