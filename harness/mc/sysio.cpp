#include "sysio.h"
#include <atomic>
#include <cstring>
#include <cstddef>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <ucontext.h>
#include <unistd.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>

#ifndef SYS_SECCOMP
#define SYS_SECCOMP 1
#endif

// the only place from which the filtered system calls are let through
extern "C" long sysio_gate( long nr, long a, long b, long c, long d, long e, long f );
extern "C" char sysio_gate_begin[], sysio_gate_end[];
asm( ".text\n"
     ".globl sysio_gate\n.globl sysio_gate_begin\n.globl sysio_gate_end\n"
     ".type sysio_gate,@function\n"
     "sysio_gate_begin:\n"
     "sysio_gate:\n"
     "  mov %rdi,%rax\n"
     "  mov %rsi,%rdi\n"
     "  mov %rdx,%rsi\n"
     "  mov %rcx,%rdx\n"
     "  mov %r8,%r10\n"
     "  mov %r9,%r8\n"
     "  mov 8(%rsp),%r9\n"
     "  syscall\n"
     "sysio_gate_end:\n"
     "  ret\n"
     ".size sysio_gate,.-sysio_gate\n" );

namespace sysio
{
  const char *kindName( Kind k )
  {
    static const char *n[] = { "open", "read", "write", "sync", "truncate", "close", "unlink", "rename", "mkdir", "stat", "lock", "seek", "other" };
    return n[k];
  }

  static const int MaxFd = 4096;
  struct FdName { char path[PathMax]; };
  static FdName gFd[MaxFd];
  static std::atomic<bool> gFdUsed[MaxFd];
  static char gDir[1024];
  static size_t gDirLen = 0;
  static std::atomic<bool> gOn( false );
  static Hook gHook = nullptr;
  static void *gArg = nullptr;

  long rawSyscall( long nr, long a, long b, long c, long d, long e, long f ) { return sysio_gate( nr, a, b, c, d, e, f ); }
  long real( const Call &c )
  {
    // before the number can be reused by another thread
    if ( c.nr == SYS_close && c.a[0] >= 0 && c.a[0] < MaxFd ) gFdUsed[c.a[0]] = false;
    return sysio_gate( c.nr, c.a[0], c.a[1], c.a[2], c.a[3], c.a[4], c.a[5] );
  }

  static bool below( const char *p, char *rel )
  {
    if ( !p || strncmp( p, gDir, gDirLen ) || ( p[gDirLen] != '/' && p[gDirLen] ) ) return false;
    p += gDirLen;
    while ( *p == '/' ) ++p;
    strncpy( rel, p, PathMax - 1 );
    rel[PathMax - 1] = 0;
    return true;
  }

  static long dispatch( long nr, const long *arg )
  {
    auto pass = [&]() { return sysio_gate( nr, arg[0], arg[1], arg[2], arg[3], arg[4], arg[5] ); };
    if ( !gOn.load( std::memory_order_acquire ) )
    {
      if ( nr == SYS_close && arg[0] >= 0 && arg[0] < MaxFd ) gFdUsed[arg[0]] = false;
      return pass();
    }
    Call c;
    memset( &c, 0, sizeof c );
    c.nr = nr;
    for ( int i = 0; i < 6; ++i ) c.a[i] = arg[i];
    c.kind = Other;
    c.fd = -1;
    c.off = -1;
    bool hit = false;
    auto byPath = [&]( long p, Kind k ) { c.kind = k; hit = below( ( const char * )p, c.path ); };
    auto byFd = [&]( Kind k )
    {
      c.kind = k;
      c.fd = ( int )arg[0];
      hit = c.fd >= 0 && c.fd < MaxFd && gFdUsed[c.fd];
      if ( hit ) memcpy( c.path, gFd[c.fd].path, PathMax );
    };
    auto flags = [&]( long f ) { c.creates = ( f & O_CREAT ) != 0; c.writes = ( f & O_ACCMODE ) != O_RDONLY; };
    switch ( nr )
    {
      case SYS_open: byPath( arg[0], Open ); flags( arg[1] ); break;
      case SYS_openat: byPath( arg[1], Open ); flags( arg[2] ); break;
      case SYS_creat: byPath( arg[0], Open ); c.creates = c.writes = true; break;
      case SYS_read: byFd( Read ); c.len = arg[2]; break;
      case SYS_pread64: byFd( Read ); c.len = arg[2]; c.off = arg[3]; break;
      case SYS_readv: case SYS_preadv: byFd( Read ); break;
      case SYS_write: byFd( Write ); c.len = arg[2]; break;
      case SYS_pwrite64: byFd( Write ); c.len = arg[2]; c.off = arg[3]; break;
      case SYS_writev: case SYS_pwritev: byFd( Write ); break;
      case SYS_sendfile: byFd( Write ); c.len = arg[3]; break;
      case SYS_copy_file_range: c.kind = Write; c.fd = ( int )arg[2]; hit = c.fd >= 0 && c.fd < MaxFd && gFdUsed[c.fd]; if ( hit ) memcpy( c.path, gFd[c.fd].path, PathMax ); c.len = arg[4]; break;
      case SYS_fsync: case SYS_fdatasync: byFd( Sync ); break;
      case SYS_ftruncate: case SYS_fallocate: byFd( Trunc ); c.off = arg[1]; break;
      case SYS_truncate: byPath( arg[0], Trunc ); break;
      case SYS_close: byFd( Close ); break;
      case SYS_unlink: byPath( arg[0], Unlink ); break;
      case SYS_unlinkat: byPath( arg[1], Unlink ); break;
      case SYS_rmdir: byPath( arg[0], Unlink ); break;
      case SYS_rename: case SYS_link: case SYS_symlink: byPath( arg[0], Rename ); below( ( const char * )arg[1], c.path2 ); break;
      case SYS_renameat: case SYS_renameat2: byPath( arg[1], Rename ); below( ( const char * )arg[3], c.path2 ); break;
      case SYS_mkdir: byPath( arg[0], Mkdir ); break;
      case SYS_mkdirat: byPath( arg[1], Mkdir ); break;
      case SYS_stat: case SYS_lstat: case SYS_access: byPath( arg[0], Stat ); break;
      case SYS_fstat: byFd( Stat ); break;
      case SYS_newfstatat:
        if ( arg[1] && *( const char * )arg[1] ) byPath( arg[1], Stat );
        else byFd( Stat );
        break;
      case SYS_statx: byPath( arg[1], Stat ); break;
      case SYS_faccessat: byPath( arg[1], Stat ); break;
#ifdef SYS_faccessat2
      case SYS_faccessat2: byPath( arg[1], Stat ); break;
#endif
      case SYS_fcntl: byFd( arg[1] == F_SETLK || arg[1] == F_SETLKW || arg[1] == F_GETLK ? Lock : Other ); break;
      case SYS_lseek: byFd( Seek ); break;
    }
    long r = hit ? gHook( c, gArg ) : pass();
    if ( c.kind == Open && hit && r >= 0 && r < MaxFd )
    {
      memcpy( gFd[r].path, c.path, PathMax );
      gFdUsed[r] = true;
    }
    else if ( c.kind == Open && r >= 0 && r < MaxFd ) gFdUsed[r] = false;
    return r;
  }

  static void onSys( int, siginfo_t *si, void *ctx )
  {
    int saved = errno;
    ucontext_t *u = ( ucontext_t * )ctx;
    greg_t *g = u->uc_mcontext.gregs;
    if ( si->si_code != SYS_SECCOMP ) { errno = saved; return; }
    long arg[6] = { ( long )g[REG_RDI], ( long )g[REG_RSI], ( long )g[REG_RDX], ( long )g[REG_R10], ( long )g[REG_R8], ( long )g[REG_R9] };
    long nr = si->si_syscall;
    g[REG_RAX] = dispatch( nr, arg );
    errno = saved;
  }

  bool install()
  {
    struct sigaction sa;
    memset( &sa, 0, sizeof sa );
    sa.sa_sigaction = onSys;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_RESTART;
    sigemptyset( &sa.sa_mask );
    if ( sigaction( SIGSYS, &sa, nullptr ) ) return false;
    static const int nrs[] =
    {
      SYS_open, SYS_openat, SYS_creat, SYS_read, SYS_pread64, SYS_readv, SYS_preadv, SYS_write, SYS_pwrite64, SYS_writev, SYS_pwritev, SYS_sendfile,
      SYS_copy_file_range, SYS_fsync, SYS_fdatasync, SYS_ftruncate, SYS_fallocate, SYS_truncate, SYS_close, SYS_unlink, SYS_unlinkat, SYS_rmdir, SYS_rename,
      SYS_link, SYS_symlink, SYS_renameat, SYS_renameat2, SYS_mkdir, SYS_mkdirat, SYS_stat, SYS_lstat, SYS_access, SYS_fstat, SYS_newfstatat, SYS_statx,
      SYS_faccessat,
#ifdef SYS_faccessat2
      SYS_faccessat2,
#endif
      SYS_fcntl, SYS_lseek
    };
    const int n = sizeof nrs / sizeof *nrs;
    uint64_t lo = ( uint64_t )( uintptr_t )sysio_gate_begin, hi = ( uint64_t )( uintptr_t )sysio_gate_end;
    if ( ( lo >> 32 ) != ( hi >> 32 ) ) return false;
    std::vector<sock_filter> f;
    auto st = []( uint16_t c, uint32_t k ) { return sock_filter{ c, 0, 0, k }; };
    auto jp = []( uint16_t c, uint32_t k, uint8_t t, uint8_t e ) { return sock_filter{ c, t, e, k }; };
    f.push_back( st( BPF_LD | BPF_W | BPF_ABS, offsetof( seccomp_data, arch ) ) );
    f.push_back( jp( BPF_JMP | BPF_JEQ | BPF_K, AUDIT_ARCH_X86_64, 1, 0 ) );
    f.push_back( st( BPF_RET | BPF_K, SECCOMP_RET_ALLOW ) );
    // from the gate: allowed
    f.push_back( st( BPF_LD | BPF_W | BPF_ABS, offsetof( seccomp_data, instruction_pointer ) + 4 ) );
    f.push_back( jp( BPF_JMP | BPF_JEQ | BPF_K, ( uint32_t )( lo >> 32 ), 0, 4 ) );
    f.push_back( st( BPF_LD | BPF_W | BPF_ABS, offsetof( seccomp_data, instruction_pointer ) ) );
    f.push_back( jp( BPF_JMP | BPF_JGE | BPF_K, ( uint32_t )lo, 0, 2 ) );
    f.push_back( jp( BPF_JMP | BPF_JGT | BPF_K, ( uint32_t )hi, 1, 0 ) );
    f.push_back( st( BPF_RET | BPF_K, SECCOMP_RET_ALLOW ) );
    f.push_back( st( BPF_LD | BPF_W | BPF_ABS, offsetof( seccomp_data, nr ) ) );
    for ( int i = 0; i < n; ++i ) f.push_back( jp( BPF_JMP | BPF_JEQ | BPF_K, nrs[i], ( uint8_t )( n - i ), 0 ) );
    f.push_back( st( BPF_RET | BPF_K, SECCOMP_RET_ALLOW ) );
    f.push_back( st( BPF_RET | BPF_K, SECCOMP_RET_TRAP ) );
    sock_fprog prog{ ( unsigned short )f.size(), f.data() };
    if ( prctl( PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0 ) ) return false;
    return prctl( PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog ) == 0;
  }

  void watch( const std::string &dir, Hook h, void *arg )
  {
    gOn = false;
    strncpy( gDir, dir.c_str(), sizeof gDir - 1 );
    gDirLen = strlen( gDir );
    while ( gDirLen && gDir[gDirLen - 1] == '/' ) gDir[--gDirLen] = 0;
    for ( auto &u : gFdUsed ) u = false;
    gHook = h;
    gArg = arg;
    gOn.store( true, std::memory_order_release );
  }
  void unwatch() { gOn = false; }
}
