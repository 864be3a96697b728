// P18: two operations at the same time, in threads of a process or in two processes. A scheduler lets
// one of them run at a time and switches where the schedule says, before a file access. All schedules
// up to the bound are executed; each result has to be one that operations carried out one after the
// other can have.
#include "iospace.h"
#include <pthread.h>
#include <dlfcn.h>
#include <signal.h>
#include <time.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <atomic>
using namespace mc;
using namespace iospace;

// ---------------------------------------------------------------- scheduler
namespace
{
  const int MaxSwitch = 4, MaxOps = 3, LogSize = 1500;
  struct Shared
  {
    std::atomic<int> turn;                       // who may run; changes wake the other one
    std::atomic<int> done[2], blocked[2], dead[2];
    std::atomic<int> progress;
    int nswitch, next, seg;                      // switch after that many points of the running actor
    int plan[MaxSwitch];
    int points[2];
    int stalls, blocks;
    int rc[2][MaxOps];
    char log[2][LogSize];
    char where[MaxSwitch][300];
    bool closeDropsLock;
    char lockPath[300];
  };
  Shared *S = nullptr;
  thread_local int me = -1;                      // actor of this thread, -1: not scheduled
  thread_local bool inside = false;
  const char *gVisible = nullptr;                // only accesses to paths beginning so are points

  long futex( std::atomic<int> *a, int op, int v, const timespec *t ) { return syscall( SYS_futex, ( int * )a, op, v, t, nullptr, 0 ); }
  void await()
  {
    int last = S->progress, idle = 0;
    while ( S->turn != me )
    {
      timespec t{ 0, 100000000 };
      futex( &S->turn, FUTEX_WAIT, 1 - me, &t );
      if ( S->turn == me ) break;
      int p = S->progress;
      idle = p == last ? idle + 1 : 0;
      last = p;
      // the other one waits for something that is not known here: let both run
      if ( idle >= 15 ) { ++S->stalls; S->turn = me; break; }
    }
  }
  void handTo( int other ) { S->turn = other; futex( &S->turn, FUTEX_WAKE, 8, nullptr ); }
  void yieldTurn()
  {
    int o = 1 - me;
    if ( S->done[o] ) return;
    handTo( o );
    await();
  }
  void point( const char *what, const char *path )
  {
    ++S->progress;
    if ( S->next < S->nswitch && S->seg == S->plan[S->next] && S->turn == me )
    {
      snprintf( S->where[S->next], sizeof S->where[0], "operation %c before its access %d: %s %s", "AB"[me], S->points[me], what, path );
      ++S->next;
      S->seg = 0;
      yieldTurn();
    }
    ++S->seg;
    ++S->points[me];
  }
  // locks of this process per file: closing any descriptor of a file releases all of them
  struct Held { char path[sysio::PathMax]; int64_t from, to; int actor; };
  Held gHeld[64];
  int gNHeld = 0;
  void noteLock( const sysio::Call &c, long r )
  {
    if ( c.kind == sysio::Lock && r == 0 && c.a[1] != F_GETLK )
    {
      const struct flock *f = ( const struct flock * )c.a[2];
      int64_t from = f->l_start, to = f->l_len ? from + f->l_len : INT64_MAX;
      for ( int i = 0; i < gNHeld; )
      {
        Held &h = gHeld[i];
        if ( strcmp( h.path, c.path ) || h.to <= from || to <= h.from ) { ++i; continue; }
        Held old = h;
        gHeld[i] = gHeld[--gNHeld];
        if ( old.from < from && gNHeld < 63 ) { gHeld[gNHeld] = old; gHeld[gNHeld++].to = from; }
        if ( old.to > to && gNHeld < 63 ) { gHeld[gNHeld] = old; gHeld[gNHeld++].from = to; }
        i = 0;
      }
      if ( f->l_type != F_UNLCK && gNHeld < 64 ) { Held &h = gHeld[gNHeld++]; strcpy( h.path, c.path ); h.from = from; h.to = to; h.actor = me; }
    }
    if ( c.kind == sysio::Close )
      for ( int i = 0; i < gNHeld; ++i )
        // (SQLite does so itself with -shm files)
        if ( gHeld[i].actor != me && !strcmp( gHeld[i].path, c.path ) && !strchr( c.path, '-' ) ) { S->closeDropsLock = true; snprintf( S->lockPath, sizeof S->lockPath, "%s", c.path ); }
  }
  bool gReduced = true;
  //! Data accesses of an operation that holds a lock on the database (or on the one a journal belongs to)
  //! commute with what the other one may do without taking a lock, and need no switch before them.
  bool quietAccess( const sysio::Call &c )
  {
    if ( !gReduced || !( c.kind == sysio::Read || c.kind == sysio::Write || c.kind == sysio::Sync || c.kind == sysio::Trunc || ( c.kind == sysio::Stat && c.fd >= 0 ) ) ) return false;
    for ( int i = 0; i < gNHeld; ++i )
    {
      const char *rest = c.path + strlen( gHeld[i].path );
      if ( gHeld[i].actor == me && !strncmp( c.path, gHeld[i].path, strlen( gHeld[i].path ) ) && ( !*rest || *rest == '-' ) ) return true;
    }
    return false;
  }
  long schedHook( sysio::Call &c, void * )
  {
    if ( me >= 0 && !inside && c.kind != sysio::Seek && c.kind != sysio::Other && ( !gVisible || !strncmp( c.path, gVisible, strlen( gVisible ) ) ) && !quietAccess( c ) )
    {
      inside = true;
      point( sysio::kindName( c.kind ), c.path );
      inside = false;
    }
    sysio::Call k = c;
    long r = sysio::real( c );
    if ( me >= 0 ) noteLock( k, r );
    return r;
  }
  template<class F> F next( const char *n ) { return ( F )dlsym( RTLD_NEXT, n ); }
}

extern "C" int pthread_mutex_lock( pthread_mutex_t *m ) noexcept
{
  static auto lock = next<int( * )( pthread_mutex_t * )>( "pthread_mutex_lock" );
  static auto tryl = next<int( * )( pthread_mutex_t * )>( "pthread_mutex_trylock" );
  if ( me < 0 || !S ) return lock( m );
  while ( true )
  {
    int r = tryl( m );
    if ( r != EBUSY ) return r;
    if ( S->done[1 - me] ) return lock( m );
    ++S->blocks;
    ++S->progress;
    S->blocked[me] = 1;
    handTo( 1 - me );
    await();
    S->blocked[me] = 0;
  }
}
extern "C" int pthread_mutex_unlock( pthread_mutex_t *m ) noexcept
{
  static auto unlock = next<int( * )( pthread_mutex_t * )>( "pthread_mutex_unlock" );
  int r = unlock( m );
  if ( me >= 0 && S && S->blocked[1 - me] && S->turn == me ) yieldTurn();
  return r;
}
static bool sleeps() { if ( me < 0 || !S || S->done[1 - me] ) return true; ++S->progress; yieldTurn(); return false; }
extern "C" int nanosleep( const timespec *a, timespec *b ) { static auto f = next<int( * )( const timespec *, timespec * )>( "nanosleep" ); return sleeps() ? f( a, b ) : 0; }
extern "C" int usleep( useconds_t a ) { static auto f = next<int( * )( useconds_t )>( "usleep" ); return sleeps() ? f( a ) : 0; }
extern "C" int clock_nanosleep( clockid_t c, int fl, const timespec *a, timespec *b ) { static auto f = next<int( * )( clockid_t, int, const timespec *, timespec * )>( "clock_nanosleep" ); return sleeps() ? f( c, fl, a, b ) : 0; }

// ---------------------------------------------------------------- scenarios
namespace
{
  struct Op { std::string name; std::function<int( const std::string & )> call; std::vector<std::string> outs; };
  struct Scn
  {
    std::string name;
    std::vector<std::pair<std::string, std::string>> files;
    std::vector<std::string> subdirs;
    std::vector<Op> ops[2];
    std::vector<std::string> dbs;       // may be changed
    bool shared = false;                // operations may fail when disturbed
    std::string visible;                // accesses that matter
    int depth[2] = { 1, 2 };            // preemptions, quick and thorough
  };
  std::string P( const std::string &d, const char *n ) { return d + "/" + n; }
  std::string walImage( std::string img ) { img[18] = 2; img[19] = 2; return img; }
  void logTo( GEODIFF_LoggerLevel, const char *m )
  {
    if ( me < 0 || !S ) return;
    size_t n = strlen( S->log[me] );
    snprintf( S->log[me] + n, LogSize - n, "%s\n", m );
  }
  int execSql( const std::string &path, const std::string &sql )
  {
    try { Db d( path ); return d.tryExec( "BEGIN IMMEDIATE;" + sql + ";COMMIT;" ) ? 0 : 1; }
    catch ( const std::exception & ) { return 1; }
  }

  std::vector<Scn> scns( const std::string &dir )
  {
    std::vector<Scn> r;
    std::vector<Scenario> io = scenarios( dir );
    auto find = [&]( const std::string & n ) -> const Scenario & { for ( auto &s : io ) if ( s.name == n ) return s; throw std::runtime_error( n ); };
    // different files, one temporary directory
    const std::vector<std::string> names = { "createChangeset small", "createRebasedChangeset conflict", "createRebasedChangesetEx conflict", "rebase conflict", "rebaseEx no conflict", "applyChangeset fits", "applyChangeset misfit", "invertChangeset small", "listChanges small", "dumpData small", "applyChangeset triggers", "rebase gpkg" };
    for ( size_t i = 0; i < names.size(); ++i )
      for ( size_t k = i; k < names.size(); ++k )
      {
        Scn s;
        s.name = "apart: " + names[i] + " | " + names[k];
        s.subdirs = { "a", "b" };
        for ( int z = 0; z < 2; ++z )
        {
          const Scenario &q = find( names[z ? k : i] );
          std::string sub = z ? "b/" : "a/";
          for ( auto &f : q.files ) s.files.push_back( { sub + f.first, f.second } );
          Op o;
          o.name = q.name;
          auto call = q.call;
          o.call = [call, sub]( const std::string & d ) { std::string e; return call( d + "/" + sub.substr( 0, 1 ), e ); };
          for ( auto &f : q.outputs ) o.outs.push_back( sub + f );
          if ( !q.dataset.empty() ) s.dbs.push_back( sub + q.dataset );
          s.ops[z] = { o };
        }
        if ( i != k ) s.depth[1] = 1;
        r.push_back( s );
      }
    const std::string base = buildImage( smallSql() ), theirs = buildImage( smallSql() + theirsEdit() ), mine = buildImage( smallSql() + mineEdit() );
    const std::string B2T = changesetOf( dir, base, theirs );
    auto edit = [&]( const std::string & sql, const std::string & from ) { return changesetOf( dir, buildImage( from ), buildImage( from + sql ) ); };
    const std::string sm = smallSql();
    const std::string X1 = edit( "UPDATE t SET a='x1' WHERE id=2; INSERT INTO t VALUES(8,'x1','e');", sm ), X2 = edit( "UPDATE t SET a='x2' WHERE id=3; DELETE FROM k;", sm ), XC = edit( "UPDATE t SET a='xc' WHERE id=2; DELETE FROM t WHERE id=3;", sm );
    const std::string X12 = changesetOf( dir, buildImage( sm + "UPDATE t SET a='x1' WHERE id=2; INSERT INTO t VALUES(8,'x1','e');" ), buildImage( sm + "UPDATE t SET a='x12' WHERE id=2; INSERT INTO t VALUES(8,'x1','e'); DELETE FROM t WHERE id=1;" ) );
    auto apply = []( const char *db, const char *cs ) { return Op{ std::string( "applyChangeset " ) + cs, [ = ]( const std::string & d ) { return GEODIFF_applyChangeset( P( d, db ).c_str(), P( d, cs ).c_str() ); }, {} }; };
    auto create = []( const char *b, const char *m, const char *o ) { return Op{ std::string( "createChangeset " ) + b + " " + m, [ = ]( const std::string & d ) { return GEODIFF_createChangeset( P( d, b ).c_str(), P( d, m ).c_str(), P( d, o ).c_str() ); }, { o } }; };
    auto rebase = []( const char *b, const char *t, const char *m, const char *c ) { return Op{ std::string( "rebase " ) + b + " " + t + " " + m, [ = ]( const std::string & d ) { return GEODIFF_rebase( P( d, b ).c_str(), P( d, t ).c_str(), P( d, m ).c_str(), P( d, c ).c_str() ); }, { c } }; };
    auto rebaseEx = []( const char *b, const char *t, const char *m, const char *c ) { return Op{ std::string( "rebaseEx " ) + b + " " + t + " " + m, [ = ]( const std::string & d ) { return GEODIFF_rebaseEx( "sqlite", "", P( d, b ).c_str(), P( d, m ).c_str(), P( d, t ).c_str(), P( d, c ).c_str() ); }, { c } }; };
    auto rebased = []( const char *b, const char *m, const char *t, const char *o, const char *c ) { return Op{ std::string( "createRebasedChangeset " ) + b + " " + m + " " + t, [ = ]( const std::string & d ) { return GEODIFF_createRebasedChangeset( P( d, b ).c_str(), P( d, m ).c_str(), P( d, t ).c_str(), P( d, o ).c_str(), P( d, c ).c_str() ); }, { o, c } }; };
    auto dump = []( const char *b, const char *o ) { return Op{ std::string( "dumpData " ) + b, [ = ]( const std::string & d ) { return GEODIFF_dumpData( "sqlite", "", P( d, b ).c_str(), P( d, o ).c_str() ); }, { o } }; };
    auto sqlw = []( const char *db, const std::string & q ) { return Op{ "SQL " + q, [ = ]( const std::string & d ) { return execSql( P( d, db ), q ); }, {} }; };
    auto copy = []( const char *b, const char *o ) { return Op{ std::string( "makeCopy " ) + b, [ = ]( const std::string & d ) { return GEODIFF_makeCopy( "sqlite", "", P( d, b ).c_str(), "sqlite", "", P( d, o ).c_str() ); }, { o } }; };
    (void)copy;
    // the same inputs, outputs side by side
    auto sides = [&]( const std::string & n, Op a, Op b )
    {
      Scn s;
      s.name = "same inputs: " + n;
      s.files = { { "base", base }, { "mine", mine }, { "theirs", theirs }, { "b2t", B2T }, { "out1", "old" }, { "out2", "old" }, { "conf1", "old" }, { "conf2", "old" }, { "m1", mine }, { "m2", mine } };
      s.ops[0] = { a };
      s.ops[1] = { b };
      s.dbs = { "m1", "m2" };
      r.push_back( s );
    };
    sides( "create | create", create( "base", "mine", "out1" ), create( "base", "mine", "out2" ) );
    sides( "create | create the other way", create( "base", "mine", "out1" ), create( "mine", "base", "out2" ) );
    sides( "create | createRebased", create( "base", "mine", "out1" ), rebased( "base", "mine", "b2t", "out2", "conf2" ) );
    sides( "createRebased | createRebased", rebased( "base", "mine", "b2t", "out1", "conf1" ), rebased( "base", "mine", "b2t", "out2", "conf2" ) );
    sides( "rebase | rebase", rebase( "base", "theirs", "m1", "conf1" ), rebase( "base", "theirs", "m2", "conf2" ) );
    sides( "rebaseEx | createRebased", rebaseEx( "base", "b2t", "m1", "conf1" ), rebased( "base", "mine", "b2t", "out2", "conf2" ) );
    sides( "apply | rebase", apply( "m1", "b2t" ), rebase( "base", "theirs", "m2", "conf2" ) );
    sides( "dump | create", dump( "base", "out1" ), create( "base", "mine", "out2" ) );
    // one database
    for ( int wal = 0; wal < 2; ++wal )
    {
      auto img = [&]( const std::string & i ) { return wal ? walImage( i ) : i; };
      auto same = [&]( const std::string & n, std::vector<Op> a, std::vector<Op> b, const std::string & db = "" )
      {
        Scn s;
        s.name = std::string( wal ? "one database, WAL: " : "one database: " ) + n;
        s.files = { { "db", img( db.empty() ? base : db ) }, { "base", base }, { "theirs", theirs }, { "mine", mine }, { "X1", X1 }, { "X2", X2 }, { "XC", XC }, { "X12", X12 }, { "b2t", B2T }, { "out1", "old" }, { "out2", "old" }, { "conf1", "old" }, { "conf2", "old" } };
        s.ops[0] = a;
        s.ops[1] = b;
        for ( size_t i = 0; i < s.files.size(); )
        {
          const std::string &n = s.files[i].first;
          bool used = n == "db";
          for ( auto &q : s.ops ) for ( auto &o : q ) used |= ( o.name + " " ).find( " " + n + " " ) != std::string::npos || std::find( o.outs.begin(), o.outs.end(), n ) != o.outs.end();
          if ( used ) ++i;
          else s.files.erase( s.files.begin() + i );
        }
        s.dbs = { "db" };
        s.shared = true;
        s.visible = "db";
        s.depth[1] = 2;
        s.depth[0] = wal || n == "rebase | rebase" || n.find( "createRebased" ) != std::string::npos ? 1 : 2;
        r.push_back( s );
      };
      const std::string w1 = "UPDATE t SET a='w' WHERE id=2; INSERT INTO t VALUES(9,'w','f');";
      same( "apply | apply, different rows", { apply( "db", "X1" ) }, { apply( "db", "X2" ) } );
      same( "apply | apply, same row", { apply( "db", "X1" ) }, { apply( "db", "XC" ) } );
      same( "apply | apply, with triggers", { apply( "db", "X1" ) }, { apply( "db", "X2" ) }, buildImage( sm + "CREATE TRIGGER trg AFTER UPDATE ON t BEGIN UPDATE k SET v=v+1; END;" ) );
      same( "apply, apply | create, modified", { apply( "db", "X1" ), apply( "db", "X12" ) }, { create( "base", "db", "out2" ) } );
      same( "apply, apply | create, base", { apply( "db", "X1" ), apply( "db", "X12" ) }, { create( "db", "mine", "out2" ) } );
      same( "SQL, SQL | create, modified", { sqlw( "db", w1 ), sqlw( "db", "DELETE FROM k; DELETE FROM t WHERE id=1" ) }, { create( "base", "db", "out2" ) } );
      same( "apply, apply | dump", { apply( "db", "X1" ), apply( "db", "X12" ) }, { dump( "db", "out2" ) } );
      same( "apply, apply | createRebased", { apply( "db", "X1" ), apply( "db", "X12" ) }, { rebased( "base", "db", "b2t", "out2", "conf2" ) } );
      same( "apply | rebase", { apply( "db", "X1" ) }, { rebase( "base", "theirs", "db", "conf2" ) } );
      same( "apply, same row | rebase", { apply( "db", "XC" ) }, { rebase( "base", "theirs", "db", "conf2" ) }, theirs.empty() ? "" : buildImage( sm + "INSERT INTO t VALUES(4,'m4','w');" ) );
      same( "SQL | rebase", { sqlw( "db", "UPDATE t SET a='w' WHERE id=1; INSERT INTO t VALUES(9,'w','f')" ) }, { rebase( "base", "theirs", "db", "conf2" ) }, mine );
      same( "SQL | rebaseEx", { sqlw( "db", "DELETE FROM k" ) }, { rebaseEx( "base", "b2t", "db", "conf2" ) }, mine );
      same( "rebase | rebase", { rebase( "base", "theirs", "db", "conf1" ) }, { rebase( "base", "theirs", "db", "conf2" ) }, mine );
      same( "apply | rebase, its base", { apply( "db", "X1" ) }, { rebase( "db", "theirs", "mine2", "conf2" ) } );
      r.back().files.push_back( { "mine2", mine } );
      r.back().dbs.push_back( "mine2" );
      same( "apply, apply | rebase, its theirs", { apply( "db", "X1" ), apply( "db", "X12" ) }, { rebase( "base", "db", "mine2", "conf2" ) } );
      r.back().files.push_back( { "mine2", mine } );
      r.back().dbs.push_back( "mine2" );
    }
    return r;
  }

  void placeAll( const Scn &s, const std::string &w )
  {
    removeTree( w );
    mkdir( w.c_str(), 0700 );
    mkdir( ( w + "/tmp" ).c_str(), 0700 );
    for ( auto &q : s.subdirs ) mkdir( ( w + "/" + q ).c_str(), 0700 );
    for ( auto &f : s.files ) writeFile( w + "/" + f.first, f.second );
    setenv( "TMPDIR", ( w + "/tmp/" ).c_str(), 1 );
  }
  std::string outOf( const std::string &p ) { return exists( p ) ? readFile( p ) : "(no file)"; }
  std::string cut( const std::string &s ) { return s.size() > 700 ? s.substr( 0, 700 ) + "..." : s; }
  //! what operations did: return values, outputs of those that succeeded (of all, if they may not fail), databases
  std::string outcome( const Scn &s, const std::string &w, int rc[2][MaxOps] )
  {
    std::string r;
    for ( int z = 0; z < 2; ++z )
      for ( size_t i = 0; i < s.ops[z].size(); ++i )
      {
        bool ok = rc[z][i] == GEODIFF_SUCCESS;
        r += fmt( "%c%zu ", "AB"[z], i + 1 ) + s.ops[z][i].name + ": " + ( s.shared ? ( ok ? "success" : "failure" ) : fmt( "%d", rc[z][i] ) ) + "\n";
        if ( ok || !s.shared ) for ( auto &o : s.ops[z][i].outs ) r += "  " + o + ": " + hex( outOf( w + "/" + o ) ) + "\n";
      }
    for ( auto &d : s.dbs ) r += d + ":\n" + fullDump( w + "/" + d ) + "\n";
    return r;
  }
  //! forks and runs f in the child, whose answer is a string
  bool inChild( const std::function<std::string()> &f, std::string &out, int *status = nullptr )
  {
    int fd[2];
    if ( pipe( fd ) ) return false;
    fflush( nullptr );
    pid_t p = fork();
    if ( p == 0 )
    {
      close( fd[0] );
      prctl( PR_SET_PDEATHSIG, SIGKILL );
      alarm( 60 );
      std::string r;
      try { r = f(); } catch ( const std::exception &e ) { fprintf( stderr, "%s\n", e.what() ); _exit( 3 ); }
      size_t at = 0;
      while ( at < r.size() ) { ssize_t n = write( fd[1], r.data() + at, r.size() - at ); if ( n <= 0 ) _exit( 4 ); at += n; }
      _exit( 0 );
    }
    close( fd[1] );
    out.clear();
    char buf[65536];
    ssize_t n;
    while ( ( n = read( fd[0], buf, sizeof buf ) ) > 0 ) out.append( buf, n );
    close( fd[0] );
    int st = 0;
    waitpid( p, &st, 0 );
    if ( status ) *status = st;
    return WIFEXITED( st ) && WEXITSTATUS( st ) == 0;
  }
  //! outcomes of carrying out the operations that are not in the mask one after the other, in every order
  std::vector<std::string> serial( const Scn &s, const std::string &w, unsigned mask )
  {
    std::vector<std::string> r;
    size_t n = s.ops[0].size(), m = s.ops[1].size();
    for ( unsigned bits = 0; bits < ( 1u << ( n + m ) ); ++bits )       // 1: an operation of B comes next
    {
      if ( size_t( __builtin_popcount( bits ) ) != m ) continue;
      std::string o;
      if ( !inChild( [&]
      {
        GEODIFF_setLoggerCallback( quiet );
        placeAll( s, w );
        int rc[2][MaxOps] = {};
        size_t at[2] = { 0, 0 };
        for ( size_t i = 0; i < n + m; ++i )
        {
          int z = ( bits >> i ) & 1;
          size_t k = at[z]++;
          bool skip = ( mask >> ( z * MaxOps + k ) ) & 1;
          rc[z][k] = skip ? GEODIFF_ERROR : s.ops[z][k].call( w );
        }
        return outcome( s, w, rc );
      }, o ) ) o = "(crashed)";
      bool seen = false;
      for ( auto &q : r ) seen |= q == o;
      if ( !seen ) r.push_back( o );
    }
    return r;
  }

  void runActor( const Scn &s, int z, const std::string &w )
  {
    me = z;
    await();
    for ( size_t i = 0; i < s.ops[z].size(); ++i ) S->rc[z][i] = s.ops[z][i].call( w );
    S->done[z] = 1;
    ++S->progress;
    handTo( 1 - z );
    me = -1;
  }
  struct ThreadArg { const Scn *s; int z; const std::string *w; };
  void *threadMain( void *a ) { ThreadArg *t = ( ThreadArg * )a; runActor( *t->s, t->z, *t->w ); return nullptr; }

  //! executes a schedule; S tells the rest. Returns a description of a crash, or ""
  std::string execute( const Scn &s, const std::string &w, bool threads, int first, const std::vector<int> &plan )
  {
    placeAll( s, w );
    memset( ( void * )S, 0, sizeof *S );
    S->turn = first;
    S->nswitch = ( int )plan.size();
    for ( size_t i = 0; i < plan.size(); ++i ) S->plan[i] = plan[i];
    for ( int z = 0; z < 2; ++z ) for ( int i = 0; i < MaxOps; ++i ) S->rc[z][i] = 99;
    gVisible = s.visible.empty() ? nullptr : s.visible.c_str();
    gNHeld = 0;
    fflush( nullptr );
    std::string crash;
    pid_t pid[2] = { 0, 0 };
    auto child = [&]
    {
      prctl( PR_SET_PDEATHSIG, SIGKILL );
      alarm( 60 );
      GEODIFF_setLoggerCallback( logTo );
      GEODIFF_setMaximumLoggerLevel( LevelError );
      if ( !sysio::install() ) _exit( 98 );
      sysio::watch( w, schedHook, nullptr );
    };
    for ( int z = 0; z < ( threads ? 1 : 2 ); ++z )
    {
      pid[z] = fork();
      if ( pid[z] ) continue;
      child();
      if ( threads )
      {
        ThreadArg a[2] = { { &s, 0, &w }, { &s, 1, &w } };
        pthread_t t[2];
        for ( int k = 0; k < 2; ++k ) if ( pthread_create( &t[k], nullptr, threadMain, &a[k] ) ) _exit( 5 );
        for ( int k = 0; k < 2; ++k ) pthread_join( t[k], nullptr );
      }
      else runActor( s, z, w );
      _exit( 0 );
    }
    for ( int n = threads ? 1 : 2; n; --n )
    {
      int st = 0;
      pid_t p = waitpid( -1, &st, 0 );
      if ( p < 0 ) break;
      int z = p == pid[0] ? 0 : 1;
      if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ) continue;
      std::string who = threads ? std::string( "the process" ) : fmt( "operation %c", "AB"[z] );
      crash += who + ( WIFSIGNALED( st ) ? WTERMSIG( st ) == SIGALRM ? std::string( " does not end" ) : fmt( " was ended by signal %d", WTERMSIG( st ) ) : fmt( " exited with status %d", WEXITSTATUS( st ) ) ) + "; ";
      S->done[z] = 1;
      handTo( 1 - z );
    }
    return crash;
  }

  struct Part { int scn; bool threads; int first; int n1, n2, depth; uint64_t count; };
  struct Space
  {
    std::vector<Scn> s;
    std::vector<Part> parts;
    uint64_t total = 0;
    std::vector<std::array<int, 2>> points;
    explicit Space( bool thorough )
    {
      char tmp[] = "/tmp/mcp18XXXXXX";
      if ( !mkdtemp( tmp ) ) { perror( "mkdtemp" ); exit( 77 ); }
      std::string dir = tmp;
      s = scns( dir );
      for ( size_t i = 0; i < s.size(); ++i )
      {
        // accesses of each operation alone
        std::array<int, 2> n = { 0, 0 };
        std::string txt;
        int st = 0;
        bool ok = inChild( [&]
        {
          std::string r;
          for ( int order = 0; order < 2; ++order )
          {
            if ( execute( s[i], dir + "/w", false, order, {} ).find( "status 98" ) != std::string::npos ) _exit( 98 );
            r += fmt( "%d %d\n", S->points[0], S->points[1] );
          }
          return r;
        }, txt, &st );
        if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 98 ) { fprintf( stderr, "seccomp filters are not available here\n" ); removeTree( dir ); exit( 77 ); }
        int q[4] = { 0, 0, 0, 0 };
        if ( ok ) sscanf( txt.c_str(), "%d %d %d %d", q, q + 1, q + 2, q + 3 );
        n = { std::max( q[0], q[2] ), std::max( q[1], q[3] ) };
        points.push_back( n );
        for ( int t = 0; t < 2; ++t )
          for ( int f = 0; f < 2; ++f )
          {
            int d = t == 1 && !thorough ? 1 : s[i].depth[thorough];
            uint64_t c = 1 + n[f];                                          // no switch, one
            if ( d >= 2 ) c += uint64_t( n[f] ) * n[1 - f];
            parts.push_back( { int( i ), t == 1, f, n[f], n[1 - f], d, c } );
            total += c;
          }
      }
      removeTree( dir );
      if ( getenv( "P18_PARTS" ) ) for ( auto &q : parts ) fprintf( stderr, "%s %d %d: %d %d %llu\n", s[q.scn].name.c_str(), q.threads, q.first, q.n1, q.n2, ( unsigned long long )q.count );
    }
    void get( uint64_t i, Part &p, std::vector<int> &plan ) const
    {
      plan.clear();
      for ( auto &q : parts )
      {
        if ( i >= q.count ) { i -= q.count; continue; }
        p = q;
        if ( i == 0 ) return;
        --i;
        if ( i < uint64_t( q.n1 ) ) { plan = { int( i ) + 1 }; return; }
        i -= q.n1;
        plan = { int( i % q.n1 ) + 1, int( i / q.n1 ) + 1 };
        return;
      }
      p = parts[0];
    }
  };
}

// ------------------------------------------------------------------ memory
// Two calls in two threads of a program built with the thread sanitizer (P18_mem.cpp).
static std::vector<argspace::Call> memCalls()
{
  std::vector<argspace::Call> v;
  for ( auto &c : argspace::calls() ) v.push_back( c );
  return v;
}
static void runMemory( const Ctx &x, const argspace::Call &a, const argspace::Call &b, bool warm )
{
  using namespace argspace;
  clearDir( x.dir );
  std::string spec, log = x.p( "log" );
  mkdir( x.p( "tmp" ).c_str(), 0755 );
  auto add = [&]( const argspace::Call & c, const std::string & who )
  {
    std::vector<std::string> args;
    for ( size_t i = 0; i < c.args.size(); ++i )
    {
      const Arg &g = c.args[i];
      if ( g.role == TmpDir ) continue;
      std::string p;
      if ( g.role == Driver ) p = "sqlite";
      else if ( g.role == Extra ) p = "";
      else if ( g.content.empty() ) p = x.p( who + std::to_string( i ) );
      else
      {
        // inputs are shared, what is written to is not
        std::string n = g.role == DbInOut ? who + std::to_string( i ) : "in_" + g.content;
        for ( char &ch : n ) if ( ch == ':' ) ch = '_';
        p = x.p( n );
        if ( !exists( p ) ) writeFile( p, contentFor( x, g.content ) );
      }
      args.push_back( p );
    }
    spec += c.fn + "\n" + std::to_string( args.size() ) + "\n";
    for ( auto &q : args ) spec += q + "\n";
  };
  add( a, "wa" );
  add( b, "wb" );
  add( a, "a" );
  add( b, "b" );
  writeFile( x.p( "spec" ), spec );
  writeFile( x.p( "supp" ), "called_from_lib:libsqlite3\n" );
  const char *exe = getenv( "P18_MEM" );
  if ( !exe ) x.fail( "setup", "P18_MEM" );
  pid_t p = fork();
  if ( !p )
  {
    int o = open( log.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644 );
    dup2( o, 1 );
    dup2( o, 2 );
    setenv( "TSAN_OPTIONS", ( "exitcode=66 halt_on_error=0 report_signal_unsafe=0 report_mutex_bugs=0 suppressions=" + x.p( "supp" ) ).c_str(), 1 );
    setenv( "TMPDIR", ( x.p( "tmp" ) + "/" ).c_str(), 1 );
    execl( exe, exe, x.p( "spec" ).c_str(), warm ? "1" : "0", nullptr );
    _exit( 126 );
  }
  int st = 0;
  while ( waitpid( p, &st, 0 ) < 0 ) {}
  std::string out = readFile( log );
  size_t at = out.find( "WARNING: ThreadSanitizer" );
  if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 66 && at != std::string::npos ) x.fail( "data-race", out.substr( at, 4000 ) );
  x.check( WIFEXITED( st ) && WEXITSTATUS( st ) == 0, "crash", fmt( "status %x\n", st ) + out.substr( 0, 3000 ) );
  // both did what they do alone
  int rc[2] = { -99, -99 };
  size_t r = out.rfind( "rc " );
  if ( r != std::string::npos && r ) r = out.rfind( "rc ", r - 1 );
  x.check( r != std::string::npos && sscanf( out.c_str() + r, "rc %d rc %d", rc, rc + 1 ) == 2, "crash", "no result\n" + out.substr( 0, 3000 ) );
  const argspace::Call *c[2] = { &a, &b };
  for ( int i = 0; i < 2; ++i ) x.check( ( rc[i] == c[i]->okValue ) == c[i]->ok, "disturbed", fmt( "call %d returned %d\n", i + 1, rc[i] ) + out.substr( 0, 3000 ) );
  x.transition( 2 );
  x.trace();
  x.state( a.fn + a.scenario + "|" + b.fn + b.scenario + ( warm ? "w" : "" ) );
  x.outcome( "no data race" );
}

int main( int argc, char **argv )
{
  S = ( Shared * )mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
  return checkMain( argc, argv, []( const Opts & o )
  {
    auto sp = std::make_shared<Space>( o.thorough );
    Check c;
    c.property = "P18";
    static const auto mem = memCalls();
    // unordered pairs, with and without the calls made once before
    static std::vector<std::array<int, 3>> pairs;
    for ( int i = 0; i < int( mem.size() ); ++i ) for ( int j = 0; j <= i; ++j ) for ( int w = 0; w < 2; ++w ) pairs.push_back( { i, j, w } );
    c.count = sp->total + pairs.size();
    c.captureLog = false;
    c.describe = [sp]( uint64_t i )
    {
      if ( i >= sp->total )
      {
        auto &q = pairs[i - sp->total];
        return "memory shared by two threads" + std::string( q[2] ? ", after the same calls were made once\n" : "\n" ) + mem[q[0]].fn + " (" + mem[q[0]].scenario + ")\n" + mem[q[1]].fn + " (" + mem[q[1]].scenario + ")\n";
      }
      Part p;
      std::vector<int> plan;
      sp->get( i, p, plan );
      const Scn &s = sp->s[p.scn];
      std::string r = s.name + ( p.threads ? "\nin two threads" : "\nin two processes" ) + fmt( ", %c begins", "AB"[p.first] );
      for ( size_t k = 0; k < plan.size(); ++k ) r += fmt( ", runs for %d accesses, then %c", plan[k], "AB"[( p.first + k + 1 ) % 2] );
      for ( int z = 0; z < 2; ++z ) for ( auto &q : s.ops[z] ) r += fmt( "\n%c: ", "AB"[z] ) + q.name;
      return r + "\n";
    };
    c.run = [sp]( const Ctx & x )
    {
      if ( x.idx >= sp->total )
      {
        auto &q = pairs[x.idx - sp->total];
        runMemory( x, mem[q[0]], mem[q[1]], q[2] );
        return;
      }
      static const bool own = [] { S = ( Shared * )mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ); return true; }();
      ( void )own;
      static std::map<std::pair<int, unsigned>, std::vector<std::string>> allowed;
      Part p;
      std::vector<int> plan;
      sp->get( x.idx, p, plan );
      const Scn &s = sp->s[p.scn];
      const std::string w = x.p( "w" );
      auto known = [&]( unsigned mask ) -> const std::vector<std::string> &
      {
        auto k = std::make_pair( p.scn, mask );
        if ( !allowed.count( k ) ) allowed[k] = serial( s, x.p( "ref" ), mask );
        return allowed[k];
      };
      known( 0 );
      std::string crash = execute( s, w, p.threads, p.first, plan );
      x.transition( S->points[0] + S->points[1] );
      x.trace();
      x.state( fmt( "%d %d %d", p.scn, S->points[0], S->points[1] ) );
      std::string how;
      for ( int i = 0; i < S->next; ++i ) how += std::string( S->where[i] ) + "\n";
      for ( int z = 0; z < 2; ++z ) if ( S->log[z][0] ) how += std::string( "log of " ) + "AB"[z] + ":\n" + cut( S->log[z] );
      x.check( crash.empty(), "crash", crash + "\n" + how );
      x.check( !S->closeDropsLock, "lock-lost", std::string( "a descriptor of " ) + S->lockPath + " is closed while another operation of the process holds locks on it\n" + how );
      int rc[2][MaxOps];
      memcpy( rc, S->rc, sizeof rc );
      std::vector<std::string> left = listDir( w + "/tmp" );
      x.check( left.empty(), "left-over", ( left.empty() ? "" : left[0] ) + " stays in the temporary directory\n" + how );
      std::vector<std::string> dirs = s.subdirs;
      dirs.push_back( "" );
      for ( auto &d : dirs )
        for ( auto &f : listDir( w + ( d.empty() ? "" : "/" + d ) ) )
        {
          std::string n = d.empty() ? f : d + "/" + f;
          bool exp = d.empty() && ( f == "tmp" || std::find( s.subdirs.begin(), s.subdirs.end(), f ) != s.subdirs.end() );
          for ( auto &q : s.files ) exp |= q.first == n;
          x.check( exp, "left-over", n + " is left\n" + how );
        }
      std::string got = outcome( s, w, rc );
      unsigned failed = 0;
      for ( int z = 0; z < 2; ++z ) for ( size_t i = 0; i < s.ops[z].size(); ++i ) if ( rc[z][i] != GEODIFF_SUCCESS ) failed |= 1u << ( z * MaxOps + i );
      auto in = [&]( const std::vector<std::string> &v ) { return std::find( v.begin(), v.end(), got ) != v.end(); };
      bool good = in( known( 0 ) );
      // alone, nothing disturbs an operation
      if ( !good && s.shared && !plan.empty() && failed ) good = in( known( failed ) );
      std::string want;
      if ( !good ) for ( auto &q : known( s.shared && !plan.empty() ? failed : 0 ) ) want += "one after the other:\n" + cut( q ) + "\n";
      x.check( good, s.shared ? "not-serializable" : "disturbed", cut( got ) + "\n" + want + how );
      x.outcome( failed ? "some failed" : "all succeeded" );
      if ( S->next == int( plan.size() ) && !plan.empty() ) x.nontrivial( fmt( "%d %d", p.scn, p.threads ) );
      if ( S->stalls ) x.outcome( "left to the system's scheduler" );
    };
    int npts = 0;
    for ( auto &q : sp->points ) npts += q[0] + q[1];
    c.rule = "a state is a point of two operations' executions, a transition a file access of one of them; a schedule says after how many accesses the running operation is preempted. Return values, outputs and databases must be those of the operations carried out one after the other in some order, where operations on a common database may also fail without effect";
    c.bounds = { fmt( "%zu pairs of operations: on different files, on the same inputs, on one database in rollback and WAL mode; each in two threads and in two processes, either one first", sp->s.size() ),
                 fmt( "preemption before every file access (of the common database, if there is one; data accesses under a lock of the same operation are not counted): %d points", npts ),
                 o.thorough ? "up to two preemptions for operations on a common database, for two equal operations and on the same inputs; one for the other pairs" : "two processes on a common database in rollback mode: up to two preemptions (one for the longest pairs); one for all others" };
    c.bounds.push_back( fmt( "memory: all %zu pairs of %zu calls in two threads that no synchronisation but the library's own orders, under a happens-before race detector, the calls made before and not: %zu", pairs.size() / 2, mem.size(), pairs.size() ) );
    c.assumptions = { "preemption happens before file accesses, and where a mutex is taken; accesses to memory in between are covered by the absence of data races", "a blocked operation lets the other one continue" };
    return c;
  } );
}
