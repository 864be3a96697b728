// P21: the command line tool and the Python package do what the C functions do. Every call of the
// argument space that a front end offers is made through the C function and through the front end, in
// identical directories; outcome and resulting files have to agree. Further: the tool's modes with too
// few arguments, unknown modes, its log level; the Python package's logger settings, enumerated as
// sequences of operations on two objects.
#include "argspace.h"
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <signal.h>
#include <regex>
using namespace argspace;

typedef std::vector<std::pair<int, std::string>> Msgs;
static Msgs gMsgs;
static void collect( GEODIFF_LoggerLevel l, const char *m ) { gMsgs.push_back( { int( l ), m } ); }
static std::string norm( const std::string &s )
{
  static const std::regex re( "[0-9]+_[0-9]+_[A-Za-z0-9]{6}" );
  return s.find( '_' ) == std::string::npos ? s : std::regex_replace( s, re, "UNIQUE" );
}
static std::string envOr( const char *k ) { const char *v = getenv( k ); return v ? v : ""; }
//! JSON string of a UTF-8 text, with the bytes as they are
static std::string utf8Json( const std::string &s )
{
  std::string r = "\"";
  for ( unsigned char c : s ) r += c == '"' || c == '\\' ? std::string( "\\" ) + char( c ) : c < 32 ? fmt( "\\u%04x", c ) : std::string( 1, char( c ) );
  return r + "\"";
}
static std::string dumpBytes( const Ctx &x, const std::string &bytes )
{
  std::string p = x.dir + ".tmp/dump.db", r;
  writeFile( p, bytes );
  try { r = fullDump( p ); }
  catch ( const std::exception &e ) { r = "not a database: " + std::to_string( hash64( bytes ) ); }
  for ( const char *s : { "", "-wal", "-shm", "-journal" } ) unlink( ( p + s ).c_str() );
  return r;
}

// ------------------------------------------------------------------ front ends
static const std::map<std::string, int> CLI =      // mode: number of arguments
{
  { "createChangeset", 3 }, { "createRebasedChangeset", 5 }, { "applyChangeset", 2 }, { "listChanges", 2 }, { "listChangesSummary", 2 }, { "makeCopy", 6 },
  { "createChangesetEx", 5 }, { "applyChangesetEx", 4 }, { "rebaseEx", 6 }, { "dumpData", 4 }
};
static const std::map<std::string, std::string> PY =
{
  { "createChangeset", "create_changeset" }, { "invertChangeset", "invert_changeset" }, { "createRebasedChangeset", "create_rebased_changeset" }, { "rebase", "rebase" },
  { "applyChangeset", "apply_changeset" }, { "listChanges", "list_changes" }, { "listChangesSummary", "list_changes_summary" }, { "hasChanges", "has_changes" }, { "changesCount", "changes_count" }
};

//! copies of the tools that an unprivileged user can read, next to the scratch directory
static std::string feDir( const Ctx &x )
{
  std::string d = x.dir + ".fe";
  static bool done = false;
  if ( done ) return d;
  removeTree( d );
  auto mk = [&]( const std::string & p ) { if ( mkdir( p.c_str(), 0755 ) || chmod( p.c_str(), 0755 ) ) x.fail( "setup", "mkdir " + p ); };
  auto cp = [&]( const std::string & from, const std::string & to, mode_t m ) { writeFile( to, readFile( from ) ); chmod( to.c_str(), m ); };
  mk( d );
  mk( d + "/pygeodiff" );
  cp( envOr( "P21_CLI" ), d + "/geodiffinfo", 0755 );
  cp( envOr( "P21_LIB" ), d + "/libgeodiff.so", 0755 );
  cp( envOr( "P21_SERVER" ), d + "/server.py", 0644 );
  std::string pkg = envOr( "P21_PKG" );
  for ( auto &f : listDir( pkg ) ) if ( f.size() > 3 && f.substr( f.size() - 3 ) == ".py" ) cp( pkg + "/" + f, d + "/pygeodiff/" + f, 0644 );
  done = true;
  return d;
}
static void dropAll()
{
  if ( getuid() == 0 && ( setresgid( NOBODY, NOBODY, NOBODY ) || setresuid( NOBODY, NOBODY, NOBODY ) ) ) _exit( 126 );
  prctl( PR_SET_PDEATHSIG, SIGKILL );
}
static std::string readFd( int fd )
{
  std::string s;
  char b[65536];
  ssize_t n;
  while ( ( n = read( fd, b, sizeof b ) ) > 0 ) s.append( b, n );
  return s;
}
struct Run { int status = 0; std::string out, err; };
static Run runCli( const std::string &fe, const std::vector<std::string> &args, const char *level )
{
  int po[2], pe[2];
  if ( pipe2( po, O_CLOEXEC ) || pipe2( pe, O_CLOEXEC ) ) abort();
  // what a pipe cannot hold is waited for below
  fcntl( po[1], F_SETPIPE_SZ, 1 << 20 );
  fcntl( pe[1], F_SETPIPE_SZ, 1 << 20 );
  std::vector<char *> av;
  std::string exe = fe + "/geodiffinfo";
  av.push_back( const_cast<char *>( exe.c_str() ) );
  for ( auto &a : args ) av.push_back( const_cast<char *>( a.c_str() ) );
  av.push_back( nullptr );
  pid_t p = fork();
  if ( !p )
  {
    dropAll();
    dup2( open( "/dev/null", O_RDONLY ), 0 );
    dup2( po[1], 1 );
    dup2( pe[1], 2 );
    if ( level ) setenv( "GEODIFF_LOGGER_LEVEL", level, 1 );
    else unsetenv( "GEODIFF_LOGGER_LEVEL" );
    execv( exe.c_str(), av.data() );
    _exit( 126 );
  }
  close( po[1] );
  close( pe[1] );
  Run r;
  r.out = readFd( po[0] );
  r.err = readFd( pe[0] );
  close( po[0] );
  close( pe[0] );
  while ( waitpid( p, &r.status, 0 ) < 0 ) {}
  return r;
}

struct Server { pid_t pid = 0; FILE *in = nullptr, *out = nullptr; };
static Server gSrv;
static void stopServer()
{
  if ( !gSrv.pid ) return;
  fclose( gSrv.in );
  fclose( gSrv.out );
  kill( gSrv.pid, SIGKILL );
  waitpid( gSrv.pid, nullptr, 0 );
  gSrv = Server();
}
static bool ask( const Ctx &x, const std::string &request, Json &answer, std::string &why )
{
  if ( !gSrv.pid )
  {
    std::string d = x.dir + ".fe", py = envOr( "P21_PYTHON" ), lib = d + "/libgeodiff.so", srv = d + "/server.py";
    int a[2], b[2];
    if ( pipe2( a, O_CLOEXEC ) || pipe2( b, O_CLOEXEC ) ) abort();
    pid_t p = fork();
    if ( !p )
    {
      dropAll();
      int n = open( "/dev/null", O_RDWR );
      dup2( n, 0 );
      dup2( n, 1 );
      dup2( n, 2 );
      int r = fcntl( a[0], F_DUPFD, 100 ), w = fcntl( b[1], F_DUPFD, 100 );
      dup2( r, 3 );
      dup2( w, 4 );
      for ( int i = 5; i < 1024; ++i ) close( i );
      unsetenv( "GEODIFF_LOGGER_LEVEL" );
      if ( chdir( "/" ) ) _exit( 126 );
      execl( py.c_str(), "python3", "-B", "-E", "-s", "-S", srv.c_str(), d.c_str(), lib.c_str(), nullptr );
      _exit( 126 );
    }
    close( a[0] );
    close( b[1] );
    gSrv.pid = p;
    gSrv.in = fdopen( a[1], "w" );
    gSrv.out = fdopen( b[0], "r" );
  }
  signal( SIGPIPE, SIG_IGN );
  std::string line;
  fputs( ( request + "\n" ).c_str(), gSrv.in );
  fflush( gSrv.in );
  int ch;
  while ( ( ch = fgetc( gSrv.out ) ) != EOF && ch != '\n' ) line += char( ch );
  if ( ch == EOF )
  {
    int st = 0;
    pid_t p = gSrv.pid;
    waitpid( p, &st, 0 );
    gSrv.pid = 0;
    fclose( gSrv.in );
    fclose( gSrv.out );
    why = WIFSIGNALED( st ) ? fmt( "the Python process was ended by signal %d", WTERMSIG( st ) ) : fmt( "the Python process exited with status %d", WEXITSTATUS( st ) );
    return false;
  }
  return parseJson( line, answer, &why );
}

// ------------------------------------------------------------------ what is enumerated
struct Item { enum What { Front, Arity, BadMode, Level, Version, Sequence } what; int front; size_t index; std::string mode; int n; };
struct Step { char op; int obj; int v; };       // n new, d drop, c callback, l level, x call
struct Enum
{
  Space S;
  std::vector<Item> items;
  std::vector<std::vector<Step>> seqs;
  size_t calls[2] = { 0, 0 };
  explicit Enum( int dev, int depth ) : S( dev, []( const Call & c ) { return CLI.count( c.fn ) || PY.count( c.fn ); } )
  {
    for ( size_t i = 0; i < S.cases.size(); ++i )
    {
      const Case &k = S.cases[i];
      bool null = false;
      for ( size_t a = 0; a < k.kind.size(); ++a ) null |= kinds( k.c->args[a].role )[k.kind[a]].name == "NULL";
      if ( CLI.count( k.c->fn ) && !null ) { items.push_back( { Item::Front, 0, i, "", 0 } ); ++calls[0]; }
      if ( PY.count( k.c->fn ) ) { items.push_back( { Item::Front, 1, i, "", 0 } ); ++calls[1]; }
    }
    for ( auto &m : CLI )
    {
      for ( int n = 0; n < m.second; ++n ) items.push_back( { Item::Arity, 0, 0, m.first, n } );
      for ( size_t i = 0; i < S.cases.size(); ++i )
      {
        const Case &k = S.cases[i];
        int d = 0;
        bool skip = k.c->fn != m.first;
        for ( size_t a = 0; a < k.kind.size(); ++a ) { d += k.kind[a] > 0; skip |= kinds( k.c->args[a].role )[k.kind[a]].name == "NULL"; }
        if ( skip || d > 1 ) continue;
        for ( int l = -1; l < 5; ++l ) items.push_back( { Item::Level, 0, i, "", l } );
      }
    }
    for ( const char *m : { "", "nosuch", "createchangeset", "createChangeset ", "CREATECHANGESET", "Version", "invertChangeset!", "applyChangesetE", "1" } )
      for ( int n : { 0, 3, 6 } ) items.push_back( { Item::BadMode, 0, 0, m, n } );
    items.push_back( { Item::BadMode, 0, 0, "\1none", 0 } );
    items.push_back( { Item::Version, 0, 0, "", 0 } );
    items.push_back( { Item::Version, 1, 0, "", 0 } );
    std::vector<Step> s = { { 'n', 0, 0 } };
    bool live[2] = { true, false };
    rec( s, live, depth );
    for ( size_t i = 0; i < seqs.size(); ++i ) items.push_back( { Item::Sequence, 1, i, "", 0 } );
  }
  void rec( std::vector<Step> &s, bool *live, int left )
  {
    if ( !left )
    {
      // what the settings are shows in a call of each living object
      auto q = s;
      for ( int o = 0; o < 2; ++o ) if ( live[o] ) q.push_back( { 'x', o, 0 } );
      if ( q.size() > s.size() ) seqs.push_back( q );
      return;
    }
    for ( int o = 0; o < 2; ++o )
    {
      auto go = [&]( char op, int v, bool after )
      {
        bool was = live[o];
        s.push_back( { op, o, v } );
        live[o] = after;
        rec( s, live, left - 1 );
        live[o] = was;
        s.pop_back();
      };
      if ( !live[o] ) { go( 'n', 0, true ); continue; }
      go( 'd', 0, false );
      go( 'c', int( s.size() ), true );
      for ( int l : { 0, 1, 4 } ) go( 'l', l, true );
      go( 'x', 0, true );
    }
  }
};

static std::string show( const std::vector<Step> &q )
{
  std::string s;
  for ( auto &t : q )
    s += t.op == 'n' ? fmt( "  g%d = GeoDiff()\n", t.obj ) : t.op == 'd' ? fmt( "  del g%d\n", t.obj ) : t.op == 'c' ? fmt( "  g%d.set_logger_callback(log%d)\n", t.obj, t.v ) :
         t.op == 'l' ? fmt( "  g%d.set_maximum_logger_level(%d)\n", t.obj, t.v ) : fmt( "  g%d.create_rebased_changeset(...)\n", t.obj );
  return s;
}

static std::string viaPython( const Ctx &x, const std::string &fn, const std::vector<const char *> &args, int errorValue, int &rc, Msgs &log )
{
  std::string q = "{\"fn\":" + utf8Json( fn ) + ",\"tmp\":" + utf8Json( envOr( "TMPDIR" ) ) + ",\"args\":[", why;
  for ( size_t i = 0; i < args.size(); ++i ) q += ( i ? "," : "" ) + ( args[i] ? utf8Json( args[i] ) : std::string( "null" ) );
  q += "]}";
  Json a;
  if ( !ask( x, q, a, why ) ) return why;
  const Json *exc = a.get( "exc" ), *type = a.get( "type" ), *ret = a.get( "ret" ), *lg = a.get( "log" );
  for ( auto &m : lg->a ) log.push_back( { atoi( m.a[0].s.c_str() ), m.a[1].s } );
  if ( !exc->s.empty() )
  {
    bool isNull = false;
    for ( auto p : args ) isNull |= !p;
    if ( errorValue == -1 ) rc = -1;
    else if ( exc->s == "GeoDiffLibError" ) rc = GEODIFF_ERROR;
    else if ( exc->s == "GeoDiffLibConflictError" ) rc = GEODIFF_CONFICTS;
    else if ( exc->s == "GeoDiffLibUnsupportedChangeError" ) rc = GEODIFF_UNSUPPORTED_CHANGE;
    else if ( isNull ) rc = GEODIFF_ERROR;       // None is not a string
    else return "raised " + exc->s;
    if ( errorValue == -1 && !isNull && exc->s.compare( 0, 10, "GeoDiffLib" ) ) return "raised " + exc->s;
    return "";
  }
  rc = errorValue == -1 ? atoi( ret->s.c_str() ) : 0;
  if ( fn == "has_changes" && type->s != "bool" ) return "has_changes returned a " + type->s;
  if ( fn == "changes_count" && type->s != "int" ) return "changes_count returned a " + type->s;
  return "";
}

static void compareFiles( const Ctx &x, const Result &a, const Result &b, const std::string &front )
{
  std::set<std::string> all;
  for ( auto &s : a.after ) all.insert( s.first );
  for ( auto &s : b.after ) all.insert( s.first );
  for ( auto &n : all )
  {
    auto p = a.after.find( n ), q = b.after.find( n );
    if ( p == a.after.end() ) x.fail( "files", "the " + front + " left " + n + ", the C function does not" );
    if ( q == b.after.end() ) x.fail( "files", "the " + front + " left no " + n + ", the C function does" );
    if ( p->second.mode != q->second.mode ) x.fail( "files", n + fmt( " has mode %o instead of %o", q->second.mode, p->second.mode ) );
    if ( p->second.bytes == q->second.bytes ) continue;
    bool db = p->second.bytes.compare( 0, 15, "SQLite format 3" ) == 0;
    if ( !db || dumpBytes( x, p->second.bytes ) != dumpBytes( x, q->second.bytes ) ) x.fail( "files", n + " has other content after the call through the " + front );
  }
}

static void runFront( const Ctx &x, const Enum &E, const Item &it )
{
  const Case &k = E.S.cases[it.index];
  const Call &c = *k.c;
  const char *front = it.front ? "Python package" : "command line tool";
  GEODIFF_setLoggerCallback( collect );
  GEODIFF_setMaximumLoggerLevel( LevelDebug );
  gMsgs.clear();
  Result a = perform( x, k );
  Msgs ref = gMsgs;
  std::string fe = feDir( x ), why;
  Run run;
  Msgs log;
  Result b = perform( x, k, [&]( const std::string & fn, const std::vector<const char *> &args, int &rc )
  {
    if ( it.front ) { why = viaPython( x, PY.at( fn ), args, c.errorValue, rc, log ); return true; }
    std::vector<std::string> v = { fn };
    for ( auto p : args ) v.push_back( p );
    run = runCli( fe, v, nullptr );
    rc = WIFEXITED( run.status ) ? WEXITSTATUS( run.status ) : 200;
    return true;
  } );
  if ( !why.empty() ) x.fail( "python", why );
  bool null = false;
  for ( size_t i = 0; i < k.kind.size(); ++i ) null |= kinds( c.args[i].role )[k.kind[i]].name == "NULL";
  if ( it.front == 0 )
  {
    x.check( WIFEXITED( run.status ) && WEXITSTATUS( run.status ) != 126, "crash", fmt( "the command line tool ended with status %x", run.status ) );
    x.check( ( a.rc == 0 ) == ( b.rc == 0 ), "status", fmt( "the C function returns %d, the command line tool exits with %d\n", a.rc, b.rc ) + run.out.substr( 0, 500 ) + run.err.substr( 0, 500 ) );
    if ( a.rc ) x.check( !run.err.empty() || !run.out.empty(), "silent", "the command line tool says nothing about the error" );
  }
  else
  {
    if ( null ) x.check( b.rc != 0 || a.rc == 0, "result", "None was accepted" );
    else x.check( a.rc == b.rc, "result", fmt( "the C function returns %d, the Python package gave %d", a.rc, b.rc ) );
    std::string p, q;
    for ( auto &m : ref ) p += fmt( "[%d] ", m.first ) + norm( m.second ) + "\n";
    for ( auto &m : log ) q += fmt( "[%d] ", m.first ) + norm( m.second ) + "\n";
    if ( !null ) x.check( p == q, "log", "the Python callback got\n" + q + "the C callback gets\n" + p );
  }
  if ( !null ) compareFiles( x, a, b, front );
  else x.check( b.before == b.after, "files", "a call with None changed files" );
  x.outcome( fmt( "%s %s: %s", it.front ? "Python" : "CLI", c.fn.c_str(), null ? "None" : a.rc == 0 || ( c.errorValue == -1 && a.rc > 0 ) ? "success" : "error" ) );
  x.state( c.fn + c.scenario + deviations( k ) );
}

static void runLevel( const Ctx &x, const Enum &E, const Item &it )
{
  const Case &k = E.S.cases[it.index];
  GEODIFF_setLoggerCallback( collect );
  GEODIFF_setMaximumLoggerLevel( LevelDebug );
  gMsgs.clear();
  perform( x, k );
  Msgs ref = gMsgs;
  std::string fe = feDir( x );
  Run run;
  perform( x, k, [&]( const std::string & fn, const std::vector<const char *> &args, int &rc )
  {
    std::vector<std::string> v = { fn };
    for ( auto p : args ) v.push_back( p );
    std::string l = std::to_string( it.n );
    run = runCli( fe, v, it.n < 0 ? nullptr : l.c_str() );
    rc = 0;
    return true;
  } );
  // unset: errors at least
  int least = it.n < 0 ? 1 : it.n, most = it.n < 0 ? 4 : it.n;
  std::string expectOut, expectErr;
  std::string out = norm( run.out ), err = norm( run.err );
  size_t po = 0, pe = 0;
  for ( auto &m : ref )
  {
    std::string t = norm( m.second );
    std::string &where = m.first == LevelError ? err : out;
    size_t &pos = m.first == LevelError ? pe : po;
    if ( m.first <= least )
    {
      size_t f = where.find( t, pos );
      x.check( f != std::string::npos, "level", fmt( "a message of level %d is missing at level %d: ", m.first, it.n ) + t + "\nstdout: " + out.substr( 0, 800 ) + "\nstderr: " + err.substr( 0, 800 ) );
      pos = f + t.size();
    }
  }
  size_t lines = 0, expect = 0;
  for ( char ch : out + err ) lines += ch == '\n';
  for ( auto &m : ref ) if ( m.first <= most ) { ++expect; for ( char ch : m.second ) expect += ch == '\n'; }
  x.check( lines <= expect, "level", fmt( "%zu lines were printed at level %d, %zu are due\nstdout: ", lines, it.n, expect ) + out.substr( 0, 800 ) + "\nstderr: " + err.substr( 0, 800 ) );
  x.outcome( fmt( "CLI at level %d", it.n ) );
  x.state( fmt( "level %d ", it.n ) + k.c->fn + k.c->scenario + deviations( k ) );
}

static Run runIn( const Ctx &x, const std::vector<std::string> &args, std::map<std::string, Snap> *before = nullptr, std::map<std::string, Snap> *after = nullptr )
{
  std::string fe = feDir( x );
  if ( before ) snapDir( x.dir, "", *before );
  Run r = runCli( fe, args, nullptr );
  if ( after ) snapDir( x.dir, "", *after );
  x.check( WIFEXITED( r.status ) && WEXITSTATUS( r.status ) != 126, "crash", fmt( "the command line tool ended with status %x", r.status ) );
  return r;
}

static void runFew( const Ctx &x, const Enum &E, const Item &it )
{
  clearDir( x.dir );
  std::vector<std::string> v;
  if ( it.mode != "\1none" ) v.push_back( it.mode );
  std::string base = x.p( "base" );
  const Call *c = nullptr;
  for ( auto &q : E.S.C ) if ( !c && q.fn == it.mode && q.ok ) c = &q;
  for ( int i = 0; i < it.n; ++i )
  {
    std::string p = x.p( fmt( "f%d", i ) );
    if ( c )
    {
      const Arg &a = c->args[i];
      if ( a.role == Driver ) p = "sqlite";
      else if ( a.role == Extra ) p = "";
      else if ( !a.content.empty() ) writeFile( p, contentFor( x, a.content ) );
    }
    else if ( i < 2 ) writeFile( p, contentFor( x, i ? "mine" : "base" ) );
    v.push_back( p );
  }
  chmod( x.dir.c_str(), 0777 );
  for ( auto &f : listDir( x.dir ) ) chmod( x.p( f ).c_str(), 0666 );
  std::map<std::string, Snap> b, a;
  Run r = runIn( x, v, &b, &a );
  chmod( x.dir.c_str(), 0711 );
  x.check( WEXITSTATUS( r.status ) != 0, "accepted", "the command line tool exits with 0" );
  x.check( !r.out.empty() || !r.err.empty(), "silent", "the command line tool says nothing about the error" );
  x.check( a == b, "files", "files were changed" );
  x.outcome( it.what == Item::Arity ? "CLI: too few arguments refused" : "CLI: unknown mode refused" );
  x.state( it.mode + fmt( "/%d", it.n ) );
}

static void runVersion( const Ctx &x, const Item &it )
{
  clearDir( x.dir );
  std::string v = GEODIFF_version();
  if ( it.front == 0 )
  {
    Run r = runIn( x, { "version" } );
    x.check( WEXITSTATUS( r.status ) == 0, "version", "exit status" );
    x.check( r.out.find( v ) != std::string::npos, "version", "geodiffinfo version prints " + r.out );
  }
  else
  {
    feDir( x );
    Json a;
    std::string why;
    if ( !ask( x, "{\"fn\":\"version_text\",\"tmp\":\"\",\"args\":[]}", a, why ) ) x.fail( "python", why );
    x.check( a.get( "text" ) && a.get( "text" )->s == v, "version", "the Python package reports " + ( a.get( "text" ) ? a.get( "text" )->s : std::string() ) + ", the library is " + v );
  }
  x.outcome( "version" );
}

static void runSequence( const Ctx &x, const std::vector<Step> &q )
{
  clearDir( x.dir );
  std::string fe = feDir( x );
  chmod( x.dir.c_str(), 0777 );
  for ( const char *k : { "base", "minec" } ) { writeFile( x.p( k ), contentFor( x, k ) ); chmod( x.p( k ).c_str(), 0666 ); }
  writeFile( x.p( "theirs" ), contentFor( x, "cs:base:theirs" ) );
  chmod( x.p( "theirs" ).c_str(), 0666 );
  // a call that logs an error and, at another level, more than that
  std::vector<std::string> args = { x.p( "base" ), x.p( "minec" ), x.p( "theirs" ), x.p( "nodir" ) + "/out", x.p( "conf" ) };
  GEODIFF_setLoggerCallback( collect );
  GEODIFF_setMaximumLoggerLevel( LevelDebug );
  gMsgs.clear();
  int rc = GEODIFF_createRebasedChangeset( args[0].c_str(), args[1].c_str(), args[2].c_str(), args[3].c_str(), args[4].c_str() );
  x.check( rc == GEODIFF_ERROR, "setup", fmt( "createRebasedChangeset returned %d", rc ) );
  unlink( args[4].c_str() );
  Msgs ref = gMsgs;
  std::string r = "{\"fn\":\"sequence\",\"bad\":[\"create_rebased_changeset\",[";
  for ( size_t i = 0; i < args.size(); ++i ) r += ( i ? "," : "" ) + utf8Json( args[i] );
  r += "]],\"steps\":[";
  for ( size_t i = 0; i < q.size(); ++i )
  {
    const Step &t = q[i];
    const char *w = t.op == 'n' ? "new" : t.op == 'd' ? "drop" : t.op == 'c' ? "callback" : t.op == 'l' ? "level" : "call";
    r += fmt( "%s[\"%s\",%d,", i ? "," : "", w, t.obj ) + ( t.op == 'c' ? fmt( "\"log%d:\"", t.v ) : std::to_string( t.v ) ) + "]";
  }
  r += "]}";
  Json a;
  std::string why;
  if ( !ask( x, r, a, why ) ) x.fail( "python", why );
  chmod( x.dir.c_str(), 0711 );
  int st = atoi( a.get( "status" )->s.c_str() );
  x.check( WIFEXITED( st ) && WEXITSTATUS( st ) == 0, "logger-crash", WIFSIGNALED( st ) ? fmt( "the process was ended by signal %d", WTERMSIG( st ) ) : fmt( "the process exited with %d", WEXITSTATUS( st ) ) );
  // the settings are the library's: the last callback set gets what the last level set lets through
  int level = 4, cb = -1;
  size_t n = 0;
  for ( auto &t : q )
  {
    if ( t.op == 'c' ) cb = t.v;
    if ( t.op == 'l' ) level = t.v;
    if ( t.op != 'x' ) continue;
    std::string want = "GeoDiffLibError", got;
    if ( cb >= 0 ) for ( auto &m : ref ) if ( m.first <= level ) want += fmt( " log%d:%d", cb, m.first );
    const Json &g = a.get( "result" )->a.at( n++ );
    for ( size_t i = 0; i < g.a.size(); ++i ) got += ( i ? " " : "" ) + g.a[i].s;
    x.check( got == want, "logger", "call " + std::to_string( n ) + ": got " + got + "\ninstead of " + want );
  }
  x.outcome( "Python logger settings" );
  x.state( show( q ) );
  x.transition( q.size() );
}

int main( int argc, char **argv )
{
  return checkMain( argc, argv, []( const Opts & o )
  {
    static Enum E( o.thorough ? 3 : 2, o.thorough ? 5 : 4 );
    Check c;
    c.property = "P21";
    c.rule = "a state is a directory with the files the arguments name, a transition one call through a front end; enumerated are all calls the command line tool or the Python package offers in which up to a number of arguments are not the plain valid kind, and compared with the same call of the C function in an identical directory: outcome, every file, and (Python) every log message. Further all sequences of operations on the logger settings through two Python objects, compared with a model in which the settings belong to the library";
    c.bounds = { fmt( "%zu calls through the command line tool, %zu through the Python package (up to %d arguments of another kind, one less where there are more than 5)", E.calls[0], E.calls[1], o.thorough ? 3 : 2 ),
                 "every mode with too few arguments, 9 unknown modes, 6 settings of GEODIFF_LOGGER_LEVEL on every call with up to one argument of another kind",
                 fmt( "all %zu sequences of %d operations (create and drop an object, set callback, set level, call) on two Python objects", E.seqs.size(), o.thorough ? 5 : 4 ) };
    c.assumptions = { "arguments are valid UTF-8", "of the exit status only zero or not is compared", "surplus arguments of the command line tool are not specified", "a logger callback set through an object that no longer exists still gets its messages" };
    c.count = E.items.size();
    c.caseTimeout = 30;
    c.captureLog = false;
    c.describe = []( uint64_t i )
    {
      const Item &t = E.items[i];
      if ( t.what == Item::Front || t.what == Item::Level )
        return std::string( t.front ? "Python package" : "command line tool" ) + ( t.what == Item::Level ? fmt( " with log level %d", t.n ) : std::string() ) + "\n" + E.S.describe( t.index );
      if ( t.what == Item::Sequence ) return show( E.seqs[t.index] );
      if ( t.what == Item::Version ) return std::string( "version" );
      return "geodiffinfo " + t.mode + fmt( " with %d arguments\n", t.n );
    };
    c.run = []( const Ctx & x )
    {
      const Item &t = E.items[x.idx];
      switch ( t.what )
      {
        case Item::Front: runFront( x, E, t ); break;
        case Item::Level: runLevel( x, E, t ); break;
        case Item::Version: runVersion( x, t ); break;
        case Item::Sequence: runSequence( x, E.seqs[t.index] ); break;
        default: runFew( x, E, t );
      }
      x.transition();
      x.trace();
    };
    return c;
  } );
}
