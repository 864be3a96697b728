// P22: what reaches the log. For every call of the argument space: at each maximum level exactly the
// messages of that level or below arrive, in the order they have at the highest level; a null callback
// gets and prints nothing; return value and files are the same whatever is configured; a call that
// returns an error logs an error. The initial level and destination are tried out in fresh processes.
#include "argspace.h"
#include <sys/wait.h>
#include <regex>
using namespace argspace;

typedef std::vector<std::pair<int, std::string>> Msgs;
static Msgs gMsgs;
static void collect( GEODIFF_LoggerLevel l, const char *m ) { gMsgs.push_back( { int( l ), m } ); }
//! names of temporary files differ from call to call
static std::string norm( const std::string &s )
{
  static const std::regex re( "[0-9]+_[0-9]+_[A-Za-z0-9]{6}" );
  return s.find( '_' ) == std::string::npos ? s : std::regex_replace( s, re, "UNIQUE" );
}
static std::string text( const Msgs &m ) { std::string o; for ( auto &q : m ) o += fmt( "[%d] ", q.first ) + q.second + "\n"; return o; }
static Msgs upTo( const Msgs &m, int level ) { Msgs r; for ( auto &q : m ) if ( q.first <= level ) r.push_back( q ); return r; }

// ------------------------------------------------------------------ fresh processes
struct Fresh { int env, init, cb, max, op; };   // env: index; cb: 0 default 1 own before init 2 own after init 3 null; max: -1 not set, 0..4
static const char *ENV[] = { nullptr, "0", "1", "2", "3", "4", "5", "-1", "99" };
static const int ENVLEVEL[] = { 1, 0, 1, 2, 3, 4, 1, 1, 1 };
static const char *OPS[] = { "rebase with conflicts", "apply that does not fit", "rebased changeset on empty theirs", "NULL argument", "unreadable changeset" };
static void childLog( GEODIFF_LoggerLevel l, const char *m ) { std::string s = fmt( "<%d>", int( l ) ) + m + "</>\n"; if ( write( 1, s.data(), s.size() ) < 0 ) _exit( 9 ); }
static int child( int argc, char **argv )
{
  // --p22-child init cb max op dir
  int init = atoi( argv[2] ), cb = atoi( argv[3] ), mx = atoi( argv[4] ), op = atoi( argv[5] );
  std::string d = std::string( argv[6] ) + "/";
  if ( cb == 1 ) GEODIFF_setLoggerCallback( childLog );
  if ( init ) GEODIFF_init();
  if ( cb == 2 ) GEODIFF_setLoggerCallback( childLog );
  if ( cb == 3 ) GEODIFF_setLoggerCallback( nullptr );
  if ( mx >= 0 ) GEODIFF_setMaximumLoggerLevel( GEODIFF_LoggerLevel( mx ) );
  int rc = -1;
  if ( op == 0 ) rc = GEODIFF_rebase( ( d + "base" ).c_str(), ( d + "theirs" ).c_str(), ( d + "minec" ).c_str(), ( d + "conf" ).c_str() );
  if ( op == 1 ) rc = GEODIFF_applyChangeset( ( d + "base" ).c_str(), ( d + "misfit" ).c_str() );
  if ( op == 2 ) rc = GEODIFF_createRebasedChangesetEx( "sqlite", "", ( d + "base" ).c_str(), ( d + "b2t" ).c_str(), ( d + "empty" ).c_str(), ( d + "out" ).c_str(), ( d + "conf" ).c_str() );
  if ( op == 3 ) rc = GEODIFF_invertChangeset( nullptr, nullptr );
  if ( op == 4 ) rc = GEODIFF_listChanges( ( d + "none" ).c_str(), ( d + "out" ).c_str() );
  fflush( stdout );
  return 40 + rc;
}
struct Out { int rc; std::string out, err; };
static Out runChild( const Ctx &x, const Fresh &f )
{
  clearDir( x.dir );
  for ( const char *k : { "base", "theirs", "minec" } ) writeFile( x.p( k ), contentFor( x, k ) );
  writeFile( x.p( "misfit" ), contentFor( x, "cs:misfit" ) );
  writeFile( x.p( "b2t" ), contentFor( x, "cs:base:theirs" ) );
  writeFile( x.p( "empty" ), "" );
  std::string so = x.dir + ".tmp/so", se = x.dir + ".tmp/se";
  pid_t p = fork();
  if ( !p )
  {
    int a = open( so.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600 ), b = open( se.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600 );
    dup2( a, 1 );
    dup2( b, 2 );
    if ( ENV[f.env] ) setenv( "GEODIFF_LOGGER_LEVEL", ENV[f.env], 1 );
    else unsetenv( "GEODIFF_LOGGER_LEVEL" );
    std::string s[] = { std::to_string( f.init ), std::to_string( f.cb ), std::to_string( f.max ), std::to_string( f.op ) };
    execl( "/proc/self/exe", "p22", "--p22-child", s[0].c_str(), s[1].c_str(), s[2].c_str(), s[3].c_str(), x.dir.c_str(), ( char * ) nullptr );
    _exit( 99 );
  }
  int st = 0;
  waitpid( p, &st, 0 );
  Out o{ WIFEXITED( st ) ? WEXITSTATUS( st ) : -1, readFile( so ), readFile( se ) };
  unlink( so.c_str() );
  unlink( se.c_str() );
  return o;
}
static Msgs parseOwn( const std::string &s )
{
  Msgs m;
  size_t p = 0;
  while ( p < s.size() && s[p] == '<' )
  {
    size_t e = s.find( "</>\n", p );
    if ( e == std::string::npos ) break;
    m.push_back( { s[p + 1] - '0', s.substr( p + 3, e - p - 3 ) } );
    p = e + 4;
  }
  if ( p != s.size() ) m.push_back( { 99, "unexpected output: " + s.substr( p ) } );
  return m;
}

int main( int argc, char **argv )
{
  if ( argc > 6 && std::string( argv[1] ) == "--p22-child" ) return child( argc, argv );
  return checkMain( argc, argv, []( const Opts & o )
  {
    static Space S( o.thorough ? 3 : 2 );
    static std::vector<Fresh> FR;
    FR.clear();
    for ( int e = 0; e < 9; ++e ) for ( int i = 0; i < 2; ++i ) for ( int cb = 0; cb < 4; ++cb ) for ( int m = -1; m < 5; ++m ) for ( int op = 0; op < 5; ++op ) FR.push_back( { e, i, cb, m, op } );
    Check c;
    c.property = "P22";
    c.rule = "a state is a logger configuration (callback, maximum level, environment), a transition is one call of a public function under it; every call is performed under every configuration and the messages, the return value and all files compared";
    c.bounds = { fmt( "%zu calls (all combinations with up to %d arguments of another kind) x 5 maximum levels and the null callback", S.cases.size(), o.thorough ? 3 : 2 ),
                 fmt( "%zu fresh processes: 9 environments x with/without GEODIFF_init x 4 callbacks x 6 maximum levels x 5 operations", FR.size() ) };
    c.assumptions = { "names of temporary files are masked in messages", "a value of GEODIFF_LOGGER_LEVEL that is no number is not specified" };
    c.count = S.cases.size() + FR.size();
    c.captureLog = false;
    c.caseTimeout = 60;
    c.describe = []( uint64_t i )
    {
      if ( i < S.cases.size() ) return S.describe( i );
      const Fresh &f = FR[i - S.cases.size()];
      return fmt( "fresh process: GEODIFF_LOGGER_LEVEL %s, %s, callback %s, maximum level %s, %s", ENV[f.env] ? ENV[f.env] : "not set", f.init ? "GEODIFF_init" : "no GEODIFF_init",
                  f.cb == 0 ? "default" : f.cb == 1 ? "own, set first" : f.cb == 2 ? "own, set after init" : "null", f.max < 0 ? "not set" : std::to_string( f.max ).c_str(), OPS[f.op] );
    };
    c.run = []( const Ctx & x )
    {
      if ( x.idx >= S.cases.size() )
      {
        const Fresh &f = FR[x.idx - S.cases.size()];
        int level = f.max >= 0 ? f.max : ENVLEVEL[f.env];
        Fresh r = f;
        r.env = 0; r.cb = 2; r.max = 4;
        static std::map<std::pair<int, int>, Out> refs;
        auto it = refs.find( { f.init, f.op } );
        if ( it == refs.end() ) it = refs.emplace( std::make_pair( f.init, f.op ), runChild( x, r ) ).first;
        Out ref = it->second, got = runChild( x, f );
        x.check( got.rc == ref.rc && got.rc >= 40, "result", fmt( "the operation returned %d under this configuration, %d otherwise\n", got.rc - 40, ref.rc - 40 ) + got.out + got.err );
        Msgs all = parseOwn( ref.out );
        x.check( !all.empty() && all.back().first < 5 && ref.err.empty(), "output", "with a callback of one's own set, the library printed:\n" + ref.out + ref.err );
        if ( f.op == 1 || f.op >= 3 ) x.check( !upTo( all, 1 ).empty(), "no-error-logged", "the failing operation logged no error:\n" + text( all ) );
        // a conflict is a warning, that nothing has to be done is an information, details are for debugging
        const int special = f.op == 0 ? 4 : f.op == 1 ? 2 : f.op == 2 ? 3 : 1;
        x.check( std::any_of( all.begin(), all.end(), [&]( auto & m ) { return m.first == special; } ), "message-level", fmt( "no message of level %d among\n", special ) + text( all ) );
        if ( f.cb == 3 ) x.check( got.out.empty() && got.err.empty(), "null-not-silent", "a null callback is set, but printed was:\n" + got.out + got.err );
        Msgs want = upTo( all, level );
        for ( auto &m : want ) m.second = norm( m.second );
        if ( f.cb == 1 || f.cb == 2 )
        {
          Msgs g = parseOwn( got.out );
          for ( auto &m : g ) m.second = norm( m.second );
          x.check( got.err.empty(), "output", "with a callback of one's own set, the library printed:\n" + got.err );
          x.check( g == want, "level", fmt( "at level %d the callback got\n", level ) + text( g ) + "instead of\n" + text( want ) );
        }
        if ( f.cb == 0 )
        {
          // the built-in destination: every message due is there, in order, and nothing else
          std::string both[2] = { norm( got.out ), norm( got.err ) };
          size_t pos[2] = { 0, 0 };
          size_t rest = both[0].size() + both[1].size();
          for ( auto &m : want )
          {
            int w = m.first == 1 ? 1 : 0;
            size_t p = both[w].find( m.second, pos[w] );
            x.check( p != std::string::npos, "default-destination", fmt( "at level %d the message [%d] ", level, m.first ) + m.second + " was not printed:\n" + got.out + "---\n" + got.err );
            pos[w] = p + m.second.size();
            rest -= m.second.size();
          }
          // what remains are the prefixes and line ends
          x.check( rest <= want.size() * 12, "level", fmt( "at level %d more was printed than the %zu messages due:\n", level, want.size() ) + got.out + "---\n" + got.err );
        }
        x.state( fmt( "fresh %d %d %d %d", f.env, f.init, f.cb, f.max ) );
        x.transition( 1 );
        x.trace();
        x.outcome( fmt( "fresh process, level %d", level ) );
        return;
      }
      const Case &k = S.cases[x.idx];
      Msgs all;
      Result ref;
      for ( int cfg = 0; cfg < 6; ++cfg )
      {
        int level = cfg == 5 ? 4 : 4 - cfg;       // 4,3,2,1,0, null callback at level 4
        gMsgs.clear();
        GEODIFF_setLoggerCallback( cfg == 5 ? nullptr : collect );
        GEODIFF_setMaximumLoggerLevel( GEODIFF_LoggerLevel( level ) );
        Result r = perform( x, k );
        Msgs got = gMsgs;
        for ( auto &m : got ) m.second = norm( m.second );
        if ( cfg == 0 )
        {
          all = got;
          ref = r;
          if ( !succeeded( *k.c, r.rc ) ) x.check( !upTo( all, 1 ).empty(), "no-error-logged", fmt( "the call returned %d and logged no error:\n", r.rc ) + text( all ) );
          for ( auto &m : all ) x.check( m.first >= 1 && m.first <= 4, "level", "message of no level:\n" + text( all ) );
          continue;
        }
        // messages while the files are being prepared come from the library too, but only on the first call
        x.check( r.rc == ref.rc, "result", fmt( "the call returned %d at level 4 and %d %s", ref.rc, r.rc, cfg == 5 ? "with a null callback" : fmt( "at level %d", level ).c_str() ) );
        if ( cfg == 5 ) x.check( got.empty(), "null-not-silent", "messages although the callback is null:\n" + text( got ) );
        else x.check( got == upTo( all, level ), "level", fmt( "at level %d the callback got\n", level ) + text( got ) + "of all messages\n" + text( all ) );
        for ( auto *q : { &r, &ref } ) ( void ) q;
        x.check( r.after == ref.after, "result", fmt( "the files differ after the call %s", cfg == 5 ? "with a null callback" : fmt( "at level %d", level ).c_str() ) );
      }
      GEODIFF_setLoggerCallback( nullptr );
      x.state( k.c->fn + k.c->scenario + deviations( k ) );
      x.transition( 6 );
      x.trace( 6 );
      x.outcome( fmt( "%d messages%s", int( all.size() ), upTo( all, 1 ).empty() ? "" : ", with errors" ) );
    };
    return c;
  } );
}
