// P15: every function with every combination of argument kinds (up to a number of deviating ones):
// only the documented outputs differ afterwards, nothing is left over, the conflict file exists
// exactly when conflicts were found, and the outputs do not depend on how the arguments are given.
#include "argspace.h"
using namespace argspace;

static bool isOut( Role r ) { return r == DbOut || r == CsOut || r == JsonOut || r == CsReplaced || r == Conflict; }
static std::string dumpBytes( const Ctx &x, const std::string &bytes )
{
  std::string p = x.p( "dump.db" );
  writeFile( p, bytes );
  std::string r;
  try { r = fullDump( p ); }
  catch ( const std::exception &e ) { r = "not a database: " + hex( bytes ).substr( 0, 200 ) + std::to_string( hash64( bytes ) ); }
  for ( const char *s : { "", "-wal", "-shm", "-journal" } ) unlink( ( p + s ).c_str() );
  return r;
}

int main( int argc, char **argv )
{
  return checkMain( argc, argv, []( const Opts & o )
  {
    static Space S( o.thorough ? 4 : 3 );
    Check c;
    c.property = "P15";
    c.rule = "a state is a directory with the files the arguments name, a transition is one call of a public function; enumerated are all calls in which up to a number of arguments are not the plain valid kind. The directory (and the temporary directory in it) is compared byte by byte before and after";
    c.bounds = { fmt( "%zu functions and scenarios, all combinations with up to %d (where there are more than 5 arguments, %d) arguments of another kind (of up to 21): %zu calls", S.C.size(), o.thorough ? 4 : 3, o.thorough ? 3 : 2, S.cases.size() ) };
    c.assumptions = { "paths of outputs and inputs are distinct", "calls run as user 65534 in a directory of their own", "a failing call may leave an incomplete output", "databases have no journal or log left over from a crash" };
    c.count = S.cases.size();
    c.caseTimeout = 20;
    c.describe = []( uint64_t i ) { return S.describe( i ); };
    c.run = []( const Ctx & x )
    {
      const Case &k = S.cases[x.idx];
      const Call &cl = *k.c;
      Result r = perform( x, k );
      bool ok = succeeded( cl, r.rc );
      std::set<std::string> outs, inouts;
      std::string confFile;
      bool anyNull = false;
      int confKind = -1;
      for ( size_t i = 0; i < cl.args.size(); ++i )
      {
        Role ro = cl.args[i].role;
        const std::string &kn = kinds( ro )[k.kind[i]].name;
        if ( kn == "NULL" && ro != Extra ) anyNull = true;
        if ( r.file[i].empty() ) continue;
        if ( isOut( ro ) ) outs.insert( r.file[i] );
        if ( ro == DbInOut ) inouts.insert( r.file[i] );
        if ( ro == Conflict ) { confFile = r.file[i]; confKind = k.kind[i]; }
      }
      std::set<std::string> all;
      for ( auto &s : r.before ) all.insert( s.first );
      for ( auto &s : r.after ) all.insert( s.first );
      for ( auto &n : all )
      {
        auto b = r.before.find( n ), a = r.after.find( n );
        if ( b != r.before.end() && a != r.after.end() && b->second == a->second ) continue;
        if ( b == r.before.end() )
        {
          x.check( outs.count( n ), "debris", "the call left " + n );
          x.check( S_ISREG( a->second.mode ), "debris", n + " is no ordinary file" );
          continue;
        }
        if ( a == r.after.end() )
        {
          // only a stale conflict file, or an output that is replaced, may go
          x.check( outs.count( n ) && S_ISREG( b->second.mode ) && ( n == confFile || !ok ), "removed", "the call removed " + n );
          continue;
        }
        if ( inouts.count( n ) )
        {
          x.check( b->second.mode == a->second.mode, "mode", "the call changed the mode of " + n );
          if ( !ok ) x.check( dumpBytes( x, b->second.bytes ) == dumpBytes( x, a->second.bytes ), "failed-changed", "the failing call changed the content of " + n );
          continue;
        }
        x.check( outs.count( n ) && S_ISREG( b->second.mode ), "input-changed", "the call changed " + n );
      }
      // conflict file
      if ( confKind >= 0 && !anyNull )
      {
        bool is = r.after.count( confFile ) && S_ISREG( r.after[confFile].mode );
        const std::string kn = kinds( Conflict )[confKind].name;
        if ( !is ) { if ( r.expect == Good && ok && cl.conflicts ) x.fail( "no-conflict-file", "conflicts were found, but there is no conflict file" ); }
        else if ( ok ) x.check( cl.conflicts && r.after[confFile].bytes != "old content", "stale-conflict-file", "there is a conflict file although no conflict was found" );
        else x.check( r.after[confFile].bytes != "old content", "stale-conflict-file", "an old conflict file is still there" );
      }
      // same effect as with plain arguments
      if ( r.expect == Good && ok )
      {
        static std::map<const Call *, std::vector<std::string>> ref;
        auto effect = [&]( const Result & q )
        {
          std::vector<std::string> e;
          for ( size_t i = 0; i < cl.args.size(); ++i )
          {
            Role ro = cl.args[i].role;
            bool ign = false;
            for ( int g : cl.ignored ) ign |= g == int( i );
            if ( !isOut( ro ) && ro != DbInOut ) { e.push_back( "" ); continue; }
            auto a = q.after.find( q.file[i] );
            if ( a == q.after.end() || !S_ISREG( a->second.mode ) ) e.push_back( "none" );
            else if ( ro == DbInOut || ro == DbOut )
            {
              // journal mode is part of the dump of a WAL database only through the header
              std::string bytes = a->second.bytes;
              if ( bytes.size() > 20 ) bytes[18] = bytes[19] = 1;
              e.push_back( ign ? "" : dumpBytes( x, bytes ) );
            }
            else e.push_back( a->second.bytes );
          }
          return e;
        };
        auto got = effect( r );
        auto it = ref.find( &cl );
        if ( it == ref.end() )
        {
          Case plain{ &cl, std::vector<int>( cl.args.size(), 0 ) };
          Result q = perform( x, plain );
          x.check( q.rc == cl.okValue, "refused", "the call with plain arguments failed" );
          it = ref.emplace( &cl, effect( q ) ).first;
        }
        for ( size_t i = 0; i < got.size(); ++i )
          x.check( got[i] == it->second[i], "other-result", "argument " + cl.args[i].name + ": the result differs from that of the call with plain arguments:\n" + got[i].substr( 0, 1500 ) + "\ninstead of\n" + it->second[i].substr( 0, 1500 ) );
      }
      x.state( cl.fn + cl.scenario + deviations( k ) );
      x.transition();
      x.trace();
      x.outcome( fmt( "%s: %s", cl.fn.c_str(), ok ? "success" : "error" ) );
    };
    return c;
  } );
}
