// P19: every function with every combination of argument kinds (up to a number of deviating ones):
// right return value, no crash (address and undefined-behaviour sanitizers).
#include "argspace.h"
using namespace argspace;

int main( int argc, char **argv )
{
  return checkMain( argc, argv, []( const Opts & o )
  {
    static Space S( o.thorough ? 4 : 3 );
    Check c;
    c.property = "P19";
    c.rule = "a state is a directory with the files the arguments name, a transition is one call of a public function; enumerated are all calls in which up to a number of arguments are not the plain valid kind. Expected is the documented error value when an argument that is looked at is bad, success when all are good";
    c.bounds = { fmt( "%zu functions and scenarios, all combinations with up to %d (where there are more than 5 arguments, %d) arguments of another kind (of up to 21): %zu calls", S.C.size(), o.thorough ? 4 : 3, o.thorough ? 3 : 2, S.cases.size() ) };
    c.assumptions = { "paths of outputs and inputs are distinct", "calls run as user 65534 in a directory of their own", "arguments which a call has no need to look at (conflict file without conflicts; database without changes to apply; base of createRebasedChangesetEx) may be bad without consequence" };
    c.count = S.cases.size();
    c.caseTimeout = 20;
    c.describe = []( uint64_t i ) { return S.describe( i ); };
    c.run = []( const Ctx & x )
    {
      const Case &k = S.cases[x.idx];
      Result r = perform( x, k );
      bool ok = succeeded( *k.c, r.rc );
      auto err = [&]( int v ) { return v == k.c->errorValue || ( k.c->errorValue > 0 && ( v == GEODIFF_CONFICTS || v == GEODIFF_UNSUPPORTED_CHANGE ) ); };
      if ( r.expect == Good ) x.check( r.rc == k.c->okValue, "refused", fmt( "returned %d instead of %d", r.rc, k.c->okValue ) );
      if ( r.expect == Bad ) x.check( err( r.rc ), "accepted", fmt( "returned %d, an error was due", r.rc ) );
      if ( r.expect == Any ) x.check( ok || err( r.rc ), "undocumented", fmt( "returned %d, which is no documented value", r.rc ) );
      x.state( k.c->fn + k.c->scenario + deviations( k ) );
      x.transition();
      x.trace();
      x.outcome( fmt( "%s: %s", k.c->fn.c_str(), ok ? "success" : "error" ) );
    };
    return c;
  } );
}
