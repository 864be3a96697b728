// P08: the JSON listing and summary of every changeset of the space, read with a strict JSON reader
// and compared with the decoded changeset.
#include "csspace.h"
#include <array>
using namespace space;

static bool sameValue( const Json &j, const Val &v )
{
  switch ( v.t )
  {
    case Val::Int:
    {
      if ( j.k != Json::Num || j.s.find_first_not_of( "-0123456789" ) != std::string::npos ) return false;
      return j.s == std::to_string( v.i );
    }
    case Val::Real:
      if ( !std::isfinite( v.d ) ) return j.k == Json::Null;     // JSON has no such numbers
      return j.k == Json::Num && num( j.s ) == v.d;
    case Val::Text: return j.k == Json::Str && j.s == v.s;
    case Val::Blob: return j.k == Json::Str && j.s == base64( v.s );
    case Val::Null: return j.k == Json::Null;
    default: return false;
  }
}

int main( int argc, char **argv )
{
  return checkMain( argc, argv, []( const Opts & o )
  {
    static Pairs P( o.thorough );
    static Synth S( o.thorough );
    Check c;
    c.property = "P08";
    c.odd = true;
    c.rule = "a state is a changeset, transitions are listChanges and listChangesSummary; both outputs are read by a strict JSON reader (RFC 8259, UTF-8 checked) and compared item by item with the changeset decoded independently";
    c.bounds = { fmt( "changesets of all ordered pairs of states of %zu schema families: %llu", P.fam.size(), ( unsigned long long ) P.total ) };
    for ( auto &b : S.bounds() ) c.bounds.push_back( b );
    c.assumptions = { "texts are valid UTF-8", "numbers are exact when reading the decimal form gives the stored double; non-finite doubles are written as null" };
    c.count = P.total + S.total + 1;
    c.describe = []( uint64_t i )
    {
      if ( i < P.total ) return P.describe( i );
      if ( i == P.total + S.total ) return std::string( "empty changeset" );
      CSet cs;
      std::string n = S.get( i - P.total, cs );
      return n + "\n" + clip( show( cs ) );
    };
    c.run = []( const Ctx & x )
    {
      std::string cs = x.p( "cs" ), js = x.p( "list.json" ), sm = x.p( "summary.json" ), err;
      CSet dec;
      if ( x.idx < P.total )
      {
        const Family *f;
        uint64_t a, b;
        P.get( x.idx, f, a, b );
        const std::string *base = image( *f, a ), *mod = image( *f, b, true );
        if ( !base || !mod ) { x.outcome( "state excluded by its own constraints" ); return; }
        std::string pb = x.p( "base.db" ), pm = x.p( "mod.db" );
        writeFile( pb, *base );
        writeFile( pm, *mod );
        x.check( GEODIFF_createChangeset( pb.c_str(), pm.c_str(), cs.c_str() ) == GEODIFF_SUCCESS, "create-failed", "createChangeset failed" );
        x.check( decode( readFile( cs ), dec, &err ), "undecodable", "changeset is not in format: " + err );
      }
      else
      {
        if ( x.idx < P.total + S.total ) S.get( x.idx - P.total, dec );
        writeFile( cs, encode( dec ) );
      }
      std::string bytes = readFile( cs );
      // an older, longer output must not shine through
      writeFile( js, std::string( 100, '#' ) );
      writeFile( sm, std::string( 100, '#' ) );
      x.check( GEODIFF_listChanges( cs.c_str(), js.c_str() ) == GEODIFF_SUCCESS, "list-failed", "listChanges failed for\n" + clip( show( dec ) ) );
      x.check( GEODIFF_listChangesSummary( cs.c_str(), sm.c_str() ) == GEODIFF_SUCCESS, "summary-failed", "listChangesSummary failed for\n" + clip( show( dec ) ) );
      x.check( readFile( cs ) == bytes, "input-changed", "listing changed the changeset" );
      Json j;
      std::string txt = readFile( js );
      x.check( parseJson( txt, j, &err ), "invalid-json", "listing is not valid JSON: " + err + "\n" + clip( txt ) );
      auto bad = [&]( const std::string & what ) { x.fail( "listing", what + "\nchangeset:\n" + clip( show( dec ) ) + "listing:\n" + clip( txt ) ); };
      if ( j.k != Json::Obj || j.o.size() != 1 || !j.get( "geodiff" ) || j.get( "geodiff" )->k != Json::Arr ) bad( "listing is not an object with the array 'geodiff'" );
      auto &items = j.get( "geodiff" )->a;
      auto fl = flat( dec );
      if ( items.size() != fl.size() ) bad( fmt( "%zu items for %zu entries", items.size(), fl.size() ) );
      std::map<std::string, std::array<long, 3>> sums;
      for ( size_t k = 0; k < fl.size(); ++k )
      {
        const Json &it = items[k];
        const CEntry &e = fl[k].second;
        const char *type = e.op == OpInsert ? "insert" : e.op == OpUpdate ? "update" : "delete";
        ++sums[fl[k].first.name][e.op == OpInsert ? 0 : e.op == OpUpdate ? 1 : 2];
        if ( it.k != Json::Obj || it.o.size() != 3 || !it.get( "table" ) || !it.get( "type" ) || !it.get( "changes" ) ) bad( fmt( "item %zu has not exactly table, type and changes", k ) );
        if ( it.get( "table" )->k != Json::Str || it.get( "table" )->s != fl[k].first.name ) bad( fmt( "item %zu: wrong table", k ) );
        if ( it.get( "type" )->k != Json::Str || it.get( "type" )->s != type ) bad( fmt( "item %zu: wrong type", k ) );
        if ( it.get( "changes" )->k != Json::Arr ) bad( "changes is not an array" );
        auto &ch = it.get( "changes" )->a;
        size_t pos = 0;
        for ( size_t col = 0; col < fl[k].first.pk.size(); ++col )
        {
          Val ov = e.op == OpInsert ? U() : e.o[col], nv = e.op == OpDelete ? U() : e.n[col];
          if ( ov.t == Val::Undef && nv.t == Val::Undef ) continue;
          if ( pos >= ch.size() ) bad( fmt( "item %zu: column %zu is missing", k, col ) );
          const Json &q = ch[pos++];
          size_t want = 1 + ( ov.t != Val::Undef ) + ( nv.t != Val::Undef );
          if ( q.k != Json::Obj || !q.get( "column" ) || q.get( "column" )->k != Json::Num || q.get( "column" )->s != std::to_string( col ) ) bad( fmt( "item %zu: change %zu is not column %zu", k, pos - 1, col ) );
          if ( q.o.size() != want ) bad( fmt( "item %zu column %zu: %zu members instead of %zu", k, col, q.o.size(), want ) );
          if ( ov.t != Val::Undef && ( !q.get( "old" ) || !sameValue( *q.get( "old" ), ov ) ) ) bad( fmt( "item %zu column %zu: wrong old value", k, col ) );
          if ( nv.t != Val::Undef && ( !q.get( "new" ) || !sameValue( *q.get( "new" ), nv ) ) ) bad( fmt( "item %zu column %zu: wrong new value", k, col ) );
        }
        if ( pos != ch.size() ) bad( fmt( "item %zu lists more columns than are recorded", k ) );
      }
      std::string st = readFile( sm );
      x.check( parseJson( st, j, &err ), "invalid-json", "summary is not valid JSON: " + err + "\n" + clip( st ) );
      auto bads = [&]( const std::string & what ) { x.fail( "summary", what + "\nchangeset:\n" + clip( show( dec ) ) + "summary:\n" + clip( st ) ); };
      if ( j.k != Json::Obj || j.o.size() != 1 || !j.get( "geodiff_summary" ) || j.get( "geodiff_summary" )->k != Json::Arr ) bads( "summary is not an object with the array 'geodiff_summary'" );
      auto &rows = j.get( "geodiff_summary" )->a;
      if ( rows.size() != sums.size() ) bads( fmt( "%zu tables instead of %zu", rows.size(), sums.size() ) );
      std::set<std::string> seen;
      for ( auto &r : rows )
      {
        if ( r.k != Json::Obj || r.o.size() != 4 || !r.get( "table" ) || r.get( "table" )->k != Json::Str ) bads( "an item has not table, insert, update and delete" );
        std::string n = r.get( "table" )->s;
        if ( !sums.count( n ) || !seen.insert( n ).second ) bads( "unexpected table " + n );
        const char *names[3] = { "insert", "update", "delete" };
        for ( int q = 0; q < 3; ++q )
          if ( !r.get( names[q] ) || r.get( names[q] )->k != Json::Num || r.get( names[q] )->s != std::to_string( sums[n][q] ) ) bads( std::string( "wrong number of " ) + names[q] + "s of table " + n );
      }
      x.state( canon( dec ).size() > 100000 ? std::to_string( x.idx ) : canon( dec ) );
      x.transition( 2 );
      x.trace();
      x.outcome( fmt( "items=%s tables=%zu", fl.size() > 5 ? ">5" : std::to_string( fl.size() ).c_str(), sums.size() ) );
    };
    return c;
  } );
}
