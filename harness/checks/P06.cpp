// P06: all mutations of a set of changesets within the stated bounds, and all short byte strings,
// through every operation that reads changesets; built with address and undefined-behaviour sanitizers.
#include "csspace.h"
#include <unistd.h>
#include <fcntl.h>
using namespace space;

//! the grammar of the format and nothing else: is the file a sequence of table headers and entries?
static bool readable( const std::string &b, size_t &entries )
{
  entries = 0;
  size_t o = 0, cols = 0;
  auto var = [&]( uint64_t & v ) -> bool
  {
    v = 0;
    for ( int i = 0; i < 9; ++i )
    {
      if ( o >= b.size() ) return false;
      uint8_t c = b[o++];
      if ( i == 8 ) { v = ( v << 8 ) | c; return true; }
      v = ( v << 7 ) | ( c & 0x7f );
      if ( !( c & 0x80 ) ) return true;
    }
    return true;
  };
  auto record = [&]() -> bool
  {
    for ( size_t i = 0; i < cols; ++i )
    {
      if ( o >= b.size() ) return false;
      int t = ( uint8_t ) b[o++];
      if ( t == 1 || t == 2 ) { if ( b.size() - o < 8 ) return false; o += 8; }
      else if ( t == 3 || t == 4 )
      {
        uint64_t n;
        if ( !var( n ) || n > b.size() - o ) return false;
        o += n;
      }
      else if ( t != 0 && t != 5 ) return false;
    }
    return true;
  };
  while ( o < b.size() )
  {
    int c = ( uint8_t ) b[o++];
    if ( c == 'T' )
    {
      uint64_t n;
      if ( !var( n ) || n == 0 || n > 65536 || b.size() - o < n ) return false;
      cols = n;
      o += n;
      size_t e = b.find( '\0', o );
      if ( e == std::string::npos ) return false;
      o = e + 1;
    }
    else if ( c == OpInsert || c == OpUpdate || c == OpDelete )
    {
      if ( !cols || o >= b.size() ) return false;
      ++o;
      if ( c != OpInsert && !record() ) return false;
      if ( c != OpDelete && !record() ) return false;
      ++entries;
    }
    else return false;
  }
  return true;
}

static const char *DDL = "CREATE TABLE t(id INTEGER PRIMARY KEY, v TEXT, w); CREATE TABLE u(a, k TEXT PRIMARY KEY);"
                         "INSERT INTO t VALUES(1,'a',NULL),(2,'b',1.5),(3,'c',x'00ff'); INSERT INTO u VALUES(1,'x'),(NULL,'y');";
static const char *MOD = "INSERT INTO t VALUES(9,'mine',1); UPDATE t SET v='m' WHERE id=2; DELETE FROM t WHERE id=3; INSERT INTO u VALUES(2,'z');";

static std::vector<CSet> seeds()
{
  CTable t = Synth::table( "t", { 1, 0, 0 } ), u = Synth::table( "u", { 0, 1 } );
  std::vector<CSet> s;
  s.push_back( { { t, { Synth::ins( { I( 4 ), T( "x" ), N() } ) } } } );
  s.push_back( { { t, { Synth::upd( { I( 1 ), T( "a" ), U() }, { U(), T( "bb" ), U() } ) } } } );
  s.push_back( { { t, { Synth::del( { I( 2 ), T( "b" ), R( 1.5 ) } ) } } } );
  s.push_back( { { t, { Synth::del( { I( 3 ), T( "c" ), B( std::string( "\0\xff", 2 ) ) } ), Synth::ins( { I( 5 ), N(), N() } ) } }, { u, { Synth::upd( { I( 1 ), T( "x" ) }, { N(), U() } ), Synth::ins( { B( "q" ), T( "w" ) } ) } } } );
  s.push_back( { { t, { Synth::ins( { I( 4 ), T( std::string( 130, 'l' ) ), N() } ) } } } );
  return s;
}
static const std::vector<std::string> TOK = { "T", "\x01", std::string( "\0", 1 ), "\x12", "\x17", "\x09", "\x05", "\x03", "\x80", "\xff", "t", "\x02" };

static std::vector<std::string> wf()
{
  std::vector<std::string> r;
  for ( auto &c : seeds() ) r.push_back( encode( c ) );
  return r;
}

struct Part { std::string name; uint64_t n; std::function<std::string( uint64_t )> get; };

int main( int argc, char **argv )
{
  return checkMain( argc, argv, []( const Opts & o )
  {
    static std::vector<std::string> W = wf();
    static std::vector<Part> parts;
    static uint64_t total;
    parts.clear();
    total = 0;
    auto add = [&]( const std::string & n, uint64_t k, std::function<std::string( uint64_t )> g ) { parts.push_back( { n, k, g } ); total += k; };
    for ( size_t w = 0; w < W.size(); ++w )
    {
      const std::string &b = W[w];
      if ( !o.thorough && w == 4 )
      {
        // the long text itself is not interesting: only the bytes around it
        add( "every byte of changeset 4 before and after its long text replaced by every value", ( b.size() - 130 ) * 255, [b]( uint64_t i )
        {
          std::string s = b;
          size_t p = i / 255, txt = b.find( "llll" );
          if ( p >= txt ) p += 130;
          s[p] = char( s[p] + 1 + i % 255 );
          return s;
        } );
      }
      else
        add( fmt( "every byte of changeset %zu replaced by every other value", w ), b.size() * 255, [b]( uint64_t i ) { std::string s = b; s[i / 255] = char( s[i / 255] + 1 + i % 255 ); return s; } );
      add( fmt( "every prefix and every suffix of changeset %zu", w ), b.size() * 2, [b]( uint64_t i ) { return i % 2 ? b.substr( i / 2 ) : b.substr( 0, i / 2 ); } );
      add( fmt( "every token inserted at every place of changeset %zu", w ), ( b.size() + 1 ) * TOK.size(), [b]( uint64_t i ) { std::string s = b; s.insert( i / TOK.size(), TOK[i % TOK.size()] ); return s; } );
      if ( o.thorough || w != 4 )
        add( fmt( "every range cut out of or repeated in changeset %zu", w ), b.size() * b.size() * 2, [b]( uint64_t i )
        {
          size_t n = b.size(), p = i / 2 % n, q = i / 2 / n;
          if ( p > q ) std::swap( p, q );
          return i % 2 ? b.substr( 0, p ) + b.substr( q + 1 ) : b.substr( 0, q + 1 ) + b.substr( p );
        } );
      size_t nt = o.thorough ? TOK.size() : 9;
      if ( o.thorough ? w < 4 : w == 0 )
        add( fmt( "every two bytes of changeset %zu replaced by every pair of tokens", w ), b.size() * ( b.size() - 1 ) / 2 * nt * nt, [b, nt]( uint64_t i )
        {
          Dig d( i );
          std::string s = b;
          char t0 = TOK[d.take( nt )][0], t1 = TOK[d.take( nt )][0];
          size_t k = d.take( b.size() * ( b.size() - 1 ) / 2 ), q = 1;
          while ( k >= q ) k -= q++;
          s[k] = t0;
          s[q] = t1;
          return s;
        } );
    }
    {
      uint64_t n = 1;
      int len = o.thorough ? 6 : 4;
      uint64_t nt = o.thorough ? TOK.size() : 9;
      for ( int i = 0; i < len; ++i ) n *= nt + 1;
      auto str = [len, nt]( uint64_t i ) { std::string s; Dig d( i ); for ( int k = 0; k < len; ++k ) { uint64_t c = d.take( nt + 1 ); if ( c ) s += TOK[c - 1]; } return s; };
      add( fmt( "all strings of up to %d tokens", len ), n, str );
      std::string h = encodeTable( Synth::table( "t", { 1, 0, 0 } ) ), h1 = encodeTable( Synth::table( "t", { 1 } ) );
      add( fmt( "a table header and all strings of up to %d tokens", len ), n, [h, str]( uint64_t i ) { return h + str( i ); } );
      add( fmt( "an insert and all strings of up to %d tokens", len ), n, [str]( uint64_t i ) { return W[0] + str( i ); } );
      if ( o.thorough ) add( fmt( "a header of one column and all strings of up to %d tokens", len ), n, [h1, str]( uint64_t i ) { return h1 + str( i ); } );
    }
    // claimed sizes around every limit
    {
      std::vector<uint64_t> sz = { 0, 1, 2, 3, 126, 127, 128, 16383, 16384, 65535, 65536, 65537, 2097151, 0x0fffffff, 0x10000000, 0x7ffffffe, 0x7fffffff, 0x80000000ULL, 0xfffffffeULL, 0xffffffffULL, 0x100000000ULL, 0x100000001ULL, 0x100000003ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xffffffffffffffffULL };
      add( "claimed numbers of columns", sz.size() * 3, [sz]( uint64_t i )
      {
        std::string s = "T" + varint( sz[i / 3] );
        uint64_t n = i % 3 == 0 ? 3 : i % 3 == 1 ? std::min<uint64_t>( sz[i / 3], 70000 ) : 0;
        for ( uint64_t k = 0; k < n; ++k ) s += k ? '\0' : '\1';
        s += std::string( "t\0", 2 );
        s += std::string( "\x12\0", 2 );
        for ( uint64_t k = 0; k < n; ++k ) s += k ? '\5' : '\5';
        return s;
      } );
      add( "claimed lengths of texts and blobs", sz.size() * 6, [sz]( uint64_t i )
      {
        std::string s = encodeTable( Synth::table( "t", { 1, 0, 0 } ) ) + std::string( "\x12\0", 2 ) + std::string( "\1\0\0\0\0\0\0\0\4", 9 );
        s += i % 2 ? '\3' : '\4';
        s += varint( sz[i / 6] );
        s += i / 2 % 3 == 0 ? "" : i / 2 % 3 == 1 ? "abc" : std::string( "abc\5", 4 );
        return s;
      } );
      // non-minimal and overlong varints
      add( "varints of every length and tail", 9 * 256, []( uint64_t i )
      {
        std::string s = "T";
        for ( uint64_t k = 0; k < i % 9; ++k ) s += '\x80';
        s += char( i / 9 );
        return s + std::string( "\1\0\0t\0\x12\0\1\0\0\0\0\0\0\0\4\5\5", 18 );
      } );
    }
    add( "huge files", 3, []( uint64_t ) { return std::string(); } );
    Check c;
    c.property = "P06";
    c.rule = "a state is a changeset file, transitions are the operations that read it; each runs under address and undefined-behaviour sanitizers and its result is compared with whether the file follows the grammar of the format";
    for ( auto &p : parts ) c.bounds.push_back( p.name + ": " + std::to_string( p.n ) );
    c.assumptions = { "memory errors are those that gcc's address and undefined-behaviour sanitizers find; the linked SQLite is not instrumented", "a file that follows the grammar may still be refused where an operation needs more (for instance keys)" };
    c.count = total;
    auto find = []( uint64_t i, std::string & name, bool & huge )
    {
      for ( auto &p : parts )
      {
        if ( i < p.n ) { name = p.name; huge = p.name == "huge files"; return p.get( i ); }
        i -= p.n;
      }
      abort();
    };
    c.describe = [find]( uint64_t i )
    {
      std::string n;
      bool h;
      std::string b = find( i, n, h );
      return n + fmt( "\n%zu bytes: ", b.size() ) + hex( b.substr( 0, 400 ) );
    };
    c.caseTimeout = 20;
    c.run = [find]( const Ctx & x )
    {
      std::string name;
      bool huge;
      std::string b = find( x.idx, name, huge );
      std::string cs = x.p( "cs" ), out = x.p( "out" ), db = x.p( "db" ), base = x.p( "base" ), good = x.p( "good" ), conf = x.p( "conf" ), mine = x.p( "mine" );
      static std::string img, mod, goodCs;
      if ( img.empty() )
      {
        img = buildImage( DDL );
        mod = buildImage( std::string( DDL ) + MOD );
        writeFile( base, img );
        writeFile( mine, mod );
        if ( GEODIFF_createChangeset( base.c_str(), mine.c_str(), good.c_str() ) != GEODIFF_SUCCESS ) throw std::runtime_error( "setup" );
        goodCs = readFile( good );
      }
      writeFile( base, img );
      writeFile( good, goodCs );
      size_t entries = 0;
      bool ok;
      if ( huge )
      {
        uint64_t k = x.idx - ( total - 3 );
        uint64_t sz = k == 0 ? 4294967296ULL : k == 1 ? 2147483648ULL : 4294967296ULL + 26;
        writeFile( cs, k == 2 ? W[0] : std::string() );
        if ( truncate( cs.c_str(), off_t( sz ) ) != 0 ) { x.outcome( "no room for a huge file" ); unlink( cs.c_str() ); return; }
        ok = false;       // 'unexpected record type 0' at the latest behind the valid part
      }
      else
      {
        writeFile( cs, b );
        ok = readable( b, entries );
      }
      auto call = [&]( const char *what, const std::function<int()> &fn ) -> int
      {
        try { return fn(); }
        catch ( const CaseFail & ) { throw; }
        catch ( const std::exception &e ) { x.fail( "exception", std::string( what ) + ": exception escapes: " + e.what() ); }
        catch ( ... ) { x.fail( "exception", std::string( what ) + ": exception escapes" ); }
      };
      auto must = [&]( const char *what, int rc, bool success ) { x.check( ( rc == GEODIFF_SUCCESS ) == success, success ? "refused" : "accepted", fmt( "%s returned %d for a file that %s the grammar of the format", what, rc, success ? "follows" : "does not follow" ) ); };
      int rc = call( "hasChanges", [&] { return GEODIFF_hasChanges( cs.c_str() ); } );
      if ( huge ) x.check( rc != 0, "has", "hasChanges says that a huge file is empty" );
      else x.check( rc == ( b.empty() ? 0 : 1 ), "has", fmt( "hasChanges returned %d for a file of %zu bytes", rc, b.size() ) );
      rc = call( "changesCount", [&] { return GEODIFF_changesCount( cs.c_str() ); } );
      if ( ok ) x.check( rc == ( int ) entries, "count", fmt( "changesCount returned %d, there are %zu entries", rc, entries ) );
      else x.check( rc == -1, "count", fmt( "changesCount returned %d for a file that does not follow the grammar", rc ) );
      rc = call( "listChanges", [&] { return GEODIFF_listChanges( cs.c_str(), out.c_str() ); } );
      must( "listChanges", rc, ok );
      rc = call( "listChangesSummary", [&] { return GEODIFF_listChangesSummary( cs.c_str(), out.c_str() ); } );
      must( "listChangesSummary", rc, ok );
      rc = call( "invertChangeset", [&] { return GEODIFF_invertChangeset( cs.c_str(), out.c_str() ); } );
      must( "invertChangeset", rc, ok );
      if ( ok )
      {
        size_t n2;
        x.check( readable( readFile( out ), n2 ) && n2 == entries, "invert", "the inverse is not in format or has another number of entries" );
      }
      auto sameDb = [&]( const std::string & p, const std::string & was )
      {
        if ( readFile( p ) == was ) return true;
        writeFile( x.p( "cmp" ), was );
        return fullDump( p ) == fullDump( x.p( "cmp" ) );
      };
      writeFile( db, img );
      rc = call( "applyChangeset", [&] { return GEODIFF_applyChangeset( db.c_str(), cs.c_str() ); } );
      bool applied = rc == GEODIFF_SUCCESS;
      if ( !ok ) must( "applyChangeset", rc, false );
      if ( !applied ) x.check( sameDb( db, img ), "damage", "applyChangeset failed and changed the database" );
      else
      {
        std::string ic = integrity( db );
        x.check( ic.empty(), "damage", "database damaged: " + ic );
        if ( entries == 0 ) x.check( sameDb( db, img ), "damage", "a changeset without entries changed the database" );
      }
      x.check( !exists( db + "-journal" ), "journal", "a journal is left" );
      // as the other side's changes, as mine, and in place
      rc = call( "createRebasedChangesetEx (theirs)", [&] { return GEODIFF_createRebasedChangesetEx( "sqlite", "", base.c_str(), good.c_str(), cs.c_str(), out.c_str(), conf.c_str() ); } );
      if ( !ok ) must( "createRebasedChangesetEx (theirs)", rc, false );
      rc = call( "createRebasedChangesetEx (mine)", [&] { return GEODIFF_createRebasedChangesetEx( "sqlite", "", base.c_str(), cs.c_str(), good.c_str(), out.c_str(), conf.c_str() ); } );
      if ( !ok ) must( "createRebasedChangesetEx (mine)", rc, false );
      writeFile( mine, mod );
      rc = call( "rebaseEx", [&] { return GEODIFF_rebaseEx( "sqlite", "", base.c_str(), mine.c_str(), cs.c_str(), conf.c_str() ); } );
      if ( !ok ) must( "rebaseEx", rc, false );
      if ( rc != GEODIFF_SUCCESS ) x.check( sameDb( mine, mod ), "damage", "rebaseEx failed and changed the database" );
      bool reb = rc == GEODIFF_SUCCESS;
      writeFile( mine, img );
      rc = call( "rebaseEx", [&] { return GEODIFF_rebaseEx( "sqlite", "", base.c_str(), mine.c_str(), cs.c_str(), conf.c_str() ); } );
      if ( !ok ) must( "rebaseEx without own changes", rc, false );
      if ( rc != GEODIFF_SUCCESS ) x.check( sameDb( mine, img ), "damage", "rebaseEx failed and changed the database" );
      x.check( readFile( base ) == img && readFile( good ) == goodCs && ( huge || readFile( cs ) == b ), "input-changed", "an input was changed" );
      if ( huge ) unlink( cs.c_str() );
      unlink( conf.c_str() );
      x.state( b );
      if ( ok && entries && ( applied || reb ) ) x.nontrivial( b );
      x.transition( 9 );
      x.trace();
      x.outcome( fmt( "%s%s%s", ok ? "in format" : "not in format", applied ? ", applied" : ", not applied", reb ? ", rebased" : "" ) );
    };
    return c;
  } );
}
