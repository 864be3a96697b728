// P03: every sequence of up to N entries (fitting or not) applied to every state, compared with an
// interpreter of changesets over maps.
#include "mc.h"
using namespace mc;

struct TM
{
  std::string name, ddl;
  std::vector<std::string> cols;
  std::vector<int> pk;
  std::vector<std::vector<int>> uniq;               // sets of columns
  std::function<bool( const Row & )> ok;            // NOT NULL, CHECK, ...
  std::vector<Row> rows;                            // alphabet of rows used for states (valid) and entries
  std::vector<Row> badRows;                         // additional rows used in entries only
  bool pkUpdates = true;
};
typedef std::map<std::string, Row> Tab;
typedef std::vector<Tab> State;
struct Ent { int t; CEntry e; };

static std::string keyOf( const TM &m, const Row &r )
{
  std::string o;
  for ( size_t i = 0; i < r.size(); ++i ) if ( m.pk[i] ) o += enc( r[i] );
  return o;
}
static bool fitsConstraints( const TM &m, const Tab &t, const Row &r, const std::string &self )
{
  if ( m.ok && !m.ok( r ) ) return false;
  for ( auto &u : m.uniq )
    for ( auto &x : t )
    {
      if ( x.first == self ) continue;
      bool same = true;
      for ( int c : u ) if ( r[c].t == Val::Null || x.second[c] != r[c] ) same = false;
      if ( same ) return false;
    }
  return true;
}
//! what SQLite does for constraints declared ON CONFLICT REPLACE (recorded as a finding, not the property)
static bool stepReplace( const std::vector<TM> &T, State &st, const Ent &x )
{
  const TM &m = T[x.t];
  Tab &t = st[x.t];
  Row n = x.e.n;
  std::string self;
  if ( x.e.op != OpInsert )
  {
    self = keyOf( m, x.e.o );
    auto it = t.find( self );
    if ( it == t.end() ) return false;
    for ( size_t i = 0; i < x.e.o.size(); ++i ) if ( x.e.o[i].t != Val::Undef && x.e.o[i] != it->second[i] ) return false;
    if ( x.e.op == OpDelete ) { t.erase( it ); return true; }
    for ( size_t i = 0; i < n.size(); ++i ) if ( n[i].t == Val::Undef ) n[i] = it->second[i];
  }
  if ( m.ok && !m.ok( n ) ) return false;
  if ( x.e.op != OpInsert ) t.erase( self );
  t.erase( keyOf( m, n ) );
  for ( auto it = t.begin(); it != t.end(); )
  {
    bool clash = false;
    for ( auto &u : m.uniq ) { bool same = true; for ( int c : u ) if ( n[c].t == Val::Null || it->second[c] != n[c] ) same = false; clash |= same; }
    if ( clash ) it = t.erase( it ); else ++it;
  }
  t[keyOf( m, n )] = n;
  return true;
}
//! the model: true if the entry fits; then st is the new state
static bool stepModel( const std::vector<TM> &T, State &st, const Ent &x )
{
  const TM &m = T[x.t];
  Tab &t = st[x.t];
  if ( x.e.op == OpInsert )
  {
    std::string k = keyOf( m, x.e.n );
    if ( t.count( k ) || !fitsConstraints( m, t, x.e.n, k ) ) return false;
    t[k] = x.e.n;
    return true;
  }
  std::string k = keyOf( m, x.e.o );
  auto it = t.find( k );
  if ( it == t.end() ) return false;
  for ( size_t i = 0; i < x.e.o.size(); ++i ) if ( x.e.o[i].t != Val::Undef && x.e.o[i] != it->second[i] ) return false;
  if ( x.e.op == OpDelete ) { t.erase( it ); return true; }
  Row n = it->second;
  for ( size_t i = 0; i < n.size(); ++i ) if ( x.e.n[i].t != Val::Undef ) n[i] = x.e.n[i];
  std::string nk = keyOf( m, n );
  if ( nk != k && t.count( nk ) ) return false;
  if ( !fitsConstraints( m, t, n, k ) ) return false;
  t.erase( it );
  t[nk] = n;
  return true;
}

struct Fam
{
  std::string name, setup;
  std::vector<TM> T;
  int len;
  bool wal = false;
  std::vector<State> states;
  std::vector<Ent> ents;
  uint64_t nseq = 0, start = 0;
  uint64_t n() const { return states.size() * nseq; }
};

static void build( Fam &f )
{
  // states: all subsets of the alphabet's rows with distinct keys that satisfy the constraints
  f.states = { State( f.T.size() ) };
  for ( size_t t = 0; t < f.T.size(); ++t )
    for ( auto &r : f.T[t].rows )
    {
      std::vector<State> more;
      for ( auto &s : f.states )
      {
        std::string k = keyOf( f.T[t], r );
        if ( s[t].count( k ) || !fitsConstraints( f.T[t], s[t], r, k ) ) continue;
        State n = s;
        n[t][k] = r;
        more.push_back( n );
      }
      f.states.insert( f.states.end(), more.begin(), more.end() );
    }
  for ( size_t t = 0; t < f.T.size(); ++t )
  {
    const TM &m = f.T[t];
    std::vector<Row> all = m.rows;
    all.insert( all.end(), m.badRows.begin(), m.badRows.end() );
    for ( auto &r : all ) { Ent x{ ( int ) t, {} }; x.e.op = OpInsert; x.e.n = r; f.ents.push_back( x ); }
    for ( auto &r : m.rows ) { Ent x{ ( int ) t, {} }; x.e.op = OpDelete; x.e.o = r; f.ents.push_back( x ); }
    std::set<std::string> seen;
    for ( auto &r : m.rows )
      for ( auto &n : all )
      {
        if ( r == n ) continue;
        if ( !m.pkUpdates && keyOf( m, r ) != keyOf( m, n ) ) continue;
        Ent x{ ( int ) t, {} };
        x.e.op = OpUpdate;
        for ( size_t i = 0; i < r.size(); ++i )
        {
          bool ch = r[i] != n[i];
          x.e.o.push_back( ch || m.pk[i] ? r[i] : U() );
          x.e.n.push_back( ch ? n[i] : U() );
        }
        if ( seen.insert( encodeEntry( x.e ) ).second ) f.ents.push_back( x );
      }
  }
  f.nseq = 0;
  uint64_t p = 1;
  for ( int l = 0; l <= f.len; ++l ) { f.nseq += p; p *= f.ents.size(); }
}

static std::vector<Row> prod( const std::vector<std::vector<Val>> &cols )
{
  std::vector<Row> r = { {} };
  for ( auto &c : cols ) { std::vector<Row> n; for ( auto &a : r ) for ( auto &v : c ) { Row b = a; b.push_back( v ); n.push_back( b ); } r = n; }
  return r;
}

static std::vector<Fam> families( bool thorough )
{
  std::vector<Fam> F;
  auto add = [&]( const std::string &n, const std::string &setup, std::vector<TM> T, int len ) -> Fam & { Fam f; f.name = n; f.setup = setup; f.T = T; f.len = len; F.push_back( f ); return F.back(); };
  auto notNull = []( int c ) { return [c]( const Row & r ) { return r[c].t != Val::Null; }; };
  int L = thorough ? 3 : 2;
  {
    TM t{ "t", "", { "id", "v" }, { 1, 0 }, {}, nullptr, prod( { { I( 1 ), I( 2 ) }, { N(), I( 1 ), T( "x" ) } } ), {} };
    add( "plain", "CREATE TABLE t(id INTEGER PRIMARY KEY, v);", { t }, 2 );
    if ( thorough ) { TM s = t; s.pkUpdates = false; s.rows = prod( { { I( 1 ), I( 2 ) }, { N(), I( 1 ) } } ); add( "plain-long", "CREATE TABLE t(id INTEGER PRIMARY KEY, v);", { s }, 4 ); }
    TM w = t;
    w.rows = prod( { { I( 1 ), I( 2 ) }, { N(), I( 1 ) } } );
    Fam &f = add( "wal", "CREATE TABLE t(id INTEGER PRIMARY KEY, v);", { w }, 2 );
    f.wal = true;
  }
  {
    TM t{ "t", "", { "id", "u", "v" }, { 1, 0, 0 }, { { 1 } }, []( const Row & r ) { return r[1].t != Val::Null && !( r[2].t == Val::Int && r[2].i > 3 ); },
          prod( { { I( 1 ), I( 2 ) }, { I( 1 ), I( 2 ) }, { N(), I( 1 ) } } ), { { I( 1 ), N(), I( 1 ) }, { I( 2 ), I( 1 ), I( 5 ) }, { I( 3 ), I( 2 ), N() } } };
    t.pkUpdates = false;
    add( "constraints", "CREATE TABLE t(id INTEGER PRIMARY KEY, u INTEGER NOT NULL UNIQUE, v CHECK(v IS NULL OR v < 4));", { t }, thorough ? 2 : 2 );
  }
  {
    TM t{ "t", "", { "id", "a", "b" }, { 1, 0, 0 }, {}, nullptr, prod( { { I( 1 ) }, { N(), I( 1 ), I( 2 ) }, { N(), T( "x" ), R( 0.5 ) } } ), { { I( 2 ), N(), I( 1 ) } } };
    add( "several-columns", "CREATE TABLE t(id INTEGER PRIMARY KEY, a, b);", { t }, thorough ? 2 : 1 );
    t.rows = prod( { { I( 1 ) }, { N(), I( 1 ) }, { N(), T( "x" ) } } );
    add( "several-columns-seq", "CREATE TABLE t(id INTEGER PRIMARY KEY, a, b);", { t }, L );
  }
  {
    TM t{ "t", "", { "v", "k" }, { 0, 1 }, {}, nullptr, prod( { { N(), B( "z" ) }, { T( "b!" ), T( "aB" ), T( "" ) } } ), {} };
    add( "text-key-last", "CREATE TABLE t(v, k TEXT PRIMARY KEY NOT NULL);", { t }, 2 );
    TM c{ "t", "", { "a", "v", "b" }, { 1, 0, 1 }, {}, nullptr, prod( { { I( 1 ), I( 2 ) }, { N(), I( 1 ) }, { T( "x" ), T( "y" ) } } ), {} };
    c.pkUpdates = false;
    add( "composite-key", "CREATE TABLE t(a INTEGER, v, b TEXT, PRIMARY KEY(b, a)) WITHOUT ROWID;", { c }, 2 );
    TM o{ "t", "", { "a", "b" }, { 1, 1 }, {}, nullptr, prod( { { I( 1 ), I( 2 ) }, { T( "x" ), T( "y" ) } } ), {} };
    add( "only-keys", "CREATE TABLE t(a INTEGER, b TEXT, PRIMARY KEY(a, b));", { o }, 2 );
  }
  {
    TM a{ "a", "", { "id", "v" }, { 1, 0 }, {}, notNull( 1 ), prod( { { I( 1 ), I( 2 ) }, { I( 1 ) } } ), { { I( 1 ), N() } } };
    TM b{ "b", "", { "k", "w", "x" }, { 1, 0, 0 }, {}, nullptr, prod( { { T( "p" ) }, { I( 1 ), N() }, { T( "q" ) } } ), {} };
    add( "two-tables", "CREATE TABLE a(id INTEGER PRIMARY KEY, v NOT NULL); CREATE TABLE b(k TEXT PRIMARY KEY, w, x);", { a, b }, L );
  }
  {
    TM t{ "t", "", { "id", "u" }, { 1, 0 }, { { 1 } }, notNull( 1 ), prod( { { I( 1 ), I( 2 ) }, { I( 1 ), I( 2 ) } } ), { { I( 1 ), N() } } };
    for ( const char *act : { "REPLACE", "IGNORE", "FAIL", "ROLLBACK" } )
      add( std::string( "on-conflict-" ) + act, std::string( "CREATE TABLE t(id INTEGER PRIMARY KEY ON CONFLICT " ) + act + ", u INTEGER NOT NULL ON CONFLICT " + act + " UNIQUE ON CONFLICT " + act + ");", { t }, 2 );
  }
  {
    TM t{ "t", "", { "id", "a" }, { 1, 0 }, {}, []( const Row & r ) { return r[1].t == Val::Null || r[1].t == Val::Int; }, prod( { { I( 1 ), I( 2 ) }, { I( 1 ), N() } } ), { { I( 1 ), T( "text" ) }, { I( 2 ), R( 1.5 ) } } };
    add( "strict-types", "CREATE TABLE t(id INTEGER PRIMARY KEY, a INTEGER) STRICT;", { t }, 2 );
  }
  {
    TM t{ "t", "", { "id", "a" }, { 1, 0 }, {}, nullptr, prod( { { I( INT64_MAX ), I( INT64_MIN ) }, { B( std::string( "\0\1", 2 ) ), T( std::string( "x\0y", 3 ) ), T( std::string( "x\0z", 3 ) ) } } ), {} };
    add( "odd-values", "CREATE TABLE t(id INTEGER PRIMARY KEY, a);", { t }, 2 );
  }
  uint64_t s = 0;
  for ( auto &f : F ) { build( f ); f.start = s; s += f.n(); }
  return F;
}

static std::string imageSql( const Fam &f, const State &st )
{
  std::string o = f.setup + "\n";
  for ( size_t t = 0; t < f.T.size(); ++t )
    for ( auto &r : st[t] )
    {
      o += "INSERT INTO " + quoteId( f.T[t].name ) + " VALUES(";
      for ( size_t i = 0; i < r.second.size(); ++i ) o += ( i ? "," : "" ) + sqlLit( r.second[i] );
      o += ");\n";
    }
  return o;
}
static CSet toSet( const Fam &f, const std::vector<Ent> &s )
{
  CSet cs;
  for ( auto &x : s )
  {
    if ( cs.empty() || cs.back().table.name != f.T[x.t].name )
    {
      CGroup g;
      g.table.name = f.T[x.t].name;
      for ( int k : f.T[x.t].pk ) g.table.pk.push_back( k ? 1 : 0 );
      cs.push_back( g );
    }
    cs.back().entries.push_back( x.e );
  }
  return cs;
}

// long changesets (more pages than the cache holds) with one misfit at a given position, or none
struct Long { int n, bad, kind, wal; };
static std::vector<Long> longCases( bool thorough )
{
  std::vector<Long> r;
  for ( int wal : { 0, 1 } )
    for ( int n : thorough ? std::vector<int> { 50, 3000, 40000 } : std::vector<int> { 50, 3000 } )
      for ( int kind = 0; kind < 3; ++kind )
        for ( int bad : { -1, 0, 1, n / 2, n - 2, n - 1 } ) r.push_back( { n, bad, kind, wal } );
  return r;
}
static void runLong( const Ctx &x, const Long &c )
{
  static std::map<std::pair<int, int>, std::string> img;
  std::string &im = img[ {c.n, c.wal}];
  std::string p = x.p( "t.db" ), cs = x.p( "cs" );
  if ( im.empty() )
    im = buildImage( fmt( "CREATE TABLE t(id INTEGER PRIMARY KEY, v, w); WITH RECURSIVE c(i) AS (SELECT 0 UNION ALL SELECT i+1 FROM c WHERE i<%d) INSERT INTO t SELECT i*2, i, printf('%%0300d', i) FROM c; CREATE INDEX ix ON t(v);%s",
                          c.n - 1, c.wal ? "PRAGMA journal_mode=WAL;" : "" ) );
  writeFile( p, im );
  CSet s( 1 );
  s[0].table.name = "t";
  s[0].table.pk = { 1, 0, 0 };
  for ( int i = 0; i < c.n; ++i )
  {
    CEntry e;
    Row r = { I( i * 2 ), I( i ), T( fmt( "%0300d", i ) ) };
    if ( c.kind == 0 ) { e.op = OpUpdate; e.o = { r[0], i == c.bad ? T( "other" ) : r[1], U() }; e.n = { U(), T( "new" ), U() }; }
    else if ( c.kind == 1 ) { e.op = OpDelete; e.o = r; if ( i == c.bad ) e.o[2] = T( "other" ); }
    else { e.op = OpInsert; e.n = r; if ( i != c.bad ) e.n[0].i++; }
    s[0].entries.push_back( e );
  }
  writeFile( cs, encode( s ) );
  std::string before = fullDump( p );
  int rc = GEODIFF_applyChangeset( p.c_str(), cs.c_str() );
  if ( c.bad >= 0 )
  {
    x.check( rc != GEODIFF_SUCCESS, "long-accepted", "a changeset with a misfit was accepted" );
    x.check( fullDump( p ) == before, "long-partial", "a refused changeset changed the database" );
  }
  else
  {
    x.check( rc == GEODIFF_SUCCESS, "long-refused", fmt( "a fitting changeset was refused: %d", rc ) );
    Db d( p );
    x.check( d.one( c.kind == 0 ? "SELECT count(*) FROM t WHERE v='new'" : c.kind == 1 ? "SELECT count(*)=0 FROM t" : "SELECT count(*) FROM t WHERE id%2=1" ).i == ( c.kind == 1 ? 1 : c.n ), "long-result", "wrong result" );
  }
  x.check( integrity( p ).empty(), "integrity", integrity( p ) );
  x.transition( c.n );
  x.trace();
  x.outcome( c.bad >= 0 ? "long: refused" : "long: applied" );
}

// many misfits: whatever their number, the changeset is refused as a whole
struct Many { int n, kind, fits; };     //!< fits: a fitting entry comes first (1), last (2), in a table before (3) or after (4)
static std::vector<Many> manyCases( bool thorough )
{
  std::vector<Many> r;
  for ( int n = 1; n <= ( thorough ? 1100 : 600 ); ++n )
    for ( int kind = 0; kind < 3; ++kind )
      for ( int fits : { 1, 2, 3, 4 } ) r.push_back( { n, kind, fits } );
  for ( int n : { 1000, 1023, 1024, 32767, 32768, 65534, 65535, 65536, 65537, 65538 } )
    for ( int kind = 0; kind < 3; ++kind )
      for ( int fits : { 1, 4 } ) r.push_back( { n, kind, fits } );
  // many fitting entries (5: before, 6: on both sides of it) and one misfit
  for ( int fits : { 5, 6 } )
    for ( int n : { 1000, 4500, 10000, 16500, 33000, 66000, 131500 } )
      for ( int kind = 0; kind < 3; ++kind ) r.push_back( { n, kind, fits } );
  return r;
}
static void runMany( const Ctx &x, const Many &c )
{
  static const std::string im = buildImage( "CREATE TABLE a(id INTEGER PRIMARY KEY, v); CREATE TABLE t(id INTEGER PRIMARY KEY, v); CREATE TABLE z(id INTEGER PRIMARY KEY, v); INSERT INTO t VALUES(1,1);" );
  std::string p = x.p( "t.db" ), cs = x.p( "cs" );
  writeFile( p, im );
  CSet s( 1 );
  s[0].table.name = "t";
  s[0].table.pk = { 1, 0 };
  const int misfits = c.fits >= 5 ? 1 : c.n;
  for ( int i = 0; i < misfits; ++i )
  {
    CEntry e;
    if ( c.kind == 0 ) { e.op = OpUpdate; e.o = { I( 1 ), I( 2 ) }; e.n = { U(), I( 3 ) }; }
    else if ( c.kind == 1 ) { e.op = OpDelete; e.o = { I( 2 ), I( 1 ) }; }
    else { e.op = OpInsert; e.n = { I( 1 ), I( 4 ) }; }
    s[0].entries.push_back( e );
  }
  CEntry ok;
  ok.op = OpInsert;
  ok.n = { I( 7 ), T( "fits" ) };
  CGroup g;
  g.table.name = c.fits == 3 ? "a" : "z";
  g.table.pk = { 1, 0 };
  g.entries = { ok };
  if ( c.fits >= 5 )
  {
    // (the misfitting one is s[0]'s only entry so far)
    g.table.name = "a";
    g.entries.clear();
    for ( int i = 0; i < ( c.fits == 5 ? c.n : c.n / 2 ); ++i ) { ok.n[0].i = i; g.entries.push_back( ok ); }
    s.insert( s.begin(), g );
    g.table.name = "z";
    if ( c.fits == 6 ) s.push_back( g );
  }
  else if ( c.fits == 1 ) s[0].entries.insert( s[0].entries.begin(), ok );
  else if ( c.fits == 2 ) s[0].entries.push_back( ok );
  else s.insert( c.fits == 3 ? s.begin() : s.end(), g );
  writeFile( cs, encode( s ) );
  std::string before = fullDump( p );
  int rc = GEODIFF_applyChangeset( p.c_str(), cs.c_str() );
  x.check( rc != GEODIFF_SUCCESS, "many-accepted", fmt( "a changeset with %d misfits was accepted", c.n ) );
  x.check( fullDump( p ) == before, "many-partial", "a refused changeset changed the database" );
  x.transition( c.n );
  x.trace();
  x.outcome( "many: refused" );
}

int main( int argc, char **argv )
{
  return checkMain( argc, argv, []( const Opts & o )
  {
    static std::vector<Fam> F = families( o.thorough );
    static std::vector<Long> LC = longCases( o.thorough );
    static uint64_t nfam = F.back().start + F.back().n();
    static std::vector<Many> MC = manyCases( o.thorough );
    Check c;
    c.property = "P03";
    c.odd = true;
    c.rule = "a state is the content of a database; a transition is one changeset entry (insert, update, delete; fitting or not). Every sequence up to the given length from every state is written as a changeset and applied by the library; verdict and content are compared with an interpreter of the entries";
    for ( auto &f : F ) c.bounds.push_back( fmt( "%s: %zu states x all sequences of up to %d of %zu entries = %llu", f.name.c_str(), f.states.size(), f.len, f.ents.size(), ( unsigned long long ) f.n() ) );
    c.bounds.push_back( fmt( "%zu long changesets (up to %s entries, rollback journal and WAL) with a misfit at 5 positions or none", LC.size(), o.thorough ? "40000" : "3000" ) );
    c.assumptions = { "values are compared as SQLite compares them (numeric equality, column collation); the alphabets hold no distinct values that compare equal", "foreign keys are not enforced (SQLite's default)" };
    c.bounds.push_back( fmt( "%zu changesets with every number of misfits up to %d, and around 2^10, 2^15 and 2^16, with one fitting entry; one misfit after and amid up to 131500 fitting entries", MC.size(), o.thorough ? 1100 : 600 ) );
    c.count = nfam + LC.size() + MC.size();
    auto get = []( uint64_t idx, const Fam *&f, uint64_t &st, std::vector<Ent> &seq )
    {
      size_t k = 0;
      while ( k + 1 < F.size() && F[k + 1].start <= idx ) ++k;
      f = &F[k];
      uint64_t r = idx - f->start;
      st = r % f->states.size();
      r /= f->states.size();
      uint64_t p = 1;
      int l = 0;
      while ( r >= p ) { r -= p; p *= f->ents.size(); ++l; }
      for ( int i = 0; i < l; ++i ) { seq.push_back( f->ents[r % f->ents.size()] ); r /= f->ents.size(); }
    };
    c.describe = [get]( uint64_t i )
    {
      if ( i >= nfam + LC.size() ) { auto &m = MC[i - nfam - LC.size()]; return fmt( "%d misfits of kind %s, a fitting entry %s", m.n, m.kind == 0 ? "update" : m.kind == 1 ? "delete" : "insert", m.fits == 1 ? "first" : m.fits == 2 ? "last" : m.fits == 3 ? "in a table before" : "in a table after" ); }
      if ( i >= nfam ) { auto &l = LC[i - nfam]; return fmt( "long changeset: %d entries of kind %s, misfit at %d, %s", l.n, l.kind == 0 ? "update" : l.kind == 1 ? "delete" : "insert", l.bad, l.wal ? "WAL" : "rollback journal" ); }
      const Fam *f;
      uint64_t st;
      std::vector<Ent> seq;
      get( i, f, st, seq );
      return "family " + f->name + "\n" + imageSql( *f, f->states[st] ) + "changeset:\n" + show( toSet( *f, seq ) );
    };
    c.run = [get]( const Ctx & x )
    {
      if ( x.idx >= nfam + LC.size() ) { runMany( x, MC[x.idx - nfam - LC.size()] ); return; }
      if ( x.idx >= nfam ) { runLong( x, LC[x.idx - nfam] ); return; }
      const Fam *f;
      uint64_t sti;
      std::vector<Ent> seq;
      get( x.idx, f, sti, seq );
      State st = f->states[sti];
      std::string im = cachedImage( imageSql( *f, st ) + ( f->wal ? "PRAGMA journal_mode=WAL;" : "" ) );
      std::string p = x.p( "t.db" ), cs = x.p( "cs" );
      writeFile( p, im );
      writeFile( cs, encode( toSet( *f, seq ) ) );
      bool fits = true;
      x.state( f->name + ":" + std::to_string( sti ) );
      for ( auto &e : seq )
      {
        if ( !( fits = stepModel( f->T, st, e ) ) ) break;
        std::string k = f->name;
        for ( auto &t : st ) for ( auto &r : t ) k += show( r.second );
        x.state( k );
      }
      int rc = GEODIFF_applyChangeset( p.c_str(), cs.c_str() );
      auto contentFor = [&]( const State & s )
      {
        Content w;
        for ( size_t t = 0; t < f->T.size(); ++t )
        {
          auto &v = w[f->T[t].name];
          for ( auto &r : s[t] ) v.push_back( r.second );
          std::sort( v.begin(), v.end() );
        }
        return w;
      };
      if ( !fits && f->name == "on-conflict-REPLACE" && rc == GEODIFF_SUCCESS )
      {
        State rs = f->states[sti];
        bool all = true;
        for ( auto &e : seq ) all = all && stepReplace( f->T, rs, e );
        if ( all && contentOf( p ) == contentFor( rs ) ) x.fail( "on-conflict-replace", "a row was replaced as the constraint is declared ON CONFLICT REPLACE" );
      }
      Content want = contentFor( fits ? st : f->states[sti] );
      std::string d = diffContent( want, contentOf( p ) );
      if ( fits ) x.check( rc == GEODIFF_SUCCESS, "refused", fmt( "every entry fits but apply returned %d", rc ) );
      else x.check( rc != GEODIFF_SUCCESS, "accepted", "an entry does not fit but apply reported success\n" + d );
      x.check( d.empty(), fits ? "content" : "partial", ( fits ? "wrong content after apply:\n" : "the refused apply changed the database:\n" ) + d );
      x.check( integrity( p ).empty(), "integrity", integrity( p ) );
      x.transition( seq.size() );
      x.trace();
      x.outcome( fits ? "applied" : "refused" );
    };
    return c;
  } );
}
