// P12: all ordered pairs of schemas of a list x contents x operations. Where the schemas differ in
// tables, columns (name, order, type, NOT NULL, key) or geometry type / reference system, making a
// changeset is refused; a changeset is refused by a database where its table, number of columns or
// key columns differ; everywhere else the operation has its right effect.
#include "mc.h"
#include <unistd.h>
using namespace mc;

struct Col { std::string name, type; bool notNull = false, pk = false; };
struct Tbl { std::string name; std::vector<Col> cols; std::string extra, options; std::vector<Row> rows; };   // extra: constraints etc. that are not compared
struct Spec
{
  std::string label;
  std::vector<Tbl> tables;
  std::string geom;       // "type,srs,z,m" of t.g, empty: none registered
  std::string srs;        // "name,code,definition"
  std::string after;      // indexes, views: not compared
  bool meta() const { return !geom.empty(); }
};
static std::string sig( const Spec &s )
{
  std::vector<std::string> v;
  for ( auto &t : s.tables )
  {
    std::string o = t.name + "{";
    for ( auto &c : t.cols ) o += c.name + "\1" + c.type + "\1" + ( c.notNull ? "n" : "" ) + ( c.pk ? "p" : "" ) + "\2";
    v.push_back( o + "}" );
  }
  std::sort( v.begin(), v.end() );
  std::string o;
  for ( auto &x : v ) o += x;
  return o + "|" + s.geom + "|" + s.srs;
}
static std::string ddl( const Spec &s )
{
  std::string o;
  for ( auto &t : s.tables )
  {
    int npk = 0;
    for ( auto &c : t.cols ) npk += c.pk;
    o += "CREATE TABLE " + quoteId( t.name ) + "(";
    std::string keys;
    for ( size_t i = 0; i < t.cols.size(); ++i )
    {
      auto &c = t.cols[i];
      o += ( i ? ", " : "" ) + quoteId( c.name ) + ( c.type.empty() ? "" : " " + c.type ) + ( c.notNull ? " NOT NULL" : "" ) + ( c.pk && npk == 1 ? " PRIMARY KEY" : "" );
      if ( c.pk ) keys += ( keys.empty() ? "" : "," ) + quoteId( c.name );
    }
    if ( npk > 1 ) o += ", PRIMARY KEY(" + keys + ")";
    o += t.extra + ")" + t.options + ";\n";
  }
  if ( s.meta() )
  {
    std::string g = s.geom, r = s.srs;
    std::string v[4], w[3];
    for ( int i = 0; i < 4; ++i ) { size_t p = g.find( ',' ); v[i] = g.substr( 0, p ); g = p == std::string::npos ? "" : g.substr( p + 1 ); }
    for ( int i = 0; i < 3; ++i ) { size_t p = r.find( ',' ); w[i] = r.substr( 0, p ); r = p == std::string::npos ? "" : r.substr( p + 1 ); }
    o += "CREATE TABLE gpkg_contents(table_name TEXT NOT NULL PRIMARY KEY, data_type TEXT NOT NULL);"
         "CREATE TABLE gpkg_spatial_ref_sys(srs_name TEXT NOT NULL, srs_id INTEGER NOT NULL PRIMARY KEY, organization TEXT NOT NULL, organization_coordsys_id INTEGER NOT NULL, definition TEXT NOT NULL, description TEXT);"
         "CREATE TABLE gpkg_geometry_columns(table_name TEXT NOT NULL, column_name TEXT NOT NULL, geometry_type_name TEXT NOT NULL, srs_id INTEGER NOT NULL, z TINYINT NOT NULL, m TINYINT NOT NULL, CONSTRAINT pk_geom_cols PRIMARY KEY (table_name, column_name));"
         "INSERT INTO gpkg_contents VALUES('t','features');";
    o += "INSERT INTO gpkg_spatial_ref_sys VALUES('s'," + v[1] + ",'" + w[0] + "'," + w[1] + ",'" + w[2] + "',NULL);";
    o += "INSERT INTO gpkg_geometry_columns VALUES('t','g','" + v[0] + "'," + v[1] + "," + v[2] + "," + v[3] + ");\n";
  }
  return o + s.after;
}
static std::vector<Spec> specs( bool thorough )
{
  std::vector<Spec> SP;
  auto C = []( const char *n, const char *t = "", bool nn = false, bool pk = false ) { Col c; c.name = n; c.type = t; c.notNull = nn; c.pk = pk; return c; };
  const Tbl t{ "t", { C( "id", "INTEGER", false, true ), C( "a", "INTEGER" ), C( "b", "TEXT" ) }, "", "", {} };
  const Tbl z{ "z", { C( "k", "TEXT", false, true ), C( "w" ) }, "", "", {} };
  auto add = [&]( const std::string & l, std::vector<Tbl> tt ) -> Spec & { Spec s; s.label = l; s.tables = std::move( tt ); SP.push_back( s ); return SP.back(); };
  auto with = [&]( const std::string & l, const std::function<void( Tbl & )> &f ) -> Spec & { Tbl x = t; f( x ); return add( l, { x, z } ); };
  add( "reference", { t, z } );
  // not compared
  with( "default", []( Tbl & x ) { x.extra = ", CHECK(a IS NULL OR a < 1000)"; } );
  add( "index and view", { t, z } ).after = "CREATE INDEX i1 ON t(a); CREATE UNIQUE INDEX i2 ON t(b, id); CREATE VIEW v AS SELECT * FROM t;";
  add( "tables in the other order", { z, t } );
  // tables
  add( "table missing", { t } );
  add( "other table missing", { z } );
  add( "no table", {} ).after = "CREATE VIEW vw AS SELECT 1;";
  { Tbl y = z; y.name = "y"; add( "table more", { t, y, z } ); add( "table renamed", { t, y } ); }
  { Tbl y = z; y.name = "Z"; add( "table in other case", { t, y } ); }
  { Tbl y{ "nopk", { C( "x" ), C( "y" ) }, "", "", {} }; add( "table without key more", { t, z, y } ); y.cols[1].type = "TEXT"; add( "table without key, other type", { t, z, y } ); }
  // columns
  with( "column more", [&]( Tbl & x ) { x.cols.push_back( C( "c" ) ); } );
  with( "column more in front", [&]( Tbl & x ) { x.cols.insert( x.cols.begin(), C( "c" ) ); } );
  with( "column more in the middle", [&]( Tbl & x ) { x.cols.insert( x.cols.begin() + 1, C( "c", "INTEGER" ) ); } );
  with( "column less", []( Tbl & x ) { x.cols.pop_back(); } );
  with( "column less in the middle", []( Tbl & x ) { x.cols.erase( x.cols.begin() + 1 ); } );
  with( "only the key", []( Tbl & x ) { x.cols.resize( 1 ); } );
  with( "columns swapped", []( Tbl & x ) { std::swap( x.cols[1], x.cols[2] ); } );
  with( "key last", []( Tbl & x ) { std::rotate( x.cols.begin(), x.cols.begin() + 1, x.cols.end() ); } );
  with( "column renamed", []( Tbl & x ) { x.cols[1].name = "a2"; } );
  with( "last column renamed", []( Tbl & x ) { x.cols[2].name = "b2"; } );
  with( "column in other case", []( Tbl & x ) { x.cols[2].name = "B"; } );
  with( "names swapped", []( Tbl & x ) { std::swap( x.cols[1].name, x.cols[2].name ); } );
  with( "key renamed", []( Tbl & x ) { x.cols[0].name = "fid"; } );
  // types
  for ( const char *ty : { "REAL", "BIGINT", "", "TEXT", "BLOB", "INT", "MEDIUMINT", "BOOLEAN" } )
    with( std::string( "type of a: " ) + ty, [&]( Tbl & x ) { x.cols[1].type = ty; } );
  for ( const char *ty : { "TEXT(10)", "VARCHAR(20)", "DATETIME", "INTEGER" } )
    with( std::string( "type of b: " ) + ty, [&]( Tbl & x ) { x.cols[2].type = ty; } );
  with( "types swapped", []( Tbl & x ) { std::swap( x.cols[1].type, x.cols[2].type ); } );
  with( "type of key", []( Tbl & x ) { x.cols[0].type = "INT"; } );
  with( "text key", []( Tbl & x ) { x.cols[0].type = "TEXT"; } );
  // constraints
  with( "not null", []( Tbl & x ) { x.cols[1].notNull = true; } );
  with( "last not null", []( Tbl & x ) { x.cols[2].notNull = true; } );
  with( "key not null", []( Tbl & x ) { x.cols[0].notNull = true; } );
  // keys
  with( "no key", []( Tbl & x ) { x.cols[0].pk = false; } );
  with( "key on another column", []( Tbl & x ) { x.cols[0].pk = false; x.cols[1].pk = true; } );
  with( "key on the last column", []( Tbl & x ) { x.cols[0].pk = false; x.cols[2].pk = true; } );
  with( "key with one more column", []( Tbl & x ) { x.cols[1].pk = true; } );
  with( "key of all columns", []( Tbl & x ) { x.cols[1].pk = x.cols[2].pk = true; } );
  { Tbl y = z; y.cols[0].pk = false; add( "other table without key", { t, y } ); y.cols[1].pk = true; add( "other table, key moved", { t, y } ); }
  // geometry
  Tbl g = t;
  g.cols.push_back( C( "g", "POINT" ) );
  auto geo = [&]( const std::string & l, const std::string & gg, const std::string & ss ) { Spec &s = add( l, { g, z } ); s.geom = gg; s.srs = ss; };
  add( "geometry not registered", { g, z } );
  geo( "geometry", "POINT,4326,0,0", "EPSG,4326,wkt" );
  geo( "geometry type", "LINESTRING,4326,0,0", "EPSG,4326,wkt" );
  geo( "geometry with z", "POINT,4326,1,0", "EPSG,4326,wkt" );
  geo( "geometry with m", "POINT,4326,0,1", "EPSG,4326,wkt" );
  geo( "reference system id", "POINT,3857,0,0", "EPSG,4326,wkt" );
  geo( "reference system authority", "POINT,4326,0,0", "OTHER,4326,wkt" );
  geo( "reference system code", "POINT,4326,0,0", "EPSG,3857,wkt" );
  geo( "reference system definition", "POINT,4326,0,0", "EPSG,4326,other wkt" );
  ( void ) thorough;
  // rows: r-th row of every table, key distinct, values that suit the types
  for ( auto &s : SP )
    for ( auto &tb : s.tables )
      for ( int r = 0; r < 3; ++r )
      {
        Row row;
        int tk = 0;
        for ( auto &c : tb.cols )
        {
          bool text = c.type.find( "TEXT" ) == 0 || c.type.find( "VARCHAR" ) == 0 || c.type == "DATETIME" || c.name == "k";
          if ( c.type == "POINT" ) row.push_back( N() );
          else if ( c.type == "REAL" ) row.push_back( R( 10 * ++tk + r ) );
          else if ( text ) row.push_back( T( fmt( "x%d%d", ++tk, r ) ) );
          else row.push_back( I( 10 * ++tk + r ) );
        }
        tb.rows.push_back( row );
      }
  return SP;
}
// contents: which rows are there, and with what in the last non-key column
static std::string fill( const Spec &s, int variant )
{
  std::string o = ddl( s );
  for ( auto &t : s.tables )
    for ( int r = 0; r < 3; ++r )
    {
      if ( variant == 0 && r == 2 ) continue;        // 0: rows 0,1   1: rows 0,2   2: rows 0,1 with 0 changed   3: none
      if ( variant == 1 && r == 1 ) continue;
      if ( variant == 2 && r == 2 ) continue;
      if ( variant == 3 ) continue;
      Row row = t.rows[r];
      if ( variant == 2 && r == 0 )
        for ( size_t i = row.size(); i-- > 0; )
          if ( !t.cols[i].pk && t.cols[i].type != "POINT" ) { row[i] = row[i].t == Val::Text ? T( "changed" ) : row[i].t == Val::Real ? R( 7 ) : I( 7 ); break; }
      o += "INSERT INTO " + quoteId( t.name ) + " VALUES(";
      for ( size_t i = 0; i < row.size(); ++i ) o += ( i ? "," : "" ) + sqlLit( row[i] );
      o += ");\n";
    }
  return o;
}

int main( int argc, char **argv )
{
  return checkMain( argc, argv, []( const Opts & o )
  {
    static const std::vector<Spec> S = specs( o.thorough );
    static const std::vector<std::pair<int, int>> K = { { 0, 0 }, { 0, 1 }, { 0, 2 }, { 3, 0 }, { 0, 3 }, { 3, 3 }, { 1, 2 } };
    Check c;
    c.property = "P12";
    c.odd = true;
    c.rule = "a state is a database of one of the schemas, a transition is an operation on a pair of them: making a changeset (both functions), a rebased changeset, rebasing in place, applying a changeset made for the one to the other; schemas are compared by their description, from which the databases are made";
    c.bounds = { fmt( "all %zu ordered pairs of %zu schemas x %zu contents x 6 operations", S.size() * S.size(), S.size(), K.size() ) };
    c.assumptions = { "what a changeset records of a schema is the table's name, the number of columns and which of them are key: only differences in these can be noticed when one is applied",
                      "UNIQUE, CHECK, DEFAULT, collations, indexes and views are not part of the comparison"
                    };
    c.count = S.size() * S.size() * K.size();
    c.describe = []( uint64_t i )
    {
      Dig d( i );
      auto k = K[d.take( K.size() )];
      const Spec &a = S[d.take( S.size() )], &b = S[d.v];
      return "A (" + a.label + "):\n" + fill( a, k.first ) + "B (" + b.label + "):\n" + fill( b, k.second );
    };
    c.run = []( const Ctx & x )
    {
      Dig d( x.idx );
      auto k = K[d.take( K.size() )];
      const Spec &a = S[d.take( S.size() )], &b = S[d.v];
      bool same = sig( a ) == sig( b );
      std::string ia = cachedImage( fill( a, k.first ) ), ib = cachedImage( fill( b, k.second ) ), ia2 = cachedImage( fill( a, k.second ) );
      std::string pa = x.p( "a.db" ), pb = x.p( "b.db" ), cs = x.p( "cs" ), out = x.p( "out" ), conf = x.p( "conf" ), pc = x.p( "c.db" );
      writeFile( pa, ia );
      writeFile( pb, ib );
      x.state( a.label + fmt( ":%d", k.first ) );
      x.state( b.label + fmt( ":%d", k.second ) );
      x.outcome( same ? "same schema" : "schemas differ" );
      auto untouched = [&]( const char *fn ) { x.check( readFile( pa ) == ia && readFile( pb ) == ib, "input-changed", std::string( fn ) + " changed a database" ); };
      // making a changeset
      for ( int ex = 0; ex < 2; ++ex )
      {
        unlink( cs.c_str() );
        int rc = ex ? GEODIFF_createChangesetEx( "sqlite", "", pa.c_str(), pb.c_str(), cs.c_str() ) : GEODIFF_createChangeset( pa.c_str(), pb.c_str(), cs.c_str() );
        untouched( "createChangeset" );
        if ( !same ) x.check( rc != GEODIFF_SUCCESS, "create-accepted", "a changeset was made of databases whose schemas differ" );
        else
        {
          x.check( rc == GEODIFF_SUCCESS, "create-refused", fmt( "createChangeset returned %d for databases of the same schema", rc ) );
          writeFile( pc, ia );
          x.check( GEODIFF_applyChangeset( pc.c_str(), cs.c_str() ) == GEODIFF_SUCCESS, "apply-refused", "the changeset could not be applied" );
          std::string df = diffContent( contentOf( pb, PkTablesOnly | NoSequence ), contentOf( pc, PkTablesOnly | NoSequence ) );
          x.check( df.empty(), "round-trip", df );
        }
      }
      writeFile( pc, ia );
      writeFile( x.p( "a2.db" ), ia2 );
      bool theirsDiffer = !diffContent( contentOf( pc, PkTablesOnly ), contentOf( x.p( "a2.db" ), PkTablesOnly ) ).empty();
      // in-place rebase: MINE, then THEIRS of the other schema
      for ( int side = 0; side < 2; ++side )
      {
        std::string base = x.p( "base.db" );
        writeFile( base, ia );
        writeFile( pc, side ? ia2 : ib );                   // mine
        writeFile( pb, side ? ib : ia2 );                   // theirs
        std::string mine = readFile( pc ), their = readFile( pb );
        writeFile( conf, "stale" );
        int rc = GEODIFF_rebase( base.c_str(), pb.c_str(), pc.c_str(), conf.c_str() );
        x.check( readFile( base ) == ia && readFile( pb ) == their, "input-changed", "rebase changed an input" );
        if ( !same )
        {
          // (with nothing to be rebased on, MINE need not be looked at)
          if ( side || theirsDiffer ) x.check( rc != GEODIFF_SUCCESS, "rebase-accepted", side ? "rebase accepted THEIRS of another schema" : "rebase accepted MINE of another schema" );
          x.check( readFile( pc ) == mine, "rebase-damage", "the refused rebase changed the database" );
        }
        // the same for making a rebased changeset
        if ( side ) continue;
        writeFile( x.p( "a2.db" ), ia2 );
        unlink( cs.c_str() );
        x.check( GEODIFF_createChangeset( base.c_str(), x.p( "a2.db" ).c_str(), cs.c_str() ) == GEODIFF_SUCCESS, "create-failed", "createChangeset failed" );
        writeFile( pc, ib );
        unlink( out.c_str() );
        rc = GEODIFF_createRebasedChangeset( base.c_str(), pc.c_str(), cs.c_str(), out.c_str(), conf.c_str() );
        x.check( readFile( pc ) == ib, "input-changed", "createRebasedChangeset changed an input" );
        if ( !same ) x.check( rc != GEODIFF_SUCCESS && !exists( out ), "rebased-accepted", "createRebasedChangeset accepted a database of another schema" );
      }
      // applying a changeset made for A (by hand: all rows of variant 2 inserted, deleted or updated) to B
      for ( int kind = 0; kind < 3; ++kind )
      {
        CSet set;
        for ( auto &t : a.tables )
        {
          CGroup g;
          g.table.name = t.name;
          bool pk = false;
          for ( auto &q : t.cols ) { g.table.pk.push_back( q.pk ); pk |= q.pk; }
          if ( !pk ) continue;
          CEntry e;
          e.op = kind == 0 ? OpInsert : kind == 1 ? OpDelete : OpUpdate;
          if ( kind == 0 ) e.n = t.rows[2];
          else if ( kind == 1 ) e.o = t.rows[0];
          else
          {
            bool any = false;
            for ( size_t i = 0; i < t.cols.size(); ++i )
            {
              bool ch = !t.cols[i].pk && !any;
              any |= ch;
              e.o.push_back( ch || t.cols[i].pk ? t.rows[0][i] : U() );
              e.n.push_back( ch ? ( t.rows[0][i].t == Val::Text ? T( "new" ) : t.rows[0][i].t == Val::Real ? R( 3 ) : I( 3 ) ) : U() );
            }
            if ( !any ) continue;
          }
          g.entries = { e };
          set.push_back( g );
        }
        // fits: every table of the changeset is in B with the same number of columns and key
        bool fits = true;
        for ( auto &g : set )
        {
          const Tbl *q = nullptr;
          for ( auto &t : b.tables ) if ( t.name == g.table.name ) q = &t;
          if ( !q || q->cols.size() != g.table.pk.size() ) { fits = false; continue; }
          for ( size_t i = 0; i < q->cols.size(); ++i ) if ( q->cols[i].pk != !!g.table.pk[i] ) fits = false;
        }
        writeFile( cs, encode( set ) );
        writeFile( pb, ib );
        // reference: entry by entry, by position
        writeFile( pc, ib );
        bool refOk = fits;
        if ( fits )
        {
          Db dbh( pc );
          dbh.exec( "BEGIN" );
          for ( auto &g : set )
          {
            const Tbl *q = nullptr;
            for ( auto &t : b.tables ) if ( t.name == g.table.name ) q = &t;
            const CEntry &e = g.entries[0];
            std::string s;
            auto lits = [&]( const Row & r ) { std::string l; for ( size_t i = 0; i < r.size(); ++i ) l += ( i ? "," : "" ) + sqlLit( r[i] ); return l; };
            auto cond = [&]() { std::string l; for ( size_t i = 0; i < e.o.size(); ++i ) if ( e.o[i].t != Val::Undef ) l += ( l.empty() ? "" : " AND " ) + quoteId( q->cols[i].name ) + " IS " + sqlLit( e.o[i] ); return l; };
            if ( e.op == OpInsert ) s = "INSERT INTO " + quoteId( q->name ) + " VALUES(" + lits( e.n ) + ")";
            else if ( e.op == OpDelete ) s = "DELETE FROM " + quoteId( q->name ) + " WHERE " + cond();
            else { s = "UPDATE " + quoteId( q->name ) + " SET "; bool f = true; for ( size_t i = 0; i < e.n.size(); ++i ) if ( e.n[i].t != Val::Undef ) { s += ( f ? "" : "," ) + quoteId( q->cols[i].name ) + "=" + sqlLit( e.n[i] ); f = false; } s += " WHERE " + cond(); }
            if ( !dbh.tryExec( s ) || dbh.one( "SELECT changes()" ).i != 1 ) { refOk = false; break; }
          }
          dbh.tryExec( refOk ? "COMMIT" : "ROLLBACK" );
        }
        int rc = kind == 1 ? GEODIFF_applyChangesetEx( "sqlite", nullptr, pb.c_str(), cs.c_str() ) : GEODIFF_applyChangeset( pb.c_str(), cs.c_str() );
        x.check( ( rc == GEODIFF_SUCCESS ) == refOk, refOk ? "apply-refused" : "apply-accepted", fmt( "apply returned %d; the changeset %s\n", rc, !fits ? "does not match the schema" : refOk ? "fits" : "does not fit the content" ) + show( set ) );
        if ( !refOk ) x.check( readFile( pb ) == ib || fullDump( pb ) == ( writeFile( pc, ib ), fullDump( pc ) ), "apply-damage", "the refused apply changed the database" );
        else { std::string df = diffContent( contentOf( pc ), contentOf( pb ) ); x.check( df.empty(), "apply-content", df ); }
        x.outcome( !fits ? "changeset does not match" : refOk ? "changeset applied" : "changeset matches the schema, not the content" );
        x.transition();
      }
      x.transition( 4 );
      x.trace( 7 );
    };
    return c;
  } );
}
