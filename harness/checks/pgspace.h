// Tables on the PostgreSQL stand-in: families of table states, the difference between two states, a
// reference model of applying a changeset.
#pragma once
#include "mc.h"
#include "../fakepq/fakepq.h"
#include <cmath>

namespace pgspace
{
  using namespace mc;
  struct Col { std::string name, pg; bool notNull = false; };
  struct Tab
  {
    std::string name;
    std::vector<Col> cols;
    std::vector<size_t> pk;
    std::vector<Row> keys, payloads;     // values of the key columns / of the others, in column order
    std::string ddl;                     // further statements, %s is the schema
    bool serial = false;
    int copies = 1;                      // every row stands for this many, with the following keys
    bool isPk( size_t i ) const { return std::find( pk.begin(), pk.end(), i ) != pk.end(); }
    uint64_t states() const { uint64_t n = 1; for ( size_t i = 0; i < keys.size(); ++i ) n *= payloads.size() + 1; return n; }
    Row row( size_t k, size_t p ) const
    {
      Row r;
      size_t a = 0, b = 0;
      for ( size_t i = 0; i < cols.size(); ++i ) r.push_back( isPk( i ) ? keys[k][a++] : payloads[p][b++] );
      return r;
    }
    Row keyOf( const Row &r ) const { Row k; for ( size_t i : pk ) k.push_back( r[i] ); return k; }
  };
  struct Fam
  {
    std::string name;
    std::vector<Tab> tabs;
    bool rebase = false;
    uint64_t states() const { uint64_t n = 1; for ( auto &t : tabs ) n *= t.states(); return n; }
  };
  typedef std::map<std::string, std::vector<Row>> State;   // table -> rows sorted

  inline State stateOf( const Fam &f, uint64_t i )
  {
    State s;
    Dig d( i );
    for ( auto &t : f.tabs )
    {
      auto &v = s[t.name];
      for ( size_t k = 0; k < t.keys.size(); ++k )
      {
        uint64_t p = d.take( t.payloads.size() + 1 );
        for ( int j = 0; p && j < t.copies; ++j )
        {
          v.push_back( t.row( k, p - 1 ) );
          if ( j ) v.back()[t.pk[0]].i += j;
        }
      }
      std::sort( v.begin(), v.end() );
    }
    return s;
  }

  inline std::string u32( uint32_t v ) { return std::string( ( const char * )&v, 4 ); }
  inline std::string f64( double v ) { return std::string( ( const char * )&v, 8 ); }
  inline std::string wkbPoint( double x, double y ) { return std::string( "\x01", 1 ) + u32( 1 ) + f64( x ) + f64( y ); }
  inline std::string wkbLine( std::vector<double> c ) { std::string s = std::string( "\x01", 1 ) + u32( 2 ) + u32( c.size() / 2 ); for ( double d : c ) s += f64( d ); return s; }
  inline std::string wkbPoly( std::vector<double> c ) { std::string s = std::string( "\x01", 1 ) + u32( 3 ) + u32( 1 ) + u32( c.size() / 2 ); for ( double d : c ) s += f64( d ); return s; }
  inline std::string wkbDims( uint32_t type, std::vector<double> c ) { std::string s = std::string( "\x01", 1 ) + u32( type ); if ( type % 1000 == 3 ) s += u32( 1 ); if ( type % 1000 >= 2 ) s += u32( c.size() / ( type / 1000 == 3 ? 4 : 3 ) ); for ( double d : c ) s += f64( d ); return s; }
  //! GeoPackage geometry with the envelope kind (0 none, 1 XY, 2 XYZ, 3 XYM, 4 XYZM)
  inline std::string gpb( const std::string &wkb, int srid, int env = 0 )
  {
    std::string s = std::string( "GP\0", 3 ) + char( 1 | ( env << 1 ) ) + u32( srid );
    static const int n[] = { 0, 4, 6, 6, 8 };
    for ( int i = 0; i < n[env]; ++i ) s += f64( i );
    return s + wkb;
  }
  inline bool isGeom( const Col &c ) { return c.pg.compare( 0, 8, "geometry" ) == 0; }
  inline int sridOf( const Col &c ) { size_t p = c.pg.rfind( ',' ); return p == std::string::npos ? 0 : atoi( c.pg.c_str() + p + 1 ); }
  inline std::string pgStr( const std::string &s )
  {
    std::string r;
    bool e = false;
    for ( char c : s ) { if ( c == '\'' || c == '\\' ) r += c; if ( c == '\\' ) e = true; r += c; }
    return ( e ? "E'" : "'" ) + r + "'";
  }
  inline std::string pgLit( const Val &v, const Col &c )
  {
    if ( v.t == Val::Null ) return "NULL";
    if ( v.t == Val::Int ) return c.pg == "boolean" ? ( v.i ? "'t'" : "'f'" ) : std::to_string( v.i );
    if ( v.t == Val::Real ) return fmt( "'%s'::double precision", std::isinf( v.d ) ? ( v.d < 0 ? "-Infinity" : "Infinity" ) : fmt( "%.17g", v.d ).c_str() );
    if ( isGeom( c ) ) return "ST_GeomFromWKB('\\x" + hex( v.s.substr( 8 ) ) + "', " + std::to_string( sridOf( c ) ) + ")";
    return pgStr( v.s );
  }
  inline void must( const std::string &sql )
  {
    std::string e = fakepq::exec( sql );
    if ( !e.empty() ) throw CaseFail{ "setup", e + "\n" + sql };
  }
  inline std::string seqName( const std::string &schema, const Tab &t ) { return schema + "." + t.name + "_" + t.cols[t.pk[0]].name + "_seq"; }
  inline void pgTables( const std::string &schema, const Fam &f )
  {
    must( "CREATE SCHEMA " + quoteId( schema ) );
    for ( auto &t : f.tabs )
    {
      std::string q = "CREATE TABLE " + quoteId( schema ) + "." + quoteId( t.name ) + "(", pk;
      for ( size_t i = 0; i < t.cols.size(); ++i )
      {
        q += ( i ? ", " : "" ) + quoteId( t.cols[i].name ) + " " + ( t.serial && t.pk[0] == i ? "serial" : t.cols[i].pg ) + ( t.cols[i].notNull ? " NOT NULL" : "" );
        if ( t.isPk( i ) ) pk += ( pk.empty() ? "" : "," ) + quoteId( t.cols[i].name );
      }
      must( q + ( pk.empty() ? "" : ", PRIMARY KEY(" + pk + ")" ) + ")" );
      std::string d = t.ddl;
      for ( size_t p; ( p = d.find( "%s" ) ) != std::string::npos; ) d.replace( p, 2, quoteId( schema ) );
      if ( !d.empty() ) must( d );
    }
  }
  inline void pgFill( const std::string &schema, const Fam &f, const State &s )
  {
    for ( auto &t : f.tabs )
    {
      long long mx = 0;
      for ( auto &r : s.at( t.name ) )
      {
        std::string q = "INSERT INTO " + quoteId( schema ) + "." + quoteId( t.name ) + " VALUES(";
        for ( size_t i = 0; i < r.size(); ++i ) q += ( i ? "," : "" ) + pgLit( r[i], t.cols[i] );
        must( q + ")" );
        if ( t.serial ) mx = std::max( mx, ( long long )r[t.pk[0]].i );
      }
      if ( t.serial && mx ) must( "SELECT setval(" + pgStr( quoteId( schema ) + "." + quoteId( t.name + "_" + t.cols[t.pk[0]].name + "_seq" ) ) + ", " + std::to_string( mx ) + ")" );
    }
  }
  inline void pgSetup( const std::string &schema, const Fam &f, const State &s ) { pgTables( schema, f ); pgFill( schema, f, s ); }
  inline State pgRead( const std::string &schema, const Fam &f )
  {
    State s;
    for ( auto &t : f.tabs )
    {
      std::string q = "SELECT ";
      for ( size_t i = 0; i < t.cols.size(); ++i ) q += ( i ? "," : "" ) + quoteId( t.cols[i].name );
      auto &v = s[t.name];
      for ( auto &w : fakepq::query( q + " FROM " + quoteId( schema ) + "." + quoteId( t.name ) ) )
      {
        Row r;
        for ( size_t i = 0; i < w.size(); ++i )
        {
          const std::string &x = w[i].v, &ty = t.cols[i].pg;
          if ( w[i].null ) r.push_back( N() );
          else if ( ty == "integer" || ty == "bigint" || ty == "smallint" ) r.push_back( I( atoll( x.c_str() ) ) );
          else if ( ty == "boolean" ) r.push_back( I( x == "t" ) );
          else if ( ty == "double precision" || ty == "real" ) r.push_back( R( num( x ) ) );
          else if ( ty.compare( 0, 9, "timestamp" ) == 0 ) { std::string z = x; if ( z.size() > 10 ) z[10] = 'T'; r.push_back( T( z + "Z" ) ); }
          else if ( isGeom( t.cols[i] ) ) { std::string b = unhex( x.substr( 2 ) ); r.push_back( B( std::string( "GP\0\x01", 4 ) + b ) ); }
          else if ( ty == "bytea" ) r.push_back( B( unhex( x.substr( 2 ) ) ) );
          else r.push_back( T( x ) );
        }
        v.push_back( r );
      }
      std::sort( v.begin(), v.end() );
    }
    return s;
  }

  inline CTable header( const Tab &t ) { CTable h; h.name = t.name; for ( size_t i = 0; i < t.cols.size(); ++i ) h.pk.push_back( t.isPk( i ) ); return h; }
  //! What turns a into b, without empty tables; inserts, deletes, updates of a table in this order
  inline CSet difference( const Fam &f, const State &a, const State &b )
  {
    CSet s;
    for ( auto &t : f.tabs )
    {
      if ( t.pk.empty() ) continue;
      CGroup g;
      g.table = header( t );
      std::map<Row, Row> ma, mb;
      for ( auto &r : a.at( t.name ) ) ma[t.keyOf( r )] = r;
      for ( auto &r : b.at( t.name ) ) mb[t.keyOf( r )] = r;
      for ( auto &r : mb ) if ( !ma.count( r.first ) ) { CEntry e; e.op = OpInsert; e.n = r.second; g.entries.push_back( e ); }
      for ( auto &r : ma ) if ( !mb.count( r.first ) ) { CEntry e; e.op = OpDelete; e.o = r.second; g.entries.push_back( e ); }
      for ( auto &r : ma )
      {
        auto it = mb.find( r.first );
        if ( it == mb.end() || it->second == r.second ) continue;
        CEntry e;
        e.op = OpUpdate;
        for ( size_t i = 0; i < t.cols.size(); ++i )
        {
          bool ch = r.second[i] != it->second[i];
          e.o.push_back( ch || t.isPk( i ) ? r.second[i] : U() );
          e.n.push_back( ch ? it->second[i] : U() );
        }
        g.entries.push_back( e );
      }
      if ( !g.entries.empty() ) s.push_back( g );
    }
    return s;
  }
  inline bool sameVal( const Val &a, const Val &b, const Col &c )
  {
    // of a geometry the header is not stored
    if ( isGeom( c ) && a.t == Val::Blob && b.t == Val::Blob )
    {
      auto strip = []( const std::string & s ) { static const int n[] = { 0, 32, 48, 48, 64, 0, 0, 0 }; int e = s.size() > 3 ? ( s[3] >> 1 ) & 7 : 0; return s.size() >= size_t( 8 + n[e] ) ? s.substr( 8 + n[e] ) : s; };
      return strip( a.s ) == strip( b.s );
    }
    if ( c.pg == "real" && a.t == Val::Real && b.t == Val::Real ) return ( float )a.d == ( float )b.d;
    return a == b;
  }
  //! Carries out a changeset of well-formed entries; false (and s as it was) if one does not fit
  inline bool applyModel( const Fam &f, State &s, const CSet &cs )
  {
    State r = s;
    for ( auto &g : cs )
    {
      const Tab *t = nullptr;
      for ( auto &x : f.tabs ) if ( x.name == g.table.name ) t = &x;
      if ( !t ) return false;
      auto &v = r[t->name];
      for ( auto &e : g.entries )
      {
        auto keyMatch = [&]( const Row & w, const Row & o ) { for ( size_t i : t->pk ) if ( !sameVal( w[i], o[i], t->cols[i] ) ) return false; return true; };
        if ( e.op == OpInsert )
        {
          for ( auto &w : v ) if ( keyMatch( w, e.n ) ) return false;
          for ( size_t i = 0; i < t->cols.size(); ++i ) if ( e.n[i].t == Val::Null && ( t->cols[i].notNull || t->isPk( i ) ) ) return false;
          v.push_back( e.n );
          continue;
        }
        auto it = std::find_if( v.begin(), v.end(), [&]( const Row & w ) { return keyMatch( w, e.o ); } );
        if ( it == v.end() ) return false;
        for ( size_t i = 0; i < t->cols.size(); ++i ) if ( e.o[i].t != Val::Undef && !sameVal( e.o[i], ( *it )[i], t->cols[i] ) ) return false;
        if ( e.op == OpDelete ) { v.erase( it ); continue; }
        for ( size_t i = 0; i < t->cols.size(); ++i )
          if ( e.n[i].t != Val::Undef )
          {
            if ( e.n[i].t == Val::Null && t->cols[i].notNull ) return false;
            ( *it )[i] = e.n[i];
          }
      }
    }
    for ( auto &t : r ) std::sort( t.second.begin(), t.second.end() );
    s = r;
    return true;
  }

  inline std::vector<Fam> families( bool thorough )
  {
    std::vector<Fam> r;
    auto G = [&]( const std::string & w, int srid ) { return B( gpb( w, srid ) ); };
    auto one = [&]( const std::string & name, const std::string & pg, std::vector<Val> vals, std::vector<Row> keys )
    {
      Tab t;
      t.name = "t";
      t.cols = { { "fid", "integer" }, { "v", pg } };
      t.pk = { 0 };
      t.keys = keys;
      t.payloads.push_back( { N() } );
      for ( auto &v : vals ) t.payloads.push_back( { v } );
      r.push_back( { name, { t } } );
    };
    const double INF = std::numeric_limits<double>::infinity();
    std::vector<std::pair<std::string, std::vector<Val>>> types =
    {
      { "boolean", { I( 0 ), I( 1 ) } },
      { "integer", { I( 0 ), I( -1 ), I( 2147483647 ), I( -2147483648LL ), I( 7 ) } },
      { "double precision", { R( 0.1 ), R( 1.0 / 3 ), R( 1e300 ), R( 5e-324 ), R( 123456789.12345679 ), R( -2.5 ), R( INF ), R( -INF ), R( 0 ), R( 0.1000001 ), R( 0.10000010000000001 ), R( 1e-7 ), R( 9007199254740993.0 ) } },
      { "real", { R( 0.1 ), R( 0.33333334 ), R( 3.4e38 ), R( 1e-10 ), R( 16777216 ), R( -2.5 ), R( INF ), R( 1.0000001 ) } },
      { "text", { T( "a" ), T( "A" ), T( "" ), T( "it's" ), T( "b\\s" ), T( "\\" ), T( "'" ), T( "\\'" ), T( "line\nbreak\ttab" ), T( "\xC3\xA9\xF0\x9F\x98\x80" ), T( "100%s%d" ), T( "Infinity" ), T( "NULL" ), T( "a " ), T( "5" ), T( "\\x41" ), T( ";--/*" ), T( "\"q\"" ), T( std::string( 3000, 'x' ) ) } },
      { "citext", { T( "a" ), T( "A" ), T( "aa" ), T( "it's\\" ) } },
      { "timestamp", { T( "2020-07-13T16:17:54Z" ), T( "2020-07-13T04:17:54Z" ), T( "1999-12-31T23:59:59Z" ), T( "2020-07-13T12:00:00Z" ), T( "2020-07-13T00:00:00Z" ), T( "2020-07-13T16:17:54.5Z" ), T( "2020-07-13T16:17:54.000001Z" ) } },
      { "geometry(Point,4326)", { G( wkbPoint( 1, 2 ), 4326 ), G( wkbPoint( 2, 1 ), 4326 ), G( wkbPoint( NAN, NAN ), 4326 ), G( wkbPoint( 1, 2.0000000000000004 ), 4326 ) } },
      { "geometry(LineString,3857)", { G( wkbLine( { 0, 0, 1, 1 } ), 3857 ), G( wkbLine( { 1, 1, 0, 0 } ), 3857 ), G( wkbLine( {} ), 3857 ) } },
      { "geometry(Point,102100)", { G( wkbPoint( 1, 2 ), 102100 ) } },
      { "geometry(PointZ,4326)", { G( wkbDims( 1001, { 1, 2, 3 } ), 4326 ), G( wkbDims( 1001, { 1, 2, -3 } ), 4326 ) } },
      { "geometry(PointM,4326)", { G( wkbDims( 2001, { 1, 2, 3 } ), 4326 ) } },
      { "geometry(PointZM,4326)", { G( wkbDims( 3001, { 1, 2, 3, 4 } ), 4326 ), G( wkbDims( 3001, { 1, 2, 3, 5 } ), 4326 ) } },
      { "geometry(LineStringZ,3857)", { G( wkbDims( 1002, { 1, 2, 3, 4, 5, 6 } ), 3857 ) } },
      { "geometry(LineStringM,3857)", { G( wkbDims( 2002, { 1, 2, 3, 4, 5, 6 } ), 3857 ), G( wkbDims( 2002, { 1, 2, 3, 4, 5, 7 } ), 3857 ) } },
      { "geometry(LineStringZM,4326)", { G( wkbDims( 3002, { 1, 2, 3, 4, 5, 6, 7, 8 } ), 4326 ) } },
      { "geometry(PolygonZ,4326)", { G( wkbDims( 1003, { 0, 0, 1, 0, 1, 2, 1, 1, 3, 0, 0, 1 } ), 4326 ) } },
      { "geometry(PolygonM,3857)", { G( wkbDims( 2003, { 0, 0, 1, 0, 1, 2, 1, 1, 3, 0, 0, 1 } ), 3857 ) } },
      { "geometry(PolygonZM,4326)", { G( wkbDims( 3003, { 0, 0, 1, 9, 0, 1, 2, 8, 1, 1, 3, 7, 0, 0, 1, 9 } ), 4326 ) } },
      { "geometry(Polygon,4326)", { G( wkbPoly( { 0, 0, 0, 1, 1, 1, 0, 0 } ), 4326 ), G( wkbPoly( { 0, 0, 1, 1, 0, 1, 0, 0 } ), 4326 ) } },
    };
    for ( auto &t : types )
    {
      one( t.first + ", all values", t.first, t.second, { { I( 1 ) } } );
      std::vector<Val> few( t.second.begin(), t.second.begin() + std::min<size_t>( 3, t.second.size() ) );
      one( t.first + ", two rows", t.first, few, { { I( 1 ) }, { I( -5 ) } } );
    }
    {
      Tab t;
      t.name = "t"; t.serial = true;
      t.cols = { { "fid", "integer" }, { "name", "text" }, { "rating", "integer" } };
      t.pk = { 0 };
      t.keys = { { I( 1 ) }, { I( 2 ) }, { I( 9 ) } };
      t.payloads = { { T( "a" ), I( 1 ) }, { T( "b" ), I( 1 ) }, { T( "a" ), N() } };
      r.push_back( { "serial key", { t }, true } );
      if ( !thorough ) { t.keys.pop_back(); }
      t.payloads.push_back( { T( "b" ), I( 2 ) } );
      r.push_back( { "serial key, rebase", { t }, true } );
    }
    {
      Tab t;
      t.name = "t";
      t.cols = { { "v", "integer" }, { "k", "text" }, { "w", "text" } };
      t.pk = { 1 };
      t.keys = { { T( "it's" ) }, { T( "b\\s" ) }, { T( "Z" ) }, { T( "z" ) } };
      t.payloads = { { I( 1 ), T( "x" ) } , { N(), T( "x" ) } };
      r.push_back( { "text key, not the first column", { t } } );
    }
    {
      Tab t;
      t.name = "t";
      t.cols = { { "a", "integer" }, { "v", "text" }, { "b", "text" } };
      t.pk = { 0, 2 };
      t.keys = { { I( 1 ), T( "x" ) }, { I( 1 ), T( "y" ) }, { I( 2 ), T( "x" ) } };
      t.payloads = { { T( "p" ) }, { N() } };
      r.push_back( { "composite key", { t } } );
      Tab u = t;
      u.cols = { { "a", "integer" }, { "b", "text" } };
      u.pk = { 0, 1 };
      u.payloads = { {} };
      r.push_back( { "composite key, no other columns", { u } } );
      u.cols = { { "a", "integer" } };
      u.pk = { 0 };
      u.keys = { { I( 1 ) }, { I( 2 ) }, { I( 3 ) } };
      r.push_back( { "key column only", { u } } );
      u.cols = { { "d", "double precision" }, { "v", "integer" } };
      u.keys = { { R( 0.1 ) }, { R( 1e-9 ) }, { R( 2 ) } };
      u.payloads = { { I( 1 ) }, { I( 2 ) } };
      r.push_back( { "real key", { u } } );
      u.cols = { { "d", "boolean" }, { "v", "integer" } };
      u.keys = { { I( 0 ) }, { I( 1 ) } };
      r.push_back( { "boolean key", { u } } );
      u.cols = { { "d", "timestamp" }, { "v", "integer" } };
      u.keys = { { T( "2020-07-13T16:17:54Z" ) }, { T( "2020-07-13T04:17:54.25Z" ) } };
      r.push_back( { "timestamp key", { u } } );
    }
    {
      Tab t;
      t.name = "Parcels";
      t.cols = { { "Id", "integer" }, { "Sel\"ect", "text" }, { "order", "integer" } };
      t.pk = { 0 };
      t.keys = { { I( 1 ) }, { I( 2 ) } };
      t.payloads = { { T( "a" ), I( 1 ) }, { N(), I( 1 ) } };
      Tab u = t;
      u.name = "it's a \"table\"";
      u.cols[0].name = "id"; u.cols[1].name = "a b"; u.cols[2].name = "it's";
      Tab v = t;
      v.name = "parcels";
      v.keys = { { I( 3 ) } };
      v.payloads = { { T( "z" ), I( 3 ) } };
      Tab w = v;
      w.name = "select";
      r.push_back( { "names to be quoted", { t, v, w } } );
      r.push_back( { "names to be quoted 2", { u, v } } );
      u.name = "Units"; u.serial = true;
      r.push_back( { "serial key, names to be quoted", { u } } );
    }
    // names that resemble others with a meaning of their own
    for ( const char *n : { "gpkg", "gpkgdata", "Gpkg_x", "my_gpkg_x", "rtree", "pg_x", "123", "a.b", "a%sb", "a\\b", "geometry", "geometry_columns_2", "\xC4\x8D\xC3\xA9", "x_fid_seq",
                            "a_name_of_the_greatest_length_that_is_possible_for_any_table_63" } )
    {
      Tab t;
      t.name = n;
      t.cols = { { n, "integer" }, { "a%db", "text" } };
      t.pk = { 0 };
      t.keys = { { I( 1 ) }, { I( 2 ) } };
      t.payloads = { { T( "a" ) }, { N() } };
      r.push_back( { std::string( "table named " ) + n, { t } } );
      if ( std::string( n ).size() < 20 && n[0] != 'a' ) { t.serial = true; t.keys.pop_back(); r.push_back( { std::string( "table with serial key named " ) + n, { t } } ); }
    }
    {
      Tab t;
      t.name = "t";
      t.cols = { { "fid", "integer" }, { "a", "text", true }, { "b", "integer" } };
      t.pk = { 0 };
      t.keys = { { I( 1 ) }, { I( 2 ) } };
      t.payloads = { { T( "a" ), I( 1 ) }, { T( "b" ), I( 1 ) }, { T( "b" ), N() } };
      t.ddl = "CREATE INDEX ia ON %s.t(a); CREATE INDEX ib ON %s.t(b); CREATE INDEX iab ON %s.t(a, b)";
      r.push_back( { "not null, several indexes", { t } } );
      t.ddl = "CREATE INDEX ik ON %s.t(fid)";
      r.push_back( { "index on the key", { t } } );
      t.ddl = "CREATE UNIQUE INDEX ik ON %s.t(a, fid)";
      r.push_back( { "unique index with the key", { t } } );
      t.ddl = "";
      Tab u = t;
      u.name = "nokey";
      u.pk = {};
      u.keys = { {} };
      u.payloads = { { I( 1 ), T( "a" ), I( 1 ) } };
      r.push_back( { "next to a table without key", { t, u } } );
    }
    {
      Tab t;
      t.name = "a";
      t.cols = { { "id", "integer" }, { "v", "integer" } };
      t.pk = { 0 };
      t.keys = { { I( 1 ) }, { I( 2 ) } };
      t.payloads = { { I( 1 ) }, { I( 2 ) } };
      Tab u = t;
      u.name = "b";
      u.cols[1] = { "v", "text" };
      u.payloads = { { T( "x" ) } };
      r.push_back( { "two tables", { t, u } } );
    }
    for ( int n : thorough ? std::vector<int> { 130, 300, 1100 } : std::vector<int> { 130, 300 } )
    {
      Tab t;
      t.name = "t"; t.serial = true;
      t.cols = { { "fid", "integer" }, { "name", "text" }, { "rating", "integer" } };
      t.pk = { 0 };
      t.keys = { { I( 1 ) } };
      t.payloads = { { T( "a" ), I( 1 ) }, { N(), I( 1 ) } };
      t.copies = n;
      r.push_back( { fmt( "%d rows", n ), { t }, n < 300 || thorough } );
    }
    return r;
  }
}
