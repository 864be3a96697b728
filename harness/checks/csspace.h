// A finite space of well-formed changesets built with the independent encoder: entry shapes, all
// boundary values and lengths, table headers, and all short sequences of tables and entries.
#pragma once
#include "space.h"

namespace space
{
  struct Synth
  {
    bool thorough;
    std::vector<Val> vals;                 //!< boundary values incl. long ones
    std::vector<Val> small;                //!< one value per type
    struct Part { std::string name; uint64_t n; std::function<void( uint64_t, CSet & )> get; };
    std::vector<Part> parts;
    uint64_t total = 0;

    static CTable table( const std::string &n, std::vector<uint8_t> pk ) { CTable t; t.name = n; t.pk = std::move( pk ); return t; }
    static CEntry ins( Row n ) { CEntry e; e.op = OpInsert; e.n = std::move( n ); return e; }
    static CEntry del( Row o ) { CEntry e; e.op = OpDelete; e.o = std::move( o ); return e; }
    static CEntry upd( Row o, Row n ) { CEntry e; e.op = OpUpdate; e.o = std::move( o ); e.n = std::move( n ); return e; }

    explicit Synth( bool th ) : thorough( th )
    {
      vals = allValues();
      for ( size_t n : { size_t( 16383 ), size_t( 16384 ), size_t( 16385 ), size_t( 65536 ), size_t( 2097151 ), size_t( 2097152 ) } )
      {
        std::string s;
        for ( size_t i = 0; i < n; ++i ) s += char( 'a' + ( i * 7 + i / 251 ) % 26 );
        vals.push_back( T( s ) );
        for ( auto &c : s ) c = char( c * 5 + 1 );
        vals.push_back( B( s ) );
      }
      vals.push_back( R( -0.0 ) );
      uint64_t nanBits = 0x7ff8000000000001ULL;
      double nan;
      memcpy( &nan, &nanBits, 8 );
      ( void ) nan;
      small = { I( 1 ), R( 0.5 ), T( "x" ), B( "\xff" ), N() };

      // every value in each place of each kind of entry
      add( "one value", vals.size() * 5, [this]( uint64_t i, CSet & cs )
      {
        Dig d( i );
        Val v = vals[d.take( vals.size() )];
        uint64_t k = d.take( 5 );
        CGroup g;
        g.table = table( "t", { 1, 0 } );
        g.entries.push_back( k == 0 ? ins( { I( 1 ), v } ) : k == 1 ? del( { I( 1 ), v } ) : k == 2 ? upd( { I( 1 ), N() }, { U(), v } ) : k == 3 ? upd( { I( 1 ), v }, { U(), T( "other" ) } ) : upd( { v, I( 1 ) }, { U(), I( 2 ) } ) );
        cs = { g };
      } );
      // every length of texts and blobs around the encoding limits
      add( "lengths", thorough ? 2 * 70000 : 2 * 700, [this]( uint64_t i, CSet & cs )
      {
        std::string s;
        uint64_t n = i / 2;
        for ( uint64_t j = 0; j < n; ++j ) s += char( 'A' + ( j + i ) % 26 );
        CGroup g;
        g.table = table( "len", { 0, 1 } );
        g.entries = { ins( { i % 2 ? T( s ) : B( s ), I( 7 ) } ), upd( { N(), I( 7 ) }, { i % 2 ? T( s ) : B( s ), U() } ) };
        cs = { g };
      } );
      // every bit of integers and doubles
      add( "bits", 64 * 4, [this]( uint64_t i, CSet & cs )
      {
        uint64_t b = 1ULL << ( i % 64 );
        int64_t v = ( i / 64 ) % 2 ? ( int64_t ) ~b : ( int64_t ) b;
        Val x = I( v );
        if ( i / 128 )
        {
          double dd;
          memcpy( &dd, &v, 8 );
          x = dd == dd ? R( dd ) : I( v );
        }
        CGroup g;
        g.table = table( "bits", { 1, 0 } );
        g.entries = { ins( { I( v ), x } ), del( { I( -v ), x } ) };
        cs = { g };
      } );
      // entry shapes: up to 3 columns, all key masks, all value types or undefined per cell
      for ( int nc = 1; nc <= 3; ++nc )
      {
        uint64_t masks = ( 1u << nc ) - 1, iv = 1, uv = 1;
        for ( int c = 0; c < nc; ++c ) { iv *= 5; uv *= 6; }
        add( fmt( "inserts and deletes, %d columns", nc ), masks * iv * 2, [this, nc, masks]( uint64_t i, CSet & cs )
        {
          Dig d( i );
          uint64_t m = d.take( masks ) + 1, del_ = d.take( 2 );
          std::vector<uint8_t> pk;
          Row r;
          for ( int c = 0; c < nc; ++c ) { pk.push_back( ( m >> c ) & 1 ); r.push_back( small[d.take( 5 )] ); }
          CGroup g;
          g.table = table( "s", pk );
          g.entries.push_back( del_ ? del( r ) : ins( r ) );
          cs = { g };
        } );
        // per cell: not changed, or one of the type changes
        add( fmt( "updates, %d columns", nc ), masks * uv, [this, nc, masks]( uint64_t i, CSet & cs )
        {
          Dig d( i );
          uint64_t m = d.take( masks ) + 1;
          std::vector<uint8_t> pk;
          Row o, n;
          for ( int c = 0; c < nc; ++c )
          {
            bool k = ( m >> c ) & 1;
            pk.push_back( k );
            uint64_t q = d.take( 6 );
            if ( k && q < 5 ) { o.push_back( small[q] ); n.push_back( U() ); }
            else if ( k ) { o.push_back( I( 1 ) ); n.push_back( I( 2 ) ); }     // key change, as the session extension may write for NOCASE keys
            else if ( q == 5 ) { o.push_back( U() ); n.push_back( U() ); }
            else { o.push_back( small[q] ); n.push_back( small[( q + 1 ) % 5] ); }
          }
          CGroup g;
          g.table = table( "s", pk );
          g.entries.push_back( upd( o, n ) );
          cs = { g };
        } );
      }
      // sequences of up to 4 entries over two tables; consecutive entries of one table share a header or not
      {
        int len = thorough ? 5 : 4;
        uint64_t n = 1;
        for ( int i = 0; i < len; ++i ) n *= 13;
        add( fmt( "sequences of up to %d entries", len ), n, [this, len]( uint64_t i, CSet & cs )
        {
          cs.clear();
          Dig d( i );
          int last = -1;
          for ( int k = 0; k < len; ++k )
          {
            uint64_t c = d.take( 13 );
            if ( !c ) continue;
            --c;
            int tb = c % 2, fresh = c >= 6;
            int op = ( c % 6 ) / 2;
            if ( tb != last || fresh )
            {
              CGroup g;
              g.table = tb ? table( "b", { 0, 1, 0 } ) : table( "a", { 1, 0 } );
              cs.push_back( g );
            }
            last = tb;
            Row r1 = tb ? Row{ T( "x" ), I( k ), N() } : Row{ I( k ), T( "v" ) };
            Row r2 = tb ? Row{ U(), I( k ), N() } : Row{ I( k ), T( "v" ) };
            Row r3 = tb ? Row{ U(), U(), B( "z" ) } : Row{ U(), R( 1.5 ) };
            cs.back().entries.push_back( op == 0 ? ins( r1 ) : op == 1 ? upd( r2, r3 ) : del( r1 ) );
          }
        } );
      }
      // one table name with two different headers, in both orders, with and without another table between
      add( "headers of one name", 3 * 3 * 2 * 2, [this]( uint64_t i, CSet & cs )
      {
        Dig d( i );
        std::vector<std::vector<uint8_t>> H = { { 1, 0 }, { 0, 1 }, { 1, 1, 0 } };
        std::vector<uint8_t> h1 = H[d.take( 3 )], h2 = H[d.take( 3 )];
        bool mid = d.take( 2 ), u = d.take( 2 );
        cs.clear();
        auto put = [&]( const std::string & n, const std::vector<uint8_t> &h, int x )
        {
          CGroup g;
          g.table = table( n, h );
          Row r, o, nn;
          for ( size_t c = 0; c < h.size(); ++c ) { r.push_back( I( x + c ) ); o.push_back( I( x + c ) ); nn.push_back( h[c] ? U() : I( x + 50 + c ) ); }
          if ( u ) g.entries.push_back( upd( o, nn ) );
          g.entries.push_back( ins( r ) );
          cs.push_back( g );
        };
        put( "same", h1, 1 );
        if ( mid ) put( "mid", { 1 }, 9 );
        put( "same", h2, 20 );
      } );
      // table names
      std::vector<std::string> names = { "", "a", "a b", "it's", "say \"hi\"", "100%s%n", "\xC3\xA9\xE2\x82\xAC\xF0\x9F\x98\x80", "back\\slash", "line\nbreak", "tab\t", "\x01\x1f", std::string( 127, 'n' ), std::string( 128, 'n' ), std::string( 300, 'n' ), std::string( 70000, 'n' ), "T", "\x12\x17\x09" };
      add( "table names", names.size(), [names]( uint64_t i, CSet & cs )
      {
        CGroup g;
        g.table = table( names[i], { 1, 0 } );
        g.entries = { ins( { I( 1 ), T( names[i] ) } ), upd( { I( 1 ), T( names[i] ) }, { U(), N() } ) };
        CGroup g2 = g;
        g2.table.name += "2";
        cs = { g, g2 };
      } );
      // table widths
      std::vector<int> widths;
      for ( int w = 1; w <= ( thorough ? 1100 : 300 ); ++w ) widths.push_back( w );
      for ( int w : { 511, 512, 990, 1000, 2000, 16383, 16384, 16385, 32767 } ) widths.push_back( w );
      add( "table widths", widths.size() * 3, [widths]( uint64_t i, CSet & cs )
      {
        int w = widths[i / 3];
        CGroup g;
        g.table.name = "w";
        Row r, o, n;
        int key = i % 3 == 0 ? 0 : i % 3 == 1 ? w - 1 : w / 2;
        for ( int c = 0; c < w; ++c )
        {
          bool k = c == key || ( i % 3 == 2 && c % 3 == 0 );
          g.table.pk.push_back( k );
          r.push_back( c % 4 == 0 ? I( c ) : c % 4 == 1 ? T( std::to_string( c ) ) : c % 4 == 2 ? N() : R( c / 2.0 ) );
          bool ch = !k && c % 5 == 1;
          o.push_back( k || ch ? I( c ) : U() );
          n.push_back( ch ? T( "n" ) : U() );
        }
        g.entries = { ins( r ), upd( o, n ), del( r ) };
        cs = { g };
      } );
      // many entries: the buffers of the writer are crossed at every offset
      add( "many entries", thorough ? 600 : 120, []( uint64_t i, CSet & cs )
      {
        cs.clear();
        CGroup g;
        g.table = table( "many" + std::string( i % 60, '_' ), { 1, 0, 0 } );
        for ( int k = 0; k < ( i < 60 ? 1000 : 3000 ); ++k )
        {
          std::string s( ( k * 13 + i ) % 257, char( 'a' + k % 26 ) );
          Row r = { I( k ), T( s ), N() };
          g.entries.push_back( k % 3 == 0 ? ins( r ) : k % 3 == 1 ? del( r ) : upd( { I( k ), T( s ), U() }, { U(), B( s + "!" ), U() } ) );
        }
        cs.push_back( g );
      } );
    }
    void add( const std::string &name, uint64_t n, std::function<void( uint64_t, CSet & )> f )
    {
      parts.push_back( { name, n, f } );
      total += n;
    }
    std::string get( uint64_t idx, CSet &cs ) const
    {
      for ( auto &p : parts )
      {
        if ( idx < p.n ) { p.get( idx, cs ); return p.name; }
        idx -= p.n;
      }
      abort();
    }
    std::vector<std::string> bounds() const
    {
      std::vector<std::string> r;
      for ( auto &p : parts ) r.push_back( "all changesets of the part '" + p.name + "': " + std::to_string( p.n ) );
      return r;
    }
  };

  //! inverse of a changeset, entry by entry
  inline CSet inverse( const CSet &cs )
  {
    CSet r;
    for ( auto &g : cs )
    {
      CGroup h;
      h.table = g.table;
      for ( auto &e : g.entries )
      {
        CEntry x;
        x.op = e.op == OpInsert ? OpDelete : e.op == OpDelete ? OpInsert : OpUpdate;
        x.o = e.n;
        x.n = e.o;
        if ( e.op == OpUpdate )
          for ( size_t i = 0; i < x.o.size(); ++i )
            if ( g.table.pk[i] && x.o[i].t == Val::Undef ) { x.o[i] = x.n[i]; x.n[i] = U(); }
        h.entries.push_back( x );
      }
      r.push_back( h );
    }
    return r;
  }
  //! the sequence of entries with the table each belongs to, whatever the grouping
  inline std::vector<std::pair<CTable, CEntry>> flat( const CSet &cs )
  {
    std::vector<std::pair<CTable, CEntry>> r;
    for ( auto &g : cs ) for ( auto &e : g.entries ) { CTable t = g.table; for ( auto &k : t.pk ) k = k ? 1 : 0; r.push_back( { t, e } ); }
    return r;
  }
  inline std::string clip( const std::string &s, size_t n = 3000 ) { return s.size() > n ? s.substr( 0, n ) + "..." : s; }
}
