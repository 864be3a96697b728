// P07: the encoding carries every value exactly, and SQLite's session extension reads what the
// library writes and writes what the library reads.
#include "csspace.h"
using namespace space;

static Val fromSql( sqlite3_value *v )
{
  if ( !v ) return U();
  switch ( sqlite3_value_type( v ) )
  {
    case SQLITE_INTEGER: return I( sqlite3_value_int64( v ) );
    case SQLITE_FLOAT: return R( sqlite3_value_double( v ) );
    case SQLITE_TEXT: { const char *p = ( const char * ) sqlite3_value_text( v ); return T( std::string( p ? p : "", sqlite3_value_bytes( v ) ) ); }
    case SQLITE_BLOB: { const char *p = ( const char * ) sqlite3_value_blob( v ); return B( std::string( p ? p : "", sqlite3_value_bytes( v ) ) ); }
  }
  return N();
}

static bool sessionDecode( const std::string &bytes, CSet &out, int &rc )
{
  out.clear();
  sqlite3_changeset_iter *it = nullptr;
  std::string copy = bytes;
  rc = sqlite3changeset_start( &it, ( int ) copy.size(), &copy[0] );
  if ( rc != SQLITE_OK ) return false;
  std::string last;
  while ( ( rc = sqlite3changeset_next( it ) ) == SQLITE_ROW )
  {
    const char *tab;
    int nc, op, ind, n2;
    unsigned char *pk;
    sqlite3changeset_op( it, &tab, &nc, &op, &ind );
    sqlite3changeset_pk( it, &pk, &n2 );
    CTable t;
    t.name = tab;
    for ( int i = 0; i < nc; ++i ) t.pk.push_back( pk[i] ? 1 : 0 );
    if ( out.empty() || !( out.back().table == t ) ) { CGroup g; g.table = t; out.push_back( g ); }
    CEntry e;
    e.op = op;
    for ( int i = 0; i < nc; ++i )
    {
      sqlite3_value *v;
      if ( op != SQLITE_INSERT ) { v = nullptr; sqlite3changeset_old( it, i, &v ); e.o.push_back( fromSql( v ) ); }
      if ( op != SQLITE_DELETE ) { v = nullptr; sqlite3changeset_new( it, i, &v ); e.n.push_back( fromSql( v ) ); }
    }
    out.back().entries.push_back( e );
  }
  int rc2 = sqlite3changeset_finalize( it );
  if ( rc == SQLITE_DONE ) rc = rc2;
  return rc == SQLITE_OK;
}

static int refuse( void *, int, sqlite3_changeset_iter * ) { return SQLITE_CHANGESET_ABORT; }

// contents that go through real databases: lengths and bit patterns
static uint64_t nLengths( bool th ) { return th ? 20000 : 1200; }

int main( int argc, char **argv )
{
  return checkMain( argc, argv, []( const Opts & o )
  {
    static Pairs P( o.thorough, []( const Family & f ) { return f.name.rfind( "generated", 0 ) != 0; } );
    static Synth S( o.thorough );
    static uint64_t L = nLengths( o.thorough ), BITS = 64 * 4;
    Check c;
    c.property = "P07";
    c.odd = true;
    c.rule = "a state is a changeset; transitions are writing it with the library and reading it with SQLite's session extension and with an independent reader, and the reverse; every value has to come through unchanged, and each side's changeset applied by the other side has to give MODIFIED";
    c.bounds = { fmt( "%zu schema families, all ordered pairs of states of each: %llu pairs, both directions", P.fam.size(), ( unsigned long long ) P.total ),
                 fmt( "texts and blobs of every length up to %llu through databases, every single-bit and single-zero pattern of integers and doubles", ( unsigned long long ) L / 2 )
               };
    for ( auto &b : S.bounds() ) c.bounds.push_back( b );
    c.assumptions = { "SQLite 3.45's session extension implements the format (it is the reference)", "generated columns: the session extension does not support them" };
    c.count = P.total + S.total + L + BITS;
    c.describe = []( uint64_t i )
    {
      if ( i < P.total ) return P.describe( i );
      i -= P.total;
      if ( i < S.total ) { CSet cs; std::string n = S.get( i, cs ); return n + "\n" + clip( show( cs ) ); }
      i -= S.total;
      return i < L ? fmt( "%s of %llu bytes in a database", i % 2 ? "text" : "blob", ( unsigned long long ) i / 2 ) : fmt( "bit pattern %llu in a database", ( unsigned long long )( i - L ) );
    };
    c.run = []( const Ctx & x )
    {
      std::string cs = x.p( "cs" ), inv = x.p( "inv" ), inv2 = x.p( "inv2" ), pb = x.p( "base.db" ), pm = x.p( "mod.db" );
      std::string err;
      int src = 0;
      uint64_t idx = x.idx;
      if ( idx >= P.total && idx < P.total + S.total )
      {
        // ---- reading and writing again
        CSet cst, s1, s2;
        S.get( idx - P.total, cst );
        writeFile( cs, encode( cst ) );
        x.check( GEODIFF_changesCount( cs.c_str() ) == ( int ) countEntries( cst ), "count", "changesCount differs from the number of entries" );
        x.check( GEODIFF_hasChanges( cs.c_str() ) == ( cst.empty() ? 0 : 1 ), "has", "hasChanges is wrong" );
        x.check( GEODIFF_invertChangeset( cs.c_str(), inv.c_str() ) == GEODIFF_SUCCESS, "refused", "a well-formed changeset was refused:\n" + clip( show( cst ) ) );
        x.check( GEODIFF_invertChangeset( inv.c_str(), inv2.c_str() ) == GEODIFF_SUCCESS, "refused", "the library does not read what it wrote:\n" + clip( show( cst ) ) );
        CSet want = inverse( cst );
        // the session reader refuses some exotic headers (names are the application's own); compare where it accepts our encoding of the input
        CSet ref;
        bool readable = sessionDecode( encode( want ), ref, src );
        if ( readable )
        {
          x.check( sessionDecode( readFile( inv ), s1, src ), "session-refused", fmt( "SQLite's session reader refuses the output (%d) for\n", src ) + clip( show( cst ) ) );
          x.check( flat( s1 ) == flat( want ), "values", "SQLite reads\n" + clip( show( s1 ) ) + "instead of\n" + clip( show( want ) ) );
          x.check( sessionDecode( readFile( inv2 ), s2, src ), "session-refused", fmt( "SQLite's session reader refuses the output (%d)", src ) );
          x.check( flat( s2 ) == flat( cst ), "values", "SQLite reads\n" + clip( show( s2 ) ) + "instead of\n" + clip( show( cst ) ) );
        }
        x.check( decode( readFile( inv2 ), s2, &err ), "undecodable", "output is not in format: " + err );
        x.check( flat( s2 ) == flat( cst ), "values", "written\n" + clip( show( s2 ) ) + "instead of\n" + clip( show( cst ) ) );
        // SQLite's own inverse is read alike
        bool keyChange = false;   // SQLite's inverse drops changes of key columns
        for ( auto &e : flat( cst ) ) if ( e.second.op == OpUpdate ) for ( size_t k = 0; k < e.second.n.size(); ++k ) if ( e.first.pk[k] && e.second.n[k].t != Val::Undef ) keyChange = true;
        if ( readable && !keyChange && encode( cst ).size() < 1000000 )
        {
          std::string in = encode( cst );
          int n = 0;
          void *p = nullptr;
          if ( sqlite3changeset_invert( ( int ) in.size(), in.data(), &n, &p ) == SQLITE_OK )
          {
            writeFile( inv, std::string( ( const char * ) p, n ) );
            sqlite3_free( p );
            x.check( GEODIFF_invertChangeset( inv.c_str(), inv2.c_str() ) == GEODIFF_SUCCESS, "refused", "SQLite's inverse was refused" );
            x.check( decode( readFile( inv2 ), s2, &err ) && flat( s2 ) == flat( cst ), "values", "SQLite's inverse read differently:\n" + clip( show( s2 ) ) + "instead of\n" + clip( show( cst ) ) );
          }
        }
        x.state( "synthetic " + std::to_string( idx ) );
        x.transition( 3 );
        x.trace();
        x.outcome( readable ? "synthetic, session reader accepts" : "synthetic, own reader only" );
        return;
      }
      if ( idx >= P.total + S.total )
      {
        // ---- values through databases
        uint64_t i = idx - P.total - S.total;
        Val v;
        int64_t key = 1;
        if ( i < L )
        {
          std::string s;
          for ( uint64_t j = 0; j < i / 2; ++j ) s += char( i % 2 ? 'A' + ( j + i ) % 26 : ( j * 37 + i ) % 256 );
          v = i % 2 ? T( s ) : B( s );
        }
        else
        {
          uint64_t q = i - L, b = 1ULL << ( q % 64 );
          key = ( q / 64 ) % 2 ? ( int64_t ) ~b : ( int64_t ) b;
          v = I( key );
          double dd;
          memcpy( &dd, &key, 8 );
          if ( q / 128 && dd == dd ) v = R( dd );
          if ( v.t == Val::Real && v.d == 0 ) v = R( 0.0 );
        }
        std::string ddl = "CREATE TABLE t(id INTEGER PRIMARY KEY, v, w);";
        std::string lit = sqlLit( v );
        writeFile( pb, cachedImage( ddl + "INSERT INTO t VALUES(5,NULL,1)" ) );
        writeFile( pm, cachedImage( ddl + "INSERT INTO t VALUES(5,NULL,1)" ) );
        {
          Db d( pm );
          d.exec( "UPDATE t SET v=" + lit + " WHERE id=5; INSERT OR REPLACE INTO t VALUES(" + std::to_string( key ) + "," + lit + ",NULL)" );
          if ( key != 5 ) v = d.one( "SELECT v FROM t WHERE id=5" );
        }
        Content cm = contentOf( pm );
        x.check( GEODIFF_createChangeset( pb.c_str(), pm.c_str(), cs.c_str() ) == GEODIFF_SUCCESS, "create-failed", "createChangeset failed" );
        CSet d1, s1, d2;
        x.check( decode( readFile( cs ), d1, &err ), "undecodable", "not in format: " + err );
        CGroup g;
        g.table.name = "t";
        g.table.pk = { 1, 0, 0 };
        if ( key != 5 )
        {
          g.entries.push_back( Synth::ins( { I( key ), v, N() } ) );
          g.entries.push_back( Synth::upd( { I( 5 ), N(), U() }, { U(), v, U() } ) );
        }
        else g.entries.push_back( Synth::upd( { I( 5 ), N(), I( 1 ) }, { U(), v, N() } ) );
        x.check( canon( d1 ) == canon( { g } ), "values", "written\n" + clip( show( d1 ) ) + "instead of\n" + clip( show( CSet{ g } ) ) );
        x.check( sessionDecode( readFile( cs ), s1, src ) && canon( s1 ) == canon( { g } ), "values", "SQLite reads\n" + clip( show( s1 ) ) + "instead of\n" + clip( show( CSet{ g } ) ) );
        x.check( GEODIFF_dumpData( "sqlite", nullptr, pm.c_str(), inv.c_str() ) == GEODIFF_SUCCESS, "dump-failed", "dumpData failed" );
        x.check( decode( readFile( inv ), d2, &err ), "undecodable", "dump is not in format: " + err );
        std::vector<Row> rows;
        for ( auto &e : flat( d2 ) ) rows.push_back( e.second.n );
        std::sort( rows.begin(), rows.end() );
        x.check( rows == cm["t"], "values", "dump holds other values:\n" + clip( show( d2 ) ) );
        x.check( GEODIFF_applyChangeset( pb.c_str(), cs.c_str() ) == GEODIFF_SUCCESS && contentOf( pb ) == cm, "values", "value changed by create and apply" );
        x.state( "value " + std::to_string( i ) );
        x.transition( 3 );
        x.trace();
        x.outcome( "value through databases" );
        return;
      }
      // ---- pairs
      const Family *f;
      uint64_t a, b;
      P.get( idx, f, a, b );
      const std::string *base = image( *f, a ), *mod = image( *f, b, true );
      if ( !base || !mod ) { x.outcome( "state excluded by its own constraints" ); return; }
      writeFile( pb, *base );
      writeFile( pm, *mod );
      Content want = contentOf( pm, PkTablesOnly | NoSequence );
      x.check( GEODIFF_createChangeset( pb.c_str(), pm.c_str(), cs.c_str() ) == GEODIFF_SUCCESS, "create-failed", "createChangeset failed" );
      std::string bytes = readFile( cs );
      CSet dec, ses;
      x.check( decode( bytes, dec, &err ), "undecodable", "not in format: " + err );
      x.check( sessionDecode( bytes, ses, src ), "session-refused", fmt( "SQLite's session reader refuses the changeset (%d)\n", src ) + clip( show( dec ) ) );
      x.check( flat( ses ) == flat( dec ), "values", "SQLite reads\n" + clip( show( ses ) ) + "instead of\n" + clip( show( dec ) ) );
      // SQLite applies the library's changeset
      std::string pc = x.p( "copy.db" );
      writeFile( pc, *base );
      {
        Db d( pc );
        // the documented format has 1 for every key column, SQLite's own writer the position in the key: give it that
        CSet own = dec;
        for ( auto &g : own )
        {
          auto info = d.query( "SELECT pk FROM pragma_table_info(" + sqlLit( T( g.table.name ) ) + ")" );
          x.check( info.size() == g.table.pk.size(), "header", "table " + g.table.name + " has another number of columns than its header" );
          for ( size_t i = 0; i < info.size(); ++i )
          {
            x.check( g.table.pk[i] == ( info[i][0].i ? 1 : 0 ), "header", "key columns of table " + g.table.name + " are wrong in its header" );
            g.table.pk[i] = uint8_t( info[i][0].i );
          }
        }
        std::string in = encode( own );
        if ( !in.empty() ) d.exec( "PRAGMA foreign_keys=OFF" );
        int rc = in.empty() ? SQLITE_OK : sqlite3changeset_apply( d.h, ( int ) in.size(), &in[0], nullptr, refuse, nullptr );
        if ( rc != SQLITE_OK && !f->unique && f->name != "nocase-pk" ) x.fail( "session-apply", fmt( "SQLite's session extension cannot apply the changeset (%d)\n", rc ) + clip( show( dec ) ) );
        if ( rc == SQLITE_OK && !f->nocaseKey )  // the session extension never changes key columns
        {
          std::string df = diffContent( want, content( d.h, PkTablesOnly | NoSequence ) );
          x.check( df.empty(), "session-apply", "SQLite's session extension applied it with another result:\n" + df );
        }
      }
      x.transition( 2 );
      x.trace();
      x.state( f->name + ":" + std::to_string( a ) + ":" + std::to_string( b ) );
      if ( a == b ) { x.outcome( "equal pair" ); return; }
      // a changeset recorded by SQLite while BASE is edited into MODIFIED, applied by the library
      std::string rec;
      {
        writeFile( pc, *base );
        Db d( pc );
        d.exec( "PRAGMA foreign_keys=OFF" );
        sqlite3_session *s = nullptr;
        if ( sqlite3session_create( d.h, "main", &s ) != SQLITE_OK || sqlite3session_attach( s, nullptr ) != SQLITE_OK ) throw std::runtime_error( "session" );
        for ( auto &t : f->tables )
        {
          std::map<std::string, Row> ra, rb;
          for ( auto &r : f->rows( a ) ) if ( r.first->name == t.name ) ra[keyOf( t, r.second, f->nocaseKey )] = r.second;
          for ( auto &r : f->rows( b ) ) if ( r.first->name == t.name ) rb[keyOf( t, r.second, f->nocaseKey )] = r.second;
          std::string del_, upd_, ins_;
          for ( auto &r : ra )
          {
            auto it = rb.find( r.first );
            std::string w, st;
            for ( size_t i = 0; i < t.cols.size(); ++i )
              if ( t.pk[i] ) w += ( w.empty() ? "" : " AND " ) + quoteId( t.cols[i] ) + "=" + sqlLit( r.second[i] );
            if ( it == rb.end() ) { del_ += "DELETE FROM " + quoteId( t.name ) + " WHERE " + w + ";"; continue; }
            for ( size_t i = 0; i < t.cols.size(); ++i )
              if ( it->second[i] != r.second[i] ) st += ( st.empty() ? "" : "," ) + quoteId( t.cols[i] ) + "=" + sqlLit( it->second[i] );
            if ( !st.empty() ) upd_ += "UPDATE " + quoteId( t.name ) + " SET " + st + " WHERE " + w + ";";
          }
          for ( auto &r : rb )
            if ( !ra.count( r.first ) )
            {
              ins_ += "INSERT INTO " + quoteId( t.name ) + "(";
              for ( size_t i = 0; i < t.cols.size(); ++i ) ins_ += ( i ? "," : "" ) + quoteId( t.cols[i] );
              ins_ += ") VALUES(";
              for ( size_t i = 0; i < t.cols.size(); ++i ) ins_ += ( i ? "," : "" ) + sqlLit( r.second[i] );
              ins_ += ");";
            }
          if ( !d.tryExec( del_ + upd_ + ins_ ) ) { sqlite3session_delete( s ); x.outcome( "edit order forbidden by UNIQUE" ); return; }
        }
        int n = 0;
        void *p = nullptr;
        int rc = sqlite3session_changeset( s, &n, &p );
        if ( rc == SQLITE_OK ) rec.assign( ( const char * ) p, n );
        sqlite3_free( p );
        sqlite3session_delete( s );
        if ( rc != SQLITE_OK ) throw std::runtime_error( fmt( "session_changeset %d", rc ) );
      }
      // session changesets hold only what SQLite regards as a change of the recorded tables
      CSet rd;
      x.check( decode( rec, rd, &err ), "oracle", "SQLite's changeset not understood by the independent reader: " + err );
      writeFile( cs, rec );
      x.check( GEODIFF_changesCount( cs.c_str() ) == ( int ) countEntries( rd ), "count", "changesCount of SQLite's changeset is wrong" );
      x.check( GEODIFF_invertChangeset( cs.c_str(), inv.c_str() ) == GEODIFF_SUCCESS && GEODIFF_invertChangeset( inv.c_str(), inv2.c_str() ) == GEODIFF_SUCCESS, "refused", "SQLite's changeset was refused" );
      x.check( decode( readFile( inv2 ), dec, &err ) && flat( dec ) == flat( rd ), "values", "SQLite's changeset was read differently" );
      if ( f->nocaseKey || f->unique || f->name == "untyped-pk" ) { x.outcome( "session changeset read" ); return; }
      writeFile( pc, *base );
      int rc = GEODIFF_applyChangeset( pc.c_str(), cs.c_str() );
      x.check( rc == GEODIFF_SUCCESS, "apply-session", fmt( "a changeset recorded by SQLite was refused (%d)\n", rc ) + clip( show( rd ) ) );
      std::string df = diffContent( want, contentOf( pc, PkTablesOnly | NoSequence ) );
      x.check( df.empty(), "apply-session", "a changeset recorded by SQLite was applied with another result\n" + df + clip( show( rd ) ) );
      x.transition( 2 );
      x.outcome( "session changeset applied" );
    };
    return c;
  } );
}
