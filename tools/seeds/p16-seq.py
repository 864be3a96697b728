prop = "P16"
pg = True
needs = "a changeset with several inserts into a PostgreSQL table with serial key, not in ascending order of keys"
breaks = "the sequence continues below keys in use, so that the next insert fails"
edits = {"geodiff/src/drivers/postgresdriver.cpp": [('autoIncrementTablesToFix[tableName] = std::max( autoIncrementTablesToFix[tableName], pkey );', 'autoIncrementTablesToFix[tableName] = pkey;')]}
demo = r'''
#include "fakepq.h"
int main()
{
  two( "CREATE TABLE t(id INTEGER PRIMARY KEY, v TEXT); ", "INSERT INTO t VALUES(7,'a'),(3,'b')" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  // the entries in reverse order: bytes of the two inserts swapped
  std::string cs = slurp( "cs" );
  size_t h = cs.find( "t" ) + 2, n = ( cs.size() - h ) / 2;
  std::string a = cs.substr( h, n ), b = cs.substr( h + n );
  fakepq::start();
  if ( !fakepq::exec( "CREATE SCHEMA gd_a; CREATE TABLE gd_a.t(id serial PRIMARY KEY, v text)" ).empty() ) return 9;
  int order = 0;
  for ( const std::string &c : { cs, cs.substr( 0, h ) + b + a } )
  {
    spit( "cs2", c );
    if ( !fakepq::exec( "DELETE FROM gd_a.t; SELECT setval('gd_a.t_id_seq', 1, false)" ).empty() ) return 9;
    ok( "apply", GEODIFF_applyChangesetEx( "postgres", "host=fake", "gd_a", "cs2" ) );
    if ( fakepq::query( "SELECT id FROM gd_a.t" ).size() != 2 ) die( "rows" );
    if ( fakepq::nextval( "gd_a.t_id_seq" ) <= 7 ) die( "the next automatic key is in use" );
    ++order;
  }
  return 0;
}
'''
