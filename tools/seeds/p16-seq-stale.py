prop = "P16"
pg = True
needs = "a changeset with inserts into a PostgreSQL table with serial key and then into one without"
breaks = "the second table is taken for one with a serial key too: a changeset that fits is refused"
edits = {"geodiff/src/drivers/postgresdriver.cpp": [('''  std::string colName;
  autoIncrementPkeyIndex = -1;
''', '''  std::string colName;
''')]}
demo = r'''
#include "fakepq.h"
int main()
{
  two( "CREATE TABLE a(id INTEGER PRIMARY KEY, v TEXT); CREATE TABLE b(v TEXT, id INTEGER PRIMARY KEY);", "INSERT INTO a VALUES(7,'a'),(3,'b'); INSERT INTO b VALUES('x',1)" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  fakepq::start();
  if ( !fakepq::exec( "CREATE SCHEMA gd_a; CREATE TABLE gd_a.a(id serial PRIMARY KEY, v text); CREATE TABLE gd_a.b(v text, id integer PRIMARY KEY)" ).empty() ) return 9;
  ok( "apply", GEODIFF_applyChangesetEx( "postgres", "host=fake", "gd_a", "cs" ) );
  if ( fakepq::query( "SELECT id FROM gd_a.b" ).size() != 1 ) die( "rows" );
  return 0;
}
'''
