prop = "P16"
needs = "a table of which a column has been dropped once"
breaks = "columns that were dropped are taken for columns: the table cannot be read any more"
edits = {"geodiff/src/drivers/postgresdriver.cpp": [('    "   AND NOT a.attisdropped"\n', '')]}
pg = True
demo = r'''
#include "fakepq.h"
int main()
{
  fakepq::start();
  for ( const char *s : { "CREATE SCHEMA b", "CREATE SCHEMA m", "CREATE TABLE b.t(id SERIAL PRIMARY KEY, v text)", "CREATE TABLE m.t(id SERIAL PRIMARY KEY, v text)", "INSERT INTO m.t (id, v) VALUES (1, 'x')" } ) fakepq::exec( s );
  ok( "create", GEODIFF_createChangesetEx( "postgres", "host=x", "b", "m", "cs" ) );
  return 0;
}
'''
