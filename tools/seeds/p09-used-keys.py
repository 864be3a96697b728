prop = "P09"
needs = "two tables in which both sides inserted rows under the same keys, and in a further one of them a row inserted only by me whose key is what a remapped row of the other table got"
breaks = "the keys given to remapped rows are looked up in the wrong table: the key of a fresh row in one table is taken for used although nothing is there, or a used one is not seen and two rows get one key"
edits = {"geodiff/src/geodiffrebase.cpp": [("""    for ( auto oldNewPair : mapping.mapIds[tableName] )
      usedNewPkeys.insert( oldNewPair.second );
""", """    for ( auto oldNewPair : mapping.mapIds.begin()->second )
      usedNewPkeys.insert( oldNewPair.second );
""")]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(id INTEGER PRIMARY KEY, v); CREATE TABLE b(id INTEGER PRIMARY KEY, v); INSERT INTO a VALUES(1,'x'); INSERT INTO b VALUES(1,'x');",
       "INSERT INTO a VALUES(9,'mine'); INSERT INTO b VALUES(4,'m4'),(5,'m5'),(6,'m6');" );
  spit( "theirs.db", slurp( "base.db" ) );
  sql( "theirs.db", "INSERT INTO a VALUES(9,'theirs'); INSERT INTO b VALUES(4,'t4'),(5,'t5');" );
  ok( "rebase", GEODIFF_rebase( "base.db", "theirs.db", "mod.db", "conf" ) );
  same( "all rows", query( "mod.db", "SELECT v FROM b ORDER BY v" ), "Tm4|\nTm5|\nTm6|\nTt4|\nTt5|\nTx|\n" );
  return 0;
}
'''
