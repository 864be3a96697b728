prop = "P11"
needs = "two clients that insert rows under the same key, the later one a second row under the key that follows"
breaks = "a row that keeps its key is not checked against the fresh keys if it is the only such row: the client's sync fails"
edits = {"geodiff/src/geodiffrebase.cpp": [('''  for ( auto pair : mapping.unmappedInsertIds )
  {
    std::string tableName = pair.first;
''', '''  for ( auto pair : mapping.unmappedInsertIds )
  {
    if ( pair.second.size() < 2 )
      continue;   // nothing to chain

    std::string tableName = pair.first;
''')]}
demo = r'''
int main()
{
  sql( "v1.db", "CREATE TABLE t(id INTEGER PRIMARY KEY, a); INSERT INTO t VALUES(1,'old')" );
  std::string v1 = slurp( "v1.db" );
  spit( "a.db", v1 );
  spit( "b.db", v1 );
  sql( "a.db", "INSERT INTO t VALUES(2,'a')" );
  sql( "b.db", "INSERT INTO t VALUES(2,'b'),(3,'bb')" );
  // a pushes, b pulls and pushes
  ok( "create", GEODIFF_createChangeset( "v1.db", "a.db", "cs1" ) );
  spit( "v2.db", v1 );
  ok( "push of a", GEODIFF_applyChangeset( "v2.db", "cs1" ) );
  ok( "pull of b", GEODIFF_rebase( "v1.db", "v2.db", "b.db", "conflicts" ) );
  ok( "create", GEODIFF_createChangeset( "v2.db", "b.db", "cs2" ) );
  ok( "push of b", GEODIFF_applyChangeset( "v2.db", "cs2" ) );
  same( "rows", query( "v2.db", "SELECT a FROM t ORDER BY a" ), "Ta|\nTb|\nTbb|\nTold|\n" );
  same( "rows of b", query( "b.db", "SELECT * FROM t" ), query( "v2.db", "SELECT * FROM t" ) );
  return 0;
}
'''
