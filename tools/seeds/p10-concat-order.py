prop = "P10"
needs = "an in-place rebase in which both sides change the same row in different ways"
breaks = "the parts of the combined changeset are joined in another order, so the result is theirs only where it should be mine, or the rebase fails"
edits = {"geodiff/src/geodiffrebase.cpp": [('''  if ( rc == SQLITE_OK ) rc = sqlite3changegroup_add( pGrp, bufB.size(), bufB.v_buf() );
  if ( rc == SQLITE_OK ) rc = sqlite3changegroup_add( pGrp, bufC.size(), bufC.v_buf() );''', '''  if ( rc == SQLITE_OK ) rc = sqlite3changegroup_add( pGrp, bufC.size(), bufC.v_buf() );
  if ( rc == SQLITE_OK ) rc = sqlite3changegroup_add( pGrp, bufB.size(), bufB.v_buf() );''')]}
demo = r'''
int main()
{
  two( "CREATE TABLE t(id INTEGER PRIMARY KEY, n INTEGER, s TEXT); INSERT INTO t VALUES(1,5,'a'),(2,6,'b');", "UPDATE t SET s = 'theirs' WHERE id = 2;" );
  rename( "mod.db", "theirs.db" );
  spit( "mod.db", slurp( "base.db" ) );
  sql( "mod.db", "UPDATE t SET s = 'mine' WHERE id = 2" );
  ok( "rebase", GEODIFF_rebase( "base.db", "theirs.db", "mod.db", "conf" ) );
  same( "content", query( "mod.db", "SELECT * FROM t" ), "I1|I5|Ta|\nI2|I6|Tmine|\n" );
  return 0;
}
'''
