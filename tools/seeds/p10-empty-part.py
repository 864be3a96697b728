prop = "P10"
needs = "an in-place rebase where nothing of my changes is left: both sides deleted the same row (or I updated a row they deleted)"
breaks = "the rebase is refused"
edits = {"geodiff/src/geodiffrebase.cpp": [("  if ( bufA.isEmpty() && bufB.isEmpty() && bufC.isEmpty() )", "  if ( bufA.isEmpty() || bufB.isEmpty() || bufC.isEmpty() )")]}
demo = r'''
int main()
{
  two( "CREATE TABLE t(id INTEGER PRIMARY KEY, a); INSERT INTO t VALUES(1,'x'),(2,'y'),(3,'z');", "DELETE FROM t WHERE id=1" );
  spit( "theirs.db", slurp( "base.db" ) );
  sql( "theirs.db", "DELETE FROM t WHERE id<3" );
  ok( "rebase", GEODIFF_rebase( "base.db", "theirs.db", "mod.db", "conflicts" ) );
  same( "content", query( "mod.db", "SELECT * FROM t" ), query( "theirs.db", "SELECT * FROM t" ) );
  return 0;
}
'''
