prop = "P09"
needs = "THEIRS sets a column to NULL in a row that MINE deletes"
breaks = "the rebased delete records the value before THEIRS, so the rebased changeset cannot be applied to THEIRS"
edits = {"geodiff/src/geodiffrebase.cpp": [('''      const Value &patchedVal = patchedVals[i];
      if ( patchedVal.type() != Value::TypeUndefined )''', '''      const Value &patchedVal = patchedVals[i];
      if ( patchedVal.type() != Value::TypeUndefined && patchedVal.type() != Value::TypeNull )''')]}
demo = r'''
int main()
{
  two( "CREATE TABLE t(id INTEGER PRIMARY KEY, n INTEGER, s TEXT); INSERT INTO t VALUES(1,5,'a'),(2,6,'b');", "UPDATE t SET s = NULL WHERE id = 2;" );
  rename( "mod.db", "theirs.db" );
  spit( "mod.db", slurp( "base.db" ) );
  sql( "mod.db", "DELETE FROM t WHERE id = 2" );
  ok( "create", GEODIFF_createChangeset( "base.db", "theirs.db", "b2t" ) );
  ok( "rebase", GEODIFF_createRebasedChangeset( "base.db", "mod.db", "b2t", "t2m", "conf" ) );
  ok( "apply to theirs", GEODIFF_applyChangeset( "theirs.db", "t2m" ) );
  same( "content", query( "theirs.db", "SELECT * FROM t" ), "I1|I5|Ta|\n" );
  return 0;
}
'''
