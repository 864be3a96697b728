prop = "P07"
needs = "a text or blob of 16384 to 32767 bytes"
breaks = "lengths of 16384 to 32767 are written with a two byte varint that loses the upper bits: the changeset cannot be read back"
edits = {"geodiff/src/changesetvarint.h": [("if ( v <= 0x3fff )", "if ( v <= 0x7fff )")]}
demo = r'''
int main()
{
  two( "CREATE TABLE t(id INTEGER PRIMARY KEY, s BLOB); INSERT INTO t VALUES(1,zeroblob(10));", "INSERT INTO t VALUES(2,zeroblob(20000));" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  ok( "apply", GEODIFF_applyChangeset( "base.db", "cs" ) );
  same( "content", query( "base.db", "SELECT id, length(s) FROM t" ), query( "mod.db", "SELECT id, length(s) FROM t" ) );
  return 0;
}
'''
