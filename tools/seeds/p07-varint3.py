prop = "P07"
needs = "a text or blob of 1 MiB to 2 MiB"
breaks = "its length is read wrongly: the changeset cannot be read back"
edits = {"geodiff/src/changesetvarint.h": [("""    a &= ( 0x7f << 14 ) | ( 0x7f );
    b &= 0x7f;
    b = b << 7;
    *v = a | b;
    return 3;
  }

  {""", """    a &= ( 0x3f << 14 ) | ( 0x7f );
    b &= 0x7f;
    b = b << 7;
    *v = a | b;
    return 3;
  }

  {""")]}
demo = r'''
int main()
{
  two( "CREATE TABLE t(id INTEGER PRIMARY KEY, s BLOB); INSERT INTO t VALUES(1,zeroblob(10));", "INSERT INTO t VALUES(2,zeroblob(1500000));" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  ok( "apply", GEODIFF_applyChangeset( "base.db", "cs" ) );
  same( "content", query( "base.db", "SELECT id, length(s) FROM t" ), query( "mod.db", "SELECT id, length(s) FROM t" ) );
  return 0;
}
'''
