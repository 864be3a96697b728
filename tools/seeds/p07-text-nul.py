prop = "P07"
needs = "a text with an embedded NUL character"
breaks = "the rest of the text is lost when the changeset is read"
edits = {"geodiff/src/changesetreader.cpp": [("mBuffer->c_buf() + mOffset, len );\n      mOffset += len;", "mBuffer->c_buf() + mOffset,\n                           type == Value::TypeText ? static_cast<int>( strnlen( mBuffer->c_buf() + mOffset, len ) ) : len );\n      mOffset += len;")]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(id INTEGER PRIMARY KEY, v);", "INSERT INTO a VALUES(1,'p'||char(0)||'q')" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  ok( "invert", GEODIFF_invertChangeset( "cs", "inv" ) );
  ok( "invert", GEODIFF_invertChangeset( "inv", "again" ) );
  same( "inverted twice", slurp( "again" ), slurp( "cs" ) );
  return 0;
}
'''
