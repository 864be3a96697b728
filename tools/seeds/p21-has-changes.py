prop = "P21"
needs = "has_changes of the Python package with a changeset that cannot be opened"
breaks = "the error of the C function is not raised: a missing file is said to have changes"
edits = {"pygeodiff/geodifflib.py": [('''        if nchanges < 0:
            raise GeoDiffLibError("has_changes")
        return nchanges == 1
''', '''        return bool(nchanges)
''')]}
shell = open(V + "/tools/seedlib/fe.sh").read() + r'''
db a.db "CREATE TABLE t(id INTEGER PRIMARY KEY, a); INSERT INTO t VALUES(1,2)"
cp a.db b.db
db b.db "UPDATE t SET a=3"
tool createChangeset a.db b.db c || broken "createChangeset"
tool createChangeset a.db a.db e || broken "createChangeset"
py "assert g.has_changes('c') is True and g.has_changes('e') is False" || broken "value"
py "
try:
    g.has_changes('missing')
except pygeodiff.GeoDiffLibError:
    raise SystemExit(0)
raise SystemExit(1)" || broken "a missing changeset raises no error"
echo "demo: holds"
'''
