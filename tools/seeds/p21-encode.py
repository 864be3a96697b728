prop = "P21"
needs = "apply_changeset of the Python package with a changeset whose name is not ASCII"
breaks = "another file is applied, or none is found"
edits = {"pygeodiff/geodifflib.py": [('''        b_string1 = base.encode('utf-8')
        b_string2 = changeset.encode('utf-8')
''', '''        b_string1 = base.encode('utf-8')
        b_string2 = changeset.encode('ascii', 'ignore')
''')]}
shell = open(V + "/tools/seedlib/fe.sh").read() + r'''
db a.db "CREATE TABLE t(id INTEGER PRIMARY KEY, a); INSERT INTO t VALUES(1,2)"
cp a.db b.db
db b.db "UPDATE t SET a=3"
tool createChangeset a.db b.db zm$(printf '\304\233')ny || broken "createChangeset"
py "g.apply_changeset('a.db', 'zm\u011bny')" || broken "apply_changeset"
echo "demo: holds"
'''
