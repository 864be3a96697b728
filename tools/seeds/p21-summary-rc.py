prop = "P21"
needs = "list_changes_summary of the Python package where the C function fails with another output already in place"
breaks = "the failure is taken for success as long as the output file exists"
edits = {"pygeodiff/geodifflib.py": [('''        _parse_return_code(res, "list_changes_summary")''', '''        if res and not os.path.exists(result):
            _parse_return_code(res, "list_changes_summary")''')]}
shell = open(V + "/tools/seedlib/fe.sh").read() + r'''
echo old > summary.json
py "g.list_changes_summary('missing', 'summary.json')" && broken "failure not reported"
echo "demo: holds"
'''
