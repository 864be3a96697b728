import json,glob,os,subprocess
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
T={p['id']:p['title'] for p in props}
head='''# Design

Every property in properties.jsonl is decided by **explicit-state / stateless model checking of the real
code**: the reachable states of a bounded space (contents of databases, changesets, schedules, faults,
crash images, configurations) are enumerated completely, each transition is carried out by the library
built from /repo's working tree, and the result is compared with an oracle written from the property
(never with the library's own opinion of itself). There is no model whose binding to the code would have
to be argued for separately: where an oracle is a model (P03, P09, P10, P11, P16, P18, P21, P22), each of
its transitions is replayed against the implementation, case by case, in the same run; the number of such
replays is `traces_validated_against_impl` in the evidence. Nothing is sampled. Where a space is split into
parts the parts and sizes are listed under `bounds` in evidence/<id>.json; `exhaustive` there says
whether the run covered all of it.

No property is under not_applicable. No hooks are compiled into /repo: the checks use the public interface
(`geodiff.h`), the command line tool and the Python package, and interpose at the system call boundary
where they need control (P13, P14, P18).

## Machinery

* `run.py PXX [--thorough]`: builds (harness/build.py; objects keyed by the hash of all sources, headers
  and flags, so any change in /repo is rebuilt) and runs one check. `--build-all` is setup_cmd.
* `harness/mc`: explorer. `mc.h/.cpp`: an independent codec of the documented changeset format, database
  images and dumps by plain SELECTs, strict JSON reader, and the driver (`checkMain`) that distributes the case
  space over 8 worker processes, notices crashes, hangs and sanitizer reports, re-runs a failing case
  alone before it reports it (a failure that does not repeat is reported as `flaky` in the evidence),
  writes the replay, and matches failures against known_findings.txt by the failure's class key.
  `--case N`, `--replay FILE`, `--from/--limit` re-run parts.
* `harness/mc/sysio.*`: every file access of the code under test trapped by seccomp (SIGSYS), whatever libc
  function made it: used to record, fail, cut short, kill at, or schedule the accesses.
* `harness/fakepq`: a stand-in for libpq and a server, on SQLite: PostgreSQL's rules for names,
  literals, types, transactions, search path, sequences, catalog queries and PostGIS functions for the SQL
  the driver sends; statements it does not know are errors. No PostgreSQL server is installed here.
* `harness/stub/gpkg_stub.cpp`: a stand-in for libgpkg's SQL functions (ST_MinX ... ST_IsEmpty) which computes
  from the WKB (libgpkg is not part of the repository and not installed; /opt/vp's own build leaves out what needs it).
* `harness/checks/*space.h`: the enumerated spaces (databases, changesets, rebase triples, calls with
  argument kinds, I/O operations, PostgreSQL tables); `P*.cpp`: oracle and transitions of each property.
* Surroundings (the functional checks): one case in three runs in a directory with an odd name (quotes, blanks, %, non-ASCII),
  one in four with every message logged, one in five in the process locale tr_TR.UTF-8 (decimal comma, dotless i; built by
  `localedef` under build/locale; where that tool is missing, the dimension is left out and `bounds` says so). The choice depends on
  the case number only, so a replay repeats it.
* `tools/mkseed.py`, `tools/seeds`: generate and try the planted bugs; `tools/fulltests.py`: all of the
  repository's own tests, including those outside the stable ten.

Thorough tiers widen the same spaces (one more state/edit/deviation/preemption/fault, see `bounds`).

## Properties

'''
P={
'P01':('All ordered pairs of states of 74 schema families (key kinds: integer, text, blob, real, composite, WITHOUT ROWID, AUTOINCREMENT, generated columns, collations, odd names, up to ~900 columns, several tables, GeoPackage layers; WAL; all pairs of 53 boundary values; a layer of 70 000 rows; both files in different physical formats: UTF-16, page sizes, auto-vacuum, free pages, WAL, ALTER-ed tables, other order of creation, indexes, views): create, apply to a copy of BASE, compare content with MODIFIED.','plain SELECT dumps of both files','77 785 pairs; ~25 s'),
'P02':('Same pairs: the created changeset is decoded with the independent codec and compared with the difference computed from both files: exactly these entries, no column that did not change, right keys, old values complete for deletes.','difference of two SELECT dumps','76 975 pairs'),
'P03':('All sequences of up to 2 (thorough 3) entries, fitting or not, from all states of 15 families (constraints, ON CONFLICT clauses, composite and text keys, STRICT tables, WAL), plus long changesets with a misfit at several positions: all-or-nothing, refused iff an entry does not fit.','interpreter of entries over maps','202 982'),
'P04':('76 user triggers alone and 992 pairs of them (names, quoting, timing, events, RAISE) x all changesets of up to two edits x both apply functions x in-place rebase: user triggers do not fire, GeoPackage\'s do, sqlite_master is unchanged, triggers work afterwards.','same edits by SQL on a copy without the user triggers','90 825'),
'P05':('All pairs and a synthetic space of changesets: applying the inverse to MODIFIED gives BASE; the decoded inverse is the entry-wise inverse; twice gives an equivalent changeset.','entry-wise inversion by the independent codec','112 159'),
'P06':('All single-byte changes, prefixes, suffixes, token insertions, cut/repeated ranges, pairs of changed bytes of five changesets, all strings of up to 4 tokens, all varint shapes, claimed counts and lengths, 2-4 GB files, through every reading operation under ASAN+UBSAN: no crash, no hang, an error for what the format does not allow, a refused apply changes nothing.','grammar of the format','112 446 files, 9 operations each; ~90 s'),
'P07':('Library writes - SQLite\'s session extension and an independent reader read, and the reverse; all lengths up to 600, bit patterns of integers and doubles, headers, names, widths.','sqlite3session/sqlite3changeset, own codec','112 364'),
'P08':('listChanges and listChangesSummary of every changeset of the P05 space: valid JSON (RFC 8259), exactly the entries, values exact, summary counts.','strict JSON reader + own codec','112 159'),
'P09':('All triples (BASE, THEIRS, MINE) of 28 families: applying the rebased changeset to THEIRS gives the documented merge; the conflict file lists exactly the conflicts with the right values; refusals where documented.','merge computed from the three states','123 682'),
'P10':('All triples for in-place rebase through both entry points: same as THEIRS plus rebased changeset; every refusal or failure (constraints that the combination violates, foreign keys, triggers) leaves the file as it was.','merge + the other entry point','~50 000'),
'P11':('All interleavings of edits, pulls and pushes of 2 and 3 clients with edit scripts of length up to 2 (states deduplicated): copies converge, no edit is lost unless reported as conflict, client state always equals server plus own edits.','model of the server/client protocol','28 616 script assignments'),
'P12':('All ordered pairs of 59 schemas x 7 contents x 6 operations: refusal exactly where the documented comparison differs, and a refused operation changes nothing.','schema descriptions the databases were made from','24 367'),
'P13':('Each file access of 75 operations, also with a PostgreSQL server on one side, fails (EIO, ENOSPC, EACCES, EMFILE...) or is cut short, once or from then on, and pairs of faults: an error with the data as before, or success with the full outputs. No third outcome.','undisturbed run','158 901'),
'P14':('Kill before every access with an effect and inside every write, and power loss after every access with all subsets of up to 6 unsynced writes, torn writes, lost directory changes: after SQLite\'s recovery the database is as before or as after, and the call can be repeated.','content before/after','12 758'),
'P15':('All calls with up to 3 deviating argument kinds: nothing but the documented outputs differs afterwards, no temporary file left, the conflict file exists iff there are conflicts, a failing in-place call leaves content, results do not depend on how arguments are given.','byte comparison of the directory','519 638'),
'P16':('PostgreSQL driver: all pairs and triples of 39 table families, hand-made changesets, sequences, schema mismatch, faults (error, no result, lost connection) and another client\'s commit at every server call.','SQLite driver\'s results, models, differences of dumps','268 225'),
'P17':('dumpData and makeCopy for all states of 201 SQLite and 39 PostgreSQL families in all directions: dumps rebuild the content; copies have the same tables, values, keys, geometry metadata; faults at every server call; the old destination survives a source that cannot be read.','value by value comparison','33 018'),
'P18':('Two operations at once (116 pairs; different files, same inputs, one database in rollback and WAL mode), in threads and processes, all schedules with preemption before file accesses up to a bound (1 or 2 preemptions): results are those of a serial execution; no lock of another database handle is dropped.','all serial executions; ThreadSanitizer for the call pairs','96 348 schedules and 2 162 call pairs; ~115 s'),
'P19':('All calls of all public functions with up to 3 deviating arguments out of up to 21 kinds each, under sanitizers: documented error value iff an argument is bad.','tags of argument kinds','519 638'),
'P20':('GeoPackage layers with rtree index and feature count: all pairs and triples of contents of 16 families: index and count match the rows after every apply/rebase, are not touched by refused ones, never appear in changesets.','boxes from the geometry bytes','50 784'),
'P21':('Every call of the argument space (2 deviations) that the command line tool or the Python package offers is made through it and through the C function in identical directories; modes with too few arguments, unknown modes, 6 log levels; all sequences of 4 logger operations on two Python objects.','the C functions; a model in which logger settings belong to the library','71 628'),
'P22':('All calls (2 deviations) at all levels and without callback; 2160 fresh processes with all combinations of environment, init, callback, level.','the documented filter','41 914'),
}
sizes={}
for i in P:   # sizes of the last run of each check
    try:
        e=json.load(open(V+'/evidence/'+i+'.json'))
        sizes[i]=('{:,}'.format(e['coverage']['cases_run']) + ' cases' if e['tier']=='quick' else P[i][2])
    except Exception: pass
out=head
for p in props:
    i=p['id']; a,b,c=P[i]
    try: c=sizes[i]
    except KeyError: pass
    out+='* **%s %s.** %s *Oracle:* %s. *Size (quick):* %s.\n'%(i,T[i],a,b,c)
out+='''
Why this reaches what the tests cannot: the tests run a few dozen fixed scenarios; the guarantees above
are universally quantified over contents, values, argument kinds, faults, crash points and schedules, and each defect listed
below sat in a combination that no test contains.

What is left out, per property: see `assumptions` in the evidence and the level notes in MANIFEST.json; and:

* Out of scope by definition: an output path that names one of the inputs; NULL in non-integer primary keys; NaN; invalid
  UTF-8; -0.0 (SQLite stores 0.0); files over 2 GB (refused); tables with more than ~990 columns (SQLite's
  expression depth); non-numeric GEODIFF_LOGGER_LEVEL; databases given as inputs with a hot journal or left-over WAL (P15).
* The tool and documentation leave open, and the checks accept either: the exact non-zero exit status; an incomplete
  output file after an error; the output of a failing createRebasedChangesetEx; whether arguments that a call need not look at are looked at
  (conflict file without conflicts, database with an empty changeset, base of createRebasedChangesetEx, MINE when THEIRS is unchanged).
* Documented or explicit limits: makeCopy from sqlite to sqlite of gpkg_contents' own tables, of tables without primary key,
  multi-part layers to PostgreSQL, unsupported column types: refused with an error, and the checks require the error. Composite and
  real primary keys are refused by rebase when both sides have changes. Header bytes of composite keys are 1 (documented).
* PostgreSQL: bytea/bigint columns, infinite timestamps and years BC, ordering of foreign keys, tables named gpkg_* (skipped, documented
  TODO), key changes in hand-made changesets not moving the sequence, citext keys changing case, identifiers over 63 bytes.
* User triggers named gpkg_*, rtree_*, trigger_insert_feature_count_*, trigger_delete_feature_count_* and user tables named
  gpkg_ogr_contents*, rtree_* are GeoPackage's own, as the source documents.
* Both databases of a createChangeset have the same text encoding (SQLite itself refuses to attach a database of another encoding; the call fails, which is checked nowhere).
* P12 does not compare UNIQUE, CHECK, DEFAULT and collations: the library does not claim to.
* P13: stat, access, locks and seeks do not fail. P14: directory changes are ordered and durable once the call returned.
* P18: switches happen at file accesses and mutexes, not between two memory accesses. For those, all unordered pairs of the 46 calls of `argspace.h`, first use and later use, run in two threads under ThreadSanitizer (2 162 of the 98 510 cases): a pair with two conflicting accesses and no order between them is reported whichever way the threads happened to run; accesses ordered by chance through a mutex of SQLite can be missed.

## Checks that were wrong (false alarms), and what was done

* P03 first required byte-identical old values; SQLite compares by affinity, the property now says "equal under SQLite's comparison".
* P15 first forbade incomplete outputs after an error and wanted bytes of failing in-place calls unchanged (SQLite may rewrite the change counter): content is compared.
* P18 first took snapshots of two databases for atomic together; nothing promises that, serial executions are now taken per database.
* P21 compared exit status numbers; only zero or not is documented.
* argspace: the explorer's own reading of a locked database released its POSIX locks before the call; locks are now taken last.

## Genuine defects

Recorded, not repaired (known_findings.txt; the checks print KNOWN-FINDING and match by class key, so any other failure of the property is reported):
unique-order (P01, P05), on-conflict-replace (P03), fresh-id-taken (P09). The repairs would need another application strategy (deferring or multi-pass application),
another SQL strategy, or access to BASE's highest key from an interface that has none.

Repaired (one `fix:` commit each; the list with properties is in known_findings.txt):

'''
log=subprocess.run("git -C /repo log --format='%h %s' adfeaff..HEAD",shell=True,capture_output=True,text=True).stdout.splitlines()
fx={l.split()[2]:l.split()[1].split('=')[1] for l in open(V+'/known_findings.txt') if l.startswith('fixed:')}
for l in log:
    h,s=l.split(' ',1); out+='* %s %s (%s)\n'%(h,s[5:],fx.get(h,'?'))
out+='''
## Planted bugs

Written from the property and the code, kept whether or not caught (tools/seeds/<id>.py generates seeded/<id>). All build, pass the stable tests, and
each demonstration passes on the unchanged tree and fails with the change. "Caught by" is the check that was run against it.

| id | property | breaks | needs | caught by |
|---|---|---|---|---|
'''
for d in sorted(glob.glob(V+'/seeded/*')):
    m=json.load(open(d+'/meta.json')); i=os.path.basename(d)
    ns={'V':V}
    exec(open(V+'/tools/seeds/'+i+'.py').read(),ns)
    out+='| %s | %s | %s | %s | %s |\n'%(i,m['property'],m['what_it_breaks'].replace('|','/'),m['needs'].replace('|','/'),ns.get('caught',m['property']))
out+='''
Checks strengthened because a planted bug (or a mutation tried along the way) got through: P16 (lost connections during applies; SRID of other
authorities), P17 (destination lost when the source fails), P14 (two-step rebase application), P18 (read snapshot of two databases, static state), P20 (parent
rows of the index, geometry column names), P15 (temporary files), P03 (numbers of misfits that a narrow counter would wrap),
P01 and most others (directories with odd names; all messages logged; a locale with decimal comma and dotless i, which found three defects;
70000 rows at once; values, keys and names that are long and alike), P16 (dropped and system columns in the stand-in's catalog; table names that only resemble GeoPackage's own),
P17 (all geometry types and dimensions; odd table names), P03 (large changesets that fit but for one entry), P22 (levels of single
messages), P13-P15 (changesets of thousands of entries), P13 (copies, applies and rebases with a server on one side).
'''
open(V+'/DESIGN.md','w').write(out)
