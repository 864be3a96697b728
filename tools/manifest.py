#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Properties of properties.jsonl without an entry here are listed as not claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BE = "bounded-exhaustive execution of the implementation, compared with an independent model"
C = {  # property: (technique, level_note)
    "P01": ("explicit-state enumeration of all state pairs, executed on the library",
            "Complete for the listed schema families and alphabets (all ordered pairs of table states); says nothing about larger tables or other values. Trusts SQLite and the in-house content reader."),
    "P02": ("explicit-state enumeration of all state pairs, the changeset compared with an independently computed difference",
            "Complete for the listed schema families and alphabets; the difference is computed from plain SELECTs and the file read by an independent decoder."),
    "P03": ("explicit-state enumeration of (state, changeset) pairs against a reference model of apply, executed on the library",
            "Complete for the listed states, entry alphabets and sequence lengths; the reference model carries out entries one by one on a copy with plain SQL. Equality of recorded and stored values is SQLite's comparison."),
    "P04": ("explicit-state enumeration of trigger sets and changesets, executed on the library, compared with plain SQL on a copy without user triggers",
            "Complete for the listed triggers (alone and in pairs), edit sequences and database settings. Firing order of several triggers of one event is not part of it."),
    "P05": ("explicit-state enumeration of state pairs and of a space of changesets, inverse compared with a model and applied back",
            "Complete for the listed families and the synthetic changeset space."),
    "P06": ("exhaustive enumeration of byte-level mutations and of all short token strings, executed on the library under address and undefined-behaviour sanitizers",
            "Complete for the listed mutations (every byte value at every place, every cut, insertion, pair of tokens) of five seed changesets and all token strings up to the stated length; memory errors are those the sanitizers detect."),
    "P07": ("explicit-state enumeration of values, lengths, headers and state pairs, cross-checked with SQLite's session extension in both directions",
            "Complete for the listed spaces; SQLite's session extension and an independent codec are the references."),
    "P08": ("explicit-state enumeration of a space of changesets, JSON compared item by item with an independent decoding",
            "Complete for the listed spaces; texts are valid UTF-8."),
    "P09": ("explicit-state enumeration of all (BASE, THEIRS, MINE) triples against a merge model, executed on the library",
            "Complete for the listed families: every triple of states. Larger tables and longer histories are covered by P11."),
    "P10": ("explicit-state enumeration of all (BASE, THEIRS, MINE) triples through both in-place entry points, compared with the two-step way and a merge model",
            "Complete for the listed families and schemas."),
    "P11": ("explicit-state enumeration of all interleavings of edits, pulls and pushes of several clients, executed on the library, against a token-based merge model",
            "Complete for the listed scripts, schemas and numbers of clients; identical synchronisations are executed once (interned by content)."),
    "P12": ("explicit-state enumeration of all ordered pairs of schemas, executed on the library, verdicts compared with the schemas' descriptions",
            "Complete for the listed schemas and contents. A changeset holds no column names or types, so differences in these cannot show when one is applied; UNIQUE, CHECK, DEFAULT, collations and indexes are not compared."),
    "P13": ("exhaustive enumeration of single faults and pairs of faults over all recorded file accesses of each operation, injected by a system-call interposer into the running library",
            "Complete for the listed operations and fault kinds: each access of each operation, alone and in pairs within a distance. stat and lock calls do not fail."),
    "P14": ("exhaustive enumeration of crash points: real kills at every file access of the running library, and all power-loss disk states rebuilt from the recorded writes within the stated bound, each followed by recovery",
            "Complete for the listed operations: every access, and every subset of unsynced writes up to the stated size. The recorded writes are checked to explain the files byte for byte. Trusts the stated model of disks."),
    "P15": ("explicit-state enumeration of calls of every public file operation over a space of argument files and file states, effects on the file system compared with the documented outputs",
            "Complete for the listed operations, argument files and preconditions (journal modes, stale outputs, read-only places). Inputs with a hot journal or leftover WAL are outside."),
    "P16": ("explicit-state enumeration of all pairs and triples of table states and of faults at every server call, executed on the driver against a stand-in server, compared with a model and the SQLite driver",
            "Complete for the listed families, changesets and faults. The server is a stand-in with PostgreSQL's rules for names, literals, types and transactions for the SQL the driver uses; a real server is not available here."),
    "P17": ("explicit-state enumeration of all table states of both drivers and of faults at every server call, each dumped, copied, copied back on the real code and compared value by value",
            "Complete for the listed families, values, layers and faults, against the stand-in server of P16 and a stand-in for libgpkg; timestamps with whole seconds."),
    "P18": ("stateless model checking of the running library: all schedules of two operations up to a preemption bound at file accesses, in threads and in processes, results compared with all serial executions",
            "Complete for the listed pairs of operations and preemption bounds. Accesses to memory between two file accesses are not interleaved; instead every unordered pair of 46 calls runs in two threads under ThreadSanitizer, which reports any pair of conflicting accesses without an order between them. POSIX locks and SQLite's mutexes are the real ones. The read and write accesses an operation makes under its own lock are taken to commute with the other's."),
    "P19": ("explicit-state enumeration of calls of every public function over all combinations of argument kinds, under address and undefined-behaviour sanitizers",
            "Complete for the listed argument kinds; calls run as an unprivileged user inside a scratch directory."),
    "P20": ("explicit-state enumeration of all pairs and triples of GeoPackage layer contents, executed on the library, index and count recomputed from the rows",
            "Complete for the listed layers, triggers and geometries; libgpkg is replaced by a stand-in that computes boxes from the geometry's bytes."),
    "P21": ("explicit-state enumeration of calls through the command line tool and the Python package (all combinations of argument kinds) compared with the C function, and of all sequences of Python logger operations up to a depth, all on the real tools",
            "Complete for the listed argument kinds, log levels and logger sequences; the tool and the shared library are built from the tree, with the stand-ins for libgpkg and libpq; the Python package runs unmodified."),
    "P22": ("explicit-state enumeration of logger configuration histories and operations, messages compared with a model of the documented filter",
            "Complete for the listed configurations, environment values and operations; the wording of messages is not looked at."),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
extra = os.path.join(V, "tools/manifest_entries.json")
if os.path.exists(extra):
    C.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
m = {"version": 1,
     "setup_cmd": "python3 run.py --build-all",
     "checks": [{"property": p, "quick_cmd": "python3 run.py %s" % p, "thorough_cmd": "python3 run.py %s --thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": "model checking: " + C[p][0],
                 "level": "model_checking", "level_note": C[p][1]} for p in ids if p in C],
     "not_applicable": [{"property": p, "reason": "check not finished yet"} for p in ids if p not in C],
     "notes": "No hooks: the checks use the public interface only, with stand-ins for libgpkg and libpq (see DESIGN.md)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
