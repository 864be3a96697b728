# Serves calls of the pygeodiff package to the check: one JSON request per line on descriptor 3, one
# JSON answer per line on descriptor 4. Arguments: directory of the package's parent, the library.
import json, os, sys
sys.path.insert(0, sys.argv[1])
import pygeodiff

LIB = sys.argv[2]
inp = os.fdopen(3, "r", encoding="utf-8", newline="\n")
out = os.fdopen(4, "w", encoding="utf-8", newline="\n")
levels = []


def logger(level, msg):
    levels.append([level, msg.decode("utf-8", "replace")])


def call(geodiff, fn, args):
    try:
        return None, getattr(geodiff, fn)(*args)
    except Exception as e:
        return type(e).__name__, None


def sequence(steps, bad):
    """logger settings through several objects; each step is [what, object, value]"""
    objs, got = {}, []

    def cb(name):
        def f(level, msg):
            got.append(name + str(level))
        return f
    res = []
    for what, i, v in steps:
        if what == "new":
            objs[i] = pygeodiff.GeoDiff(LIB)
        elif what == "drop":
            del objs[i]
        elif what == "callback":
            objs[i].set_logger_callback(cb(v))
        elif what == "level":
            objs[i].set_maximum_logger_level(v)
        elif what == "call":
            del got[:]
            e, _ = call(objs[i], bad[0], bad[1])
            res.append([e or ""] + got)
    return res


g = pygeodiff.GeoDiff(LIB)
g.set_logger_callback(logger)
g.set_maximum_logger_level(g.LevelDebug)
for line in inp:
    q = json.loads(line)
    if q["fn"] == "sequence":
        # in a process of its own: the settings are the library's, not the object's
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            a = sequence(q["steps"], q["bad"])
            os.write(w, json.dumps(a).encode())
            os._exit(0)
        os.close(w)
        data = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        st = os.waitpid(pid, 0)[1]
        ans = {"status": st, "result": json.loads(data.decode()) if st == 0 else None}
    elif q["fn"] == "version_text":
        ans = {"text": g.version()}
    else:
        os.environ["TMPDIR"] = q["tmp"]
        del levels[:]
        e, ret = call(g, q["fn"], q["args"])
        ans = {"exc": e or "", "type": type(ret).__name__, "ret": int(ret) if isinstance(ret, (int, bool)) else 0, "log": levels}
    out.write(json.dumps(ans, ensure_ascii=False) + "\n")
    out.flush()
