"""C16 (Python package) and C17 (R package): the real packages, built from /repo with sanitizers, run simulated histories in
processes whose file reads, garbage collections, callbacks and exceptions are decided by the seed."""
import concurrent.futures as cf, glob, hashlib, json, os, re, select, shutil, subprocess, sys, sysconfig, tempfile, threading, time
import check
from check import V, REPO, NCPU, die, digest, write_version, version
B = os.path.join(V, "tools", "bind")
LIBASAN = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
LIBASAN = os.path.realpath(LIBASAN)
PY = "/usr/bin/python3"
FLAGS = [x for x in check.BASE if x != "-DNDEBUG"] + ["-DNDEBUG", "-fPIC", "-DBOOST_PYTHON_DYN_LINK", "-DBOOST_PYTHON_NO_LIB"]
SAN = ["-fsanitize=address,bounds,return,unreachable", "-fno-sanitize-recover=all"]

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout

def files(*dirs):
    out = []
    for d in dirs:
        for r, ds, fs in os.walk(d): ds[:] = [x for x in ds if x != "__pycache__"]; out += [os.path.join(r, f) for f in fs]
    return sorted(out)

def san_env(extra=None):
    e = dict(os.environ, LD_PRELOAD=LIBASAN, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:handle_abort=0:abort_on_error=0:detect_odr_violation=0:max_allocation_size_mb=4096",
             UBSAN_OPTIONS="print_stacktrace=1", PYTHONMALLOC="malloc", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8", TZ="UTC", OMP_NUM_THREADS="1", R_ENABLE_JIT="0")
    e.update(extra or {}); return e

def parallel(jobs, tmp):
    def one(j):
        rc, out = sh(j); return rc, out, j
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for rc, out, j in ex.map(one, jobs):
            if rc: shutil.rmtree(tmp, ignore_errors=True); die("cannot compile %s\n%s" % (j[-3], out[-4000:]))

def build():
    """Returns the directory that holds py/, Rlib/ and shim.so."""
    key = digest(check.repo_files() + files(os.path.join(REPO, "python"), os.path.join(REPO, "R")) + [os.path.join(B, "shim.c"), os.path.join(B, "oom.cpp"), os.path.abspath(__file__)], " ".join(FLAGS + SAN))
    root = os.path.join(V, "build"); d = os.path.join(root, "b" + key)
    if os.path.exists(d): return d
    os.makedirs(root, exist_ok=True)
    for o in sorted((x for x in os.listdir(root) if re.fullmatch(r"b[0-9a-f]{16}(\.tmp\d+)?", x)), key=lambda x: os.path.getmtime(os.path.join(root, x)))[:-2]: shutil.rmtree(os.path.join(root, o), ignore_errors=True)
    tmp = d + ".tmp%d" % os.getpid(); shutil.rmtree(tmp, ignore_errors=True); os.makedirs(os.path.join(tmp, "o")); o = os.path.join(tmp, "o")
    write_version(os.path.join(tmp, "inc"))
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(tmp, "inc")]
    pyinc = ["-isystem", sysconfig.get_paths(vars={})["include"] if False else "/usr/include/python3.12", "-isystem", "/usr/lib/python3/dist-packages/numpy/core/include"]
    rinc = ["-isystem", "/usr/share/R/include", "-isystem", "/usr/lib/R/site-library/Rcpp/include"]
    jobs = []
    for f in sorted(glob.glob(os.path.join(REPO, "python/pycppsas7bdat/cpp/*.cpp"))): jobs.append([check.CXX] + FLAGS + SAN + inc + pyinc + ["-c", f, "-o", os.path.join(o, "py_" + os.path.basename(f) + ".o")])
    for f in sorted(glob.glob(os.path.join(REPO, "R/CPPSAS7BDAT/src/*.cpp"))): jobs.append([check.CXX] + FLAGS + SAN + inc + rinc + ["-c", f, "-o", os.path.join(o, "r_" + os.path.basename(f) + ".o")])
    for f in sorted(glob.glob(os.path.join(REPO, "src/*.cpp"))): jobs.append([check.CXX] + FLAGS + SAN + inc + ["-c", f, "-o", os.path.join(o, "l_" + os.path.basename(f) + ".o")])
    for k in ("py", "r"): jobs.append([check.CXX, "-O1", "-fPIC", "-fno-sanitize=all"] + (["-DSIM_PY"] if k == "py" else []) + ["-c", os.path.join(B, "oom.cpp"), "-o", os.path.join(o, k + "_oom.o")])
    wrap = ["-Wl," + ",".join("--wrap=" + s for s in ("_Znwm", "_Znam", "_ZnwmSt11align_val_t"))]; pywrap = ["-Wl," + ",".join("--wrap=" + s for s in ("PyBytes_FromStringAndSize", "PyFloat_FromDouble", "PyLong_FromLong", "PyLong_FromUnsignedLong"))]
    jobs.append(["gcc", "-O1", "-fPIC", "-shared", os.path.join(B, "shim.c"), "-o", os.path.join(tmp, "shim.so"), "-ldl"])
    parallel(jobs, tmp)
    objs = lambda p: [os.path.join(o, f) for f in sorted(os.listdir(o)) if f.startswith(p)]
    py = os.path.join(tmp, "py", "pycppsas7bdat"); os.makedirs(py)
    for f in glob.glob(os.path.join(REPO, "python/pycppsas7bdat/*.py")): shutil.copy(f, py)
    ext = sh([PY, "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"])[1].strip()
    rp = os.path.join(tmp, "Rpkg"); bl = os.path.join(rp, "build/R/CPPSAS7BDAT/src"); os.makedirs(bl); os.makedirs(os.path.join(rp, "R"))
    parallel([[check.CXX] + SAN + ["-shared"] + wrap + pywrap + objs("py_") + objs("l_") + ["-lboost_python312", "-lboost_numpy312", "-lfmt", "-lspdlog", "-o", os.path.join(py, "cpp" + ext)],
              [check.CXX] + SAN + ["-shared"] + wrap + objs("r_") + objs("l_") + ["-lfmt", "-lspdlog", "-L/usr/lib/R/lib", "-lR", "-o", os.path.join(bl, "libRcppsas7bdat.so")]], tmp)
    pk = os.path.join(rp, "R", "CPPSAS7BDAT"); shutil.copytree(os.path.join(REPO, "R", "CPPSAS7BDAT"), pk)
    ver = version()
    src = os.path.join(pk, "DESCRIPTION.in")
    if os.path.exists(src): open(os.path.join(pk, "DESCRIPTION"), "w").write(open(src).read().replace("@PROJECT_VERSION@", ver))
    lib = os.path.join(tmp, "Rlib"); os.makedirs(lib)
    rc, out = sh(["R", "CMD", "INSTALL", "--no-test-load", "--no-docs", "--library=" + lib, pk], env=san_env({"R_LIBS": lib}))
    if rc: shutil.rmtree(tmp, ignore_errors=True); die("cannot install the R package\n" + out[-4000:])
    shutil.rmtree(o); shutil.rmtree(rp)
    try: os.rename(tmp, d)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return d

# ------------------------------------------------------------------ the model
class Violation(Exception):
    def __init__(self, cls, detail): self.cls = cls; self.detail = detail

def utf8(s):  # dumped texts carry one character per byte
    try: return s.encode("latin-1").decode("utf-8")
    except UnicodeError: return None

def num_of(v): return float(v[1])
RE_D = re.compile(r"^(\d{4})-(\d\d)-(\d\d)$"); RE_DT = re.compile(r"^(\d{4})-(\d\d)-(\d\d) (\d\d):(\d\d):(\d\d)(?:\.(\d{6}))?$"); RE_T = re.compile(r"^(\d\d):(\d\d):(\d\d)(?:\.(\d{6}))?$")
import datetime as _dt
EPOCH = _dt.date(1960, 1, 1)
DAY = 86400000000
def us_of(h, m, s, f): return ((int(h) * 60 + int(m)) * 60 + int(s)) * 1000000 + int(f or 0)
def r_instant(kind, hexed):
    try: t = bytes.fromhex(hexed).decode("ascii")
    except UnicodeError: return None
    m = {"d": RE_D, "dt": RE_DT, "t": RE_T}[kind].match(t)
    if not m: return None
    g = m.groups()
    if kind == "t": return [us_of(*g)]
    days = (_dt.date(int(g[0]), int(g[1]), int(g[2])) - EPOCH).days
    return [days] if kind == "d" else [days, us_of(*g[3:])]

MISSING = (None, ["s", None], ["f", None], ["na"])
def eq(got, exp, lang):
    """Is a delivered value what the model expects?"""
    k = exp[0]
    if k == "x": return True
    if k == "u": return got in MISSING
    if k == "s":
        if got is None or got[0] != "s" or got[1] is None: return False
        if lang == "r": # an R string ends at a NUL
            b = bytes.fromhex(exp[1]); z = b.find(b"\0")
            return bytes.fromhex(got[1]) == (b if z < 0 else b[:z])
        return got[1] == exp[1]
    if k == "i":
        if got is None: return False
        return got == ["i", exp[1]] if lang == "py" else got[0] == "f" and got[1] is not None and float(got[1]) == exp[1]
    if exp[1] is None: return got in MISSING
    if got is None: return False
    if k == "f": return got[0] == "f" and got[1] is not None and float(got[1]) == float(exp[1])
    if lang == "r":
        if got[0] != "s" or got[1] is None: return False
        x = r_instant(k, got[1])
        if x is None: return False
        got = [k] + x
    if got[0] != k: return False
    if k == "d": return got[1] == exp[1]
    if k == "dt": return abs((got[1] - exp[1]) * DAY + got[2] - exp[2]) <= exp[3]
    return abs(got[1] - exp[1]) <= exp[2]

def mangled(a, b): return re.sub(r"[^A-Za-z0-9]", "", a) == re.sub(r"[^A-Za-z0-9]", "", re.sub(r"\.\d+$", "", b)) or re.sub(r"[^A-Za-z0-9]", "", a) == re.sub(r"^X", "", re.sub(r"[^A-Za-z0-9]", "", b)) or re.sub(r"[^A-Za-z0-9]", "", a) == re.sub(r"[^A-Za-z0-9]", "", b)

class RModel(object):
    """What one reader of an episode may do."""
    def __init__(self, ep, i):
        cfg = ep.cfg[i]; rd = ep.j["readers"].get(str(i))
        self.i = i; self.kind = cfg["sink"]; self.chunk = int(cfg.get("chunk", "1"))
        if self.kind.startswith("same:"):
            k = int(self.kind[5:]); base = ep.models.get(k)
            self.kind, self.chunk, self.shared = (base.kind, base.chunk, True) if base is not None and base.sink_alive else ("row", self.chunk, False)
        else: self.shared = False
        if self.kind == "bad" : pass
        self.kind0 = {"byrow": "row", "bychunk": "chunk", "whole": "data", "slots": "row"}.get(self.kind, self.kind)
        self.d = ep.j["datas"][rd["data"]]; d = self.d
        self.wild = not (d["ok"] and d["meta_ok"]); self.N = d["N"]; self.K = min(d["avail"], d["N"]) if not self.wild else 0; self.exact = d["exact"] and not self.wild
        self.sel = []
        if d["ok"]:
            for c, col in enumerate(d["cols"]):
                if rd["inc"]: ok = col[0] in rd["inc"]
                else: ok = col[0] not in rd["exc"]
                if ok: self.sel.append(c)
            self.names = [d["cols"][c][0] for c in self.sel]; self.kinds = [d["cols"][c][3] for c in self.sel]
            self.unames = [utf8(x) for x in self.names]
            if any(x is None for x in self.unames) or len(set(self.names)) != len(self.names): ep.outside = True
            self.known = set(d["known"])
        self.got_props = False; self.snaps = set()
        self.pos = 0; self.pend = []; self.relaxed = False; self.faulted = False; self.psrc = False; self.open = False; self.handed = []; self.sink_alive = True; self.gap = False; self.last_set = None; self.held = False; self.cached = None

class Episode(object):
    def __init__(self, lang, j, counters):
        self.lang = lang; self.j = j; self.cfg = {}; self.models = {}; self.stack = []; self.c = counters; self.outside = False
        self.nofile = -1
        for l in j["lines"]:
            if l[0] == "fault" and l[2] == "nofile": self.nofile = int(l[1])
            if l[0] == "rdr": self.cfg[int(l[1])] = dict(x.split("=", 1) for x in l[2:])
        for i in self.cfg: # names that the language cannot show: outside of the property
            if str(i) not in j["readers"] or str(j["readers"][str(i)]["data"]) not in [str(x) for x in (j["datas"] if isinstance(j["datas"], dict) else range(len(j["datas"])))]: self.outside = True # a plan without its file
            else:
                d = j["datas"][j["readers"][str(i)]["data"]]
                if d["ok"]:
                    texts = [x for col in d["cols"] for x in col[:3]] + [v for v in d["props"].values() if isinstance(v, str)]
                    if any(utf8(t) is None or "\0" in t for t in texts): self.outside = True
                    names = [col[0] for col in d["cols"]]
                    if len(set(names)) != len(names): self.outside = True
    def n(self, k, m=1): self.c[k] = self.c.get(k, 0) + m

    # ---- values
    def check_row_values(self, m, r, vals, what):
        """vals: values in the order of m.sel"""
        if m.wild or r >= m.K or r in m.known: return
        row = m.d["rows"][r]
        self.n("values", len(vals))
        for k, (c, v) in enumerate(zip(m.sel, vals)):
            if not eq(v, row[c], self.lang): raise Violation("wrong-value", "%s: row %d column %d (%s) is %s instead of %s" % (what, r, k, m.kinds[k], json.dumps(v)[:120], json.dumps(row[c])[:120]))
    def columns_of(self, m, v, what):
        """The columns of a chunk: list parallel to m.sel (None where the kind is not handed out), and the number of rows"""
        if self.lang == "py": got = {k: x for k, x in v.items()}; names = list(got)
        else:
            names = [bytes.fromhex(x).decode("utf-8", "replace") for x in v["names"]]; got = dict(zip(names, v["cols"]))
            if len(names) != len(v["cols"]) or len(got) != len(names): raise Violation("wrong-columns", "%s: names %s for %d columns" % (what, names, len(v["cols"])))
        want = [n for n, k in zip(m.unames, m.kinds) if k != "unknown"]
        extra = [n for n in names if n not in m.unames]; missing = [n for n in want if n not in got]
        if extra or missing: raise Violation("wrong-columns", "%s: columns %s instead of %s" % (what, names, m.unames))
        lens = {len(x) for x in got.values()}
        if len(lens) > 1: raise Violation("wrong-columns", "%s: columns of different lengths %s" % (what, sorted(lens)))
        return [got.get(n) for n in m.unames], (lens.pop() if lens else None)
    def check_props(self, m, p, what):
        if m.wild or not m.exact: return
        d = m.d; e = d["props"]
        if self.lang == "r":
            dec = lambda v: None if v is None or v[1] is None else bytes.fromhex(v[1]).decode("utf-8", "replace") if v[0] == "s" else float(v[1])
        else: dec = lambda v: v
        for k, want in e.items():
            if self.lang == "r" and k == "format": continue
            if k not in p: raise Violation("wrong-properties", "%s: no %s" % (what, k))
            if k in ("date_created", "date_modified"):
                if not eq(p[k], want, self.lang): raise Violation("wrong-properties", "%s: %s is %s instead of %s" % (what, k, p[k], want))
                continue
            g = dec(p[k])
            if isinstance(want, str): want = utf8(want)
            if self.lang == "r" and isinstance(want, str) and isinstance(g, str) and k in ("platform", "compression", "endianness"): g, want = g.lower(), want.lower()
            if g != want: raise Violation("wrong-properties", "%s: %s is %r instead of %r" % (what, k, g, want))
        want = [[utf8(x) for x in d["cols"][c]] for c in m.sel]
        got = p["columns"] if self.lang == "py" else [[bytes.fromhex(x).decode("utf-8", "replace") for x in c] for c in p["columns"]]
        if got != want: raise Violation("wrong-properties", "%s: columns %s instead of %s" % (what, json.dumps(got)[:300], json.dumps(want)[:300]))
        if self.lang == "r" and [bytes.fromhex(x).decode("utf-8", "replace") for x in p["names"]] != m.unames: raise Violation("wrong-properties", "%s: the names of the columns are wrong" % what)

    # ---- events
    def ev_op(self, w):
        self.stack.append({"w": w, "i": int(w[1]) if len(w) > 1 else -1, "rows": [], "raised": None, "props": 0, "handed": 0, "used": 0}); f = self.stack[-1]
        self.n("ops")
        if w[0] in ("open", "read_sas"):
            old = self.models.get(f["i"])
            m = RModel(self, f["i"])
            if w[0] == "read_sas" and (self.lang == "r" or w[2] == "0"): m.kind = "whole"; m.kind0 = "data"; m.silent = True
            f["m"] = m; self.models[f["i"]] = m; m.open = True
        else: f["m"] = self.models.get(f["i"])
    def ev_props(self, p):
        f = self.stack[-1] if self.stack else None
        if f is None or f["w"][0] not in ("open", "read_sas"): raise Violation("wrong-events", "set_properties outside of opening a reader")
        f["props"] += 1
        if f["props"] > 1: raise Violation("wrong-events", "set_properties called twice")
        self.check_props(f["m"], p, "set_properties")
    def ev_raise(self, tag):
        f = self.stack[-1]
        if f["raised"] is not None: raise Violation("wrong-events", "the sink was called again after its exception, in the same call")
        f["raised"] = tag; self.n("fault.callback_raises")
    def take(self, m, f, n, what):
        """The next n rows of the stream to the sink: pending ones, then those this call reads"""
        from_pend = m.pend[:n]; u = n - len(from_pend); room = self.room(m, f) - f["used"]
        if u > room: raise Violation("extra-row", "%s: %d rows, only %d pending and %d to be read" % (what, n, len(m.pend), room))
        start = m.pos + f["used"]; m.pend = m.pend[n:]; f["used"] += u
        return from_pend + list(range(start, start + u))
    def room(self, m, f):
        w = f["w"]; left = max(0, m.K - m.pos)
        if w[0] == "row": return min(1, left)
        if w[0] == "rows": return min(int(w[2]), left)
        if w[0] in ("all", "read_sas"): return left
        return 0
    def ev_cb(self, e):
        f = self.stack[-1] if self.stack else None
        if f is None or f["m"] is None: raise Violation("wrong-events", "a callback outside of any call of its reader")
        m = f["m"]; w = f["w"]; what = "%s, %s" % (" ".join(w), e["m"])
        if f["raised"] is not None: raise Violation("wrong-events", "%s: the sink was called again after its exception, in the same call" % what)
        if w[0] in ("idx", "props", "gc", "dropsink") or (w[0] == "skip" and m.kind0 == "row"): raise Violation("wrong-events", "%s: rows handed out" % what)
        self.n("callbacks")
        if e["m"] != {"row": "row", "chunk": "rows", "data": "data"}.get(m.kind0, "?"): raise Violation("wrong-events", "%s: a %s sink got a call of the wrong kind" % (what, m.kind0))
        if m.wild: return
        strict = m.exact and not m.relaxed
        if e["m"] == "row":
            idx = int(e["a"][0])
            if self.lang == "r":
                names = [bytes.fromhex(x).decode("utf-8", "replace") for x in e["v"]["names"]]; vals = e["v"]["vals"]
                if names != m.unames: raise Violation("wrong-columns", "%s: names %s instead of %s" % (what, names, m.unames))
            else: vals = e["v"]
            if len(vals) != len(m.sel): raise Violation("wrong-columns", "%s: %d values for %d columns" % (what, len(vals), len(m.sel)))
            self.deliver(m, f, [idx], strict, what)
            self.check_row_values(m, idx, vals, what); m.handed.append(idx); self.n("rows"); return
        if self.lang == "r": cols, n = self.columns_of(m, e["v"]["rows"], what); index = [int(float(x[1])) for x in e["v"]["index"]]
        else: cols, n = self.columns_of(m, e["v"], what); index = None
        if self.lang == "r":
            if n is not None and len(index) != n: raise Violation("wrong-index", "%s: %d indices for %d rows" % (what, len(index), n))
            n = len(index)
        elif n is None: # no column to count rows by
            if e["m"] == "data": # any number
                m.pend = []; f["used"] = self.room(m, f); m.gap = True; return
            n = None
        if e["m"] == "rows" and self.lang == "py":
            a, b = int(e["a"][0]), int(e["a"][1])
            if n is None: n = b - a + 1 if not m.gap else None
            if n is None: m.relaxed = True; return
        if n == 0: raise Violation("wrong-events", "%s: an empty hand-over" % what)
        if e["m"] == "rows" and m.chunk and n > m.chunk: raise Violation("chunk-too-big", "%s: %d rows instead of at most %d" % (what, n, m.chunk))
        if strict: rows = self.take(m, f, n, what)
        else:
            rows = index
            if rows is None and e["m"] == "rows" and b - a + 1 == n: rows = list(range(a, b + 1))
            m.pend = []
            if rows is not None: self.deliver(m, f, rows, False, what)
        if rows is None: # gaps after a failure: first and last only
            if e["m"] == "rows":
                for r, k in ((a, 0), (b, n - 1)): self.check_row_values(m, r, [None if c is None else c[k] for c in cols], what)
            return
        if index is not None and index != rows: raise Violation("wrong-index", "%s: row indices %s instead of %s" % (what, index[:20], rows[:20]))
        if e["m"] == "rows" and self.lang == "py" and (a, b) != (rows[0], rows[-1]): raise Violation("wrong-index", "%s: labelled %d to %d, but holds the rows %d to %d" % (what, a, b, rows[0], rows[-1]))
        for k, r in enumerate(rows): self.check_row_values(m, r, [None if c is None else c[k] for c in cols], what)
        m.handed += rows; m.last_set = rows; self.n("rows", n); self.n("chunks")
    def deliver(self, m, f, rows, strict, what):
        if strict:
            room = self.room(m, f)
            for r in rows:
                if f["used"] >= room: raise Violation("extra-row", "%s: row %d is one too many" % (what, r))
                if r != m.pos + f["used"]: raise Violation("wrong-index", "%s: row %d instead of %d" % (what, r, m.pos + f["used"]))
                f["used"] += 1
            return
        last = f.get("last", m.handed[-1] if m.handed else -1)
        for r in rows:
            if r <= last: raise Violation("row-redelivered", "%s: row %d after row %d" % (what, r, last))
            if m.exact and r >= m.K and m.K == m.N: raise Violation("extra-row", "%s: row %d does not exist" % (what, r))
            last = r
        f["last"] = last

    def ev_end(self, e):
        f = self.stack.pop(); m = f["m"]; w = f["w"]; o = w[0]; what = " ".join(w); exc = e["exc"]; ret = e["ret"]
        if e["err"]: raise Violation("error-pending", "%s left an error pending: %s" % (what, e["err"]))
        if exc and exc["type"] == "SystemError": raise Violation("error-pending", "%s: %s" % (what, exc["msg"]))
        if e.get("oom"): # the allocation that failed was reported, or the call did without it
            self.n("fault.alloc")
            if exc:
                if o in ("open", "read_sas"): m.open = False
                m.relaxed = True; m.gap = True; last = f.get("last")
                if last is not None: m.pos = max(m.pos, last + 1)
                return
        if exc and exc["tag"] is None and not exc["std"]: raise Violation("foreign-exception", "%s: %s" % (what, exc["type"]))
        if f["raised"] is not None and (exc is None or exc["tag"] != f["raised"]): raise Violation("exception-swallowed" if exc is None else "exception-changed", "%s: the exception %d of the callback did not surface: %s" % (what, f["raised"], exc))
        if exc and exc["tag"] is not None and exc["tag"] != f["raised"]: raise Violation("exception-misplaced", "%s: exception %s of an earlier call" % (what, exc["tag"]))
        if m is None or o in ("gc", "dropsink"):
            if exc: raise Violation("unexpected-exception", "%s: %s" % (what, exc["msg"]))
            if o == "dropsink" and m is not None: m.sink_alive = False; 
            return
        fired = e["fired"] and not m.faulted
        if fired: m.faulted = True; self.n("fault.read_error")
        if o == "open":
            if m.kind == "bad":
                if not exc: raise Violation("bad-sink-accepted", "a sink without set_properties was accepted")
                m.open = False; m.sink_alive = True; return
            if self.nofile == f["i"] and not exc: raise Violation("missing-file-opened", "%s: a file that does not exist was opened" % what)
            if exc:
                m.open = False; m.relaxed = True
                if self.nofile == f["i"]: return
                if f["raised"] is None and not (fired or m.wild or not m.exact): raise Violation("unexpected-exception", "%s: %s" % (what, exc["msg"]))
                return
            if not f["props"]: raise Violation("wrong-events", "%s: the sink did not get the properties" % what)
            m.got_props = True
            if fired: m.relaxed = True; m.psrc = True
            return
        if o == "drop":
            if exc: raise Violation("unexpected-exception", "%s: %s" % (what, exc["msg"]))
            m.open = m.held; return # a properties object keeps its reader
        if o == "df": return self.end_df(m, f, e, what)
        if o == "flush" and not m.open:
            if exc or f["handed"]: raise Violation("unexpected-exception", "%s: after the reader was dropped: %s" % (what, exc))
            return
        if o == "props":
            if exc: raise Violation("unexpected-exception", "%s: %s" % (what, exc["msg"]))
            m.held = self.lang == "py"; self.check_props(m, ret, what); return
        if o == "idx":
            if exc: raise Violation("unexpected-exception", "%s: %s" % (what, exc["msg"]))
            if m.wild: return
            if m.relaxed or not m.exact:
                if ret < m.pos: raise Violation("wrong-index", "%s: %s, but %d rows were read" % (what, ret, m.pos))
                m.pos = int(ret)
            elif ret != m.pos: raise Violation("wrong-index", "%s: %s instead of %d" % (what, ret, m.pos))
            return
        if m.wild:
            if exc is None or f["raised"] is not None: return
            m.relaxed = True; return
        # row, rows, all, skip, eod, flush, read_sas
        n = int(w[2]) if o in ("rows", "skip") else 1
        left = max(0, m.K - m.pos)
        if o == "row": want, ends = min(1, left), not left
        elif o in ("rows", "skip"): want, ends = min(n, left), n > left
        elif o in ("all", "read_sas"): want, ends = left, True
        else: want, ends = 0, False
        if o == "read_sas":
            if not exc and getattr(m, "silent", False): m.handed = list(range(m.K)); m.last_set = m.handed; f["used"] = want; m.pend = []
            m.open = False
            if exc and m.kind == "bad": return
            if m.kind == "bad": raise Violation("bad-sink-accepted", "a sink without set_properties was accepted")
            if exc and f["raised"] is not None: return
        if m.relaxed or not m.exact:
            strict_part = not m.relaxed
            if fired and not exc: m.psrc = True
            if m.psrc and not exc and o not in ("eod", "flush", "skip") and (o in ("all", "read_sas") or ret is False) and (f.get("last", -1) + 1 < m.K): raise Violation("fault-as-end", "%s: a read failed, but the reader reported an end of data" % what)
            if exc: m.psrc = False
            last = f.get("last")
            if strict_part and m.kind0 == "row" and o in ("row", "rows", "all") and m.pos < m.K and not (exc and (fired or f["raised"] is not None)):
                got = 0 if last is None else last + 1 - m.pos
                if got < want: raise Violation("missing-row", "%s: only %d of %d rows before the damage: %s" % (what, got, want, exc))
            if last is not None: m.pos = max(m.pos, last + 1)
            if o == "skip" or exc and f["raised"] is None: m.relaxed = True
            if o == "skip" or m.kind0 != "row": m.gap = True
            if strict_part and m.kind0 != "row": m.relaxed = True
            return
        if f["raised"] is not None:
            if o == "skip" : m.pos += want
            else: m.pos += f["used"]
            if m.kind0 == "row": m.pend = []
            return
        if exc:
            if fired or m.faulted or (m.d["cut"] and ends and m.K < m.N):
                m.relaxed = True; m.psrc = False
                if not fired and not m.faulted and o in ("row", "rows", "all") and m.kind0 == "row" and f["used"] != want: raise Violation("missing-row", "%s: %d rows instead of %d before the exception" % (what, f["used"], want))
                m.pos += f["used"]; m.gap = True; return
            raise Violation("unexpected-exception", "%s: %s" % (what, exc["msg"]))
        if fired:
            if (ends and m.pos + f["used"] < m.K) or (ret is False and o != "skip"): raise Violation("fault-as-end", "%s: a read failed, but the reader reported an end of data" % what)
            m.relaxed = True; m.psrc = True; m.pos += f["used"]; m.gap = True; return
        if m.kind0 == "row":
            if o in ("row", "rows", "all", "read_sas") and f["used"] != want: raise Violation("missing-row", "%s: %d rows instead of %d" % (what, f["used"], want))
        elif o in ("row", "rows", "all", "read_sas"):
            m.pend += range(m.pos + f["used"], m.pos + want)
        m.pos += want
        if o == "skip" and want: m.gap = True
        if o in ("row", "rows", "skip"):
            exp = want == 1 if o == "row" else not ends
            if ret is not exp: raise Violation("wrong-return", "%s returned %s" % (what, ret))
        if m.kind0 != "row" and m.pend and not m.shared and (ends or o == "eod" or (o == "flush" and m.open)):
            if self.known_columns(m): raise Violation("missing-row", "%s: the rows %s were not handed over" % (what, m.pend[:20]))
            m.pend = []
    def known_columns(self, m): return bool(self.lang == "r" or [k for k in m.kinds if k != "unknown"])

    def end_df(self, m, f, e, what):
        exc = e["exc"]; ret = e["ret"]
        if m.wild or m.relaxed or not m.exact or self.outside: return
        if exc and f["raised"] is not None: return
        if exc:
            if not m.handed and not (self.lang == "py" and (m.kind == "bychunk" or m.kind == "whole" and m.pend) and m.got_props): return # nothing to make a data frame from
            raise Violation("unexpected-exception", "%s: %s" % (what, exc["msg"]))
        if m.kind0 == "chunk" and not self.known_columns(m) or m.kind0 == "data" and not self.known_columns(m): return
        self.n("data_frames")
        if self.lang == "py":
            if m.kind == "whole":
                rows = m.last_set # what was read but not yet handed over may be left out
            else: # a frame made earlier may have been kept
                m.snaps.add(len(m.handed)); k = len(ret["rows"]) if ret is not None else -1
                rows = m.handed[:k] if k in m.snaps else m.handed
            if ret is None:
                if rows: raise Violation("missing-row", "%s: nothing" % what)
                return
            rows = rows or []
            if ret["columns"] != m.unames: raise Violation("wrong-columns", "%s: columns %s" % (what, ret["columns"]))
            if len(ret["rows"]) != len(rows): raise Violation("missing-row", "%s: %d rows instead of %d" % (what, len(ret["rows"]), len(rows)))
            for r, vals in zip(rows, ret["rows"]): self.check_row_values(m, r, vals, what)
            return
        if ret is None:
            if m.kind == "byrow" or (m.last_set if m.kind == "whole" else m.handed): raise Violation("missing-row", "%s: nothing" % what)
            return
        names = [bytes.fromhex(x).decode("utf-8", "replace") for x in ret["names"]]; cols = ret["cols"]
        sel = [c for c, k in zip(range(len(m.sel)), m.kinds) if k != "unknown" or m.kind == "byrow"]
        if len(cols) != len(sel) or len(names) != len(cols): raise Violation("wrong-columns", "%s: columns %s instead of %s" % (what, names, m.unames))
        rows = m.handed if m.kind != "whole" else m.last_set or []
        for col in cols:
            if m.kind == "byrow":
                if len(col) < (max(rows) + 1 if rows else 0): raise Violation("missing-row", "%s: %d rows" % (what, len(col)))
            elif len(col) != len(rows): raise Violation("missing-row", "%s: %d rows instead of %d" % (what, len(col), len(rows)))
        used = set()
        for c in sel:
            ok = None
            for k, col in enumerate(cols):
                if k in used or not (names[k] == m.unames[c] or mangled(m.unames[c], names[k])): continue
                bad = None
                for x, r in enumerate(rows):
                    if r >= m.K or r in m.known: continue
                    v = col[r if m.kind == "byrow" else x]
                    if not eq(v, m.d["rows"][r][m.sel[c]], self.lang): bad = (r, v); break
                if bad is None: ok = k; break
                ok = ok or bad if not isinstance(ok, int) else ok
            if not isinstance(ok, int) or isinstance(ok, bool): raise Violation("wrong-value", "%s: column %s (%s): %s" % (what, m.unames[c], m.kinds[c], ok))
            used.add(ok)

def check_log(lang, d, status):
    """Judges one played plan. Returns (outcome, counters, shapes)."""
    try: text = open(os.path.join(d, "log"), errors="surrogateescape").read()
    except OSError: text = ""
    try: err = open(os.path.join(d, "err"), errors="replace").read()
    except OSError: err = ""
    counters = {}; ep = None; k = -1; bad = None; finished = False; k_bad = 0
    try:
        for line in text.splitlines():
            try: e = json.loads(line)
            except ValueError:
                if status == "exit 0": raise
                break
            t = e["e"]
            if t == "ep": k = e["k"]; ep = Episode(lang, json.load(open(os.path.join(d, "e%d.json" % k))), counters); ep.n("episodes"); continue
            if t == "finished": finished = True; continue
            if t == "leaks":
                if e["alive"]: k = e["alive"][0]; raise Violation("leak", "%d sinks are still alive after everything was dropped" % len(e["alive"]))
                continue
            if t == "changed": raise Violation("data-changed", "what a callback received was changed later: %s became %s" % (json.dumps(e["was"])[:300], json.dumps(e["now"])[:300]))
            if t == "done":
                if e.get("alive"): raise Violation("leak", "the sinks %s are still alive after everything was dropped" % e["alive"])
                continue
            if ep.outside: continue
            if t == "op": ep.ev_op(e["w"])
            elif t == "props": ep.ev_props(e["p"])
            elif t == "cb": ep.ev_cb(e)
            elif t == "raise": ep.ev_raise(e["tag"])
            elif t == "end": ep.ev_end(e)
    except Violation as v: bad = (v.cls, v.detail)
    except (KeyError, TypeError, IndexError, AttributeError, ValueError, OverflowError) as ex: # what was handed out does not even have the shape of an answer
        import traceback; bad = ("malformed", "%s: %s at %s" % (type(ex).__name__, scrub(str(ex), d), ["%s:%d" % (f.name, f.lineno) for f in traceback.extract_tb(ex.__traceback__)][-3:]))
    if bad is None:
        m = re.search(r"(ERROR: AddressSanitizer: ?\S*|runtime error: .*|AddressSanitizer: CHECK failed.*|AddressSanitizer:DEADLYSIGNAL)", err)
        if status == "timeout": bad = ("timeout", "did not finish")
        elif m and status != "exit 0": bad = ("crash:" + re.sub(r"[^a-z-]", "", m.group(1).split("AddressSanitizer:")[-1].split("runtime error:")[-1].strip().split(" ")[0].lower())[:40], scrub(m.group(0), d))
        elif status != "exit 0" or not finished:
            if "Traceback (most recent call last)" in err and lang == "py" and "pydrv.py" in err.splitlines()[-3 if len(err.splitlines()) > 2 else 0]: bad = ("malformed", "the driver could not take what it was given: " + scrub(err[-600:], d))
            elif lang == "r" and "Execution halted" in err: bad = ("malformed", "the driver could not take what it was given: " + scrub(err[-600:], d))
            else: bad = ("crash:exit", "the interpreter ended with %s: %s" % (status, scrub(err[-300:], d)))
        elif "stack imbalance" in err: bad = ("stack-imbalance", scrub(err[-300:], d))
    for f in glob.glob(os.path.join(d, "*.fired")):
        for w in set(open(f).read().split()): counters["fault.sys_" + w] = counters.get("fault.sys_" + w, 0) + 1
    shapes = []
    for f in glob.glob(os.path.join(d, "e*.txt")): shapes.append(int.from_bytes(hashlib.blake2b(open(f, "rb").read(), digest_size=8).digest(), "little"))
    for l in re.findall(r"^(nest|gcthr|gctort|fault|op) ?(\S*)", "\n".join(open(f, errors="replace").read() for f in glob.glob(os.path.join(d, "e*.txt"))), re.M):
        if l[0] == "op": counters["probe.op_" + l[1]] = counters.get("probe.op_" + l[1], 0) + 1
        elif l[0] != "fault": counters["probe." + l[0]] = counters.get("probe." + l[0], 0) + 1
    h = hashlib.sha256(); h.update(text.encode("utf-8", "surrogateescape")); h.update((bad[0] if bad else "").encode())
    return {"cls": bad[0] if bad else "", "detail": bad[1] if bad else "", "hash": h.hexdigest()[:16], "ep": max(k, 0), "pins": ""}, counters, shapes

def scrub(s, d): return re.sub(r"0x[0-9a-f]+", "0x", re.sub(r"==\d+==", "", s.replace(d, "@")))

# ------------------------------------------------------------------ playing plans
EXE = None; LANG = None; BD = None
def prepare(exe, prop):
    global EXE, LANG, BD
    EXE = exe; LANG = "py" if prop == "C16" else "r"; BD = build()

def drive_env():
    e = san_env({"R_LIBS": os.path.join(BD, "Rlib"), "PYTHONPATH": os.path.join(BD, "py") + ":" + B})
    e["LD_PRELOAD"] = " ".join([LIBASAN, os.path.realpath(subprocess.run(["gcc", "-print-file-name=libstdc++.so.6"], stdout=subprocess.PIPE, text=True).stdout.strip()), os.path.join(BD, "shim.so")])
    return e

class Player(object):
    def __init__(self, wall): self.p = None; self.wall = wall
    def play(self, d):
        if LANG == "r":
            with open(os.path.join(d, "err"), "wb") as err:
                p = subprocess.Popen(["Rscript", "--vanilla", os.path.join(B, "rdrv.R"), d], stdin=subprocess.DEVNULL, stdout=err, stderr=err, env=drive_env(), start_new_session=True)
                try: rc = p.wait(self.wall)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, 9); p.wait(); return "timeout"
            return "exit %d" % rc if rc >= 0 else "signal %d" % -rc
        if self.p is None:
            self.p = subprocess.Popen([PY, os.path.join(B, "pydrv.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=dict(drive_env(), SIM_WALL=str(self.wall)))
            l = self.p.stdout.readline()
            if l.strip() != "ready": raise RuntimeError("the Python driver does not start: " + sh([PY, os.path.join(B, "pydrv.py")], stdin=subprocess.DEVNULL, env=drive_env())[1][-2000:])
        self.p.stdin.write(d + "\n"); self.p.stdin.flush()
        return self.p.stdout.readline().strip()
    def close(self):
        if self.p: self.p.stdin.close(); self.p.wait(); self.p = None

def run_one(player, text, d):
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d); f = os.path.join(d, "plan"); open(f, "w").write(text)
    if subprocess.run([EXE, "dump", f, d], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: return {"cls": "internal", "detail": "no dump", "hash": "", "ep": 0, "pins": ""}, {}, []
    r = check_log(LANG, d, player.play(d)); shutil.rmtree(d, ignore_errors=True)
    return r

def run_texts(texts, scratch, wall=120):
    def one(k):
        p = Player(wall)
        try: return dict(run_one(p, texts[k], os.path.join(scratch, "t%d" % k))[0], secs=0)
        finally: p.close()
    with cf.ThreadPoolExecutor(NCPU) as ex: return list(ex.map(one, range(len(texts))))

def gen(prop, seed): return subprocess.run([EXE, "gen", prop, check.TIER, str(seed)], stdout=subprocess.PIPE, text=True).stdout

def worker(prop, w, base, deadline, scratch, conn):
    counters = {}; shapes = set(); hashes = []; bads = []; runs = 0; longest = 0.0; p = Player(240 if LANG == "py" else 400); flag = os.path.join(scratch, "stop"); k = w
    try:
        while time.time() < deadline and not os.path.exists(flag) and runs < 10000000:
            seed = int.from_bytes(hashlib.sha256(b"%d/%s/%d" % (base, prop.encode(), k)).digest()[:8], "little") >> 5; k += NCPU
            t = time.time(); o, c, s = run_one(p, gen(prop, seed), os.path.join(scratch, "w%d" % w)); runs += 1; longest = max(longest, time.time() - t)
            for x, n in c.items(): counters[x] = counters.get(x, 0) + n
            shapes.update(s); hashes.append((seed, o["hash"]))
            if o["cls"]: bads.append({"seed": seed, "cls": o["cls"], "detail": o["detail"], "hash": o["hash"]}); open(flag, "w").close()
    except Exception as ex:
        import traceback; bads.append({"seed": 0, "cls": "internal", "detail": traceback.format_exc()[-1500:], "hash": ""})
    p.close(); conn.send((counters, shapes, hashes, bads, runs, longest)); conn.close()

def search(prop, base, seconds, scratch):
    import multiprocessing as mp
    deadline = time.time() + seconds; ps = []
    for w in range(NCPU):
        a, b = mp.Pipe(False); q = mp.get_context("fork").Process(target=worker, args=(prop, w, base, deadline, scratch, b)); q.start(); b.close(); ps.append((a, q))
    out = dict(counters={}, shapes=set(), hashes=[], bads=[], runs=0, longest=0.0)
    for a, q in ps:
        try: c, s, h, b, r, l = a.recv()
        except EOFError: die("a worker died")
        q.join()
        for x, n in c.items(): out["counters"][x] = out["counters"].get(x, 0) + n
        out["shapes"] |= s; out["hashes"] += h; out["bads"] += b; out["runs"] += r; out["longest"] = max(out["longest"], l)
    return out

def main(prop):
    tier = check.TIER
    info = check.INFO["props"][prop]
    exe = check.build(); prepare(exe, prop); check.RUNNER = run_texts; tb = time.time()
    seconds = float(os.environ.get("SIM_SECONDS", info.get(tier + "_seconds", 55 if tier == "quick" else 700)))
    with check.Scratch() as scratch:
        s = search(prop, check.SEED, seconds, scratch); secs = time.time() - tb
        internal = [b for b in s["bads"] if b["cls"] == "internal"]
        if internal: die("internal: " + internal[0]["detail"])
        viol = check.report_violation(exe, prop, s["bads"], scratch) if s["bads"] else None
        hs = sorted(s["hashes"]); sample = hs[:: max(1, len(hs) // 16)][:16] if not viol else []
        res = run_texts([gen(prop, sd) for sd, _ in sample], scratch, 400) if sample else []
        diff = sum(1 for (sd, h), r in zip(sample, res) if r["hash"] != h)
        c = s["counters"]
        if not viol:
            for kid, counter, text in check.known_findings(prop):
                if c.get(counter, 0): print("KNOWN-FINDING: property=%s %s" % (prop, text), flush=True)
        samp = [{"seed": sd, "plan_first_episode": check.episodes(gen(prop, sd))[0][:60]} for sd, _ in hs[:2]]
        ev = {"property": prop, "tier": tier, "seed": check.SEED, "level": info.get("level", "exploration"),
              "coverage": {"evaluations": c.get("episodes", 0), "distinct_nontrivial": len(s["shapes"]), "rule": info["rule"], "samples": samp,
                           "simulated_runs": s["runs"], "seeds_per_hour": round(s["runs"] * 3600 / max(secs, 1)), "episodes_per_hour": round(c.get("episodes", 0) * 3600 / max(secs, 1)),
                           "simulated_time": "the code has no clock; simulated progress: %d operations, %d callbacks, %d rows, %d values and %d data frames compared with the model" % tuple(c.get(x, 0) for x in ("ops", "callbacks", "rows", "values", "data_frames")),
                           "faults_fired": {k[6:]: v for k, v in sorted(c.items()) if k.startswith("fault.")}, "probes": {k[6:]: v for k, v in sorted(c.items()) if k.startswith("probe.")},
                           "states_measure": "distinct_nontrivial counts distinct (file parameters, sinks, call history, fault plan) hashes, one per episode",
                           "determinism_sample": {"seeds_rerun_in_fresh_processes": len(res), "different": diff}, "longest_run_s": round(s["longest"], 2),
                           "real_components": check.INFO["real"] + info.get("real", []), "stub_components": sorted(set(check.INFO["stub"] + info.get("stub", [])))},
              "assumptions": check.INFO["assumptions"] + info.get("assumptions", []), "wall_s": round(time.time() - check.T0, 1), "violations": 1 if viol else 0}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
        print("%s %s: %d runs, %d episodes, %d distinct, %.0f s%s" % (prop, tier, s["runs"], c.get("episodes", 0), len(s["shapes"]), time.time() - check.T0, ", %d of %d reruns differ" % (diff, len(res)) if diff else ""))
        return 1 if viol else 0
