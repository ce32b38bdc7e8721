#!/usr/bin/env python3
"""Decides one property by seeded simulation: builds the simulator from /repo's working tree, searches, confirms,
minimises and reports.   check.py Cxx | check.py replay FILE | check.py build"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
NCPU = max(1, min(8, os.cpu_count() or 1))
T0 = time.time()
os.environ["SIM_REPO"] = REPO

def die(msg):  # an error of the check, neither pass nor violation
    print("ERROR " + msg, flush=True); sys.exit(3)

# ------------------------------------------------------------------ build
CXX = "g++"
BASE = ["-std=c++20", "-DNDEBUG", "-DBOOST_DATE_TIME_NO_LIB", "-DFMT_SHARED", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL", "-DSPDLOG_SHARED_LIB",
        "-DJSON_HAS_THREE_WAY_COMPARISON=0", "-DFMT_DEPRECATED_OSTREAM", "-DFMT_CONSTEVAL=", "-O1", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
SAN = ["-fsanitize=address,bounds,return,unreachable,vptr", "-fno-sanitize-recover=all"]

def repo_files():
    out = []
    for d in ("include", "src", "apps"):
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(r, f) for f in fs]
    return sorted(out) + [f for f in [os.path.join(REPO, "version.txt")] if os.path.exists(f)]

def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode()); h.update(b"\0")
        try:
            with open(f, "rb") as fh: h.update(fh.read())
        except OSError: pass
        h.update(b"\1")
    return h.hexdigest()[:16]

def version(): # the build writes version.txt, git ignores it
    try: return open(os.path.join(REPO, "version.txt")).read().strip()
    except OSError: return "1.0.0"

def write_version(incdir):
    src = os.path.join(REPO, "include/cppsas7bdat/version.hpp.in")
    if not os.path.exists(src): return
    ver = version()
    parts = (ver.split(".") + ["0"] * 4)[:4]
    t = open(src).read()
    t = t.replace("@PROJECT_VERSION@", ver).replace("${PROJECT_VERSION}", ver)
    for n, v in zip(("MAJOR", "MINOR", "PATCH", "TWEAK"), parts):
        t = t.replace(f"@PROJECT_VERSION_{n}@", v).replace(f"@cppsas7bdat_VERSION_{n}@", v)
    t = re.sub(r"@[A-Za-z0-9_]*VERSION[A-Za-z0-9_]*@", ver, t)
    os.makedirs(os.path.join(incdir, "cppsas7bdat"), exist_ok=True)
    open(os.path.join(incdir, "cppsas7bdat/version.hpp"), "w").write(t)

def build():
    sim = sorted(os.path.join(V, "sim", f) for f in os.listdir(os.path.join(V, "sim")) if f.endswith((".cpp", ".hpp")))
    key = digest(repo_files() + sim, " ".join(BASE + SAN))
    root = os.path.join(V, "build"); d = os.path.join(root, key); exe = os.path.join(d, "sim")
    if os.path.exists(exe): return exe
    os.makedirs(root, exist_ok=True)
    for o in sorted(os.listdir(root), key=lambda x: os.path.getmtime(os.path.join(root, x)))[:-3]:
        if re.fullmatch(r"[0-9a-f]{16}(\.tmp\d+)?", o): shutil.rmtree(os.path.join(root, o), ignore_errors=True)
    tmp = d + ".tmp%d" % os.getpid(); os.makedirs(tmp, exist_ok=True)
    write_version(os.path.join(tmp, "inc"))
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(tmp, "inc")]
    jobs = []
    for f in sorted(os.listdir(os.path.join(V, "sim"))):
        if f.endswith(".cpp"): jobs.append([CXX] + BASE + SAN + inc + ["-fno-threadsafe-statics", "-c", os.path.join(V, "sim", f), "-o", os.path.join(tmp, "s_" + f + ".o")])
    for f in sorted(os.listdir(os.path.join(REPO, "src"))):
        if f.endswith(".cpp"): jobs.append([CXX] + BASE + SAN + inc + ["-fsanitize-coverage=trace-pc", "-c", os.path.join(REPO, "src", f), "-o", os.path.join(tmp, "l_" + f + ".o")])
    for f in sorted(os.listdir(os.path.join(REPO, "apps"))):
        if f.endswith(".cpp"): jobs.append([CXX] + BASE + SAN + inc + ["-fsanitize-coverage=trace-pc", "-Dmain=cli_main", "-c", os.path.join(REPO, "apps", f), "-o", os.path.join(tmp, "a_" + f + ".o")])
    jobs.sort(key=lambda j: -os.path.getsize(j[-3]))
    def run(j):
        p = subprocess.run(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout, j
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for rc, out, j in ex.map(run, jobs):
            if rc: shutil.rmtree(tmp, ignore_errors=True); die("cannot compile %s\n%s" % (j[-3], out[-4000:]))
    rc, out, _ = run([CXX] + SAN + ["-Wl,-z,muldefs"] + [os.path.join(tmp, f) for f in sorted(os.listdir(tmp)) if f.endswith(".o")] + ["-o", os.path.join(tmp, "sim"), "-lfmt", "-lspdlog", "-ldocopt", "-ldl", "-lpthread"])
    if rc: shutil.rmtree(tmp, ignore_errors=True); die("cannot link\n" + out[-4000:])
    for f in os.listdir(tmp):
        if f.endswith(".o"): os.unlink(os.path.join(tmp, f))
    try: os.rename(tmp, d)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return exe

# ------------------------------------------------------------------ running plans
class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="simv."); os.environ["SIM_SCRATCH"] = self.d; return self.d
    def __exit__(self, *a): shutil.rmtree(self.d, ignore_errors=True)

RUNNER = None # the language packages are run by tools/bind.py
def run_plans(exe, texts, scratch, wall=120):
    if RUNNER: return RUNNER(texts, scratch, wall)
    files = []
    for i, t in enumerate(texts):
        f = os.path.join(scratch, "p%d.%d.plan" % (os.getpid(), i)); open(f, "w").write(t); files.append(f)
    def one(f):
        p = subprocess.run([exe, "run", f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=dict(os.environ, SIM_WALL=str(wall)))
        try: return json.loads(p.stdout.splitlines()[0])
        except Exception: return {"cls": "internal", "detail": "no outcome", "hash": "", "ep": 0, "pins": ""}
    with cf.ThreadPoolExecutor(NCPU) as ex: return list(ex.map(one, files))

def episodes(text):
    out = []
    for l in text.splitlines():
        if l.startswith("#") or not l.strip(): continue
        if l.startswith("ep ") or not out: out.append([])
        out[-1].append(l)
    return out

def with_pins(ep, pins):
    pl = [p for p in pins.splitlines() if p.strip()]
    if not pl: return None
    out = []; done = False
    for l in ep:
        if l.startswith("auto sched"):
            out += pl if not done else []; done = True
        elif l.startswith("auto sweep"):
            out += pl if not done else []; done = True
        else: out.append(l)
    return out if done else None

def minimise(exe, text, cls, scratch, budget):
    """Shrinks the plan while the same class of violation persists."""
    end = time.time() + budget; tried = 0
    def bad(eps):
        nonlocal tried; tried += 1
        r = run_plans(exe, ["\n".join("\n".join(e) for e in eps) + "\n"], scratch, 60)[0]
        return r if r["cls"] == cls else None
    def bad_many(cands):  # first candidate that still fails
        nonlocal tried
        for i in range(0, len(cands), NCPU):
            if time.time() > end: return None
            part = cands[i:i + NCPU]; tried += len(part)
            for c, r in zip(part, run_plans(exe, ["\n".join(c) + "\n" for c in part], scratch, 60)):
                if r["cls"] == cls: return c
        return None
    eps = episodes(text); r = bad(eps)
    if not r: return text, tried
    ep = eps[r["ep"]] if r["ep"] < len(eps) else eps[-1]
    r1 = bad([ep])
    if not r1: return text, tried
    pinned = with_pins(ep, r1["pins"])
    if pinned and bad([pinned]): ep = pinned
    # drop lines, in chunks
    def keep(l): return l.startswith("ep ")
    n = max(1, (len(ep) - 1) // 2)
    while time.time() < end:
        changed = False; i = 1; cands = []
        while i < len(ep): cands.append(ep[:i] + ep[i + n:]); i += n
        c = bad_many(cands)
        if c is not None: ep = c; changed = True
        if not changed:
            if n == 1: break
            n = max(1, n // 2)
        elif n > len(ep): n = max(1, (len(ep) - 1) // 2)
    # smaller numbers
    progress = True
    while progress and time.time() < end:
        progress = False
        for i, l in enumerate(ep):
            if time.time() > end: break
            w = l.split()
            if w[0] in ("ep", "data", "rdr", "sw", "edit", "raw", "flt"): continue
            idx = [k for k in range(1, len(w)) if re.fullmatch(r"-?\d+", w[k]) and int(w[k]) > 1 and not (w[0] in ("op", "top", "dp", "fault", "name", "in", "cut") and k == 1)]
            if w[0] == "dp" and w[2] == "seed": idx = []
            for k in idx:
                v = int(w[k]); cands = []
                for nv in (1, v // 4, v // 2, v - 1):
                    if 0 <= nv < v: x = list(w); x[k] = str(nv); cands.append(ep[:i] + [" ".join(x)] + ep[i + 1:])
                c = bad_many(cands)
                if c is not None: ep = c; w = ep[i].split(); progress = True
    return "\n".join(ep) + "\n", tried

# ------------------------------------------------------------------ known findings
def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(V, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) id=(\S+) counter=(\S+) (.*)", l)
            if m and m.group(1) == prop: out.append(m.groups()[1:])
    except OSError: pass
    return out

INFO = json.load(open(os.path.join(V, "tools", "info.json")))

def search(exe, prop, tier, seed, seconds, scratch):
    procs = []
    for i in range(NCPU):
        sf = os.path.join(scratch, "shape.%d" % i)
        procs.append((sf, subprocess.Popen([exe, "batch", prop, tier, str(seed), str(i), str(NCPU), "100000000", str(seconds), sf], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
    bads = []; hashes = []; counters = {}; runs = 0; longest = 0; shapes = set(); edges = bytearray(8192)
    for sf, p in procs:
        out, _ = p.communicate()
        okay = False
        for l in out.splitlines():
            try: j = json.loads(l)
            except Exception: continue
            if j["type"] == "bad": bads.append(j)
            elif j["type"] == "hash": hashes.append((j["seed"], j["hash"]))
            elif j["type"] == "sum":
                okay = True; runs += j["runs"]; longest = max(longest, j["longest"])
                for k, v in j["counters"].items(): counters[k] = counters.get(k, 0) + v
        if not okay: die("a worker of the simulator died (status %s)" % p.returncode)
        b = open(sf, "rb").read(); shapes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        e = open(sf + ".edges", "rb").read()
        for k in range(min(len(e), 8192)): edges[k] |= e[k]
    return dict(bads=bads, hashes=hashes, counters=counters, runs=runs, longest=longest, shapes=shapes, edges=sum(bin(x).count("1") for x in edges))

def report_violation(exe, prop, bads, scratch):
    """Confirms and minimises the first reproducible violation. Exits."""
    errors = []
    order = sorted(bads, key=lambda x: (x["cls"] == "timeout", x["seed"]))[:8]
    # second round: code whose answer depends on something outside of the plan (an uninitialised field, say) fails every time in the same way but with other details
    for b, loose in [(b, False) for b in order] + [(b, True) for b in order]:
        if b["cls"] == "internal": errors.append(b["detail"]); continue
        text = subprocess.run([exe, "gen", prop, TIER, str(b["seed"])], stdout=subprocess.PIPE, text=True).stdout
        wall = 400 if b["cls"] == "timeout" else 150
        r = run_plans(exe, [text, text, text] if loose else [text, text], scratch, wall)
        if any(x["cls"] != b["cls"] for x in r) or not loose and (r[0]["hash"] != r[1]["hash"] or r[0]["detail"] != r[1]["detail"]):
            errors.append("seed %d: %s, then %s" % (b["seed"], b["cls"], [x["cls"] for x in r])); continue
        small, tried = (text, 0) if b["cls"] == "timeout" or loose else minimise(exe, text, b["cls"], scratch, 90 if TIER == "quick" else 240)
        fin = run_plans(exe, [small, small], scratch, wall)
        if fin[0]["cls"] != b["cls"] or not loose and fin[0] != dict(fin[1], secs=fin[0]["secs"]):
            small = text; fin = r
        if loose: fin[0]["hash"] = "varies"
        rd = os.path.join(V, "replays"); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%d.plan" % (prop, b["seed"]))
        with open(path, "w") as f:
            f.write("# property %s seed %d tier %s VERIF_SEED %d\n# class %s\n# %s\n# hash %s\n# replay: python3 tools/check.py replay %s\n" % (prop, b["seed"], TIER, SEED, b["cls"], fin[0]["detail"].splitlines()[0] if fin[0]["detail"] else "", fin[0]["hash"], path))
            f.write(small)
        again = run_plans(exe, [open(path).read()], scratch, wall)[0]
        if again["cls"] != b["cls"] or not loose and again["hash"] != fin[0]["hash"]:
            errors.append("seed %d: the replay file does not reproduce" % b["seed"]); continue
        print("%s: %s" % (b["cls"], fin[0]["detail"][:600])); print("seed %d, %d lines after %d minimising runs" % (b["seed"], len(small.splitlines()), tried))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return path, b
    die("violations that do not reproduce: " + "; ".join(errors)[:2000])

def main():
    if len(sys.argv) < 2: die("usage")
    if sys.argv[1] == "build":
        import bind
        print(build()); print(bind.build()); return 0
    if sys.argv[1] in ("C16", "C17"):
        import bind
        return bind.main(sys.argv[1])
    if sys.argv[1] == "replay":
        global RUNNER
        exe = build(); text = open(sys.argv[2]).read()
        m = re.search(r"^ep (py|r)\b", text, re.M)
        if m:
            import bind
            bind.prepare(exe, "C16" if m.group(1) == "py" else "C17"); RUNNER = bind.run_texts
        with Scratch() as s: r = run_plans(exe, [text], s, 400)[0]
        print(json.dumps(r)); m = re.search(r"^# class (.*)$", text, re.M); h = re.search(r"^# hash (.*)$", text, re.M)
        same = m and r["cls"] == m.group(1) and (not h or h.group(1) in ("varies", r["hash"]))
        print("reproduced" if same else "not reproduced"); return 1 if same else 0
    prop = sys.argv[1]; info = INFO["props"][prop]
    if TIER not in ("quick", "thorough"): die("tier")
    exe = build(); tb = time.time()
    seconds = float(os.environ.get("SIM_SECONDS", info.get(TIER + "_seconds", 50 if TIER == "quick" else 700)))
    with Scratch() as scratch:
        s = search(exe, prop, TIER, SEED, seconds, scratch); ts = time.time()
        viol = None
        if s["bads"]: viol = report_violation(exe, prop, s["bads"], scratch)
        # determinism of a sample: fresh processes, another worker
        sample = s["hashes"][:: max(1, len(s["hashes"]) // 24)][:24] if not viol else []
        texts = [subprocess.run([exe, "gen", prop, TIER, str(sd)], stdout=subprocess.PIPE, text=True).stdout for sd, _ in sample]
        res = run_plans(exe, texts, scratch, 200) if texts else []
        diff = sum(1 for (sd, h), r in zip(sample, res) if r["hash"] != h)
        c = s["counters"]
        if not viol:
            for kid, counter, text in known_findings(prop):
                if c.get(counter, 0): print("KNOWN-FINDING: property=%s %s" % (prop, text), flush=True)
        secs = ts - tb
        stubs = sorted(set(INFO["stub"] + info.get("stub", [])))
        samp = []
        for sd, _ in s["hashes"][:2] or [(0, "")]:
            if sd: samp.append({"seed": sd, "plan_first_episode": episodes(subprocess.run([exe, "gen", prop, TIER, str(sd)], stdout=subprocess.PIPE, text=True).stdout)[0][:60]})
        ev = {"property": prop, "tier": TIER, "seed": SEED, "level": info.get("level", "exploration"),
              "coverage": {"evaluations": c.get("episodes", 0), "distinct_nontrivial": len(s["shapes"]), "rule": info["rule"], "samples": samp,
                           "simulated_runs": s["runs"], "seeds_per_hour": round(s["runs"] * 3600 / max(secs, 1)), "episodes_per_hour": round(c.get("episodes", 0) * 3600 / max(secs, 1)),
                           "simulated_time": "the code has no clock; simulated progress: %d reader operations, %d rows and %d values compared with the model" % (c.get("ops", 0), c.get("rows", 0), c.get("values", 0)),
                           "faults_fired": {k[6:]: v for k, v in sorted(c.items()) if k.startswith("fault.")},
                           "probes": {k[6:]: v for k, v in sorted(c.items()) if k.startswith("probe.")},
                           "schedules": {k[6:]: v for k, v in sorted(c.items()) if k.startswith("sched.")},
                           "states_measure": "distinct_nontrivial counts distinct (file parameters, configuration, call history, fault plan and, with threads, schedule) hashes, one per episode (per failing allocation for sweeps); %d of 65536 library control-flow edges (hashed) were reached" % s["edges"],
                           "library_edges_reached": s["edges"], "known_findings_seen": {k[6:]: v for k, v in c.items() if k.startswith("known.")},
                           "determinism_sample": {"seeds_rerun_in_fresh_processes": len(res), "different": diff},
                           "longest_run_s": s["longest"], "real_components": INFO["real"] + info.get("real", []), "stub_components": stubs},
              "assumptions": INFO["assumptions"] + info.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": 1 if viol else 0}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
        print("%s %s: %d runs, %d episodes, %d distinct, %d edges, %.0f s%s" % (prop, TIER, s["runs"], c.get("episodes", 0), len(s["shapes"]), s["edges"], time.time() - T0, ", %d of %d reruns differ" % (diff, len(res)) if diff else ""))
        return 1 if viol else 0
if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
