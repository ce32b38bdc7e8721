"""Plays plans against the Python package. One directory per line on stdin; each is played in a fork of this warm process."""
import gc, json, os, signal, sys, time, weakref
from datetime import date, datetime, time as dtime, timedelta
sys.dont_write_bytecode = True
import pycppsas7bdat
from pycppsas7bdat import Reader
import pycppsas7bdat.sink as rsink
import pycppsas7bdat.read_sas as rread
import pandas
EPOCH = date(1960, 1, 1)
import ctypes
OOM = ctypes.CDLL(None) # shim.c is preloaded
def oom_arm(n, persistent): OOM.sim_oom_arm(ctypes.byref(ctypes.c_int(n)), ctypes.byref(ctypes.c_int(persistent)))
def oom_pause(d): OOM.sim_oom_pause(ctypes.byref(ctypes.c_int(d)))
def oom_disarm(): x = ctypes.c_int(0); OOM.sim_oom_disarm(ctypes.byref(x)); return x.value

def ser(v):
    if v is None: return None
    t = type(v)
    if t is bytes: return ["s", v.hex()]
    if t is float: return ["f", None] if v != v else ["f", "%.17g" % v]
    if t is int: return ["i", v]
    if t is datetime: return ["dt", (v.date() - EPOCH).days, ((v.hour * 60 + v.minute) * 60 + v.second) * 1000000 + v.microsecond]
    if t is date: return ["d", (v - EPOCH).days]
    if t is dtime: return ["t", ((v.hour * 60 + v.minute) * 60 + v.second) * 1000000 + v.microsecond]
    if t is timedelta: return ["t", (v.days * 86400 + v.seconds) * 1000000 + v.microseconds]
    if t.__module__ == "numpy": return ser(v.item())
    return ["?", t.__name__]
def ser_rows(rows): return {k: [ser(x) for x in rows[k]] for k in rows}
def ser_props(p):
    o = {}
    for k in ("format", "endianness", "platform", "compression"): o[k] = str(getattr(p, k).name)
    for k in ("dataset_name", "encoding", "file_type", "sas_release", "sas_server_type", "os_type", "os_name", "creator", "creator_proc"): o[k] = getattr(p, k)
    for k in ("header_length", "page_length", "page_count", "row_length", "row_count", "column_count", "col_count_p1", "col_count_p2", "mix_page_row_count", "lcs", "lcp"): o[k] = getattr(p, k)
    for k in ("date_created", "date_modified"): o[k] = ser(getattr(p, k))
    o["columns"] = [[c.name, c.label, c.format, c.type.name] for c in p.columns]
    return o

class SimError(Exception): pass
class SimBase(BaseException): pass

class World(object):
    def __init__(self, d, ep, out):
        self.d = d; self.j = json.load(open(os.path.join(d, ep + ".json"))); self.out = out; self.slots = {}; self.kept = []; self.stack = []; self.nraise = 0; self.live = []
        self.cfg = {}; self.cbf = {}; self.oom = {}; self.nop = {}; self.armed = 0; self.pf = set(); self.nest = {}; ops = []
        for l in self.j["lines"]:
            if l[0] == "rdr": self.cfg[int(l[1])] = dict(x.split("=", 1) for x in l[2:])
            elif l[0] == "fault" and l[2] == "cb": self.cbf.setdefault(int(l[1]), set()).add(int(l[3]))
            elif l[0] == "fault" and l[2] == "oom": self.oom[(int(l[1]), int(l[3]))] = (int(l[4]), int(l[5]))
            elif l[0] == "fault" and l[2] == "props": self.pf.add(int(l[1]))
            elif l[0] == "fault" and l[2] == "nofile": self.j["readers"][l[1]]["path"] = "missing"
            elif l[0] == "nest": self.nest.setdefault(int(l[1]), []).append((int(l[2]), l[3:]))
            elif l[0] == "gcthr": gc.set_threshold(int(l[1]), 2, 2)
            elif l[0] == "op": ops.append(l[1:])
        self.ops = ops
    def log(self, **kw): self.out.write(json.dumps(kw) + "\n")

    # ---- callbacks
    def raise_(self):
        self.nraise += 1; e = (SimBase if self.nraise % 5 == 4 else SimError)("tag%d" % self.nraise); e.tag = self.nraise; self.log(e="raise", tag=self.nraise); raise e
    def keep(self, obj, fn): self.kept.append((obj, fn, json.dumps(fn(obj))))
    def on_props(self, slot, sink, p):
        if not self.armed: return self.on_props_(slot, sink, p)
        oom_pause(1)
        try: self.on_props_(slot, sink, p)
        finally: oom_pause(-1)
    def on_data(self, slot, m, args, ser_, obj):
        if not self.armed: return self.on_data_(slot, m, args, ser_, obj)
        oom_pause(1)
        try: self.on_data_(slot, m, args, ser_, obj)
        finally: oom_pause(-1)
    def on_props_(self, slot, sink, p):
        self.log(e="props", s=slot, p=ser_props(p)); self.keep(p, ser_props)
        h = getattr(sink, "_cpp", None)
        if self.stack: self.slots.setdefault(self.stack[-1], {})["cpp"] = h
        if slot in self.pf: self.pf.discard(slot); self.raise_()
    def on_data_(self, slot, m, args, ser_, obj):
        st = self.slots.setdefault(slot, {}); k = st.get("cb", 0); st["cb"] = k + 1
        self.log(e="cb", s=slot, m=m, a=args, v=ser_(obj)); self.keep(obj, ser_)
        for kk, op in self.nest.get(slot, ()):
            if kk == k: self.nested(op)
        if k in self.cbf.get(slot, ()): self.raise_()
    def nested(self, op):
        if op[0] == "gc": self.op(op); return
        if int(op[1]) in self.stack: return
        self.op(op)

    # ---- operations
    def make_sink(self, i):
        W = self; kind = self.cfg[i]["sink"]; n = int(self.cfg[i].get("chunk", 1))
        if kind.startswith("same:"): return self.slots.get(int(kind[5:]), {}).get("sink") or self.make(i, "row", n)
        return self.make(i, kind, n)
    def make(self, i, kind, n):
        W = self; sr = lambda row: [ser(x) for x in row]
        class Base(object):
            def set_properties(self, p): W.on_props(i, self, p)
        if kind == "row":
            class S(Base):
                def push_row(self, irow, row): W.on_data(i, "row", [irow], sr, row)
        elif kind == "chunk":
            class S(Base):
                def __init__(self): self.chunk_size = n
                def push_rows(self, a, b, rows): W.on_data(i, "rows", [a, b], ser_rows, rows)
        elif kind == "data":
            class S(Base):
                def set_data(self, rows): W.on_data(i, "data", [], ser_rows, rows)
        elif kind == "slots":
            class S(object):
                __slots__ = ("__weakref__",)
                def set_properties(self, p): W.on_props(i, self, p)
                def push_row(self, irow, row): W.on_data(i, "row", [irow], sr, row)
        elif kind == "byrow":
            class S(rsink.SinkByRow):
                def set_properties(self, p): rsink.SinkByRow.set_properties(self, p); W.on_props(i, self, p)
                def push_row(self, irow, row): rsink.SinkByRow.push_row(self, irow, row); W.on_data(i, "row", [irow], sr, row)
        elif kind == "bychunk":
            class S(rsink.SinkByChunk):
                def __init__(self): rsink.SinkByChunk.__init__(self, n)
                def set_properties(self, p): rsink.SinkByChunk.set_properties(self, p); W.on_props(i, self, p)
                def push_rows(self, a, b, rows): rsink.SinkByChunk.push_rows(self, a, b, rows); W.on_data(i, "rows", [a, b], ser_rows, rows)
        elif kind == "whole":
            class S(rsink.SinkWholeData):
                def set_properties(self, p): rsink.SinkWholeData.set_properties(self, p); W.on_props(i, self, p)
                def set_data(self, rows): rsink.SinkWholeData.set_data(self, rows); W.on_data(i, "data", [], ser_rows, rows)
        else:
            class S(object):
                def push_row(self, irow, row): W.on_data(i, "row", [irow], sr, row)
        s = S(); W.live.append((i, weakref.ref(s))); return s

    def op(self, w):
        o = w[0]; i = int(w[1]) if len(w) > 1 else -1; n = int(w[2]) if len(w) > 2 else 0; st = self.slots.setdefault(i, {}); r = st.get("r")
        if o in ("row", "rows", "all", "skip", "eod", "idx", "props", "df") and o != "df" and r is None: return
        if o == "flush" and st.get("cpp") is None: return
        if o == "df" and not hasattr(type(st.get("sink")), "df"): return
        if o in ("open", "read_sas") and i not in self.cfg: return
        if i in self.stack and o != "gc": return
        k = self.nop.get(i, 0); self.nop[i] = k + 1; oom = 0; arm = self.oom.get((i, k)) if not self.armed else None
        self.log(e="op", w=w); self.stack.append(i); ret = None; exc = None; fired = False
        if o in ("gc", "df", "read_sas"): arm = None
        try:
            if o == "open":
                st["r"] = None; r = None; st["cpp"] = None; c = self.j["readers"][str(i)]; sink = self.make_sink(i); st["sink"] = sink; args = {}; path = os.path.join(self.d, c["path"])
                if c["inc"]: args["include"] = list(c["inc"])
                if c["exc"]: args["exclude"] = list(c["exc"])
                if arm: self.armed = 1; oom_arm(*arm)
                st["r"] = Reader(path, sink, **args); del sink
            elif arm:
                self.armed = 1
                if o == "row": oom_arm(*arm); ret = r.read_row()
                elif o == "rows": oom_arm(*arm); ret = r.read_rows(n)
                elif o == "all": oom_arm(*arm); ret = r.read_all()
                elif o == "skip": oom_arm(*arm); ret = r.skip(n)
                elif o == "eod": oom_arm(*arm); ret = r.end_of_data()
                elif o == "idx": oom_arm(*arm); ret = r.current_row_index
                elif o == "props": oom_arm(*arm); p = r.properties(); oom = oom_disarm(); ret = ser_props(p); self.keep(p, ser_props); p = None
                elif o == "flush": p = st["cpp"]; oom_arm(*arm); ret = p.flush_sink(); p = None
                elif o == "drop": oom_arm(*arm); st["r"] = None; r = None
                elif o == "dropsink": oom_arm(*arm); st["sink"] = None
            elif o == "row": ret = r.read_row()
            elif o == "rows": ret = r.read_rows(n)
            elif o == "all": ret = r.read_all()
            elif o == "skip": ret = r.skip(n)
            elif o == "eod": ret = r.end_of_data()
            elif o == "idx": ret = r.current_row_index
            elif o == "props": p = r.properties(); ret = ser_props(p); self.keep(p, ser_props); p = None
            elif o == "flush": ret = st["cpp"].flush_sink()
            elif o == "drop": st["r"] = None; r = None
            elif o == "dropsink": st["sink"] = None
            elif o == "gc": gc.collect()
            elif o == "df":
                d = st["sink"].df; ret = None if d is None else {"columns": list(d.columns), "rows": [[ser(x) for x in row] for row in d.rows()]}
            elif o == "read_sas":
                c = self.j["readers"][str(i)]; sink = self.make_sink(i) if n else None
                args = {}
                if c["inc"]: args["include"] = list(c["inc"])
                if c["exc"]: args["exclude"] = list(c["exc"])
                st["sink"] = rread.read_sas(os.path.join(self.d, c["path"]), sink=sink, **args); ret = type(st["sink"]).__name__ if not n else "own"; sink = None
            if arm: oom += oom_disarm(); self.armed = 0
        except (Exception, SimBase) as e:
            if arm: oom += oom_disarm(); self.armed = 0
            e.__traceback__ = None; tag = getattr(e, "tag", None); exc = {"type": type(e).__name__, "tag": tag, "std": isinstance(e, Exception), "msg": str(e).replace(self.d, "@")}; e = None
        self.stack.pop()
        err = None
        try: repr(gc) # an error left pending would show up in the next call that succeeds
        except BaseException as e: err = type(e).__name__
        f = []
        if i >= 0 and str(i) in self.j["readers"]:
            p = os.path.join(self.d, self.j["readers"][str(i)]["path"] + ".fired")
            if os.path.exists(p): f = open(p).read().split()
        self.log(e="end", w=w, ret=ret, exc=exc, err=err, fired="eio" in f, oom=bool(oom))
    def run(self):
        for w in self.ops: self.op(w); self.out.flush()
        self.check_kept()
        for st in self.slots.values(): st["r"] = None
        self.check_kept()
        for st in self.slots.values(): st.clear()
        self.kept = []; gc.collect(); gc.collect()
        self.log(e="done", alive=[i for i, s in self.live if s() is not None])
    def check_kept(self):
        for obj, fn, was in self.kept:
            now = json.dumps(fn(obj))
            if now != was: self.log(e="changed", was=was, now=now); break

def play(d):
    with open(os.path.join(d, "log"), "w") as out:
        k = 0
        while os.path.exists(os.path.join(d, "e%d.json" % k)):
            gc.set_threshold(700, 10, 10)
            out.write(json.dumps({"e": "ep", "k": k}) + "\n"); out.flush()
            w = World(d, "e%d" % k, out); w.run(); del w; k += 1
        out.write('{"e":"finished"}\n')

def main():
    wall = float(os.environ.get("SIM_WALL", "60"))
    print("ready", flush=True)
    for line in sys.stdin:
        d = line.strip()
        if not d: continue
        pid = os.fork()
        if pid == 0:
            try:
                fd = os.open(os.path.join(d, "err"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600); os.dup2(fd, 2); os.dup2(fd, 1)
                play(d); os._exit(0)
            except BaseException:
                import traceback; traceback.print_exc(); sys.stderr.flush(); os._exit(3)
        t0 = time.time(); st = None
        while True:
            p, s = os.waitpid(pid, os.WNOHANG)
            if p: st = s; break
            if time.time() - t0 > wall: os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); break
            time.sleep(0.002)
        print("timeout" if st is None else "exit %d" % os.WEXITSTATUS(st) if os.WIFEXITED(st) else "signal %d" % os.WTERMSIG(st), flush=True)
if __name__ == "__main__": main()
