"""Stand-in for pandas, which is not installed here: just what pycppsas7bdat.sink asks for."""
class DataFrame(object):
    def __init__(self, data=None, columns=None, copy=None):
        if data is None: data = {}
        if isinstance(data, dict):
            self.columns = list(data) if columns is None else list(columns)
            n = max([len(v) for v in data.values()] or [0])
            if len({len(v) for v in data.values()}) > 1: raise ValueError("All arrays must be of the same length")
            self.cols = {c: list(data[c]) if c in data else [float("nan")] * n for c in self.columns}; self.n = n
        else:
            rows = [list(r) for r in data]; self.columns = list(columns or []); self.n = len(rows)
            for r in rows:
                if len(r) != len(self.columns): raise ValueError("%d columns passed, passed data had %d columns" % (len(self.columns), len(r)))
            self.cols = {c: [r[k] for r in rows] for k, c in enumerate(self.columns)}
    @classmethod
    def from_records(cls, data, columns=None): return cls(list(data), columns=columns)
    def rows(self): return [[self.cols[c][i] for c in self.columns] for i in range(self.n)]
def concat(objs, **kw):
    objs = list(objs)
    if not objs: raise ValueError("No objects to concatenate")
    d = DataFrame([], columns=objs[0].columns); d.n = sum(o.n for o in objs)
    for c in d.columns: d.cols[c] = [v for o in objs for v in o.cols[c]]
    return d
