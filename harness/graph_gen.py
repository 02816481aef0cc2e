"""Seeded random histories over the real library for spec/Graph.tla."""
from common import *
import graph

NAMES = ["a", "b", "c", "d", "w", "_p", "x1", "x10", "a1", "aa", "a_b", "Z", "x2", "_g"]
VT = ["Param", "BatchStat", "Cache", "Intermediate", "Variable", "MyParam", "MyVar", "Node"]
COMMON = {"new": 3, "set": 14, "del": 1, "get": 1}
MIX = {
    "C01": {"clone": 3, "part": 4, "pmerge": 4, "merge": 4, "set": 16, "def": 1, "state": 1},
    "C02": {"state": 8, "set": 18, "upd": 3, "pop": 1, "del": 2, "sow": 1, "part": 1, "pmerge": 1},
    "C03": {"part": 6, "filt": 6, "spart": 5, "sfilt": 5, "pfilt": 2, "ppart": 2, "state": 2},
    "C04": {"upd": 10, "smk": 5, "state": 2, "part": 3, "clone": 1, "set": 16},
    "C05": {"pop": 10, "upd": 2, "set": 18, "sow": 2},
    "C06": {"idef": 2, "def": 6, "deq": 10, "dflat": 2, "clone": 2, "set": 14, "part": 1, "deepcopy": 1, "pickle": 1},
    "C07": {"mdict": 2, "mlget": 4, "mlset": 6, "set": 30, "get": 8, "del": 4, "upd": 1, "sow": 1},
    "C08": {"apply": 5, "papply": 4, "dapply": 3, "pcall": 4, "run": 4, "part": 4, "set": 12},
    "C09": {"sow": 20, "pop": 2, "set": 8, "get": 3, "run": 1},
    "C10": {"each": 8, "init": 8, "set": 14, "run": 1},
    "C11": {"part": 4, "pget": 3, "pfilt": 3, "ppart": 4, "ppop": 4, "pupd": 6, "pmerge": 3, "state": 2, "smk": 2},
    "C12": {"smk": 6, "smerge": 5, "sor": 6, "ssub": 5, "smap": 3, "sflat": 4, "sget": 3, "state": 2, "spart": 2},
    "C36": {"copy": 3, "deepcopy": 3, "pickle": 3, "state": 3, "clone": 2, "each": 3, "set": 14},
}


class Gen:

  def __init__(self, ex, r, pid):
    self.ex, self.r, self.pid = ex, r, pid
    self.held = []
    w = dict(COMMON)
    w.update(MIX[pid])
    self.ops, self.w = list(w), [w[k] for k in w]

  # -- small choices
  def module(self):
    return self.r.randint(1, len(self.ex.heap))

  def name(self, m=None):
    r = self.r
    if m is not None and self.ex.heap[m - 1]["a"] and r.random() < 0.6:
      return r.choice(sorted(self.ex.heap[m - 1]["a"]))
    return r.choice(NAMES[:7] if r.random() < 0.7 else NAMES)

  def md(self, ty):
    r = self.r
    md = {} if ty in ("Node", "TreeNode") else {"sharding": r.choice(["None", "None", "(x,y)", "(z)"])}
    if r.random() < 0.2:
      md["tag"] = r.choice(["t", "u"])
    return md

  def value(self, depth=2):
    """any plain value: negative numbers, numbers of equal hashes, empty, nested"""
    r = self.r
    k = r.random()
    if k < 0.55:
      return ["i", r.choice([-2, -1, 0, 1, r.randint(-40, 40), r.randint(0, 99999)])]
    if k < 0.67:
      return ["n", 0]
    if k < 0.77 or depth == 0:
      return ["s", r.choice(["p", "q", "", "params", "..."])]
    return ["t", [self.value(depth - 1) for _ in range(r.randint(0, 3))]]

  def leaf(self, node_only=False, like=None):
    r = self.r
    v = ["i", r.randint(-9, 30)]
    wide = self.value() if r.random() < 0.2 else v
    if like and like["k"] == "var" and r.random() < 0.8:
      return {"k": "var", "ty": like["ty"], "md": like["md"], "v": wide}
    k = r.random()
    if k < 0.6 or node_only and k < 0.8:
      ty = r.choice(VT + ["TreeNode"])
      return {"k": "var", "ty": ty, "md": self.md(ty), "v": wide}
    if k < 0.8 or node_only:
      return {"k": "arr", "ty": r.choice(["np", "np", "np", "np", "jax", "jax", "Tree", "Reg", "State"]), "v": v}
    if k < 0.93:
      return {"k": "static", "v": r.choice([v, wide, ["i", r.randint(-2, 2)], ["s", r.choice("pq")], ["t", [["i", 1], ["i", r.randint(0, 1)]]]])}
    return {"k": "cstatic", "v": ["i", r.randint(-2, 3)]}

  def filter(self, depth=2):
    r = self.r
    k = r.random()
    if k < 0.5 or depth == 0:
      return ["type", r.choice(["Param", "BatchStat", "Variable", "Node", "MyParam", "Intermediate", "Cache",
                                "np", "jax", "Container", "object", "Tree", "Pytree", "Reg", "State", "TreeNode"])]
    if k < 0.62:
      return ["path", self.name()]
    if k < 0.72:
      return ["under", self.name()]
    if k < 0.76:
      return ["val", r.randint(0, 9)]
    if k < 0.79:
      return ["none"]
    if k < 0.82:
      return ["..."] if depth < 2 else ["none"]
    if k < 0.83:
      return ["bad", r.choice(["str", "int", "list", "dict"])]
    if k < 0.93:
      return [r.choice(["tuple", "any", "all"]), [self.filter(depth - 1) for _ in range(r.randint(0, 3))]]
    return ["not", self.filter(depth - 1)]

  def filters(self, exhaustive=0.8, lo=1):
    r = self.r
    fs = [self.filter() for _ in range(r.randint(lo, 3))]
    if r.random() < exhaustive:
      fs.append(["..."])
    elif r.random() < 0.1 and fs:
      fs.insert(0, ["..."])
    return fs

  def state_refs(self, pred=None):
    out = []
    for i, p in enumerate(self.ex.rproj):
      if p["t"] in ("state", "states", "pure"):
        for j in range(len(p["ss"])):
          out.append([i + 1, j + 1])
    return out

  def entries(self, ref):
    return self.ex.rproj[ref[0] - 1]["ss"][ref[1] - 1]

  def defs(self):
    return [i + 1 for i, p in enumerate(self.ex.rproj) if p["t"] in ("def", "pure")]

  def pures(self):
    return [i + 1 for i, p in enumerate(self.ex.rproj) if p["t"] == "pure"]

  def mod_at(self, m, path, heap=None):
    for n in path:
      e = (heap or self.ex.heap)[m - 1]["a"].get(n)
      if not e or e["k"] != "mod":
        return 0
      m = e["r"]
    return m

  def merge_ok(self, p):
    """the states of pure register p fit its definition, one path per slot"""
    d = self.ex.rproj[p - 1]["d"]
    return self.update_ok(1, self.ex.rproj[p - 1]["ss"], d)

  def update_ok(self, m, entry_lists, heap=None):
    """different paths name different slots, no submodule is overwritten, parents exist"""
    slots = {}
    for es in entry_lists:
      for p, _ in es:
        t = self.mod_at(m, p[:-1], heap)
        if not t:
          return False
        if (heap or self.ex.heap)[t - 1]["a"].get(p[-1], {}).get("k") == "mod":
          return False
        if self.pid == "C06" and (heap or self.ex.heap)[t - 1]["a"].get(p[-1], {}).get("k") == "cstatic":
          return False      # a static container holding an array is not hashable
        if slots.setdefault((t, p[-1]), tuple(p)) != tuple(p):
          return False
    return True

  def paths(self, m, depth=3):
    """paths to reachable modules, through any alias, bounded"""
    out, todo = [((), m)], [((), m)]
    while todo:
      p, x = todo.pop()
      if len(p) >= depth:
        continue
      for n, e in sorted(self.ex.heap[x - 1]["a"].items()):
        if e["k"] == "mod":
          out.append(((*p, n), e["r"]))
          todo.append(((*p, n), e["r"]))
    return out

  def prog(self, nested=True):
    r = self.r
    out = []
    for _ in range(r.randint(0, 3)):
      path = [] if r.random() < 0.7 else [self.name()]
      e = self.expr()
      k = r.random()
      if k < 0.4:
        out.append(["set", path, self.name(), e])
      elif k < 0.6:
        out.append(["mkvar", path, self.name(), r.choice(VT[:5]), e])
      elif k < 0.7:
        out.append(["mkmod", path, self.name(), r.choice("ABC")])
      elif k < 0.85:
        out.append(["sow", path, "Intermediate", r.choice(["h", "i2", self.name()]), e])
      else:
        out.append(["del", path, self.name()])
    k = r.random()
    if k < 0.8:
      out.append(["ret", self.expr()])
    elif k < 0.9:
      out.append(["raise"])
    return out

  def expr(self, d=2):
    r = self.r
    k = r.random()
    if d == 0 or k < 0.3:
      return ["c", r.randint(0, 9)]
    if k < 0.5:
      return ["arg", r.randint(1, 2)]
    if k < 0.75:
      return ["at", [], self.name()]
    return [r.choice(["+", "+", "*"]), self.expr(d - 1), self.expr(d - 1)]

  def prog_for(self, m):
    """a program over names that exist in the module, so that most of them succeed"""
    r = self.r
    a = self.ex.heap[m - 1]["a"] if m else {}
    nums = [n for n, e in sorted(a.items()) if e["k"] != "mod" and e["v"][0] == "i"]
    free = [n for n in NAMES if n not in a]

    def ex(d=2):
      k = r.random()
      if nums and k < 0.45:
        return ["at", [], r.choice(nums)]
      if d == 0 or k < 0.6:
        return r.choice([["c", r.randint(0, 9)], ["arg", r.randint(1, 2)]])
      return [r.choice(["+", "*"]), ex(d - 1), ex(d - 1)]
    out = []
    for _ in range(r.randint(0, 3)):
      k = r.random()
      if k < 0.5 and nums:
        out.append(["set", [], r.choice(nums), ex()])
      elif k < 0.65:
        out.append(["mkvar", [], r.choice(free), r.choice(VT[:5]), ex()])
      elif k < 0.75:
        out.append(["mkmod", [], r.choice(free), r.choice("ABC")])
      elif k < 0.95:
        out.append(["sow", [], "Intermediate", r.choice(["h", "i2"]), ex()])
      elif a:
        out.append(["del", [], r.choice(sorted(a))])
    if r.random() < 0.9:
      out.append(["ret", ex()])
    elif r.random() < 0.5:
      out.append(["raise"])
    return out

  def call(self, o, m):
    """m: abstract id of a module that looks like the callee (for choosing the accessor), or 0"""
    r = self.r
    acc, t = [], m
    if m:
      path, t = r.choice(self.paths(m))
      x = m
      for n in path:
        kind = "item" if self.ex.heap[x - 1]["c"] == "D" and r.random() < 0.6 else "attr"
        acc.append([kind, n])
        x = self.ex.heap[x - 1]["a"][n]["r"]
      acc = self.shorten(m, acc)
      if r.random() < 0.03:
        acc.append(["attr", "zz"])
    prog = self.prog_for(t) if r.random() < 0.75 else self.prog()
    return {"o": o, "acc": acc, "args": [r.randint(0, 9), r.randint(0, 9)], "prog": prog,
            "direct": int(r.random() < 0.5)}

  def shorten(self, m, acc):
    """replace accesses on modules of class C by positions and paths"""
    r, out = self.r, []
    x, i = m, 0
    while i < len(acc):
      a = self.ex.heap[x - 1]["a"]
      n = 1
      if self.ex.heap[x - 1]["c"] == "C" and r.random() < 0.7:
        subs = sorted(k for k, e in a.items() if e["k"] == "mod")
        if r.random() < 0.5:
          k = subs.index(acc[i][1])
          out.append(["idx", k - r.choice([0, len(subs)])])
        else:
          n = r.randint(1, len(acc) - i)
          out.append(["tup", [z[1] for z in acc[i:i + n]]])
      else:
        out.append(acc[i])
      for z in acc[i:i + n]:
        x = self.ex.heap[x - 1]["a"][z[1]]["r"]
      i += n
    if r.random() < 0.04:
      out.append(["idx", r.randint(-2, 2)])
    return out

  def hold(self, op):
    """call through a caller object made earlier, or keep the new one"""
    same = lambda q: all(q.get(k) == op.get(k) for k in ("o", "m", "p", "d"))
    old = [q for q in self.held if same(q)]
    k = self.r.random()
    if op["o"] == "run" or k < 0.4:
      return op
    if old and k < 0.9:
      q = self.r.choice(old)
      return dict(op, hold=q["hold"], **({"ss": q["ss"]} if "ss" in q else {}))
    op["hold"] = len(self.held) + 1
    self.held.append(op)
    return op

  def like(self, p):
    """some tracked module with the structure of pure/def register p, or 0"""
    d = self.ex.rproj[p - 1]["d"]
    for i, x in enumerate(self.ex.heap):
      if x["c"] == d[0]["c"] and {n for n, e in x["a"].items() if e["k"] == "mod"} == {
          n for n, e in d[0]["a"].items() if e["k"] == "mod"}:
        return i + 1
    return 0

  # -- one operation, or None if it is not applicable now
  def op(self):
    r, ex = self.r, self.ex
    o = r.choices(self.ops, self.w)[0]
    if not ex.heap and o not in ("smk", "smerge", "sor", "ssub", "sflat", "smap", "sget"):
      return {"o": "new", "c": r.choice("ABCDE")}
    full = len(ex.heap) >= 14
    if o == "new":
      return None if full or len(ex.heap) >= 6 else {"o": "new", "c": r.choice("ABCDE")}
    if full and o in ("clone", "copy", "deepcopy", "pickle", "merge", "pmerge", "apply", "run", "init"):
      return None
    if len(ex.regs) >= 14 and o in ("state", "def", "part", "filt", "smk", "spart", "sfilt", "pop"):
      if o != "pop":
        return None
    if o in ("state", "def", "idef", "mdict", "clone", "copy", "deepcopy", "pickle"):
      return {"o": o, "m": self.module()}
    if o in ("mlget", "mlset"):
      m = self.module()
      old = [q for q in self.held if q["m"] == m and self.mod_at(m, q["path"][:-1]) == q["at"]]
      if old and r.random() < 0.5:        # a leaf object made earlier stays with its module
        q = r.choice(old)
        path, hold = q["path"], q["hold"]
      else:
        es = state_entries(ex.heap, m)
        path, hold = (r.choice(es)[0] if es and r.random() < 0.9 else [self.name()]), 0
        if es and [path] in [[p] for p, _ in es] and r.random() < 0.5:
          hold = len(self.held) + 1
          self.held.append({"m": m, "path": path, "hold": hold, "at": self.mod_at(m, path[:-1])})
      op = {"o": o, "m": m, "path": path, "hold": hold}
      if o == "mlset":
        t = self.mod_at(m, path[:-1])
        op["x"] = self.leaf(like=ex.heap[t - 1]["a"].get(path[-1]) if t else None)
        op["as"] = r.choice(["py", "np", "jax"])
      return op
    if o == "set":
      m = self.module()
      n = self.name(m)
      old = ex.heap[m - 1]["a"].get(n)
      if r.random() < 0.35 and not (old and old["k"] in ("var", "cstatic")):
        x = {"k": "mod", "r": self.module()}
      else:
        x = self.leaf(like=old if r.random() < 0.6 else None)
        if self.pid == "C06" and old and old["k"] == "cstatic":
          x = {"k": "cstatic", "v": ["i", r.randint(0, 3)]}
      item = ex.heap[m - 1]["c"] == "D" and r.random() < 0.5
      if self.pid in ("C02", "C07") and r.random() < 0.15:
        held = [(j + 1, k) for j, y in enumerate(ex.heap) for k, z in y["a"].items()
                if z["k"] == "var" and (j + 1, k) != (m, n)]
        if held:
          src = r.choice(sorted(held))
          return {"o": "set", "m": m, "n": n, "x": ex.heap[src[0] - 1]["a"][src[1]], "from": list(src), "item": int(item)}
      return {"o": "set", "m": m, "n": n, "x": x, "item": int(item), "as": r.choice(["py", "py", "np", "jax"])}
    if o in ("del", "get"):
      m = self.module()
      item = ex.heap[m - 1]["c"] == "D" and o == "get" and r.random() < 0.5
      return {"o": o, "m": m, "n": self.name(m), "item": int(item)}
    if o == "part":
      return {"o": o, "m": self.module(), "fs": self.filters(lo=0)}
    if o in ("filt", "pop"):
      fs = self.filters(exhaustive=0.2)
      if o == "pop":
        fs = [f for f in fs if f != ["..."]] + ([["..."]] if r.random() < 0.15 else [])
        if not fs or r.random() < 0.03:
          fs = []
      return {"o": o, "m": self.module(), "fs": fs}
    if o == "sow":
      m = self.module()
      n = r.choice(["h", "i2"]) if r.random() < 0.7 else self.name(m)
      return {"o": o, "m": m, "ty": r.choice(["Intermediate", "Intermediate", "Cache", "Variable", r.choice(VT[:7])]), "n": n,
              "v": ["i", r.randint(0, 30)] if r.random() < 0.6 else self.value(), "as": r.choice(["py", "np"])}
    if o == "each":
      return {"o": o, "m": self.module(), "c": r.choice(["Module", "A", "B", "C", "D", "E"])}
    if o in ("run", "init", "apply"):
      m = self.module()
      return self.hold(dict(self.call(o, m), m=m))
    refs = self.state_refs()
    if o == "upd":
      m = self.module()
      k = r.random()
      if k < 0.3:
        cand = [j + 1 for j, x in enumerate(ex.heap) if x["c"] == ex.heap[m - 1]["c"]]
        m2 = r.choice(cand)
        es = state_entries(ex.heap, m2)
        return {"o": o, "m": m, "src": {"t": "mod", "m": m2}} if self.update_ok(m, [es]) else None
      if k < 0.5 and self.pures():
        p = r.choice(self.pures())
        if self.update_ok(m, ex.rproj[p - 1]["ss"]):
          return {"o": o, "m": m, "src": {"t": "pure", "p": p}}
        return None
      if not refs:
        return None
      ss = [r.choice(refs) for _ in range(r.choice([1, 1, 2, 3]))]
      if self.update_ok(m, [self.entries(x) for x in ss]):
        return {"o": o, "m": m, "src": {"t": "states", "ss": ss, "tup": r.randint(0, 1)}}
      return None
    if o == "smk":
      es, used = [], set()
      m = self.module() if ex.heap else 0
      paths = self.paths(m) if m else [((), 0), (("a",), 0), (("b", "a"), 0), (("x1",), 0)]
      for _ in range(r.randint(0, 4)):
        p, t = r.choice(paths)
        n = self.name(t) if t else self.name()
        if t and ex.heap[t - 1]["a"].get(n, {}).get("k") == "mod":
          continue
        full_path = (*p, n)
        if full_path in used:
          continue
        used.add(full_path)
        es.append([list(full_path), self.leaf(node_only=True, like=ex.heap[t - 1]["a"].get(n) if t else None)])
      r.shuffle(es)
      return {"o": o, "es": es, "how": r.choice(["map", "iter"])}
    if o in ("spart", "sfilt"):
      if not refs:
        return None
      return {"o": o, "s": r.choice(refs), "fs": self.filters(exhaustive=0.8 if o == "spart" else 0.2)}
    if o in ("sor", "ssub"):
      return {"o": o, "s": r.choice(refs), "s2": r.choice(refs)} if refs else None
    if o == "smerge":
      return {"o": o, "ss": [r.choice(refs) for _ in range(r.randint(1, 3))]} if refs else None
    if o == "smap":
      good = [x for x in refs if all(_numeric(e["v"]) for _, e in self.entries(x))]
      return {"o": o, "s": r.choice(good), "by": r.randint(1, 3)} if good else None
    if o == "sflat":
      good = [x for x in refs if all(_numeric(e["v"]) and e["v"] != ["t", []] for _, e in self.entries(x))]
      return {"o": o, "s": r.choice(good)} if good else None
    if o == "sget":
      if not refs:
        return None
      s = r.choice(refs)
      es = self.entries(s)
      path = r.choice(es)[0] if es and r.random() < 0.8 else ["zz"]
      return None if path == ["zz"] and r.random() < 0.7 else {"o": o, "s": s, "path": path if path != ["zz"] else ["z", "z"]}
    if o == "deq":
      ds = self.defs()
      return {"o": o, "d1": r.choice(ds), "d2": r.choice(ds)} if ds else None
    if o == "dflat":
      ds = self.defs()
      return {"o": o, "d": r.choice(ds)} if ds else None
    ps = self.pures()
    if not ps:
      return None
    p = r.choice(ps)
    pr = ex.rproj[p - 1]
    if o in ("pmerge", "merge", "papply", "pcall", "dapply") and not self.merge_ok(p):
      return None
    if o in ("pget", "pmerge"):
      return {"o": o, "p": p}
    if o in ("pfilt", "ppop"):
      fs = self.filters(exhaustive=0.15)
      if o == "ppop":
        fs = [f for f in fs[:-1] if f != ["..."]] + fs[-1:]
      return {"o": o, "p": p, "fs": fs}
    if o == "ppart":
      return {"o": o, "p": p, "fs": self.filters(lo=0)}
    if o == "pupd":
      k = r.random()
      if k < 0.35:
        return {"o": o, "p": p, "src": {"t": "pure", "p": r.choice(ps)}}
      if k < 0.6 and ex.heap:
        return {"o": o, "p": p, "src": {"t": "mod", "m": self.module()}}
      ss = [r.choice(refs) for _ in range(r.randint(1, 2))]
      return {"o": o, "p": p, "src": {"t": "states", "ss": ss, "tup": r.randint(0, 1)}}
    if o == "merge":
      n = len(pr["ss"])
      idx = list(range(1, n + 1))
      r.shuffle(idx)
      if r.random() < 0.2:
        idx = idx[:-1]
      if r.random() < 0.2:
        idx = idx + [r.randint(1, n)]
      if not idx:
        return None
      return {"o": o, "d": p, "ss": [[p, j] for j in idx]}
    if o == "papply" or o == "pcall":
      return self.hold(dict(self.call(o, self.like(p)), p=p))
    if o == "dapply":
      n = len(pr["ss"])
      idx = list(range(1, n + 1))
      r.shuffle(idx)
      return self.hold(dict(self.call(o, self.like(p)), d=p, ss=[[p, j] for j in idx]))
    raise ValueError(o)


def _numeric(v):
  return v[0] == "i" or (v[0] == "t" and all(x[0] == "i" for x in v[1]))


def state_entries(heap, m):
  out, seen = [], set()

  def go(x, p):
    if x in seen:
      return
    seen.add(x)
    for n, e in sorted(heap[x - 1]["a"].items()):
      if e["k"] == "mod":
        go(e["r"], p + [n])
      elif e["k"] in ("var", "arr"):
        out.append([p + [n], e])
  go(m, [])
  return out


def big(r):
  """more modules than anything counts up to by accident: a deep or a branching graph, some shared"""
  n = r.choice([66, 80, 130])
  ops = [{"o": "new", "c": r.choice("ABCDE")} for _ in range(n)]
  free = {1: ["a", "b", "c", "d"]}
  deep = r.random() < 0.5
  for i in range(2, n + 1):
    p = i - 1 if deep else r.choice(sorted(free)[:12])
    x = free[p].pop(r.randrange(len(free[p])))
    if not free[p]:
      del free[p]
    free[i] = ["a", "b", "c", "d"]
    ops.append({"o": "set", "m": p, "n": x, "x": {"k": "mod", "r": i}})
  for i in r.sample(range(1, n + 1), 12) + [n]:
    ops.append({"o": "set", "m": i, "n": "w", "x": {"k": "var", "ty": r.choice(["Param", "BatchStat"]), "md": {"sharding": "None"}, "v": ["i", i]}})
  for i in r.sample(range(1, n + 1), 4):
    ops.append({"o": "set", "m": i, "n": r.choice(["x1", "x10"]), "x": {"k": "mod", "r": r.randint(1, n)}})
  return ops


def history(r, pid, length):
  ex = graph.Exec()
  g = Gen(ex, r, pid)
  if r.random() < 0.02:
    ex.prefix(big(r))
    g.module = lambda: r.choice([1, 1, 1, r.randint(1, len(ex.heap))])
    return go(ex, g, 6)
  # a small graph to begin with
  k = r.randint(1, 4)
  for _ in range(k):
    ex.step({"o": "new", "c": r.choice("ABCDE")})
  for _ in range(r.randint(0, 2 * k)):
    m = g.module()
    nm = g.name()
    if ex.heap[m - 1]["a"].get(nm, {}).get("k") in ("var", "cstatic"):
      continue
    ex.step({"o": "set", "m": m, "n": nm, "x": {"k": "mod", "r": g.module()}})
  return go(ex, g, length)


def go(ex, g, length):
  steps = tries = 0
  while steps < length and tries < 20 * length:
    tries += 1
    op = g.op()
    if op is None:
      continue
    ex.step(op)
    steps += 1
  return ex.events
