"""C19, C20, C21 and C24 against spec/Transforms.tla."""
import json
from drive import *
from common import *
import transforms
from transforms import TExec, too_big

MOD = {"C19": 2003, "C20": 2003, "C21": 0, "C24": 0}
# modules, attributes, names, rich entries (quick / thorough); replayed scripts; random histories
SIZES = {
    "C19": ((2, 3, {"a", "b"}, False), (2, 3, {"a", "b"}, True), (600, 4000), (250, 1500)),
    "C20": ((2, 3, {"a", "b"}, True), (3, 4, {"a", "b"}, False), (200, 4000), (70, 1500)),
    "C21": ((2, 3, {"a", "b"}, False), (2, 3, {"a", "b"}, True), (500, 4000), (250, 1500)),
    "C24": ((2, 3, {"a", "b"}, False), (2, 3, {"a", "b"}, True), (500, 4000), (200, 1200)),
}
VT = ["Param", "Param", "BatchStat", "Cache", "Variable", "MyParam"]
NAMES = ["a", "b", "c", "w", "x1", "x10"]


def executor(pid):
  def execute(ops):
    ex = TExec(MOD[pid])
    for op in ops:
      ex.step(op)
    return ex.events
  return execute


class Gen:

  def __init__(self, r, pid, length):
    self.r, self.pid, self.ex = r, pid, TExec(MOD[pid])
    self.length = length
    self.progs = {}
    self.past = []

  def paths(self, root):
    """module paths from root, following every alias once or twice"""
    out, heap = [([], root)], self.ex.heap
    for p, m in out:
      if len(p) < 3:
        for n, e in sorted(heap[m - 1]["a"].items()):
          if e["k"] == "mod" and len(out) < 12:
            out.append((p + [n], e["r"]))
    return out

  def expr(self, reads, depth=2, const=True):
    r = self.r
    k = r.random()
    if depth and k < 0.5:
      return [r.choice("++*"), self.expr(reads, depth - 1), self.expr(reads, depth - 1)]
    if reads and k < 0.8:
      return ["at", *r.choice(reads)]
    if k < 0.95:
      return ["arg", r.choice([1, 2])]
    return ["c", r.randint(0, 3)]

  def program(self, m, n=None):
    r = self.r
    ps = self.paths(m)
    heap = self.ex.heap
    reads = [[p, x] for p, i in ps for x, e in sorted(heap[i - 1]["a"].items()) if e["k"] in ("var", "arr", "static") and e["v"][0] == "i"]
    vars_ = [[p, x] for p, i in ps for x, e in sorted(heap[i - 1]["a"].items()) if e["k"] in ("var", "arr", "static")
             and e["v"][0] == "i"]
    prog = []
    made = []
    for _ in range(n if n is not None else r.randint(0, 4)):
      k = r.random()
      p, i = r.choice(ps)
      if k < 0.55 and vars_:
        prog.append(["set", *r.choice(vars_), self.expr(reads)])
      elif k < 0.75:
        prog.append(["sow", p, "Intermediate", r.choice(["h", "i"]), self.expr(reads, 1)])
      elif k < 0.9:
        x = r.choice(["v", "u", "t"])
        have = heap[i - 1]["a"].get(x)
        ty = have["ty"] if have and have["k"] == "var" and r.random() < 0.9 else r.choice(VT)
        prog.append(["mkvar", p, x, ty, self.expr(reads, 1)])
        reads = reads + [[p, x]]
      elif k < 0.93:
        prog.append(["aux", self.expr(reads, 1)])
      elif k < 0.95:
        prog.append(["raise", ["c", 0]])
    ret = self.expr(reads)
    if self.pid in ("C21", "C24"):
      for x in r.sample(reads, min(2, len(reads))):
        ret = ["+", ret, ["*", ["at", *x], self.expr(reads, 1)]]
    prog.append(["ret", ret])
    return prog

  def leaf(self, old=None):
    r = self.r
    hi = 30 if MOD[self.pid] else 3
    v = ["i", r.randint(0, hi)]
    if old and old["k"] == "cstatic":  # (an array inside a Static has no hash)
      return dict(old, v=v)
    if old and old["k"] == "var":  # (a plain number inside a variable has another dtype)
      return dict(old, v=v) if r.random() < 0.9 else {"k": "arr", "ty": "jax", "v": v}
    k = r.random()
    if k < 0.7:
      ty = r.choice(VT)
      md = {"sharding": r.choice(["None", "None", "(x,y)"])}
      if r.random() < 0.15:
        md["tag"] = r.choice("tu")
      return {"k": "var", "ty": ty, "md": md, "v": v}
    if k < 0.8:
      return {"k": "arr", "ty": "jax", "v": v}
    if k < 0.95:
      return {"k": "static", "v": ["i", r.randint(-2 if self.pid == "C20" else 0, 3)] if r.random() < 0.8 else ["s", "p"]}
    return {"k": "cstatic", "v": ["i", r.randint(0, 2)]}

  def structural(self):
    r, heap = self.r, self.ex.heap
    k = r.random()
    if not heap or k < 0.12 and len(heap) < 6:
      return {"o": "new", "c": r.choice("ABCE")}
    m = r.randint(1, len(heap))
    if k < 0.3:
      n = r.choice(NAMES[:3])
      if heap[m - 1]["a"].get(n, {"k": "mod"})["k"] not in ("var", "cstatic"):
        return {"o": "set", "m": m, "n": n, "x": {"k": "mod", "r": r.randint(1, len(heap))}}
    if k < 0.38 and heap[m - 1]["a"]:
      return {"o": "del", "m": m, "n": r.choice(sorted(heap[m - 1]["a"]))}
    if k < 0.42:
      return {"o": "clone", "m": m}
    n = r.choice(NAMES)
    old = heap[m - 1]["a"].get(n)
    return {"o": "set", "m": m, "n": n, "x": self.leaf(old)}

  def args(self):
    return [self.r.randint(0, 5 if MOD[self.pid] else 2) for _ in range(2)]

  def transform(self):
    r = self.r
    m = r.randint(1, len(self.ex.heap))
    if self.pid == "C20":
      f = r.randint(1, 3)
      if f not in self.progs:
        self.progs[f] = ([["ret", ["sum"]]] if f == 1 else
                         [["sow", [], "Intermediate", "h", ["arg", 1]], ["ret", ["+", ["sum"], ["arg", 2]]]] if f == 2 else
                         [["ret", ["*", ["sum"], ["arg", 1]]]])
      return {"o": "jcall", "f": f, "m": m, "st": f != 3, "args": self.args(), "prog": self.progs[f]}
    if r.random() < 0.03:
      return {"o": "nonmod", "k": r.choice(["jit", "grad", "lower"]), "x": r.choice(["int", "dict", "none", "state"])}
    ws = {"C19": [["jit"], ["jit"], ["jit0"], ["jit", "jit"], ["jit", "jit0"], ["jit0", "jit"], []],
          "C21": [[]], "C24": [["remat"], ["remat"], ["jit", "remat"], ["remat", "jit"], ["remat", "remat"], ["remat", "jit0"]]}[self.pid]
    w = r.choice(ws)
    if self.pid == "C21" or self.pid == "C24" and r.random() < 0.3:
      f = r.choice([["type", "Param"], ["type", "Param"], ["type", "Variable"], ["type", "BatchStat"], ["path", r.choice(NAMES)],
                    ["under", r.choice("abc")], ["tuple", [["type", "Cache"], ["type", "MyParam"]]], ["not", ["type", "Param"]],
                    ["type", "jax"], ["none"], ["bad", "int"], ["..."]])
      return {"o": "grad", "m": m, "f": f, "st": r.random() < 0.7, "aux": r.random() < 0.4, "explicit": r.random() < 0.3,
              "ws": w if self.pid == "C24" else r.choice([[], [], [], ["jit"]]), "args": self.args(), "prog": self.program(m)}
    op = {"o": "call", "m": m, "ws": w, "args": self.args(), "sa": [], "aux": r.random() < 0.3, "prog": self.program(m)}
    if w and r.random() < 0.35:
      op["sa"] = r.choice([[1], [2], [1, 2]])
    if w and all(x in ("jit", "jit0") for x in w) and r.random() < 0.2:
      op["form"] = "kw"
    elif w in (["jit"], ["jit0"]) and not op["sa"] and r.random() < 0.2:
      op["form"] = "lower"
    elif w and w[0] == "remat" and r.random() < 0.4:
      op["form"] = r.choice(["cls", "meth"])
    elif w == ["remat"] and r.random() < 0.3:
      op["form"] = "neg"
    return op

  def run(self):
    r, ex = self.r, self.ex
    for _ in range(r.randint(6, 14)):
      ex.step(self.structural())
    while len(ex.events) < self.length:
      if not ex.heap or r.random() < 0.45:
        ex.step(self.structural())
      else:
        op = r.choice(self.past) if self.past and r.random() < 0.35 else self.transform()
        if "prog" in op:
          self.past.append(op)
        ex.step(dict(op, args=self.args()) if r.random() < 0.3 and "args" in op and not op.get("sa") else op)
      if not MOD[self.pid] and too_big(ex):
        ex.events.pop()
        break
    return ex.events


def again(ops):
  """the script, then its last operation once more after every number of the graph has changed"""
  last, out = {}, []
  for op in ops:
    if op["o"] == "set" and op["x"].get("k") in ("var", "arr"):
      last[op["m"], op["n"]] = op["x"]["v"]
    elif op["o"] in ("set", "del"):
      last.pop((op["m"], op["n"]), None)
  for (m, n), v in last.items():
    if v[0] == "i":
      out.append({"o": "set", "m": m, "n": n, "x": {"k": "arr", "ty": "jax", "v": ["i", v[1] + 1]}})
  return ops + out + [ops[-1]]


def pooled(c, lines, size=40):
  """many structures of the specification passed to one compiled function, similar ones together:
  each has to be traced exactly when no structure with its key came before"""
  hs = [unq(l)["h"] for l in lines["STATE"]]
  shape = lambda h: json.dumps(sorted([op["m"], op["n"], op["x"]["k"] == "static"] for op in h if op["o"] == "set"))
  r = rng(c.seed, c.pid, "pool")
  hs.sort(key=lambda h: (shape(h), json.dumps(h)))
  out = []
  for i in range(0, len(hs), size):
    chunk = hs[i:i + size]
    r.shuffle(chunk)
    ops, roots = [], []
    for h in chunk:
      n = sum(o["o"] == "new" for o in ops)
      for op in h:
        op = dict(op)
        if "m" in op:
          op["m"] += n
          if op["x"]["k"] == "mod":
            op["x"] = dict(op["x"], r=op["x"]["r"] + n)
        ops.append(op)
      roots.append(n + 1)
      ops.append({"o": "jcall", "f": 1, "m": n + 1, "st": False, "args": [3], "prog": [["ret", ["sum"]]]})
    r.shuffle(roots)
    ops += [{"o": "jcall", "f": 1, "m": m, "st": False, "args": [3], "prog": [["ret", ["sum"]]]} for m in roots[:10]]
    out.append(ops)
  return out


def run(c):
  q, th, cap, n = SIZES[c.pid]
  nm, ma, names, rich = th if c.thorough else q
  mod = {"Modulus": MOD[c.pid]}
  lines = c.tlc("MC_Transforms", cfg(invariants=["Prop", "Emit"], view="View",
                constants={"Profile": c.pid, "NMods": nm, "MaxAttrs": ma, "MNames": names, "Rich": rich, **mod}))
  foc = lambda op, clause, v: op in ("call", "grad", "jcall", "nonmod")
  conf = cfg(constants=mod)
  tr = replay(c, [again(s) for s in scripts_of(lines)], executor(c.pid), cap[c.thorough])
  if c.pid == "C20":
    tr += replay(c, pooled(c, lines), executor(c.pid), 10**6, "p")
  tr += randoms(c, lambda r: Gen(r, c.pid, 36).run(), n[c.thorough])
  c.validate("TraceTransforms", tr, foc, cfg=conf)
  if c.pid == "C24":
    import group_levels
    group_levels.run_sims(c)
