"""C22 and C23: nnx.scan against spec/Scan.tla."""
from drive import *
from common import *
import scan
from scan import SExec

CONST = {"Modulus": scan.MOD}
# (MaxL, Rich), replayed scripts, random histories, their length: quick / thorough
SIZES = {"C22": (((3, False), 400, 200, 6), ((4, True), 4000, 1500, 10)),
         "C23": (((3, False), 400, 220, 5), ((4, True), 4000, 1800, 8))}
NONE = ["None"]


def execute(ops):
  ex = SExec()
  for op in ops:
    ex.step(op)
  return ex.events


def dim(v):
  return 1 + dim(v[1][0]) if v[0] == "a" else 0


class Gen:

  def __init__(self, r, pid, length):
    self.r, self.pid, self.length = r, pid, length
    self.ex = SExec()
    self.L = r.choice([1, 2, 2, 3, 3, 4])
    self.nctx, self.streams = 0, []
    self.inits = {}   # module -> options it was initialised with
    # roles of variable types: per layer (with axis), broadcast or carried
    self.ax = r.choice([0, 0, 1, -1])       # axis of vectors
    self.ax0 = r.choice([0, 0, -1])         # axis of scalars
    self.inter = r.choice(["axes", "axes", "bc", "carry"])
    self.stat = r.choice(["bc", "carry", "carry"])
    self.key = r.choice(["axes", "axes", "carry", "bc"])
    axes = [[["type", "Param"], self.ax], [["type", "MyVar"], self.ax0]]
    bc = []
    for ty, role in (("Intermediate", self.inter), ("BatchStat", self.stat), ("Cache", self.key)):
      if role == "axes":
        axes.append([["type", ty], 0])
      elif role == "bc":
        bc.append(["type", ty])
    r.shuffle(axes)
    self.axm = r.choice([0, 1, 2, 2, -1, -2, -3])   # axis of matrices
    axes.insert(r.randint(0, [x[0][1] for x in axes].index("Param")), [["type", "MyParam"], self.axm])
    self.opts = {"axes": axes, "bc": bc[0] if len(bc) == 1 else [r.choice(["tuple", "any"]), bc] if bc else ["none"], "cr": ["..."],
                 "meta": r.choice(["", "", "l"]), "split": self.rngf(), "len": 0}

  def rngf(self):
    r = self.r
    return r.choice([["none"], ["..."], ["..."], ["str", "params"], ["call", "drop"], ["seq", [["str", "params"], ["str", "z"]]],
                     ["map", [[["str", "params"], r.randint(0, 1)], [["str", "drop"], 1]]], ["seq", []]])

  # types by what their per-layer part looks like
  VEC, SCA, BOTH = ["Param"], ["MyVar"], ["BatchStat", "Variable", "Variable"]

  def num(self):
    return ["i", self.r.randint(0, 40)]

  def vec(self):
    return ["a", [self.num(), self.num()]]

  def mat(self):
    return ["a", [["a", [self.num() for _ in range(3)]] for _ in range(2)]]

  def stacked(self, d, ax, L):
    """a stack of L scalars (d=0) or pairs (d=1) along ax"""
    shape = [[], [2], [2, 3]][d]
    shape = shape[:]
    shape.insert(ax if ax >= 0 else ax + d + 1, L)

    def fill(sh):
      return ["a", [fill(sh[1:]) for _ in range(sh[0])]] if sh else self.num()
    return fill(shape)

  def shard(self, names):
    return ["s", *names]

  def variable(self):
    r, L = self.r, self.L
    meta = self.opts["meta"]
    k = r.random()
    if k < 0.45:
      ty, v, d = "Param", self.stacked(1, self.ax, L), 1
    elif k < 0.6:
      ty, v, d = "MyParam", self.stacked(2, self.axm, L), 2
    elif k < 0.72:
      ty, v, d = "MyVar", self.stacked(0, self.ax0, L), 0
    else:
      ty, v, d = r.choice(self.BOTH), r.choice([self.num, self.vec])(), -1
    sh = NONE
    if r.random() < 0.4:
      names = [r.choice("ef")] * max(d, 0)
      if d >= 0 and meta and r.random() < 0.95:
        a = {"Param": self.ax, "MyVar": self.ax0, "MyParam": self.axm}[ty]
        names.insert(a if a >= 0 else len(names) + 1 + a, meta)
      sh = self.shard(names)
    return {"k": "var", "ty": ty, "md": {"sharding": sh}, "v": v}

  def build(self):
    r, out = self.r, []
    n = r.choice([1, 2, 2, 3])
    for i in range(n):
      out.append({"o": "new", "c": r.choice("ABC")})
    base = len(self.ex.heap)
    for i in range(2, n + 1):
      out.append({"o": "set", "m": base + r.randint(1, i - 1), "n": r.choice(["m", "n"]) if i == 2 else "z", "x": {"k": "mod", "r": base + i}})
    if n > 1 and r.random() < 0.3:   # shared or cyclic
      out.append({"o": "set", "m": base + r.randint(1, n), "n": "g", "x": {"k": "mod", "r": base + r.randint(1, n)}})
    for i in range(1, n + 1):
      for name in r.sample(["a", "b", "w", "x1", "x10", "u"], r.randint(1, 3)):
        out.append({"o": "set", "m": base + i, "n": name, "x": self.variable()})
      if r.random() < 0.3:
        out.append({"o": "set", "m": base + i, "n": "t", "x": {"k": "static", "v": ["i", r.randint(0, 3)]}})
    return base + 1, out

  # -- programs; names: {(path, name): dim of one layer's value}
  def names(self, m, axes):
    out, heap, seen = {}, self.ex.heap, []
    todo = [((), m)]
    for p, i in todo:
      seen.append((p, i))
      for n, e in sorted(heap[i - 1]["a"].items()):
        if e["k"] == "mod":
          if len(p) < 2 and len(todo) < 8:
            todo.append((p + (n,), e["r"]))
        elif e["v"][0] in "ia" and e["k"] in ("var", "arr", "static"):
          d = dim(e["v"])
          if e.get("ty") in axes and e["k"] == "var":
            d -= 1
          if 0 <= d <= 2:
            out[p, n] = (d, e.get("ty", e["k"]))
    return out, [p for p, _ in seen]

  def expr(self, d, env, args, depth=2):
    r = self.r
    cands = [["at", list(p), n] for (p, n), (x, _) in env.items() if x == d] + [["arg", i + 1] for i, x in enumerate(args) if x == d]
    if depth and r.random() < 0.55:
      ds = (d, d) if d == 0 or d == 1 and r.random() < 0.4 else r.choice([(0, d), (d, 0)])
      return [r.choice("+*"), *(self.expr(x, env, args, depth - 1) for x in ds)]
    if cands and (d or r.random() < 0.8):
      return r.choice(cands)
    if d == 0:
      return ["c", r.randint(0, 5)]
    return r.choice(cands) if cands else ["at", [], "none"]

  def program(self, m, args, init=False, ctx=False):
    r = self.r
    env, paths = ({}, [()]) if init == 2 else self.names(m, {"Param", "MyVar", "MyParam"} if not init else set())
    env = dict(env)
    prog, had = [], dict(env)
    for _ in range(r.randint(1, 5) if init else r.randint(0, 4)):
      k = r.random()
      p = list(r.choice(paths))
      have = [(q, x) for q, x in env if env[q, x][1] != "static"]
      if init and k < 0.6 or not init and k < 0.18:
        ty = r.choice(["Param", "Param", "MyVar", "MyParam", *self.BOTH])
        d = {"Param": 1, "MyVar": 0, "MyParam": 2}.get(ty, r.choice([0, 1]))
        if d == 2 and 2 not in args and not any(x == 2 for x, _ in env.values()):
          ty, d = "MyVar", 0
        if d == 1 and 1 not in args and not any(x == 1 for x, _ in env.values()):
          ty, d = "MyVar", 0
        n = r.choice(["v", "y", "w"])
        if (tuple(p), n) in env:
          if env[tuple(p), n][1] != ty and r.random() < 0.9:
            continue
        sh = r.choice([NONE, NONE, self.shard(["e"] * d)])
        prog.append(["mkvar", p, n, ty, sh, self.expr(d, env, args, 1)])
        env[tuple(p), n] = (d, ty)
        if r.random() < 0.4:
          prog.append(["md", p, n])
      elif not init and k < 0.5 and have:
        q, n = r.choice(have)
        d = env[q, n][0] if r.random() < 0.97 else abs(1 - env[q, n][0])
        prog.append(["set", list(q), n, self.expr(d, env, args)])
      elif k < 0.65:
        prog.append(["sow", p, r.choice(["Intermediate"] * 5 + ["Cache"]), r.choice(["h", "i"]), self.expr(0, env, args, 1)])
      elif k < 0.82 and ctx:
        prog.append(["draw", p, r.choice(["k", "q"]), r.choice(["Cache"] * 6 + ["Variable"]), r.choice(["params", "params", "drop", "drop", "drop", "z"][:6 if r.random() < 0.15 else 5])])
      elif k < 0.9 and init:
        n = r.choice(["m", "n"])
        if (tuple(p), n) not in env and len(p) < 2 and tuple(p) + (n,) not in paths:
          prog.append(["mkmod", p, n, r.choice("ABC")])
          paths = paths + [tuple(p) + (n,)]
      elif k < 0.93 and init:
        prog.append(["st", p, "t", r.randint(0, 3)])
      elif k < 0.97 and have:
        prog.append(["md", *[list(y) if isinstance(y, tuple) else y for y in r.choice(have)]])
      elif k > 0.99:
        prog.append(["raise"])
    if not init:
      ds = [0] + [x for x in (1, 2, 2) if x in args or any(y == x for y, _ in env.values())]
      outs = [self.expr(r.choice(ds), env, args) for _ in range(r.choice([0, 1, 1, 2]))]
      prog.append(["out", self.expr(args[0], env, args), outs])
    return prog

  def edim(self, e, env, args):
    """dimension of an expression"""
    if e[0] == "c":
      return 0
    if e[0] == "arg":
      return args[e[1] - 1] if e[1] <= len(args) else 0
    if e[0] == "at":
      return env.get((tuple(e[1]), e[2]), (0, ""))[0]
    return max(self.edim(e[1], env, args), self.edim(e[2], env, args))

  def ctx(self):
    self.nctx += 1
    names = self.r.choice([["params", "drop"], ["drop", "params"], ["params"], ["params", "drop", "noise"], ["zz", "params", "a"], ["zz", "drop"]])
    self.streams.append(names)
    return {"o": "ctx", "args": [[n, self.r.choice([1, 2, 3]) * 10 + self.r.choice([i, i, 0])] for i, n in enumerate(names)]}

  def spoil(self, op):
    """an option that does not fit"""
    r = self.r
    k = r.random()
    if k < 0.25:
      op["len"] = self.L + 1
    elif k < 0.5 and op["axes"]:
      i = r.randrange(len(op["axes"]))
      op["axes"][i] = [op["axes"][i][0], r.choice([1, 2, -2, 0])]
    elif k < 0.7:
      op["cr"] = r.choice([["none"], ["type", "Variable"]])
    elif k < 0.8:
      op["split"] = ["bad"]
    elif k < 0.9:
      op["bc"] = ["..."]
    else:
      op["bc"] = ["bad", "int"]

  def scan(self, m, opts, form=None):
    r = self.r
    nx = r.choice([0, 1, 1, 2])
    ndim = [r.choice([0, 1, 2]) for _ in range(nx)]
    inax = [r.randint(-d - 1, d) for d in ndim]
    xs = [self.stacked(d, a, self.L) for d, a in zip(ndim, inax)]
    if xs and r.random() < 0.05:
      xs[0] = self.stacked(ndim[0], inax[0], self.L + 1)
    args = [r.choice([self.num, self.vec, self.mat])() for _ in range(r.choice([0, 0, 1, 2]))]
    c0 = r.choice([self.num, self.vec])()
    argd = [dim(c0), *ndim, *[dim(a) for a in args]]
    op = {"o": "scan", "m": m, **json.loads(json.dumps(opts)), "rev": r.random() < 0.35, "inax": inax, "xs": xs, "args": args, "c0": c0, "ctx": 0}
    if form:
      op["form"] = form
      op["rev"] = opts["rev"]
      if nx != 1 or inax[0] != 0:   # a Scan object's options are fixed: inputs along axis 0
        op["xs"] = op["xs"][:1] and [self.stacked(ndim[0], 0, self.L)]
        op["inax"] = [0] * len(op["xs"])
        argd = [dim(c0), *ndim[:1], *[dim(a) for a in args]]
    elif r.random() < 0.1:
      self.spoil(op)
    if not form:
      op["form"] = r.choice(["fn", "fn", "fn", "jit", "remat"])
      if not op["xs"] and not op["len"]:
        op["len"] = r.choice([0, self.L, self.L])
      op["unroll"] = r.choice([1, 1, 2, 3])
    if self.nctx and r.random() < 0.6 and op["form"] in ("fn", "cls", "meth"):
      op["ctx"] = r.randint(1, self.nctx)
    env, _ = self.names(m, {"Param", "MyVar", "MyParam"})
    op["prog"] = self.program(m, argd, ctx=op["ctx"] if r.random() < 0.95 else 0)
    e2 = dict(env)
    for i in op["prog"]:
      if i[0] == "mkvar":
        e2[tuple(i[1]), i[2]] = (self.edim(i[5], e2, argd), i[3])
    outs = op["prog"][-1][2]
    op["outax"] = [r.choice(range(-self.edim(e, e2, argd) - 1, self.edim(e, e2, argd) + 1)) if r.random() < 0.97 else 3 for e in outs]
    if form:
      op["outax"] = [0] * len(outs)
    if op["args"] and op["form"] == "fn" and r.random() < 0.3:
      op["kw"] = 1
    if r.random() < 0.5:
      op["sameax"] = 1
    return op

  def sinit(self):
    r = self.r
    target = 0
    args = [r.choice([self.num, self.vec, self.mat])() for _ in range(r.choice([0, 1, 2]))]
    op = {"o": "sinit", "m": target, "c": r.choice("ABC"), **json.loads(json.dumps(self.opts)), "args": args, "ctx": 0}
    op["rev"] = r.random() < 0.3
    op["len"] = self.L if r.random() < 0.93 else 0
    if r.random() < 0.1:
      self.spoil(op)
      op["len"] = min(op["len"], 5)
    if self.nctx and r.random() < 0.65:
      op["ctx"] = r.randint(1, self.nctx)
    elif r.random() < 0.15:
      op["axes"] = []
    op["prog"] = self.program(0, [dim(a) for a in args], init=2, ctx=op["ctx"] if r.random() < 0.97 else 0)
    return op

  def go(self, op):
    e = self.ex.step(op)
    return e

  def events(self):
    r = self.r
    roots = []
    if self.pid == "C22" or r.random() < 0.3:
      m, ops = self.build()
      for op in ops:
        self.go(op)
      roots.append(m)
    for step in range(self.length):
      k = r.random()
      if k < 0.15 or (step == 0 and r.random() < 0.6):
        if self.nctx < 2:
          self.go(self.ctx())
      elif k < 0.25 and self.nctx:
        c = r.randint(1, self.nctx)
        self.go({"o": "draw", "c": c, "n": r.choice(self.streams[c - 1] + ["params", "drop"])})
      elif k < (0.35 if self.pid == "C22" else 0.65):
        op = self.sinit()
        if r.random() < 0.4:
          self.go({"o": "new", "c": r.choice("AB")})
          op["m"] = len(self.ex.objs)
          op["named"] = r.randint(0, 1)
        e = self.go(op)
        if e["res"]["t"] == "err":
          if op["m"]:
            break   # a module initialised half way holds values of a dead trace
        else:
          roots.append(e["res"]["m"])
          self.inits[e["res"]["m"]] = op
      elif k < 0.7 and roots:
        m = r.choice(roots)
        names = [(n, e) for n, e in self.ex.heap[m - 1]["a"].items() if e["k"] == "var"]
        if names and r.random() < 0.3:
          n, e = r.choice(names)
          if e["v"][0] in "ia":
            self.go({"o": "set", "m": m, "n": n, "x": {"k": "arr", "ty": "jax", "v": reval(e["v"], r)}})
        else:
          self.go({"o": "state", "m": m})
      if roots and k >= 0.35:
        m = r.choice(roots)
        i = self.inits.get(m)
        if i and not i["m"] and r.random() < 0.6:
          form = r.choice(["cls", "meth"])
          opts = {x: i[x] for x in ("axes", "bc", "cr", "meta", "split", "len", "rev")}
          self.go(self.scan(m, opts, form))
        else:
          opts = dict(self.opts)
          if i:
            opts = {x: i[x] for x in ("axes", "bc", "cr", "meta", "split")}
            opts["len"] = 0
          self.go(self.scan(m, opts))
    return self.ex.events


def reval(v, r):
  return ["i", r.randint(0, 40)] if v[0] == "i" else ["a", [reval(x, r) for x in v[1]]] if v[0] == "a" else v


def run(c):
  (maxl, rich), cap, n, length = SIZES[c.pid][c.thorough]
  lines = c.tlc("MC_Scan", cfg("Spec", ["Prop", "Emit"], dict(CONST, Profile=c.pid, MaxL=maxl, Rich=rich)))
  focus = (lambda op, clause, v: op in ("scan", "draw", "state")) if c.pid == "C22" else (lambda op, clause, v: True)
  tr = replay(c, scripts_of(lines), execute, cap)
  tr += randoms(c, lambda r: Gen(r, c.pid, length).events(), n)
  ok = sum(e["res"]["t"] not in ("err",) for t in tr for e in t["evs"] if e["op"]["o"] in ("scan", "sinit"))
  c.extra["lifted_calls"] = sum(e["op"]["o"] in ("scan", "sinit") for t in tr for e in t["evs"])
  c.extra["lifted_calls_that_return"] = ok
  c.validate("TraceScan", tr, focus, cfg=cfg("Spec", constants=CONST))
