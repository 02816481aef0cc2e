"""C25-C27: logical axes, sharding metadata and axis rules against spec/Spmd.tla."""
import os
os.environ["XLA_FLAGS"] = os.environ.get("XLA_FLAGS", "") + " --xla_force_host_platform_device_count=8"
import contextlib, threading, typing
from drive import *
from common import *
import jax
import jax.numpy as jnp
import optax
import nnx
from nnx import spmd, containers
from nnx.pytreelib import TreeNode
import graph
from turns import Turns, together, crossings, cross
from levels import Unwind, OtherUnwind

TYPES = dict(graph.VARS, TreeNode=TreeNode)
P = jax.sharding.PartitionSpec


class Obj(nnx.Pytree):

  def __init__(self, **kw):
    for k, v in kw.items():
      setattr(self, k, v)


def optimiser(name):
  return {"adam": lambda: optax.adam(0.1), "sgd": lambda: optax.sgd(0.1), "momentum": lambda: optax.sgd(0.1, momentum=0.9),
          "chain": lambda: optax.chain(optax.trace(0.9), optax.scale_by_adam())}[name]()


class NT(typing.NamedTuple):
  a: object
  b: object


def mesh():
  return jax.sharding.Mesh(np.array(jax.devices()[:8]).reshape(2, 4), ("X", "Y"))


# ---------------------------------------------------------------- abstraction
def names_conc(n):
  return None if n[0] == "none" else tuple(None if x == "-" else x for x in n[1:])


def names_proj(v):
  if v is None:
    return ["none"]
  return ["s", *["-" if x is None else str(x) for x in v]] if isinstance(v, (tuple, list)) else ["o", str(v)]


def mesh_conc(m):
  return None if m[0] == "n" else m[1] if m[0] == "s" else tuple(m[1:])


def mesh_proj(m):
  return ["n"] if m is None else ["s", m] if isinstance(m, str) else ["t", *m] if isinstance(m, tuple) else ["o", str(m)]


def rules_conc(r, how="tuple"):
  if r[0] == "cur":
    return None
  if r[0] == "bad":
    return {"str": "ab", "dict": {"a": "X"}, "gen": iter((("a", "X"),)), "set": {("a", "X")}}[r[1]]
  return (list if how == "list" else tuple)((n, mesh_conc(m)) for n, m in r[1])


def rules_proj(r):
  try:
    return ["r", [[n, mesh_proj(m)] for n, m in r]]
  except Exception:
    return ["o", type(r).__name__]


def spec_proj(x):
  return ["none"] if x is None else ["P", *[mesh_proj(m) for m in x]] if isinstance(x, P) else ["o", str(type(x))]


def md_proj(c):
  return {k: names_proj(v) if k == "sharding" else ["m", str(v)] for k, v in vars(c).items() if k != "value"}


def proj(x):
  if isinstance(x, P):
    return ["P", *["-" if n is None else n if isinstance(n, str) else str(n) for n in x]]
  if isinstance(x, nnx.State):
    return ["map", "state", [[p, proj(v)] for p, v in sorted(x.items(), key=lambda y: y[0].split("/"))]]
  if isinstance(x, containers.NodeBase):
    return ["var", type(x).__name__, md_proj(x), proj(x.value)]
  if isinstance(x, nnx.Pytree):
    # a plain collection is a static field of a pytree object, not part of the tree
    fixed = lambda v: isinstance(v, (tuple, list, dict)) and not isinstance(v, P)
    return ["map", type(x).__name__, [[k, ["static", proj(v)] if fixed(v) else proj(v)]
                                      for k, v in sorted(vars(x).items()) if not graph.internal(k) and k not in ("tx", "moduledef")]]
  if isinstance(x, dict):
    return ["map", "dict", [[k, proj(v)] for k, v in sorted(x.items())]]
  if isinstance(x, tuple) and hasattr(x, "_fields"):
    return ["seq", type(x).__name__, [proj(v) for v in x]]
  if isinstance(x, (tuple, list)):
    return ["seq", type(x).__name__, [proj(v) for v in x]]
  if x is None:
    return ["none"]
  if isinstance(x, (np.ndarray, jax.Array)):
    return ["arr", tag(x)]
  if isinstance(x, str):
    return ["str", x]
  if isinstance(x, (int, float)):
    return ["num", tag(x)]
  return ["o", type(x).__name__]


def conc(t, variant=0):
  k = t[0]
  if k == "var":
    md = {n: names_conc(v) if n == "sharding" else v[1] for n, v in (t[2] or {}).items()}
    return TYPES[t[1]](conc(t[3], variant), **md)
  if k == "arr":
    return (jnp.asarray if variant else np.asarray)(t[1][1])
  if k in ("num", "str"):
    return untag(t[1]) if k == "num" else t[1]
  if k == "none":
    return None
  if k == "map":
    kids = {n: conc(x, variant) for n, x in t[2]}
    return nnx.State(kids) if t[1] == "state" else Obj(**kids) if t[1] == "Obj" else kids
  if k == "static":
    return conc(t[1], variant)
  kids = [conc(x, variant) for x in t[2]]
  return {"list": list, "tuple": tuple, "NT": lambda k: NT(*k)}[t[1]](kids)


def layout(y, x):
  """how an array is laid out over the mesh: for each dimension the axes it is split over"""
  if y is x:
    return ["same"]
  if len(y.sharding.device_set) == 1:
    return ["same"]
  sizes = {"X": 2, "Y": 4}
  pos = {d: (i // 4, i % 4) for i, d in enumerate(jax.devices()[:8])}
  starts = {pos[d]: [s.start or 0 for s in idx] for d, idx in y.sharding.devices_indices_map(y.shape).items()}
  out = []
  for d in range(y.ndim):
    steps = []
    for n, other in (("X", (1, 0)), ("Y", (0, 1))):
      step = starts[other][d] - starts[0, 0][d]
      if step:
        steps.append((-step, n))
    out.append([n for _, n in sorted(steps)])
  return ["on", *out]


FB = {x.value: x for x in spmd.RulesFallback}


class Holder(nnx.Module):
  pass


class Exec:

  def __init__(self, source, turn=None):
    self.source, self.turn = source, turn
    self.regs, self.proj, self.evs, self.depth = [], [], [], 0
    LAST[0] = self.evs

  def record(self, op, res):
    now = [proj(x) for x in self.regs]
    chg = [i + 1 for i, (a, b) in enumerate(zip(self.proj, now)) if a != b]
    self.proj = now
    self.evs.append({"op": op, "res": res, "chg": chg})

  # -- operations
  def constrain(self, op):
    rules = rules_conc(op["rules"])
    keys = op["x"][0] != "one"
    arr = lambda r: jnp.arange(8.0 ** r).reshape([8] * r)
    x = {k: arr(r) for k, r in op["x"][1]} if keys else arr(op["x"][1])
    names = names_conc(op["names"][1]) if op["names"][0] == "one" else {k: names_conc(n) for k, n in op["names"][1]}
    kw = {"fallback": FB[op["fb"]]}
    if op["rules"][0] != "cur":
      kw["rules"] = rules
    if op["mesh"]:
      kw["mesh"] = mesh()
    f = lambda x: nnx.with_logical_constraint(x, names, **kw)
    with mesh() if op["gm"] else contextlib.nullcontext():
      y = jax.jit(f)(x) if op["jit"] else f(x)
    xs, ys = jax.tree_util.tree_leaves(x), jax.tree_util.tree_leaves(y)
    if jax.tree_util.tree_structure(x) != jax.tree_util.tree_structure(y):
      return {"t": "structure differs"}
    if not all(np.array_equal(np.asarray(a), np.asarray(b)) for a, b in zip(xs, ys)):
      return {"t": "values differ"}
    sh = [layout(b, a) for a, b in zip(xs, ys)]
    if op["jit"]:  # a compiled function puts all its results on the mesh
      sh = [["same"] if l[0] == "on" and not any(l[1:]) else l for l in sh]
    return {"t": "con", "sh": sh}

  def partitioned(self, op):
    rules = rules_conc(op["rules"])
    kw = {} if op["rules"][0] == "cur" else {"rules": rules}
    if op["mesh"]:
      kw["mesh"] = mesh()
    kw.update({k: v[1] for k, v in (op["md"] or {}).items()})
    want = jnp.arange(8.0 ** op["rank"]).reshape([8] * op["rank"])
    init = nnx.with_logical_partitioning(lambda a: want + 0 * a, names_conc(op["names"]), **kw)
    with mesh() if op["gm"] else contextlib.nullcontext():
      v = nnx.Param(init(1))
      un = vars(v)["unbox_fn"](v)
      h = Holder()
      h.w = v
      reads = [h.w, h.partition().merge().w]
      h.w = 2 * want
      reads += [h.w, vars(h)["w"].value]
    value = v.value
    if not (np.array_equal(np.asarray(value), np.asarray(want)) and np.array_equal(np.asarray(un), np.asarray(want))):
      return {"t": "values differ"}
    if not all(np.array_equal(np.asarray(r), np.asarray(w)) for r, w in zip(reads, (want, want, 2 * want, 2 * want))):
      return {"t": "values read differ"}
    md = {k: ["m", x] for k, x in vars(v).items() if k not in ("value", "sharding", "unbox_fn", "mesh", "rules")}
    return {"t": "part", "names": names_proj(vars(v)["sharding"]), "md": md, "sh": layout(value, None), "unbox": layout(un, None),
            "reads": [layout(r, None) for r in reads]}

  def do(self, op):
    o = op["o"]
    if o == "l2m":
      n = names_conc(op["names"])
      n = list(n) if n is not None and op.get("list") else P(*n) if n is not None and op.get("spec") else n
      r = rules_conc(op["rules"], op.get("how", "tuple"))
      f = spmd.logical_to_mesh_axes
      return {"t": "spec", "x": spec_proj(f(n) if r is None else f(n, r))}
    if o in ("l2mtree", "l2s"):
      ns = [names_conc(n) for n in op["names"]]
      tree = {"d%d" % i: {"e": None if n is None else P(*n)} for i, n in enumerate(ns)}
      r = rules_conc(op["rules"])
      r = () if r is None else (r,)
      if o == "l2mtree":
        out = nnx.logical_to_mesh(tree, *r)
      else:
        out = spmd.logical_to_mesh_sharding(tree, mesh(), *r)
        for v in out.values():
          s = v["e"]
          if s is not None:
            if not isinstance(s, jax.sharding.NamedSharding) or dict(s.mesh.shape) != {"X": 2, "Y": 4}:
              return {"t": "not a sharding"}
            v["e"] = s.spec
      if sorted(out) != sorted(tree) or any(set(v) != {"e"} for v in out.values()):
        return {"t": "structure differs"}
      return {"t": "specs", "xs": [spec_proj(out["d%d" % i]["e"]) for i in range(len(ns))]}
    if o == "setr":
      spmd.set_logical_axis_rules(rules_conc(op["rules"]))
      return {"t": "ok"}
    if o == "getr":
      return {"t": "rules", "x": rules_proj(spmd.get_logical_axis_rules())}
    if o == "con":
      return self.constrain(op)
    if o == "part":
      return self.partitioned(op)
    if o == "gps":
      return {"t": "tree", "x": proj(nnx.get_partition_spec(self.regs[op["r"] - 1]))}
    if o == "mk":
      t = conc(op["x"], op.get("jax", 0))
    elif o == "mkts":
      t = nnx.TrainState(None, params=conc(op["x"], op.get("jax", 0)), tx=optimiser(op["tx"]), step=op["step"])
    else:
      md = {nnx.PARTITION_NAME: op["name"]} if op["name"] else {}
      t = (spmd.add_axis if o == "add" else spmd.remove_axis)(self.regs[op["r"] - 1], op["ax"], md)
    self.regs.append(t)
    self.proj.append(proj(t))
    return {"t": "tree", "x": proj(t)}

  def body(self):
    while True:
      if self.turn:
        self.turn()
      op = self.source(self)
      if op is None:
        return
      if op["o"] == "enter":
        self.enter(op)
      elif op["o"] == "exit":
        if op["d"] > self.depth:
          continue
        self.last = op
        if op["how"] == "ret":
          return
        raise (Unwind if op["how"] == "raise" else OtherUnwind)(op["d"])
      else:
        try:
          with limit():
            r = self.do(op)
        except Exception:
          r = {"t": "err"}
        self.record(op, r)

  def enter(self, op):
    def inside():
      self.record(op, {"t": "ok"})
      self.depth += 1
      self.last = None
      try:
        self.body()
      finally:
        self.depth -= 1
    scope = nnx.logical_axis_rules(rules_conc(op["rules"], op.get("how", "tuple")))
    try:
      if op.get("dec"):
        scope(inside)()
      else:
        with scope:
          inside()
    except (Unwind, OtherUnwind) as e:
      if e.n > 1:
        e.n -= 1
        raise
    if self.last:
      self.record(self.last, {"t": "ok"})
      self.last = None

  def run(self):
    self.body()
    return self.evs


def scripted(ops):
  it = iter(ops)
  return lambda ex: next(it, None)


def threaded(turns, execs, p=0.0):
  for ex, e in zip(execs, together(turns, [ex.run for ex in execs], p)):
    if e is not None:  # the bookkeeping broke down: judge what was seen so far
      ex.evs.append({"op": {"o": "lost"}, "res": {"t": "none"}, "chg": [], "x": repr(e)})
  return [ex.evs for ex in execs]


def execute(ops):
  """every history has its own thread, hence its own rules"""
  return threaded(None, [Exec(scripted(ops))])[0]


# ---------------------------------------------------------------- random histories
class Gen:
  NAMES = ["batch", "heads", "embed", "a", "b", "c"]
  MIX = {"C25": dict(l2m=12, l2mtree=3, l2s=2, enter=1, exit=1, setr=1, getr=1),
         "C26": dict(mk=6, mkts=2, gps=5, add=6, rem=6, part=1),
         "C27": dict(enter=8, exit=6, setr=1, getr=3, l2m=3, con=4, part=1)}

  def __init__(self, r, pid, length):
    self.r, self.left = r, length
    self.ops, self.w = list(self.MIX[pid]), list(self.MIX[pid].values())
    self.pid = pid

  def names(self, maxn=4, axes=False):
    r = self.r
    if r.random() < 0.06:
      return ["none"]
    n = r.randint(0, maxn)
    pool = ["-"] * 2 + self.NAMES
    if r.random() < 0.85:
      ns = r.sample(self.NAMES, n)
      ns = ["-" if r.random() < 0.2 else x for x in ns]
    else:
      ns = [r.choice(pool) for _ in range(n)]
    return ["s", *ns]

  def rules(self, known=False, cur=0.3):
    r = self.r
    k = r.random()
    if k < cur:
      return ["cur"]
    if k < cur + 0.03 and not known:
      return ["bad", r.choice(["str", "dict", "gen", "set"])]
    out = []
    for _ in range(r.choice([0, 1, 2, 3, 4, 6])):
      ax = r.sample(["X", "Y"] if known else ["X", "Y", "Z", "W"], 2)
      m = r.choice([["n"], ["s", ax[0]], ["s", ax[0]], ["s", ax[0]], ["t", *ax], ["t", ax[0]], ["t"]])
      out.append([r.choice(self.NAMES), m])
    return ["r", out]

  def tree(self, d=3):
    r = self.r
    k = r.random()
    if d == 0 or k < 0.45:
      ty = r.choice(["Param", "Param", "BatchStat", "MyVar", "Node", "TreeNode"])
      k = r.random()
      if k < 0.12:
        return r.choice([["arr", ["i", r.randint(0, 9)]], ["num", ["i", 1]], ["str", "p"], ["none"]])
      md = {}
      if ty not in ("Node", "TreeNode") or r.random() < 0.5:
        md["sharding"] = r.choice([["none"], ["s", *[r.choice(["-", "e", "f", "l"]) for _ in range(r.randint(0, 4))]], ["s", "l", "e"]])
      if r.random() < 0.2:
        md["tag"] = ["m", r.choice("tu")]
      v = ["arr", ["i", r.randint(0, 9)]]
      if r.random() < 0.15:
        v = r.choice([["num", ["i", 3]], ["seq", "tuple", [["arr", ["i", 1]], ["arr", ["i", 2]]]], ["map", "dict", [["p", ["arr", ["i", 1]]]]], ["seq", "list", []]])
      if ty == "TreeNode" and d and r.random() < 0.6:
        v = self.tree(d - 1)
        if v[0] == "var":   # a container accepts no container of another type
          v = ["seq", "list", [v]]
      return ["var", ty, md, v]
    if k < 0.6:
      leaves = [x for x in (self.tree(0) for _ in range(r.randint(0, 4))) if x[0] == "var" and x[1] != "TreeNode"]
      paths = sorted(r.sample(["a", "a/b", "a/c", "b/a", "b", "x1", "x10", "x2/a"], len(leaves)), key=lambda p: p.split("/"))
      return ["map", "state", [[p, x] for p, x in zip(paths, leaves)]]
    n = r.randint(0, 3)
    if k < 0.75:
      return ["map", "dict", [[x, self.tree(d - 1)] for x in sorted(r.sample(["p", "q", "r", "s"], n))]]
    if k < 0.83:
      kids = [[x, self.tree(d - 1)] for x in sorted(r.sample(["a", "b", "c"], n))]
      kids = [[n, ["static", x] if x[0] == "seq" or x[:2] == ["map", "dict"] else x] for n, x in kids if x[0] not in ("num", "str", "none")]
      return ["map", "Obj", kids]
    if k < 0.9:
      return ["seq", "NT", [self.tree(d - 1), self.tree(d - 1)]]
    return ["seq", r.choice(["list", "tuple"]), [self.tree(d - 1) for _ in range(n)]]

  def params(self):
    r = self.r
    paths = sorted(r.sample(["a", "b/a", "b/c", "x1", "x10"], r.randint(0, 4)), key=lambda p: p.split("/"))
    leaf = lambda: ["var", r.choice(["Param", "MyVar"]), {**({"tag": ["m", "t"]} if r.random() < 0.2 else {}),
                    "sharding": ["none"] if r.random() < 0.2 else ["s", *[r.choice(["-", "e", "f", "l"]) for _ in range(r.randint(0, 3))]]},
                    ["arr", ["i", r.randint(0, 9)]]]
    return ["map", "state", [[p, leaf()] for p in paths]]

  def __call__(self, ex):
    r = self.r
    if not self.left:
      return None
    self.left -= 1
    while True:
      o = r.choices(self.ops, self.w)[0]
      n = len(ex.regs)
      if o == "l2m":
        op = {"o": o, "names": self.names(5), "rules": self.rules(), "how": r.choice(["tuple", "list"])}
        op[r.choice(["list", "spec", "plain"])] = 1
        return op
      if o in ("l2mtree", "l2s"):
        return {"o": o, "names": [self.names() for _ in range(r.randint(0, 4))], "rules": self.rules(known=o == "l2s" and r.random() < 0.8)}
      if o in ("enter", "setr"):
        if o == "enter" and ex.depth >= 6:
          continue
        rules = self.rules(known=True, cur=0)
        op = {"o": o, "rules": rules}
        if o == "enter":
          op.update(dec=int(r.random() < 0.25), how=r.choice(["tuple", "list"]))
        return op
      if o == "exit":
        if not ex.depth:
          continue
        how = r.choice(["ret", "ret", "raise", "interrupt"])
        return {"o": o, "how": how, "d": 1 if how == "ret" else r.randint(1, ex.depth)}
      if o == "getr":
        return {"o": o}
      if o in ("con", "part"):
        real = r.choice([(0, 0), (1, 0), (0, 1), (1, 1), (1, 0)])
        rules = self.rules(known=r.random() < 0.93, cur=0.6)
        if o == "part":
          return {"o": o, "rank": r.randint(0, 3), "names": ["s", *r.sample(self.NAMES, r.randint(0, 2))], "rules": rules if rules[0] != "bad" else ["cur"],
                  "mesh": real[0], "gm": real[1], "md": {"tag": ["m", "t"]} if r.random() < 0.4 else {}}
        op = {"o": o, "rules": rules, "mesh": real[0], "gm": real[1], "fb": r.choice(sorted(FB)), "jit": int(r.random() < 0.4)}
        if r.random() < 0.6:
          op["x"], op["names"] = ["one", r.randint(0, 3)], ["one", self.names(3)]
        else:
          op["x"] = ["keys", [[k, r.randint(1, 3)] for k in ("p", "q", "r")[:r.randint(1, 3)]]]
          ns = lambda: self.names(2)
          if r.random() < 0.3:
            op["names"] = ["one", ns()]
          else:
            op["names"] = ["each", [[k, ns()] for k, _ in op["x"][1]]]
            if real[0]:   # unnamed leaves next to an explicit mesh are left out
              op["names"][1] = [[k, x if x != ["none"] else ["s", "a"]] for k, x in op["names"][1]]
        return op
      if o == "mk":
        if n < 8:
          return {"o": o, "x": self.tree(), "jax": r.randint(0, 1)}
        continue
      if o == "mkts":
        if n < 8:
          return {"o": o, "x": self.params(), "tx": r.choice(["adam", "sgd", "momentum", "chain"]), "step": r.randint(0, 3), "jax": r.randint(0, 1)}
        continue
      if not n:
        continue
      if o == "gps":
        return {"o": o, "r": r.randint(1, n)}
      if n > 12:
        continue
      reg = r.randint(1, n)
      lens = set(lens_of(ex.proj[reg - 1]))
      lo = min(lens, default=2)
      return {"o": o, "r": reg, "ax": r.randint(-(lo + 1), max(lens, default=2) + r.choice([0, 0, 1])),
              "name": r.choice(["l", "l", "e", "f", ""]) if r.random() < 0.5 else "l"}


def lens_of(t):
  if t[0] == "var":
    if t[1] != "TreeNode":
      sh = t[2].get("sharding", ["none"])
      return [] if sh == ["none"] else [len(sh) - 1]
    return lens_of(t[3])
  if t[0] == "map":
    return [x for _, y in t[2] for x in lens_of(y)]
  if t[0] == "seq":
    return [x for y in t[2] for x in lens_of(y)]
  return []


def random_threads(r, pid, length):
  n = r.choice([1, 1, 2, 3])
  turns = Turns(r, n) if n > 1 else None
  execs = [Exec(Gen(random.Random(r.random()), pid, length // n), (lambda i=i: turns.turn(i)) if turns else None) for i in range(n)]
  return threaded(turns, execs, r.choice([0.0, 0.05]) if n > 1 else 0.0)


LOST = {"op": {"o": "lost"}, "res": {"t": "none"}, "chg": []}


def crossed(c, scripts, n, cap):
  """pairs of short histories, the first stopped at every line of nnx it passes while the other takes place"""
  r = rng(c.seed, c.pid, "cross")
  scripts = sorted([s for s in scripts if sum(op["o"] == "enter" for op in s) >= 1], key=lambda s: json.dumps(s))
  pairs = [(r.choice(scripts), r.choice(scripts)) for _ in range(n)]
  make = lambda ops, turn: Exec(scripted(ops), turn)
  parts = timely(c, lambda ip: crossings(rng(c.seed, c.pid, "lines", ip[0]), make, [ip[1]], cap), enumerate(pairs))
  jobs = [job for js in parts for job in js]
  out = timely(c, lambda job: cross(make, job, LOST), jobs)
  c.extra["crossings"] = len(jobs)
  return [{"id": "x%d_%d" % (j, i), "evs": e, "script": jobs[j][1 + i]} for j, evs in enumerate(out) for i, e in enumerate(evs)]


SIZES = {"C25": (3, 4, 3000, 20000, 150, 3000), "C26": (0, 0, 3000, 20000, 250, 4000), "C27": (4, 5, 3000, 20000, 120, 2500)}


def run(c):
  kq, kt, cq, ct, nq, nt = SIZES[c.pid]
  lines = c.tlc("MC_Spmd", cfg("Spec", ["Prop", "Emit"], dict(Profile=c.pid, K=kt if c.thorough else kq, Rich=c.thorough and c.pid != "C25")))
  tr = replay(c, scripts_of(lines), execute, ct if c.thorough else cq)
  n = nt if c.thorough else nq
  hs = timely(c, guard(lambda i: random_threads(rng(c.seed, c.pid, "r", i), c.pid, 40)), range(n), ([], None))
  for i, (evs, err) in enumerate(hs):
    if err:
      c.errors.append(err)
    tr += [{"id": "r%d_%d" % (i, j), "evs": e, "seed": [c.seed, c.pid, "r", i]} for j, e in enumerate(evs)] if not err else []
  c.extra["random_histories"] = n
  if c.pid == "C27":
    tr += crossed(c, scripts_of(lines), 400 if c.thorough else 60, 10**6)
  c.validate("TraceSpmd", tr, lambda op, clause, v: True)
