"""C32: train states against spec/Train.tla."""
from drive import *
from common import *
import jax, jax.numpy as jnp, numpy as np, optax
import nnx
from nnx import containers
from flax import serialization
import graph


TYPES = dict(graph.TYPES, Static=nnx.Static)


class Lin(nnx.Module):

  def __call__(self, x):
    return self.w * x + self.b


class Flat(nnx.Module):

  def __init__(self, k):
    self.k = k
    self.w, self.c = nnx.Param(jnp.zeros(2)), nnx.BatchStat(jnp.zeros(2))

  def __call__(self, x):
    y = self.k * self.w * x + self.c
    self.c = self.c + x
    return y

  def m(self, x):
    return self.w - x


class Deep(nnx.Module):

  def __init__(self, k):
    self.k = k
    self.l = Lin()
    self.l.w, self.l.b = nnx.Param(jnp.zeros(2)), nnx.Param(jnp.zeros(2))
    self.c = nnx.BatchStat(jnp.zeros(2))

  def __call__(self, x):
    y = self.k * self.l(x) + self.c
    self.c = self.c + 2 * x
    return y

  def m(self, x):
    return self.l.b + x


def vec(v):
  a = np.asarray(v)
  out = [int(x) if x == int(x) and abs(x) < 10**9 else repr(float(x)) for x in a.reshape(-1).tolist()]
  return out if a.ndim == 1 else ["shape", str(a.shape), *map(str, out)]


def variables(s):
  return [{"p": k.split("/"), "t": type(v).__name__, "v": vec(v.value)} if isinstance(v, containers.Container) else {"p": k.split("/"), "t": "raw", "v": vec(v)}
          for k, v in sorted(s.items(), key=lambda x: x[0].split("/"))]


def num(x):
  if isinstance(x, (int, np.ndarray, jax.Array)) and np.ndim(x) == 0 and int(x) == x:
    return int(x)
  return repr(x)


def stages(o):
  if isinstance(o, tuple) and not hasattr(o, "_fields"):
    return [y for x in o for y in stages(x)]
  if isinstance(o, dict) and o and all(k.isdigit() for k in o):
    return [y for k in sorted(o, key=int) for y in stages(o[k])]
  get = o.get if isinstance(o, dict) else lambda n: getattr(o, n) if n in getattr(o, "_fields", ()) else None
  if get("trace") is not None:
    return [["trace", variables(get("trace"))]]
  if get("count") is not None:
    return [["count", num(get("count"))]]
  return [["empty"]]


def value(v):
  """A field as the user sees it."""
  if isinstance(v, containers.Container):
    return ["c", type(v).__name__, num(v.value)]
  if isinstance(v, nnx.State):
    return ["st", variables(v)]
  return ["num", num(v)]


def opt(o):
  chain = int(isinstance(o, tuple) and not hasattr(o, "_fields") or isinstance(o, dict) and any(k.isdigit() for k in o))
  return ["opt", stages(o), chain]


class Exec:

  def __init__(self):
    self.ts, self.meta, self.last, self.dicts, self.evs, self.jits = [], [], nnx.State({}), [], [], {}
    LAST[0] = self.evs

  def state(self, l):
    return nnx.State({"/".join(x["p"]): TYPES[x["t"]](jnp.asarray(x["v"], jnp.float32)) for x in l})

  def conc(self, v):
    return {"num": lambda: v[1], "c": lambda: TYPES[v[1]](v[2]), "st": lambda: self.state(v[1]),
            "last": lambda: nnx.State({k: x for k, x in self.last.items() if type(x).__name__ == v[1]})}[v[0]]()

  def tx(self, t):
    out = []
    for g in t["stages"]:
      k = g[0]
      out.append(optax.scale(g[1]) if k == "scale" else optax.trace(g[1], bool(g[2])) if k == "trace" else optax.clip(g[1]) if k == "clip"
                 else optax.add_decayed_weights(g[1]) if k == "wd" else optax.set_to_zero() if k == "zero"
                 else optax.scale_by_schedule(lambda c, a=g[1]: c + a))
    return optax.chain(*out) if t["chain"] else out[0]

  def look(self, i, t):
    meta = self.meta[i]
    f = {k: v for k, v in vars(t).items() if not graph.internal(k)}
    core = ("moduledef", "params", "tx", "opt_state", "step")
    ok = f.get("moduledef") == meta["def"] and f.get("tx") is meta["fn"]
    un = lambda n: f[n].value if isinstance(f[n], containers.Container) else f[n]
    node = all(type(f[n]).__name__ == "TreeNode" for n in ("params", "opt_state", "step"))
    return {"m": meta["m"] if ok and node else "changed", "k": meta["k"], "params": variables(un("params")), "tx": meta["tx"], "opt": stages(un("opt_state")),
            "step": num(un("step")), "x": [[n, value(f[n])] for n in sorted(f) if n not in core]}

  def push(self, t, like):
    self.ts.append(t)
    self.meta.append(self.meta[like] if isinstance(like, int) else like)

  def args(self, op):
    return [a[1] if a[0] == "n" else self.state(a[1]) if a[0] == "s" else self.last for a in op["args"]]

  def do(self, op):
    o = op["o"]
    i = op.get("r", 1) - 1
    T = self.ts[i] if "r" in op else None
    if o == "mk":
      m = (Flat if op["m"] == "flat" else Deep)(op["k"])
      _, moduledef = m.partition(...)
      fn = self.tx(op["tx"])
      kw = {n: self.conc(v) for n, v in op["x"]}
      if op["how"] == "given":
        kw["step"] = op["step"]
      t = nnx.TrainState(moduledef, params=self.state(op["params"]), tx=fn, **kw)
      self.push(t, {"m": op["m"], "k": op["k"], "tx": op["tx"], "fn": fn, "def": moduledef})
    elif o == "ag":
      g, kw = self.state(op["g"]), {n: self.conc(v) for n, v in op["kw"]}
      if op["how"] == "jit":
        t = jax.jit(lambda s, g, kw: s.apply_gradients(g, **kw))(T, g, kw)
      else:
        t = T.apply_gradients(g, **kw) if op["how"] == "plain" else T.apply_gradients(grads=g, **kw)
      self.push(t, i)
    elif o == "rep":
      self.push(T.replace(**{n: self.conc(v) for n, v in op["kw"]}), i)
    elif o == "set":
      setattr(T, op["n"], self.conc(op["v"]))
    elif o == "get":
      v = getattr(T, op["n"])
      return {"t": "val", "x": opt(v) if op["n"] == "opt_state" else value(v)}
    elif o == "flat":
      leaves, treedef = jax.tree_util.tree_flatten(T)
      self.push(jax.tree_util.tree_unflatten(treedef, leaves), i)
      return {"t": "leaves", "x": [vec(jnp.atleast_1d(x)) for x in leaves]}
    elif o == "map":
      self.push(jax.tree_map(lambda x: x + op["by"], T), i)
    elif o == "apply":
      call = T.apply(*self.args(op))
      x = jnp.asarray(op["x"], jnp.float32)
      fn = call if op["how"] == "call" else getattr(call, op["how"])
      y, (vs, d) = fn(x)
      out = {"t": "out", "y": vec(y), "vs": variables(vs)}
      if d.type is not T.moduledef.type:
        out["t"] = "another definition"
      self.last = vs
      return out
    elif o == "train":
      x = jnp.asarray(op["x"], jnp.float32)

      def loss(p):
        y, (vs, _) = T.apply(p, *self.args(op))(x)
        return y.sum(), vs
      grads, vs = jax.grad(loss, has_aux=True)(T.params)
      kw = {op["keep"]: vs.filter(nnx.BatchStat)} if op["keep"] else {}
      self.push(T.apply_gradients(grads, **kw), i)
    elif o == "sd":
      d = serialization.to_state_dict(T)
      self.dicts.append(d)
      return {"t": "dict", "x": [[n, opt(v) if n == "opt_state" else value(v)] for n, v in sorted(d.items())]}
    elif o == "restore":
      d = dict(self.dicts[op["d"] - 1])
      if op["edit"][0] == "drop":
        d.pop(op["edit"][1], None)
      elif op["edit"][0] == "add":
        d[op["edit"][1]] = 1
      self.push(serialization.from_state_dict(T, d), i)
    else:
      raise ValueError(op)
    return {"t": "ok"}

  def step(self, op):
    n, k = len(self.ts), len(self.dicts)
    try:
      with limit():
        res = self.do(op)
    except Exception as e:
      del self.ts[n:], self.meta[n:], self.dicts[k:]
      res = {"t": "err"}
    self.evs.append({"op": op, "res": res, "obs": [self.look(i, t) for i, t in enumerate(self.ts)]})
    return res


def execute(ops):
  ex = Exec()
  for op in ops:
    ex.step(op)
  return ex.evs


class Gen:
  EXTRA = ["a", "batch_stats", "other", "static", "z"]

  def __init__(self, r):
    self.r, self.ex = r, Exec()

  def v2(self, lo=-3, hi=3):
    return [self.r.randint(lo, hi) for _ in range(2)]

  def stage(self):
    r = self.r
    k = r.choice(["scale", "scale", "trace", "trace", "clip", "wd", "sched", "zero" if r.random() < 0.3 else "trace"])
    return {"scale": lambda: ["scale", r.choice([-1, -1, -2, 1, 2])], "trace": lambda: ["trace", r.choice([1, 2, -1]), r.randint(0, 1)], "clip": lambda: ["clip", r.randint(1, 4)],
            "wd": lambda: ["wd", r.choice([-1, 1, 2])], "sched": lambda: ["sched", r.choice([-1, 0, 1])], "zero": lambda: ["zero"]}[k]()

  def tx(self):
    chain = self.r.randint(0, 1)
    return {"chain": chain, "stages": [self.stage() for _ in range(self.r.randint(1, 4) if chain else 1)]}

  def bs(self):
    r = self.r
    l = []
    if r.random() < 0.9:
      l.append({"p": ["c"], "t": r.choice(["BatchStat", "BatchStat", "BatchStat", "Cache"]), "v": self.v2()})
    if r.random() < 0.15:
      l.append({"p": ["zz"], "t": "BatchStat", "v": self.v2()})
    return ["st", l]

  def value(self):
    k = self.r.random()
    return ["num", self.r.randint(0, 9)] if k < 0.35 else ["c", self.r.choice(["Node", "Static", "Param", "BatchStat"]), self.r.randint(0, 9)] if k < 0.7 else self.bs()

  def params(self, m):
    r = self.r
    paths = [["w"]] if m == "flat" else [["l", "b"], ["l", "w"]]
    if r.random() < 0.12:
      paths = paths[1:]
    if r.random() < 0.1:
      paths = [["c"], *paths]
    return [{"p": p, "t": "Param" if r.random() < 0.9 else "Cache", "v": self.v2()} for p in paths]

  def size(self, t):
    step = t.step
    rest = [float(jnp.abs(jnp.asarray(x)).max()) for x in jax.tree_util.tree_leaves(t) if x is not step]
    return max([0, abs(int(step)) // 10 ** 5, *rest])

  def make(self):
    r, ex = self.r, self.ex
    n = len(ex.ts)
    small = [i + 1 for i in range(n) if self.sizes[i] < 2000]
    o = r.choices(["mk", "ag", "rep", "set", "get", "flat", "map", "apply", "train", "sd", "restore"], [1, 8, 3, 1, 3, 1, 1, 5, 4, 2, 2])[0] if n and small else "mk"
    if o == "mk":
      m = r.choice(["flat", "deep"])
      how = r.choice(["none", "given"])
      return {"o": o, "m": m, "k": r.randint(1, 3), "params": self.params(m), "tx": self.tx(), "how": how, "step": r.choice([r.randint(1, 9), r.choice([127, 255, 32767, 65535, 16777216])]) if how == "given" else 0,
              "x": sorted([x, (self.bs() if x == "batch_stats" and r.random() < 0.9 else self.value())] for x in r.sample(self.EXTRA, r.randint(0, 3)))}
    i = r.choice(small) if r.random() < 0.4 else small[-1]
    t = ex.look(i - 1, ex.ts[i - 1])
    xs = [x[0] for x in t["x"]]
    kinds = dict(map(lambda x: (x[0], x[1]), t["x"]))

    def kw(core=()):
      out = []
      for name in sorted(r.sample(xs + ["zz"], r.choice([0, 0, 1, 1, 2]) if xs else 0) if r.random() < 0.95 else ["zz"]):
        old = kinds.get(name, ["num"])
        if name == "zz" and r.random() < 0.8:
          continue
        v = self.value()
        if old[0] == "c":
          v = ["num", r.randint(0, 9)] if v[0] == "st" or r.random() < 0.7 else v
        elif old[0] == "st" and r.random() < 0.5:
          v = ["last", r.choice(["BatchStat", "BatchStat", "Cache"])]
        out.append([name, v])
      for c in core:
        out.append([c, ["num", r.randint(0, 9)] if c == "step" else ["st", self.params(t["m"])]])
      return out
    if o == "ag":
      g = [{"p": x["p"], "t": x["t"], "v": self.v2()} for x in t["params"]]
      if r.random() < 0.06:
        g = g[1:] + [{"p": ["zz"], "t": "Param", "v": self.v2()}] * r.randint(0, 1)
      elif g and r.random() < 0.03:
        g[0]["t"] = "MyParam"
      how = r.choice(["plain", "plain", "kw", "jit" if r.random() < 0.4 else "plain"])
      k = kw(["step"] if r.random() < 0.03 else [])
      if how == "jit" and any(v[0] == "c" and v[1] == "Static" or v[0] == "num" for _, v in k):
        how = "plain"
      return {"o": o, "r": i, "g": g, "kw": k, "how": how}
    if o == "rep":
      return {"o": o, "r": i, "kw": kw([c for c in ("step", "params") if r.random() < 0.2])}
    if o == "set":
      return {"o": o, "r": i, "n": r.choice(["step", "params", "zz", *xs]), "v": ["num", 1]}
    if o == "get":
      return {"o": o, "r": i, "n": r.choice(["step", "params", "opt_state", "zz", *xs])}
    if o in ("flat", "map", "sd"):
      if o == "sd" and len(ex.dicts) > 4:
        return None
      return {"o": o, "r": i, **({"by": r.randint(-2, 2)} if o == "map" else {})}
    sts = [x for x in xs if kinds[x][0] == "st"]
    one = lambda: ["n", r.choice(sts)] if sts and r.random() < 0.75 else ["s", self.bs()[1]] if r.random() < 0.6 else ["n", "zz"] if r.random() < 0.3 else ["last"]
    if o == "apply":
      args = [["n", "params"], *[one() for _ in range(r.choice([0, 1, 1, 1, 2]))]]
      if r.random() < 0.3:
        r.shuffle(args)
      if r.random() < 0.1:
        args = args[1:] or [one()]
      return {"o": o, "r": i, "args": args, "how": r.choice(["call", "call", "call", "m", "l" if t["m"] == "deep" else "m"]), "x": self.v2()}
    if o == "train":
      args = [a for a in [one() for _ in range(r.choice([0, 1, 1, 1]))] if a[0] != "last"]
      if any(x["p"] == ["c"] for x in t["params"]):
        return None     # its value would come from two places
      return {"o": o, "r": i, "args": args, "how": "call", "x": self.v2(), "keep": r.choice([x for x in sts] + [""])}
    if o == "restore":
      if not ex.dicts:
        return None
      d = r.randint(1, len(ex.dicts))
      have = {n: isinstance(v, nnx.State) for n, v in ex.dicts[d - 1].items()}
      if any(have.get(n, v[0] == "st") != (v[0] == "st") for n, v in kinds.items()):
        return None     # variables restored over a number: not told apart by flax
      e = ["no"] if r.random() < 0.8 else ["add", "zz"] if r.random() < 0.5 else ["drop", r.choice(["step", "params", "opt_state", *xs])]
      return {"o": o, "r": i, "d": d, "edit": e}

  def run(self, length):
    self.sizes = []
    while len(self.ex.evs) < length:
      op = self.make() if len(self.ex.ts) < 12 or self.r.random() < 0.3 else None
      if not op:
        if len(self.ex.ts) >= 12:
          break
        continue
      n = len(self.ex.ts)
      self.ex.step(op)
      if len(self.ex.ts) > n:
        self.sizes.append(self.size(self.ex.ts[-1]))
    return self.ex.evs


def run(c):
  lines = c.tlc("MC_Train", cfg("Spec", ["Prop", "Emit"], dict(D=3 if c.thorough else 2, Rich=c.thorough)))
  tr = replay(c, scripts_of(lines), execute, 12000 if c.thorough else 900)
  tr += randoms(c, lambda r: Gen(r).run(30), 2500 if c.thorough else 220)
  c.validate("TraceTrain", tr, lambda op, clause, v: True)
