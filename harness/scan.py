"""Executor for spec/Scan.tla: modules run and initialised as stacks of layers by nnx.scan."""
from common import *
import common
import jax
import jax.numpy as jnp
import nnx
import graph
from graph import ProgError, Res, VARS, CLASSES, Runnable, nav, user_vars, filt

MOD = 2003


# ---------------------------------------------------------------- keys
class Keys:
  """Recognises keys by the way they were derived from a seed."""

  def __init__(self):
    self.table, self.seeds, self.lens, self.reach = {}, [], set(), 0

  def seed(self, s):
    if s not in self.seeds:
      self.seeds.append(s)
      self.reach = 0

  def length(self, n):
    if n not in self.lens and 0 < n < 9:
      self.lens.add(n)
      self.reach = 0

  def fill(self, reach):
    self.reach = reach
    for s in self.seeds:
      c = nnx.context(s=s)
      base = jax.random.PRNGKey(s)
      self.put(base, [[s]])
      parts = {n: jax.random.split(base, n) for n in self.lens}
      for n, ks in parts.items():
        for i in range(n):
          self.put(ks[i], [[s], [-1, n, i + 1]])
      for a in range(reach):
        pure = c.partition()
        fork = pure.contextdef.merge(pure.keys)
        for b in range(reach):
          self.put(fork.make_rng("s"), [[s], [a, b]])
        for n, ks in parts.items():
          for i in range(n):
            fork = pure.contextdef.merge({"s": ks[i]})
            for b in range(reach):
              self.put(fork.make_rng("s"), [[s], [-1, n, i + 1], [a, b]])
      c = nnx.context(s=s)
      for a in range(reach):
        self.put(c.make_rng("s"), [[s], [a]])

  def put(self, k, term):
    self.table.setdefault(np.asarray(k).tobytes(), term)

  def term(self, k):
    b = np.asarray(k).tobytes()
    for reach in (4, 10):
      if b in self.table:
        return ["k", self.table[b]]
      if self.reach < reach:
        self.fill(reach)
    return ["k", self.table[b]] if b in self.table else ["o", "unknown key"]


KEYS = None


def stag(v):
  if isinstance(v, (np.ndarray, jax.Array)) and not isinstance(v, jax.core.Tracer) and v.dtype == np.uint32:
    a = np.asarray(v)
    if a.ndim >= 1 and a.shape[-1] == 2 and KEYS is not None:
      def go(x):
        return KEYS.term(x) if x.ndim == 1 else ["a", [go(y) for y in x]]
      return go(a)
    return ["o", "uint32 array"]
  if isinstance(v, tuple):
    return ["t", [stag(x) for x in v]]
  return common.tag(v)


def nested(v):
  return v[1] if v[0] == "i" else [nested(x) for x in v[1]]


def suntag(v, how="py"):
  if v[0] in ("i", "a") and how != "static":
    return jnp.asarray(nested(v), jnp.float32)
  if v[0] == "t":
    return tuple(suntag(x) for x in v[1])
  return common.untag(v)


def md_proj(c):
  out = {}
  for k, v in vars(c).items():
    if k == "value":
      continue
    out[k] = ["None"] if v is None else (
        ["s", *["-" if x is None else str(x) for x in v]] if isinstance(v, (tuple, list)) else ["m", str(v)])
  return out


def sharding(sh):
  return None if sh == ["None"] else tuple(None if x == "-" else x for x in sh[1:])


def md_conc(md):
  return {k: v[1] if v[0] == "m" else sharding(v) for k, v in md.items()}


graph.tag, graph.untag, graph.md_proj, graph.md_conc = stag, suntag, md_proj, md_conc


def leaf_conc(x):
  if x["k"] == "static":
    return suntag(x["v"], "static")
  return graph.leaf_conc(x)


def rngfilt(f):
  k = f[0]
  if k == "none":
    return None
  if k == "...":
    return ...
  if k == "str":
    return f[1]
  if k == "call":
    return lambda name, n=f[1]: name == n
  if k == "seq":
    return [rngfilt(x) for x in f[1]]
  if k == "map":
    return {rngfilt(x): bool(b) for x, b in f[1]}
  return 3


# ---------------------------------------------------------------- programs
def num(v):
  return isinstance(v, (int, float, np.ndarray, jax.Array)) and not isinstance(v, bool) and getattr(v, "dtype", None) != np.uint32


def arr(v):
  return jnp.asarray(v, jnp.float32) + jnp.zeros((), jnp.float32)


def ev(m, args, e):
  k = e[0]
  if k == "c":
    return arr(e[1])
  if k == "arg":
    if e[1] > len(args):
      raise ProgError("no such argument")
    return args[e[1] - 1]
  if k == "at":
    v = getattr(nav(m, e[1]), e[2])
    if not num(v):
      raise ProgError("not a number")
    return arr(v)
  a, b = ev(m, args, e[1]), ev(m, args, e[2])
  if a.ndim and b.ndim and (a.ndim, b.ndim) != (1, 1):
    raise ProgError("shapes")
  return jnp.mod(a + b if k == "+" else a * b, MOD)


def run(m0, prog, args, ctx, mds):
  for ins in prog:
    k = ins[0]
    if k == "raise":
      raise ProgError("raised")
    if k == "out":
      return arr(ev(m0, args, ins[1])), [arr(ev(m0, args, e)) for e in ins[2]]
    m = nav(m0, ins[1])
    if k == "set":
      setattr(m, ins[2], ev(m0, args, ins[3]))
    elif k == "mkvar":
      setattr(m, ins[2], VARS[ins[3]](ev(m0, args, ins[5]), sharding=sharding(ins[4])))
    elif k == "sow":
      m.sow(VARS[ins[2]], ins[3], ev(m0, args, ins[4]))
    elif k == "draw":
      if ctx is None:
        raise ProgError("no context")
      setattr(m, ins[2], VARS[ins[3]](ctx.make_rng(ins[4])))
    elif k == "mkmod":
      setattr(m, ins[2], CLASSES[ins[3]]())
    elif k == "st":
      setattr(m, ins[2], ins[3])
    elif k == "md":
      v = vars(m).get(ins[2])
      if not isinstance(v, nnx.Variable):
        raise ProgError("no variable")
      mds.append(md_proj(v)["sharding"])
    else:
      raise ValueError(ins)
  return None


class SExec(graph.Exec):

  def __init__(self):
    global KEYS
    super().__init__()
    KEYS = KEYS or Keys()   # kept per worker: histories use few seeds
    self.ctxs, self.scans = [], {}

  def options(self, op):
    kw = {"variable_axes": {filt(f): ax for f, ax in op["axes"]}, "variable_broadcast": filt(op["bc"]),
          "variable_carry": filt(op["cr"]), "split_rngs": rngfilt(op["split"])}
    if op["len"]:
      kw["length"] = op["len"]
    if op["meta"]:
      kw["metadata_params"] = {nnx.PARTITION_NAME: op["meta"]}
    if op.get("rev"):
      kw["reverse"] = True
    if op.get("unroll", 1) != 1:
      kw["unroll"] = op["unroll"]

    def axes(xs):
      return xs[0] if len(xs) == 1 or (xs and len(set(xs)) == 1 and op.get("sameax")) else tuple(xs)
    if op.get("inax"):
      kw["in_axes"] = axes(op["inax"])
    if op.get("outax"):
      kw["out_axes"] = axes(op["outax"])
    return kw

  def do(self, op):
    o = op["o"]
    if o == "ctx":
      for _, s in op["args"]:
        KEYS.seed(s)
      self.ctxs.append(nnx.context(**{n: s for n, s in op["args"]}))
      return None
    if o == "draw":
      k = self.ctxs[op["c"] - 1].make_rng(op["n"])
      return Res(lambda ex: {"t": "val", "v": stag(k)})
    if o == "set":
      x = op["x"]
      setattr(self.objs[op["m"] - 1], op["n"], self.objs[x["r"] - 1] if x["k"] == "mod" else leaf_conc(x))
      return None
    if o == "scan":
      return self.scan(op)
    if o == "sinit":
      return self.sinit(op)
    return super().do(op)

  def agreed(self, runs):
    return runs[0] if all(r == runs[0] for r in runs) else [["differs", str(runs)]]

  def scan(self, op):
    runs, form = [], op.get("form", "fn")

    def body(m, carry, xs, *args, ctx=None, last=None):
      mds = []
      xs = [] if xs is None else list(xs) if isinstance(xs, tuple) else [xs]
      out = run(m, op["prog"], [carry, *xs, *args, *([] if last is None else [last])], ctx, mds)
      if out is None:
        raise ProgError("no output")
      runs.append(mds)
      c, ys = out
      return c, (None if not ys else ys[0] if len(ys) == 1 else tuple(ys))

    m = self.objs[op["m"] - 1]
    c0, xs, args = suntag(op["c0"]), [suntag(x) for x in op["xs"]], [suntag(x) for x in op["args"]]
    xs = None if not xs else xs[0] if len(xs) == 1 else tuple(xs)
    kw = {"ctx": self.ctxs[op["ctx"] - 1]} if op["ctx"] else {}
    if op.get("kw") and args:
      kw["last"] = args.pop()
    for k in range(1, 6):
      KEYS.length(k)
    if form in ("cls", "meth"):
      sm = self.scans[op["m"]]
      Runnable.hook = body
      try:
        c, ys = sm(c0, xs, *args, **kw) if form == "cls" else sm.call.layer(c0, xs, *args, **kw)
      finally:
        Runnable.hook = None
    else:
      f = body
      if form == "remat":
        f0 = f
        f = lambda m, c, x, *a: nnx.remat(f0)(m, c, x, *a)
        f.__name__ = "body"
      f = nnx.scan(f, **self.options(op))
      if form == "jit":
        f = nnx.jit(f)
      c, ys = f(m, c0, xs, *args, **kw)
    ys = [] if ys is None else [ys] if not isinstance(ys, tuple) else list(ys)
    mds = self.agreed(runs)
    return Res(lambda ex: {"t": "scan", "c": stag(c), "ys": [stag(y) for y in ys], "mds": mds})

  def sinit(self, op):
    runs = []
    args = [suntag(x) for x in op["args"]]
    kw = {"ctx": self.ctxs[op["ctx"] - 1]} if op["ctx"] else {}
    for k in range(1, 6):
      KEYS.length(k)

    def fill(m, *args, ctx=None):
      mds = []
      run(m, op["prog"], list(args), ctx, mds)
      runs.append(mds)

    if op["m"]:
      if op.get("named"):
        fill.__name__ = "__init__"
        f = nnx.scan(fill, **self.options(op))
      else:
        f = nnx.scan(fill, is_init=True, **self.options(op))
      m = self.objs[op["m"] - 1]
      f(m, *args, **kw)
    else:
      def build(*args, ctx=None):
        m = CLASSES[op["c"]]()
        fill(m, *args, ctx=ctx)
        return m
      s = nnx.Scan(build, **self.options(op))(*args, **kw)
      m = s.scan_module
      self.scans[len(self.objs) + 1] = s
    mds = self.agreed(runs)
    return Res(lambda ex: {"t": "sinit", "m": ex.num.get(id(m), 0), "mds": mds}, [m])
