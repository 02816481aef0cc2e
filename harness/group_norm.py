"""C33: batch and layer normalisation against spec/Norm.tla."""
from drive import *
from common import *
import jax, jax.numpy as jnp, numpy as np
import nnx
from group_layers import DT


def dyadic(v):
  f = float(v)
  if f != f or f in (float("inf"), float("-inf")):
    return ["nan", 0]
  n, d = f.as_integer_ratio()
  return [n, d.bit_length() - 1] if abs(n) < 2**31 and d.bit_length() < 30 else ["big", 0]


def ints(v):
  return [int(x) if x == int(x) else repr(x) for x in np.asarray(v, np.float32).reshape(-1).tolist()]


def fixed(y):
  return [int(np.floor(x * 256 + 0.5)) if abs(x) < 1e6 else 10**9 for x in np.asarray(y.astype(jnp.float32)).reshape(-1).tolist()]


class Exec:

  def __init__(self):
    self.ls, self.cfgs, self.cs, self.keys, self.log, self.evs = [], [], [], [], [], []
    self.ctx = nnx.context(0)
    LAST[0] = self.evs

  def init(self, name, data):
    def fn(key, shape, dtype):
      k = np.asarray(key).tobytes()
      if k not in self.keys:
        self.keys.append(k)
      self.log.append([name, self.keys.index(k) + 1, list(shape), jnp.dtype(dtype).name])
      return jnp.asarray([data[i % len(data)] for i in range(int(np.prod(shape)))], dtype).reshape(shape)
    return fn

  def tri(self, v):
    return None if v == -1 else bool(v)

  def make(self, op):
    c = op["c"]
    val = lambda d: d[0] / 2 ** d[1]
    plain = len(self.ls) % 2      # every other layer leaves to the defaults what they say as well

    def opts(**kw):
      d = dict(param_dtype=jnp.float32, use_bias=True, use_scale=True, reduction_axes=-1, feature_axes=-1)
      return {k: v for k, v in kw.items() if not plain or v != d[k]}
    kw = dict(opts(param_dtype=DT[c["pdt"]], use_bias=bool(c["b"]), use_scale=bool(c["s"])), epsilon=val(c["eps"]), scale_init=self.init("scale", op["sd"]),
              bias_init=self.init("bias", op["bd"]), ctx=self.ctx)
    if c["dt"] != "none":
      kw["dtype"] = DT[c["dt"]]
    if c["axn"]:
      kw["axis_name"] = "batch"
    if c["k"] == "bn":
      if op["mode"] != -1:
        kw["use_running_average"] = self.tri(op["mode"])
      if c["axis"] != -1:
        kw["axis"] = c["axis"]
      return nnx.BatchNorm(c["nf"], momentum=val(c["mom"]), **kw)
    ax = lambda a: a[0] if len(a) == 1 else tuple(a)
    return nnx.LayerNorm(c["nf"], **opts(reduction_axes=ax(c["red"]), feature_axes=ax(c["feat"])), **kw)

  def do(self, op):
    o = op["o"]
    if o == "mk":
      self.log = []
      self.ls.append(self.make(op))
      self.cfgs.append(op["c"])
      return {"t": "made", "log": self.log}
    if o == "ctx":
      self.cs.append(nnx.context(flags={} if op["fl"] == -1 else {"use_running_average": bool(op["fl"])}))
      return {"t": "ok"}
    if o == "fresh":
      # what nobody chose: momentum, epsilon and the parameters a layer begins with
      cls = nnx.BatchNorm if op["k"] == "bn" else nnx.LayerNorm
      L = cls(2, ctx=self.ctx)
      par = [ints(L.scale), ints(L.bias)]
      x = jnp.asarray([1e-3, -1e-3] * 2, jnp.float32).reshape(2, 2)
      y = L(x if op["k"] == "ln" else x.T, **({"use_running_average": False} if op["k"] == "bn" else {}))
      big = cls(2, ctx=self.ctx)
      big(jnp.full((3, 2), 1000.0), **({"use_running_average": False} if op["k"] == "bn" else {}))
      return {"t": "fresh", "x": par, "y": fixed(jnp.abs(y)), "m": fixed(big.mean / 256) if op["k"] == "bn" else []}
    L, c = self.ls[op["l"] - 1], self.cfgs[op["l"] - 1]
    if o == "set":
      d = op["d"]
      if op["n"] == "mode":
        L.use_running_average = self.tri(d[0])
      elif op["n"] in ("scale", "bias"):
        setattr(L, op["n"], jnp.asarray(d, DT[c["pdt"]]))
      else:
        setattr(L, op["n"], jnp.asarray([n / 2 ** e for n, e in d], jnp.float32))
      return {"t": "ok"}
    x = jnp.asarray(np.asarray(op["x"]["d"], np.int32).reshape(op["x"]["sh"]), DT[op["xdt"]])
    kw, how = {}, op["how"]
    if op["mode"] != -1:
      kw["use_running_average"] = self.tri(op["mode"])
    ctx = {"ctx": self.cs[op["c"] - 1]} if op["c"] else {}
    if how == "jit":
      y = nnx.jit(lambda m, x, ctx: m(x, **kw, ctx=ctx))(L, x, **ctx) if ctx else nnx.jit(lambda m, x: m(x, **kw))(L, x)
    elif how == "vmap":
      state, d = L.partition(...)

      def f(x):
        m = d.merge(state)
        y = m(x, **kw, **ctx)
        return y, m.partition(...)[0]
      y, state = jax.vmap(f, axis_name="batch", out_axes=(0, None))(x)
      L.update_state(state)
    elif how == "apply":
      state, d = L.partition(...)
      y, (state, _) = d.apply(state)(x, **kw, **ctx)
      L.update_state(state)
    elif how == "pos" and kw:
      y = L(x, kw["use_running_average"], **ctx)
    else:
      y = L(x, **kw, **ctx)
    return {"t": "out", "sh": list(y.shape), "dt": jnp.dtype(y.dtype).name, "d": fixed(y)}

  def look(self, L, c):
    none = lambda v: [] if v is None else ints(v)
    out = {"scale": none(L.scale), "bias": none(L.bias), "mean": [], "var": [], "mode": -1}
    if c["k"] == "bn":
      m = L.use_running_average
      out.update(mean=[dyadic(v) for v in np.asarray(L.mean).reshape(-1)], var=[dyadic(v) for v in np.asarray(L.var).reshape(-1)], mode=-1 if m is None else int(m))
    return out

  def step(self, op):
    n, k = len(self.ls), len(self.cs)
    try:
      with limit():
        res = self.do(op)
    except Exception as e:
      del self.ls[n:], self.cfgs[n:], self.cs[k:]
      res = {"t": "err"}
    self.evs.append({"op": op, "res": res, "obs": [self.look(L, c) for L, c in zip(self.ls, self.cfgs)]})
    return res


def execute(ops):
  ex = Exec()
  for op in ops:
    ex.step(op)
  return ex.evs


def gen(r, n):
  ex = Exec()
  tri = lambda p=0.4: -1 if r.random() < p else r.randint(0, 1)
  data = lambda: [r.choice([-3, -2, -1, 1, 2, 3]) for _ in range(r.randint(2, 5))]
  fls = []
  pow2 = lambda m=4: r.choice([k for k in (1, 2, 4, 8) if k <= m])

  def types():
    return (r.choice(["float32", "float16", "bfloat16"]) if r.random() < 0.2 else "none"), ("float32" if r.random() < 0.85 else r.choice(["float16", "bfloat16"]))

  def array(sh):
    return {"sh": sh, "d": [r.randint(-8, 8) for _ in range(int(np.prod(sh)))]}

  while len(ex.evs) < n:
    k = r.random()
    if len(ex.ls) < 2 or (k < 0.1 and len(ex.ls) < 6):
      dt, pdt = types()
      c = {"eps": r.choice([[1, 4], [1, 2], [1, 0], [1, 3]]), "b": r.randint(0, 1), "s": r.randint(0, 1), "dt": dt, "pdt": pdt, "axn": int(r.random() < 0.25)}
      if r.random() < 0.7:
        c = {"k": "bn", "nf": r.randint(1, 4), "axis": r.choice([-1, -1, -1, 0, 1, -2]), "mom": r.choice([[1, 1], [1, 1], [3, 2], [1, 2], [0, 0], [1, 0]]), **c}
        mode = tri(0.6)
      else:
        rank = r.randint(2, 3)
        axes = lambda: [a if r.random() < 0.5 else a - rank for a in r.sample(range(rank), r.choice([1, 1, 2]))]
        c = {"k": "ln", "nf": pow2(), "red": axes() if r.random() < 0.6 else [-1], "feat": axes() if r.random() < 0.5 else [-1], **c}
        c["rank"] = rank
        mode = -1
      ex.step({"o": "mk", "c": c, "mode": mode, "sd": data(), "bd": data()})
      continue
    if len(fls) < 1 or (k < 0.13 and len(fls) < 4):
      fls.append(tri())
      ex.step({"o": "ctx", "fl": fls[-1]})
      continue
    if r.random() < 0.03:
      ex.step({"o": "fresh", "k": r.choice(["bn", "ln"])})
      continue
    i = r.randrange(len(ex.ls))
    c = ex.cfgs[i]
    L = ex.look(ex.ls[i], c)
    used = max([0, *[e for _, e in L["mean"] + L["var"]]])
    if c["k"] == "bn" and (used > 11 or r.random() < 0.12):
      what = r.choice(["mode", "mean", "var", "scale", "bias"])
      if used > 11:
        what = "mean" if max(e for _, e in L["mean"]) > 11 else "var"
      if what in ("scale", "bias") and not c["s" if what == "scale" else "b"]:
        continue
      d = [tri(0.3)] if what == "mode" else [r.randint(1, 3) for _ in range(c["nf"])] if what in ("scale", "bias") else \
          [r.choice([[0, 0], [1, 0], [3, 0], [1, 1], [-1, 1]] if what == "mean" else [[1, 0], [4, 0], [1, 1], [9, 0], [7, 1], [15, 0]]) for _ in range(c["nf"])]
      ex.step({"o": "set", "l": i + 1, "n": what, "d": d})
      continue
    vm = c["axn"] and r.random() < 0.85
    if c["k"] == "bn":
      rank = r.choice([2, 2, 3])
      f = c["axis"] % rank
      if c["axis"] == 1 and rank == 2:
        f = 1
      sh = [pow2(4 if rank == 2 else 2) for _ in range(rank)]
      sh[f] = c["nf"] if r.random() < 0.95 or c["nf"] == 1 else c["nf"] + 1
      mode = r.choice([-1, -1, 0, 0, 1])
    else:
      rank = c["rank"]
      sh = [pow2() for _ in range(rank)]
      if r.random() < 0.9:
        for _ in range(50):
          if int(np.prod([sh[a % rank] for a in c["feat"]])) == c["nf"]:
            break
          sh = [pow2() for _ in range(rank)]
      mode = -1
    how = "vmap" if vm else r.choice(["plain", "plain", "pos", "jit", "apply"])
    if c["k"] == "ln" and how == "pos":
      how = "plain"
    if vm:
      sh = [r.choice([1, 2]), *sh]
    ctx = r.randint(0, len(fls)) if c["k"] == "bn" else 0
    if how == "vmap":
      ctx = 0      # a context cannot be used inside another trace
    ex.step({"o": "call", "l": i + 1, "x": array(sh), "xdt": r.choice(["float32", "float32", "float32", "float16", "bfloat16", "int32"]), "mode": mode, "c": ctx, "how": how})
  return ex.evs


def run(c):
  lines = c.tlc("MC_Norm", cfg("Spec", ["Prop", "Emit"], dict(D=3 if c.thorough else 1, Rich=c.thorough)))
  tr = replay(c, scripts_of(lines), execute, 30000 if c.thorough else 1200)
  tr += randoms(c, lambda r: gen(r, 28), 2500 if c.thorough else 220)
  c.validate("TraceNorm", tr, lambda op, clause, v: True)
