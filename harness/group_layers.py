"""C35: linear, convolution and embedding layers against spec/Layers.tla."""
from drive import *
from common import *
import jax, jax.numpy as jnp, numpy as np
from jax import lax
import nnx

DT = {"float32": jnp.float32, "float16": jnp.float16, "bfloat16": jnp.bfloat16, "int32": jnp.int32, "uint8": jnp.uint8, "bool": jnp.bool_}


def num(x):
  f = float(x)
  return int(f) if f == int(f) and abs(f) < 10**9 else repr(f) if f == f else "nan"


INF = {"inf": 900001, "-inf": -900001, "nan": 900002}


def arr(a):
  return {"sh": list(a.shape), "d": [INF.get(str(x)) or num(x) for x in np.asarray(a.astype(jnp.float32) if a.dtype != jnp.int32 else a).reshape(-1).tolist()]}


class Exec:

  def __init__(self):
    self.ls, self.keys, self.log, self.evs = [], [], [], []
    self.ctx = nnx.context(0)
    LAST[0] = self.evs

  def init(self, name, data):
    def fn(key, shape, dtype):
      k = np.asarray(key).tobytes()
      if k not in self.keys:
        self.keys.append(k)
      self.log.append([name, self.keys.index(k) + 1, list(shape), jnp.dtype(dtype).name])
      n = int(np.prod(shape))
      return jnp.asarray([data[i % len(data)] for i in range(n)], dtype).reshape(shape)
    return fn

  def spread(self, v):
    return None if v[0] == "n" else v[1] if v[0] == "i" else tuple(v[1]) if len(v[1]) % 2 else list(v[1])

  def pad(self, p):
    if p[0] in ("str", "i"):
      return p[1]
    return [x[1] if x[0] == "i" else tuple(x[1:]) if x[0] == "p" else list(x[1:]) for x in p[1]]

  def make(self, op):
    c = op["c"]
    plain = len(self.ls) % 2      # every other layer leaves to the defaults what they say as well

    def opts(**kw):
      d = dict(param_dtype=jnp.float32, use_bias=True, strides=1, padding="SAME", input_dilation=1, kernel_dilation=1, feature_group_count=1)
      return {k: v for k, v in kw.items() if not plain or v != d.get(k, LAST)}
    kw = opts(param_dtype=DT[c["pdt"]])
    if c["dt"] != "none":
      kw["dtype"] = DT[c["dt"]]
    if c["k"] == "emb":
      return nnx.Embed(c["n"], c["f"], embedding_init=self.init("kernel", op["kd"]), ctx=self.ctx, **kw)
    kw.update(opts(use_bias=bool(c["b"])), kernel_init=self.init("kernel", op["kd"]), bias_init=self.init("bias", op["bd"]), ctx=self.ctx)
    gen = c["gen"]

    def own(product):  # the user's own product is also handed the layer's precision
      return lambda *a, **k: (gen if lax.Precision.HIGHEST in (*a[3:], *k.values()) else 900) * product(*a, **k)
    if gen != 1:
      kw["precision"] = lax.Precision.HIGHEST
    if c["k"] == "lin":
      if gen != 1:
        kw["dot_general"] = own(lax.dot_general)
      return nnx.Linear(c["i"], c["o"], **kw)
    if gen != 1:
      kw["conv_general_dilated"] = own(lax.conv_general_dilated)
    if c["mask"]:
      m = c["mask"]
      kw["mask_fn"] = lambda k: k * jnp.asarray([m[i % len(m)] for i in range(k.size)], k.dtype).reshape(k.shape)
    ks = c["ks"][0] if op["intk"] else tuple(c["ks"]) if len(c["ks"]) % 2 else list(c["ks"])
    kw.update(opts(strides=self.spread(c["st"]), padding=self.pad(c["pad"]), input_dilation=self.spread(c["idil"]),
                   kernel_dilation=self.spread(c["kdil"]), feature_group_count=c["g"]))
    st = [kw.pop("strides")] if "strides" in kw and len(self.ls) % 4 < 2 else []
    return nnx.Conv(c["i"], c["o"], ks, *st, **kw)

  def fresh(self, op):
    """the parameters a layer begins with when it is not told how, by the names of their initializers"""
    c, names = op["c"], {"lecun normal": jax.nn.initializers.lecun_normal(), "zeros": jax.nn.initializers.zeros, "ones": jax.nn.initializers.ones,
                         "embedding": jax.nn.initializers.variance_scaling(1.0, "fan_in", "normal", out_axis=0)}
    ctx, twin = (nnx.context(op["seed"]) for _ in range(2))
    kw = dict(param_dtype=DT[c["pdt"]], ctx=ctx)
    L = nnx.Linear(c["i"], c["o"], **kw) if c["k"] == "lin" else nnx.Conv(c["i"], c["o"], c["ks"], **kw) if c["k"] == "conv" else nnx.Embed(c["n"], c["f"], **kw)
    out = []
    for v in [getattr(L, self.name(c))] + ([] if c["k"] == "emb" else [L.bias]):
      key = twin.make_rng("params")
      out.append([n for n, f in names.items() if (v.ndim > 1 or n in ("zeros", "ones")) and np.array_equal(np.asarray(f(key, v.shape, v.dtype).astype(jnp.float32)), np.asarray(v.astype(jnp.float32)))] + [jnp.dtype(v.dtype).name, list(v.shape)])
    return {"t": "fresh", "x": out}

  def cfg(self, L):
    return self.cfgs[[id(x) for x in self.ls].index(id(L))]

  def name(self, c):
    return "embedding" if c["k"] == "emb" else "kernel"

  cfgs = ()

  def do(self, op):
    o = op["o"]
    if o == "mk":
      self.log = []
      L = self.make(op)
      self.ls.append(L)
      self.cfgs = [*self.cfgs, op["c"]]
      return {"t": "made", "log": self.log}
    if o == "fresh":
      return self.fresh(op)
    i = op["l"] - 1
    L, c = self.ls[i], self.cfgs[i]
    if o == "set":
      v = L.bias if op["n"] == "bias" else getattr(L, self.name(c))
      d = op["d"]
      setattr(L, "bias" if op["n"] == "bias" else self.name(c), jnp.asarray([d[j % len(d)] for j in range(v.size)], v.dtype).reshape(v.shape))
      return {"t": "ok"}
    x = op["x"]
    x = jnp.asarray(np.asarray(x["d"], np.int32).reshape(x["sh"]), DT[op["xdt"]])
    fn = (lambda m, x: m(x)) if o == "call" else (lambda m, x: m.attend(x))
    how = op["how"]
    if how == "jit":
      y = nnx.jit(fn)(L, x)
    elif how == "jaxjit":
      y = jax.jit(lambda x: fn(L, x))(x)
    elif how == "merge":
      state, d = L.partition(...)
      y = fn(d.merge(state), x)
    elif how == "clone":
      y = fn(L.clone(), x)
    else:
      y = fn(L, x)
    return {"t": "arr", **arr(y), "dt": jnp.dtype(y.dtype).name}

  def look(self, L, c):
    b = None if c["k"] == "emb" else L.bias
    return {"k": arr(getattr(L, self.name(c))), "b": {"sh": [], "d": []} if b is None else arr(b)}

  def step(self, op):
    n = len(self.ls)
    try:
      with limit():
        res = self.do(op)
    except Exception as e:
      del self.ls[n:]
      self.cfgs = list(self.cfgs)[:n]
      res = {"t": "err"}
    self.evs.append({"op": op, "res": res, "obs": [self.look(L, c) for L, c in zip(self.ls, self.cfgs)]})
    return res


def execute(ops):
  ex = Exec()
  for op in ops:
    ex.step(op)
  return ex.evs


def gen(r, n):
  ex = Exec()
  data = lambda lo=-2, hi=3, k=None: [r.randint(lo, hi) for _ in range(k or r.randint(1, 11))]

  def types(low=0.25):
    pdt = "float32" if r.random() < 0.8 else r.choice(["float16", "bfloat16"])
    dt = "none" if r.random() < 0.75 else r.choice(["float32", "float16", "bfloat16", "int32"])
    return dt, pdt

  def conv():
    rank = r.choice([1, 1, 2, 2, 3])
    g = r.choice([1, 1, 1, 2, 3])
    i = g * r.choice([1, 1, 2]) if r.random() < 0.95 else r.choice([1, 3])
    o = g * r.choice([1, 1, 2]) if r.random() < 0.95 else r.choice([1, 3])
    if rank == 3:
      g = i = o = 1
    ns = lambda lo, hi: ["s", [r.randint(lo, hi) for _ in range(rank if r.random() < 0.97 else rank + 1)]]
    spread = lambda hi: r.choice([["n"], ["i", r.randint(1, hi)], ns(1, hi), ["i", 1]])
    pad = r.choice([["str", r.choice(["SAME", "VALID", "CIRCULAR", "CAUSAL", "SAME_LOWER"])], ["str", r.choice(["SAME", "VALID", "CIRCULAR"])], ["i", r.randint(0, 2)],
                    ["s", [r.choice([["i", r.randint(0, 2)], ["p", r.randint(0, 2), r.randint(0, 2)]]) for _ in range(rank)]]])
    if r.random() < 0.05:
      pad = ["s", [["l", 1, 1]] * rank] if r.random() < 0.5 else ["s", [["i", 1]] * (rank + 1)]
    if pad == ["str", "CAUSAL"] and rank > 1 and r.random() < 0.7:
      pad = ["str", "SAME"]
    plain = pad[0] != "str" or r.random() < 0.1
    dt, pdt = types()
    return {"k": "conv", "i": i, "o": o, "ks": [r.randint(1, 3 if rank < 3 else 2) for _ in range(rank)], "st": spread(3), "pad": pad, "idil": spread(2) if plain and rank < 3 and r.random() < 0.4 else ["n"],
            "kdil": spread(2 if rank > 1 else 3), "g": g, "b": r.randint(0, 1), "mask": data(0, 1) if r.random() < 0.2 else [], "dt": dt, "pdt": pdt, "gen": 1 if r.random() < 0.85 else 2}

  def config():
    k = r.choices(["conv", "lin", "emb"], [3, 2, 1])[0]
    if k == "conv":
      return conv()
    dt, pdt = types()
    if k == "lin":
      return {"k": k, "i": r.randint(1, 4), "o": r.randint(1, 4), "b": r.randint(0, 1), "dt": dt, "pdt": pdt, "gen": 1 if r.random() < 0.85 else 2}
    return {"k": k, "n": r.randint(1, 6), "f": r.randint(1, 4), "dt": dt, "pdt": pdt if r.random() < 0.85 else "int32"}

  def array(sh, lo, hi):
    return {"sh": sh, "d": [r.randint(lo, hi) for _ in range(int(np.prod(sh)))]}

  while len(ex.evs) < n:
    if not ex.ls or (r.random() < 0.35 and len(ex.ls) < 6):
      c = config()
      low = not {c["dt"], c["pdt"]} <= {"none", "float32"}
      ex.step({"o": "mk", "c": c, "kd": data(-1, 1) if low else data(), "bd": data(-9, 9), "intk": int(c["k"] == "conv" and r.random() < 0.04)})
      continue
    if r.random() < 0.05:
      c = config()
      if c["k"] == "conv":
        c.update(i=r.randint(1, 3), o=r.randint(1, 3), g=1)
      ex.step({"o": "fresh", "c": dict(c, pdt=r.choice(["float32", "float32", "bfloat16", "float16"])), "seed": r.randint(0, 99)})
      continue
    i = r.randrange(len(ex.ls)) if r.random() < 0.4 else len(ex.ls) - 1
    c = ex.cfgs[i]
    low = not {c["dt"], c["pdt"]} <= {"none", "float32"}
    if r.random() < 0.12:
      bias = c["k"] != "emb" and c["b"] and r.random() < 0.5
      ex.step({"o": "set", "l": i + 1, "n": "bias" if bias else "kernel", "d": data(-1, 1) if low else data()})
      continue
    how = r.choice(["plain", "plain", "plain", "jit", "jaxjit", "merge", "clone"])
    xdt = r.choice(["float32", "float32", "float32", "int32", "float16", "bfloat16"])
    lo, hi = (-1, 1) if low or xdt in ("float16", "bfloat16") else (-3, 4)
    lead = [r.randint(1, 2) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
    if c["k"] == "lin":
      sh = lead + [c["i"] if r.random() < 0.94 else c["i"] + 1]
      if c["i"] == 1 and r.random() < 0.05:
        sh = []
    elif c["k"] == "conv":
      rank = len(c["ks"])
      sh = lead + [r.randint(1, (6, 4, 3)[rank - 1]) for _ in range(rank)] + [c["i"] if r.random() < 0.95 else c["i"] + 1]
      if r.random() < 0.03:
        sh = sh[-rank:]
    elif r.random() < 0.6:
      ex.step({"o": "call", "l": i + 1, "x": array(lead, 0, c["n"] - 1), "xdt": r.choice(["int32", "int32", "int32", "uint8", "float32", "bool" if c["n"] > 1 else "uint8"]), "how": how})
      continue
    else:
      sh = lead + [c["f"] if r.random() < 0.94 else c["f"] + 1]
      ex.step({"o": "attend", "l": i + 1, "x": array(sh, lo, hi), "xdt": xdt, "how": how})
      continue
    ex.step({"o": "call", "l": i + 1, "x": array(sh, lo, hi), "xdt": xdt, "how": how})
  return ex.evs


def run(c):
  lines = c.tlc("MC_Layers", cfg("Spec", ["Prop", "Emit"], dict(N=6, K=4, S=3, Rich=True) if c.thorough else dict(N=4, K=3, S=2, Rich=False)))
  tr = replay(c, scripts_of(lines), execute, 30000 if c.thorough else 1500)
  tr += randoms(c, lambda r: gen(r, 24), 2500 if c.thorough else 200)
  c.validate("TraceLayers", tr, lambda op, clause, v: True)
