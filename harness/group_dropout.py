"""C34: dropout layers against spec/Dropout.tla."""
from drive import *
from common import *
import jax, jax.numpy as jnp, numpy as np
import nnx
from group_layers import DT, INF, arr


SPECIAL = {v: float(k) for k, v in INF.items()}


class Exec:

  def __init__(self):
    self.ls, self.cs, self.evs, self.ref = [], [], [], {}
    LAST[0] = self.evs

  def index(self, seed, key):
    """Which key of a fresh stream of that seed this is."""
    if seed not in self.ref:
      self.ref[seed] = (nnx.context(s=seed), [])
    c, ks = self.ref[seed]
    k = np.asarray(key).tobytes()
    while k not in ks and len(ks) < 64:
      ks.append(np.asarray(c.make_rng("s")).tobytes())
    return ks.index(k) if k in ks else -1

  def tri(self, v):
    return None if v == -1 else bool(v)

  def do(self, op):
    o = op["o"]
    if o == "mk":
      r = op["rate"] / 4
      if op["rate"] in (0, 4) and op["how"] == "int":
        r = int(r)
      if op["how"] == "pos":
        L = nnx.Dropout(r, tuple(op["dims"]), self.tri(op["det"]), op["coll"])
      else:
        kw = {} if op["det"] == -1 else {"deterministic": self.tri(op["det"])}
        if op["coll"] != "dropout":
          kw["rng_collection"] = op["coll"]
        if op["dims"]:
          kw["broadcast_dims"] = tuple(op["dims"])
        L = nnx.Dropout(rate=r, **kw)
      self.ls.append(L)
    elif o == "ctx":
      fl = {} if op["fl"] == -1 else {"deterministic": bool(op["fl"])}
      self.cs.append((nnx.context(flags={**fl, "other": True}, **{n: v for n, v in op["st"]}), dict(op["st"])))
    elif o == "draw":
      c, seeds = self.cs[op["c"] - 1]
      key = c.make_rng(op["n"])
      return {"t": "key", "n": self.index(seeds[op["n"]], key)}
    elif o == "set":
      v = op["v"]
      setattr(self.ls[op["l"] - 1], {"det": "deterministic", "rate": "rate", "coll": "rng_collection"}[op["n"]],
              self.tri(v) if op["n"] == "det" else v / 4 if op["n"] == "rate" else v)
    elif o == "call":
      L = self.ls[op["l"] - 1]
      x = jnp.asarray(np.asarray([SPECIAL.get(v, v) for v in op["x"]["d"]], np.float32).reshape(op["x"]["sh"]), DT[op["xdt"]])
      kw = {} if op["c"] == 0 else {"ctx": self.cs[op["c"] - 1][0]}
      det = {} if op["det"] == -1 else {"deterministic": self.tri(op["det"])}
      how = op["how"]
      if how == "jit":
        if op["c"]:
          y = nnx.jit(lambda m, x, ctx: m(x, ctx=ctx, **det))(L, x, **kw)
        else:
          y = nnx.jit(lambda m, x: m(x, **det))(L, x)
      elif how == "merge":
        state, d = L.partition()
        y = d.merge(state)(x, **det, **kw)
      else:
        y = L(x, **det, **kw)
      return {"t": "arr", **arr(y), "dt": jnp.dtype(y.dtype).name}
    else:
      raise ValueError(op)
    return {"t": "ok"}

  def look(self, L):
    t = lambda v: -1 if v is None else int(v)
    return {"rate": int(L.rate * 4), "dims": list(L.broadcast_dims), "det": t(L.deterministic), "coll": L.rng_collection}

  def step(self, op):
    n, k = len(self.ls), len(self.cs)
    try:
      with limit():
        res = self.do(op)
    except Exception as e:
      del self.ls[n:], self.cs[k:]
      res = {"t": "err"}
    self.evs.append({"op": op, "res": res, "obs": [self.look(L) for L in self.ls]})
    return res


def execute(ops):
  ex = Exec()
  for op in ops:
    ex.step(op)
  return ex.evs


def gen(r, n):
  ex = Exec()
  tri = lambda p=0.5: -1 if r.random() < p else r.randint(0, 1)
  big = [r.choice([8, 16, 24]), r.choice([8, 16])]
  seeds = [r.randint(0, 50) for _ in range(2)]
  cs = []
  rate = r.choice([1, 2, 3])
  while len(ex.evs) < n:
    k = r.random()
    if len(ex.ls) < 2 or (k < 0.05 and len(ex.ls) < 5):
      ex.step({"o": "mk", "rate": r.choice([rate, rate, rate, 0, 4, r.randint(1, 3)]), "dims": r.choice([[], [], [], [0], [-1], [1], [0, 1], [-2]]), "det": tri(0.7),
               "coll": r.choice(["dropout", "dropout", "params"]), "how": r.choice(["kw", "pos", "int"])})
    elif len(cs) < 2 or (k < 0.12 and len(cs) < 6):
      cs.append([[x, r.choice(seeds)] for x in r.sample(["dropout", "params", "other"], r.choice([1, 2, 3, 3]))])
      ex.step({"o": "ctx", "st": sorted(cs[-1]), "fl": tri()})
    elif k < 0.25:
      ex.step({"o": "draw", "c": r.randint(1, len(cs)), "n": r.choice(["dropout", "params", "other"])})
    elif k < 0.3:
      what = r.choice(["det", "det", "rate", "coll"])
      ex.step({"o": "set", "l": r.randint(1, len(ex.ls)), "n": what, "v": tri(0.3) if what == "det" else r.randint(0, 4) if what == "rate" else r.choice(["dropout", "params"])})
    else:
      sh = big if r.random() < 0.5 else [r.randint(1, 3) for _ in range(r.choice([1, 2, 2, 3]))] if r.random() < 0.95 else []
      xdt = r.choice(["float32", "float32", "float32", "float16", "bfloat16"])
      odd = r.random() < 0.1
      x = {"sh": sh, "d": [r.choice(list(SPECIAL)) if odd and r.random() < 0.3 else 3 * r.choice([-3, -2, -1, 1, 2, 3, 4]) if r.random() < 0.95 else 0 for _ in range(int(np.prod(sh)))]}
      ex.step({"o": "call", "l": r.randint(1, len(ex.ls)), "x": x, "xdt": xdt, "det": r.choice([-1, -1, 0, 0, 0, 1]), "c": r.randint(0, len(cs)) if r.random() < 0.3 else r.randint(1, len(cs)),
               "how": r.choice(["plain", "plain", "plain", "plain", "jit", "merge"])})
  for c in range(len(cs)):
    for name, _ in cs[c]:
      ex.step({"o": "draw", "c": c + 1, "n": name})
  return ex.evs


def run(c):
  lines = c.tlc("MC_Dropout", cfg("Spec", ["Prop", "Emit"], dict(D=2, Rich=c.thorough)))
  tr = replay(c, scripts_of(lines), execute, 40000 if c.thorough else 2500)
  tr += randoms(c, lambda r: gen(r, 40), 2500 if c.thorough else 250)
  c.validate("TraceDropout", tr, lambda op, clause, v: True)
