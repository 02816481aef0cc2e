"""C31: Dict and Sequence modules against spec/Collections.tla."""
import collections, functools, typing
from drive import *
from common import *
import nnx
from nnx import containers
import graph


class Out:
  def __init__(self, n, j):
    self.n, self.j = n, j


class Two(typing.NamedTuple):
  p: object
  q: object


class One(typing.NamedTuple):
  p: object


class Err(Exception):
  pass


class Exec:

  def __init__(self):
    self.els, self.regs, self.evs = [], [], []
    self.calls, self.ctx = [], nnx.context(0)
    LAST[0] = self.evs

  # -- callables
  def called(self, idx, named, star, dstar):
    f = self.fs[idx - 1]
    self.calls.append({"e": idx, "b": {"n": [[n, self.proj(v)] for n, v in sorted(named)], "s": [self.proj(v) for v in star],
                                       "d": [[n, self.proj(v)] for n, v in sorted(dstar.items())]}})
    n = len(self.calls)
    outs = [Out(n, j + 1) for j in range(max(f["k"], len(f["names"])))]
    if f["ret"] == "raise":
      raise Err()
    if f["ret"] == "one":
      return Out(n, 1)
    if f["ret"] == "none":
      return None
    if f["ret"] == "dict":
      return (collections.OrderedDict if idx % 2 else dict)(zip(f["names"], outs))
    return {"tuple": lambda *x: x, "list": lambda *x: list(x), "nt": (lambda *x: (One, Two)[len(x) - 1](*x))}[f["ret"]](*outs)

  fs = ()

  def callable(self, op):
    f = op["f"]
    self.fs = [*self.fs, f]
    idx = len(self.fs)
    sig = [n + ("=None" if i >= len(f["pos"]) - f["opt"] else "") for i, n in enumerate(f["pos"])]
    if f["ctx"] == "pos":
      sig.append("ctx=None")
    if f["varpos"]:
      sig.append("*args")
    elif f["kwonly"] or f["ctx"] == "kw":
      sig.append("*")
    sig += f["kwonly"] + (["ctx=None"] if f["ctx"] == "kw" else []) + (["**kw"] if f["varkw"] else [])
    named = f["pos"] + f["kwonly"] + (["ctx"] if f["ctx"] != "none" else [])
    self_ = [] if op["how"] == "fn" else ["self"]
    src = "def fn(%s):\n  return run(%d, [%s], %s, %s)" % (
        ", ".join(self_ + sig), idx, ", ".join("(%r, %s)" % (n, n) for n in named), "args" if f["varpos"] else "()", "kw" if f["varkw"] else "{}")
    env = {"run": self.called}
    exec(src, env)
    fn = env["fn"]
    if op["how"] == "mod":
      x = type("El", (nnx.Module,), {"__call__": fn})()
    elif op["how"] == "obj":
      x = type("El", (), {"__call__": fn})()
    elif op["how"] == "method":
      fn.idx = idx
      x = type("El", (), {"m": fn})().m
    else:
      x = fn
    if f["pre"]:
      x = functools.partial(x, *[self.conc(v) for v in f["pre"]])
    if op["how"] != "method" or f["pre"]:
      x.idx = idx
    self.els.append(x)

  # -- values
  def conc(self, v):
    k = v[0]
    if k == "num":
      return v[1]
    if k == "none":
      return None
    if k == "c":
      return graph.TYPES[v[1]](self.conc(v[2]))
    if k == "el":
      return self.els[v[1] - 1]
    if k == "reg":
      return self.regs[v[1] - 1]
    raise ValueError(v)

  def proj(self, x):
    if isinstance(x, containers.Container):
      return ["c", type(x).__name__, self.proj(x.value)]
    for i, y in enumerate(self.regs):
      if x is y:
        return ["reg", i + 1]
    if isinstance(getattr(x, "idx", None), int):
      return ["el", x.idx]
    if x is None:
      return ["none"]
    if isinstance(x, Out):
      return ["out", x.n, x.j]
    if x is self.ctx:
      return ["ctx"]
    if isinstance(x, int):
      return ["num", x]
    if isinstance(x, (tuple, list)):
      return ["nt" if hasattr(x, "_fields") else type(x).__name__, [self.proj(v) for v in x]]
    if isinstance(x, dict):
      return ["dict", [[k, self.proj(v)] for k, v in sorted(x.items())]]
    return ["o", type(x).__name__]

  def look(self, x):
    def safe(fn):
      try:
        return fn()
      except Exception as e:
        return [["error", type(e).__name__]]
    if isinstance(x, nnx.Sequence):
      return {"t": "seq", "len": safe(lambda: len(x)), "iter": safe(lambda: [self.proj(v) for v in x]),
              "at": safe(lambda: [self.proj(x[i]) for i in range(len(x))])}
    ks = safe(lambda: sorted(x))
    return {"t": "dict", "len": safe(lambda: len(x)), "iter": ks, "items": safe(lambda: [[k, self.proj(v)] for k, v in sorted(x.items(), key=lambda y: y[0])]),
            "got": safe(lambda: [[k, self.proj(x[k])] for k in ks]), "attrs": safe(lambda: [[k, self.proj(getattr(x, k))] for k in ks]),
            "stored": safe(lambda: [[k, self.proj(vars(x)[k])] for k in ks])}

  # -- operations
  def do(self, op):
    o = op["o"]
    R = self.regs[op["r"] - 1] if "r" in op else None
    key = {"#1": 1}.get(op.get("key"), op.get("key"))
    if o == "el":
      self.callable(op)
    elif o == "mkd":
      items = [(n, self.conc(v)) for n, v in op["items"]]
      kw = {n: self.conc(v) for n, v in op["kw"]}
      how = op["how"]
      src = [] if how == "kw" else [iter(items)] if how == "gen" else [items] if how == "pairs" else [dict(items)]
      self.regs.append(nnx.Dict(*src, **kw))
    elif o == "mks":
      items = [self.conc(v) for v in op["items"]]
      self.regs.append(nnx.Sequence(items if op["how"] == "list" else tuple(items) if op["how"] == "tuple" else iter(items)))
    elif o == "set":
      if op["how"] == "item":
        R[key] = self.conc(op["v"])
      else:
        setattr(R, key, self.conc(op["v"]))
    elif o == "del":
      delattr(R, key)
    elif o == "get":
      how = op["how"]
      if how == "in":
        return {"t": "bool", "b": int(key in R)}
      v = R[key] if how == "item" else getattr(R, key) if how == "attr" else R.get(key, 77)
      return {"t": "val", "x": self.proj(v)}
    elif o == "at":
      return {"t": "val", "x": self.proj(R[op["i"]])}
    elif o == "put":
      setattr(R, str(op["i"]), self.conc(op["v"]))
    elif o == "clone":
      self.regs.append(R.clone())
    elif o == "eq":
      R2 = self.regs[op["r2"] - 1]
      b = R == R2
      return {"t": "bool", "b": int(b) if b is (not (R != R2)) and (not b or hash(R) == hash(R2)) else 2}
    elif o == "call":
      self.calls = []
      kw = {n: self.conc(v) for n, v in op["kw"]}
      if op["ctx"]:
        kw["ctx"] = self.ctx
      try:
        x, ok = R(*[self.conc(v) for v in op["args"]], **kw), 1
      except Exception:
        x, ok = None, 0
      return {"t": "call", "ok": ok, "x": self.proj(x), "log": self.calls}
    else:
      raise ValueError(op)
    return {"t": "ok"}

  def step(self, op):
    n = len(self.regs)
    try:
      with limit():
        res = self.do(op)
    except Exception as e:
      del self.regs[n:]
      res = {"t": "err", "k": "KeyError" if isinstance(e, KeyError) else "IndexError" if isinstance(e, IndexError) else "other"}
    self.evs.append({"op": op, "res": res, "obs": [self.look(x) for x in self.regs]})
    return res


def execute(ops):
  ex = Exec()
  for op in ops:
    ex.step(op)
  return ex.evs


class Gen:
  KEYS = ["a", "b", "x1", "x10", "Z", "_p", "c", "0"]

  def __init__(self, r):
    self.r, self.ex = r, Exec()
    self.kinds = []       # per register: ("dict"|"seq", holds registers)

  def value(self, els=True):
    r = self.r
    k = r.random()
    if k < 0.35:
      return ["num", r.randint(0, 9)]
    if k < 0.55:
      return ["c", r.choice(["Param", "Node", "BatchStat"]), ["num", r.randint(0, 9)]]
    if k < 0.8 and self.ex.els:
      return ["el", r.randint(1, len(self.ex.els))]
    if k < 0.9 and self.kinds:
      return ["reg", r.randint(1, len(self.kinds))]
    return ["none"]

  def el(self):
    r = self.r
    pos = r.sample(["a", "b", "c"], r.choice([0, 1, 1, 1, 2]))
    left = [n for n in ("a", "b", "c", "d") if n not in pos]
    how = r.choice(["fn", "fn", "mod", "mod", "obj", "method"])
    ret = r.choice(["one", "one", "tuple", "tuple", "nt", "list", "dict", "dict", "none", "raise" if r.random() < 0.2 else "one"])
    k = r.choice([1, 1, 2] if ret == "nt" else [0, 1, 1, 2])
    pre = [["num", 7]] if pos and how != "mod" and r.random() < 0.15 else []
    return {"o": "el", "how": how, "f": {
        "pos": pos, "opt": r.randint(0, len(pos)), "varpos": int(r.random() < 0.25), "kwonly": r.sample(left, r.choice([0, 0, 0, 1])),
        "varkw": int(r.random() < 0.3), "ctx": r.choice(["none", "none", "kw", "pos"]), "pre": pre, "ret": ret, "k": 0 if ret in ("dict", "none", "raise") else 1 if ret == "one" else k,
        "names": r.sample(["a", "b", "c", "ctx"] if r.random() < 0.2 else ["a", "b", "c"], r.choice([0, 1, 1, 2])) if ret == "dict" else []}}

  def make(self):
    r = self.r
    if len(self.ex.els) < 3:
      return self.el()
    dicts = [i + 1 for i, k in enumerate(self.kinds) if k == "dict"]
    seqs = [i + 1 for i, k in enumerate(self.kinds) if k == "seq"]
    o = r.choices(["el", "mkd", "mks", "set", "del", "get", "at", "put", "clone", "eq", "call"], [2, 2, 5, 6, 2, 8, 4, 1, 2, 1, 14])[0]
    if o == "el":
      return self.el() if len(self.ex.els) < 9 else None
    if o in ("mkd", "mks", "clone") and len(self.kinds) > 8:
      return None
    if o == "mkd":
      how = r.choice(["map", "pairs", "gen", "kw", "both"])
      n = r.randint(0, 3)
      ks = r.sample(self.KEYS, n) if how == "map" or how == "both" else [r.choice(self.KEYS) for _ in range(n)]
      return {"o": o, "how": how, "items": [] if how == "kw" else [[k, self.value()] for k in ks],
              "kw": [[k, self.value()] for k in r.sample(self.KEYS[:-1], r.randint(0, 2))] if how in ("kw", "both") else []}
    if o == "mks":
      one = lambda: ["el", r.randint(1, len(self.ex.els))]
      items = [one() if r.random() < 0.8 else ["reg", r.choice(seqs)] if seqs and r.random() < 0.8 else self.value() for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]
      return {"o": o, "how": r.choice(["list", "tuple", "gen"]), "items": items}
    if o in ("set", "del", "get"):
      if not dicts:
        return None
      reg = r.choice(dicts)
      held = sorted(k for k in vars(self.ex.regs[reg - 1]) if not graph.internal(k))
      key = r.choice(held) if held and r.random() < 0.6 else r.choice(self.KEYS)
      if o == "get" and r.random() < 0.2:
        return {"o": o, "r": reg, "how": r.choice(["item", "default", "in"]), "key": r.choice(["items", "get", "#1", "_module__state"])}
      if o == "set" and r.random() < 0.04:
        return {"o": o, "r": reg, "how": "item", "key": "#1", "v": ["num", 1]}
      op = {"o": o, "r": reg, "key": key, "how": r.choice(["item", "attr", "default", "in"][: 2 if o == "set" else 4])}
      if o == "set":
        v = self.value()
        op["v"] = v if v != ["reg", reg] else ["num", 1]
      return op
    if o == "eq":
      n = len(self.kinds)
      return {"o": o, "r": r.randint(1, n), "r2": r.randint(1, n)} if n else None
    if o == "clone":
      ok = [i + 1 for i, x in enumerate(self.ex.regs) if not any(v is y for v in vars(x).values() for y in self.ex.regs)
            and not any(isinstance(v, (nnx.Sequence, nnx.Dict)) for v in vars(x).values())]
      return {"o": o, "r": r.choice(ok)} if ok else None
    if not seqs:
      return None
    reg = r.choice(seqs)
    n = len(self.ex.regs[reg - 1])
    if o == "at":
      return {"o": o, "r": reg, "i": r.randint(0, n + 1)}
    if o == "put":
      return {"o": o, "r": reg, "i": r.randrange(n), "v": ["el", r.randint(1, len(self.ex.els))] if r.random() < 0.7 else ["num", 3]} if n else None
    num = lambda: ["num", r.randint(0, 9)]
    return {"o": o, "r": reg, "args": [num() for _ in range(r.choice([0, 1, 1, 1, 2]))],
            "kw": [[k, num()] for k in sorted(r.sample(["a", "b", "c"], r.choice([0, 0, 0, 1, 2])))], "ctx": r.randint(0, 1)}

  def run(self, length):
    while len(self.ex.evs) < length:
      op = self.make()
      if not op:
        continue
      n = len(self.ex.regs)
      self.ex.step(op)
      if len(self.ex.regs) > n:
        self.kinds.append("dict" if op["o"] == "mkd" else "seq" if op["o"] == "mks" else self.kinds[op["r"] - 1])
    return self.ex.evs


def run(c):
  lines = c.tlc("MC_Collections", cfg("Spec", ["Prop", "Emit"], dict(K=3, D=4 if c.thorough else 2, Rich=c.thorough)))
  tr = replay(c, scripts_of(lines), execute, 30000 if c.thorough else 4000)
  tr += randoms(c, lambda r: Gen(r).run(45), 5000 if c.thorough else 350)
  c.validate("TraceCollections", tr, lambda op, clause, v: True)
