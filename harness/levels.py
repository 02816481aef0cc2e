"""Performs level and RNG operations on nnx (spec/Levels.tla); bodies run inside real transforms."""
import copy
from collections import abc
import threading
from common import *
import jax
import jax.numpy as jnp
import nnx
from nnx import contextlib as nctx

DYNAMIC = {"jax.jit", "jax.checkpoint", "jax.eval_shape", "lax.scan", "nnx.scan", "nnx.remat", "nnx.jit"}
TRANSPARENT = {"jax.grad", "jax.vmap"}
WITHMOD = {"nnx.jit", "nnx.grad", "nnx.remat"}
KINDS = sorted(DYNAMIC | TRANSPARENT | {"nnx.grad"})
WITHCTX = {"nnx.jit", "nnx.remat", "nnx.scan"}


class LM(nnx.Module):

  def __init__(self, v):
    self.a = 0
    self.d = 1
    self.w = nnx.Param(v)


class Unwind(Exception):

  def __init__(self, n):
    self.n = n


class OtherUnwind(BaseException):
  """Raised through a transform like a keyboard interrupt would be."""

  def __init__(self, n):
    self.n = n


def num(x):
  if isinstance(x, jax.core.Tracer):
    return -1
  try:
    f = float(x)
    return int(f) if f == int(f) else -2
  except Exception:
    return -3


def streams(c):
  """the streams of a context: the mapping it holds, whatever it is called"""
  held = list(vars(c).values()) if hasattr(c, "__dict__") else [getattr(c, n) for n in type(c).__slots__ if hasattr(c, n)]
  return next(v for v in held if isinstance(v, abc.Mapping) and any(isinstance(s, nctx.RngStream) for s in v.values()))


class Exec:

  def __init__(self, source, turn=None):
    self.source, self.turn = source, turn
    self.mods, self.ctxs, self.strs, self.cps, self.pures = [], [], [], [], []
    self.names, self.cpnames = [], []  # stream names of each context, in the order they were given
    self.keys = []  # every key drawn, as seen where it was drawn
    self.evs, self.bytes = [], {}
    LAST[0] = self.evs  # event index -> key bytes
    self.pending = [[]]  # per dynamic frame: (event index, tracer)
    self.main = threading.current_thread() is threading.main_thread()

  # -- observation
  def observe(self):
    out = []
    for m in self.mods:
      v = vars(m)
      h = v.get("h")
      c = v.get("c")
      sown = [] if h is None else ([num(x) for x in h.value] if isinstance(h.value, tuple) else [-4])
      if h is not None and type(h) is not nnx.Intermediate:
        sown = [-5]
      w = v.get("w")
      out.append({"a": v.get("a", -9), "w": num(w.value) if type(w) is nnx.Param else -6, "s": sown,
                  "d": int("d" in v), "c": 0 if c is None else 1 + [x is c for x in self.mods].index(True)})
    return out

  def record(self, op, res):
    self.evs.append({"op": op, "res": res, "mods": self.observe()})

  def attempt(self, f):
    try:
      if self.main:
        with limit():
          return f()
      return f()
    except (Unwind, OtherUnwind):
      raise
    except nnx.errors.TraceContextError:
      return {"t": "err", "e": "trace"}
    except Exception as e:
      return {"t": "err", "e": "other", "x": type(e).__name__}

  # -- operations
  def step(self, op):
    if op["o"] == "enter":
      return self.enter(op)
    r = self.attempt(lambda: self.do(op)) or {"t": "none"}
    r.pop("x", None)
    k = r.pop("key", None)
    if k is not None:
      n = len(self.evs)
      self.keys.append(k)
      if isinstance(k, jax.core.Tracer):
        self.pending[-1].append((n, k))
      else:
        self.bytes[n] = np.asarray(k).tobytes()
    self.record(op, r)

  def do(self, op):
    o = op["o"]
    M = self.mods[op["m"] - 1] if "m" in op else None
    C = self.ctxs[op["c"] - 1] if "c" in op else None
    if o == "new":
      self.mods.append(LM(float(op["v"])))
    elif o == "set":
      M.a = op["v"]
    elif o == "setw":
      M.w = float(op["v"])
    elif o == "del":
      del M.d
    elif o == "addd":
      M.d = 1
    elif o == "sow":
      M.sow(nnx.Intermediate, "h", float(op["v"]))
    elif o == "adopt":
      M.c = self.mods[op["x"] - 1]
    elif o == "upd":
      M.update_state(nnx.State({"w": nnx.Param(float(op["v"]))}))
    elif o == "pop":
      M.pop_state(nnx.Intermediate)
    elif o == "copy":
      self.mods.append(copy.copy(M))
    elif o == "clone":
      self.mods.append(M.clone())
    elif o == "part":
      self.pures.append(M.partition())
    elif o == "merge":
      self.mods.append(self.pures[op["p"] - 1].merge())
    elif o == "ctx":
      args, new = {}, []
      for name, kind, v in op["args"]:
        if kind == "int":
          args[name] = v
        elif kind == "key":
          args[name] = jax.random.PRNGKey(v)
        elif kind == "drawn":
          args[name] = self.keys[v - 1]
        else:
          args[name] = self.strs[v - 1]
      c = nnx.context(flags={k: bool(v) for k, v in (op["fl"] or {}).items()} or None, **args)
      self.adopt_ctx(c, [a[0] for a in op["args"]])
    elif o == "stream":
      self.strs.append(nctx.RngStream(jax.random.PRNGKey(op["v"])))
    elif o == "draw":
      return {"t": "key", "key": C.make_rng(op["n"])}
    elif o == "many":
      if op["how"] == "draw":
        ks = [C.make_rng(op["n"]) for _ in range(op["k"])]
      else:
        C.has_rng(op["n"]) or C.make_rng(op["n"])
        ks = [C.partition().merge().make_rng(op["n"]) for _ in range(op["k"])]
      return {"t": "many", "d": len({np.asarray(k).tobytes() for k in ks})}
    elif o == "fork":
      self.cps.append(C.partition())
      self.cpnames.append(self.names[op["c"] - 1])
    elif o == "cmerge":
      p = self.cps[op["p"] - 1]
      self.adopt_ctx(p.merge(), self.cpnames[op["p"] - 1])
    elif o == "ccopy":
      self.adopt_ctx(C.copy(), self.names[op["c"] - 1])
    elif o == "has":
      return {"t": "bool", "b": int(C.has_rng(op["n"]))}
    elif o == "flag":
      v = C.get_flag(op["n"])
      return {"t": "flag", "has": int(C.has_flag(op["n"])), "v": 2 if v is None else int(v)}
    else:
      raise ValueError(o)

  def adopt_ctx(self, c, names):
    self.ctxs.append(c)
    self.names.append(names)
    for n in names:
      s = streams(c)[n]
      if all(s is not x for x in self.strs):
        self.strs.append(s)

  # -- transforms
  def body(self):
    """performs operations until this frame ends; returns the exit operation"""
    while True:
      if self.turn:
        self.turn()
      op = self.source(self) or {"o": "exit", "how": "ret", "d": 1}
      if op["o"] == "exit":
        self.last_d = op["d"]
        if op["how"] != "ret":
          raise (Unwind if op["how"] == "raise" else OtherUnwind)(op["d"])
        return op
      self.step(op)

  def enter(self, op):
    if max(op.get("m") or 0, 0) > len(self.mods) or op["c"] > len(self.ctxs):
      return self.record(op, {"t": "err", "e": "other"})  # an earlier operation did not do its work
    k, fr = op["k"], {"op": None, "ran": False, "outs": []}
    M = self.mods[op["m"] - 1] if k in WITHMOD else None
    C = self.ctxs[op["c"] - 1] if op["c"] else None
    own_pending = k in DYNAMIC

    def perform(inner=None, ctx=None):
      if fr["ran"]:  # a retrace of the same body
        return [jnp.zeros(2, jnp.uint32)] * len(fr["outs"])
      fr["ran"] = True
      if inner is not None:
        self.mods.append(inner)
      if ctx is not None:
        self.adopt_ctx(ctx, self.names[op["c"] - 1])
      self.record(op, {"t": "none"})
      if own_pending:
        self.pending.append([])
      self.depth = getattr(self, "depth", 0) + 1
      try:
        fr["op"] = self.body()
      finally:
        self.depth -= 1
        if own_pending:
          fr["outs"] = self.pending.pop()
      return [x for _, x in fr["outs"]]

    def call():
      kw = {} if C is None else {"ctx": C}
      f32 = jnp.float32(1.0)
      if k == "jax.jit":
        return jax.jit(lambda x: perform())(f32)
      if k == "jax.checkpoint":
        return jax.checkpoint(lambda x: perform())(f32)
      if k == "jax.eval_shape":
        jax.eval_shape(lambda x: perform(), f32)
        return None
      if k == "lax.scan":
        ys = jax.lax.scan(lambda c, x: (c, perform()), f32, None, length=1)[1]
        return [y[0] for y in ys]
      if k == "nnx.scan":
        def fwd(mod, c, x, ctx=None):
          perform(None, ctx)
          return c, x
        nnx.scan(fwd, length=1)(LM(1.0), f32, jnp.ones((1,)), **kw)
        return None
      if k == "nnx.remat":
        def fwd(mod, x, ctx=None):
          return perform(mod, ctx)
        return nnx.remat(fwd)(M, f32, **kw)
      if k == "nnx.jit":
        def fwd(mod, x, ctx=None):
          return perform(mod, ctx)
        return nnx.jit(fwd, stateful=bool(op["st"]))(M, f32, **kw)
      if k == "nnx.grad":
        def loss(mod):
          w = mod.w
          perform(mod)
          return w * w
        nnx.grad(loss, stateful=bool(op["st"]))(M)
        return []
      if k == "jax.grad":
        def loss(x):
          perform()
          return x * x
        jax.grad(loss)(f32)
        return []
      if k == "jax.vmap":
        jax.vmap(lambda x: (perform(), x)[1])(jnp.ones((2,)))
        return []
      raise ValueError(k)

    try:
      outs = call()
      res = {"t": "none"}
    except (Unwind, OtherUnwind) as e:
      if e.n > 1:
        e.n -= 1
        raise
      how = "raise" if isinstance(e, Unwind) else "interrupt"
      self.record({"o": "exit", "how": how, "d": self.last_d}, {"t": "none"})
      return
    except nnx.errors.TraceContextError:
      outs, res = None, {"t": "err", "e": "trace"}
    except Exception as e:
      outs, res = None, {"t": "err", "e": "other"}
    if not fr["ran"]:
      self.record(op, {"t": "norun"} if res["t"] == "none" else res)
      return
    if outs is not None:
      for (n, _), v in zip(fr["outs"], outs):
        if isinstance(v, jax.core.Tracer):
          self.pending[-1].append((n, v))
        else:
          self.bytes[n] = np.asarray(v).tobytes()
    self.record(fr["op"] or {"o": "exit", "how": "ret", "d": 1}, res)

  def run(self):
    """performs the whole history at the outermost level"""
    try:
      self.loop()
    except (Unwind, OtherUnwind):
      self.evs.append({"op": {"o": "escaped"}, "res": {"t": "none"}, "mods": []})  # left a frame that never came to be
    finally:
      self.identify()
    return self.evs

  def loop(self):
    while True:
      if self.turn:
        self.turn()
      op = self.source(self)
      if op is None:
        break
      if op["o"] == "exit":
        continue  # its frame never came to be; the trace has failed already
      self.step(op)

  def identify(self):
    first = {}
    for i, e in enumerate(self.evs):
      if e["res"].get("t") == "key":
        b = self.bytes.get(i)
        e["res"]["kid"] = 0 if b is None else first.setdefault(b, i + 1)


def scripted(ops):
  it = iter(ops)

  return lambda ex: next(it, None)
