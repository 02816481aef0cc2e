"""Executor for spec/Transforms.tla: programs inside nnx.jit, nnx.grad and nnx.remat."""
from common import *
import jax
import jax.numpy as jnp
import nnx
import graph
from graph import ProgError, Res, VARS, nav, walk, user_vars, leaf_conc, leaf_proj, filt

NAME_RANK = {}


def load_ranks():
  import re, os
  src = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Base.tla")).read()
  names = re.search(r"NameList ==\s*<<(.*?)>>", src, re.S).group(1)
  for i, n in enumerate(re.findall(r'"([^"]*)"', names)):
    NAME_RANK[n] = i + 1


load_ranks()
CLASS_NO = {"A": 1, "B": 2, "C": 3, "D": 4, "E": 5}


class Arith:
  """Arithmetic of the specification: modulo M, or plain when M is 0."""

  def __init__(self, mod):
    self.mod = mod

  def norm(self, x):
    if not self.mod:
      return x
    return x % self.mod if isinstance(x, int) else jnp.mod(x, self.mod)

  def total(self, m):
    acc, ids = 0, walk(m)
    for x in ids:
      acc = self.norm(acc * 3 + CLASS_NO[graph.CLASS_NAME[type(x)]])
      for n, v in sorted(user_vars(x).items()):
        acc = self.norm(acc * 5 + NAME_RANK[n])
        if isinstance(v, nnx.Module):
          acc = self.norm(acc * 3 + 1 + [y is v for y in ids].index(True))
          continue
        if isinstance(v, nnx.containers.Container):
          v = v.value
        if isinstance(v, tuple):
          acc = self.norm(acc * 3 + 1)
          for y in v:
            acc = self.norm(acc * 3 + y)
        elif isinstance(v, (int, float, np.ndarray, jax.Array)):
          acc = self.norm(acc * 3 + v)
        else:
          acc = self.norm(acc * 3 + 2)
    return acc

  def ev(self, m, args, e):
    k = e[0]
    if k == "c":
      return e[1]
    if k == "arg":
      if e[1] > len(args):
        raise ProgError("no such argument")
      return args[e[1] - 1]
    if k == "sum":
      return self.total(m)
    if k == "at":
      v = getattr(nav(m, e[1]), e[2])
      if isinstance(v, (nnx.Module, tuple, str)) or v is None:
        raise ProgError("not a number")
      return v
    a, b = self.ev(m, args, e[1]), self.ev(m, args, e[2])
    return self.norm(a + b if k == "+" else a * b)

  def node(self, m, args, e):
    """the value of e as content of a variable"""
    return self.arr(self.ev(m, args, e))

  def arr(self, v):
    # (a constant leaves jax.checkpoint as a numpy array)
    return jnp.asarray(v, jnp.float32) + jnp.zeros((), jnp.float32)

  def run(self, m0, prog, args):
    aux = 0
    for ins in prog:
      k = ins[0]
      if k == "raise":
        raise ProgError("raised")
      if k == "ret":
        return self.ev(m0, args, ins[1]), aux
      if k == "aux":
        aux = self.ev(m0, args, ins[1])
        continue
      m = nav(m0, ins[1])
      if k == "set":
        v = self.ev(m0, args, ins[3])
        if isinstance(v, int) and isinstance(user_vars(m).get(ins[2]), nnx.Node):
          v = self.arr(v)
        setattr(m, ins[2], v)
      elif k == "mkvar":
        setattr(m, ins[2], VARS[ins[3]](self.node(m0, args, ins[4])))
      elif k == "sow":
        m.sow(VARS[ins[2]], ins[3], self.node(m0, args, ins[4]))
      else:
        raise ValueError(ins)
    return 0, aux


class TExec(graph.Exec):

  def __init__(self, mod):
    super().__init__()
    self.ar = Arith(mod)
    self.jits, self.counts, self.kept = {}, {}, {}

  def once(self, key, make):
    """a transformed function is an object of its own: equal operations use the same one"""
    key = repr(key)
    if key not in self.kept:
      self.kept[key] = make()
    return self.kept[key]

  def number(self, v):
    return Res(lambda ex: {"t": "val", "v": tag(v)})

  def args(self, op, sa=()):
    return [a if i + 1 in sa else jnp.asarray(a, jnp.float32) for i, a in enumerate(op["args"])]

  def function(self, op, scalar=False, ws=()):
    return self.once(("f", op["prog"], scalar, ws, op["aux"], op.get("sa"), op.get("form")), lambda: self.build(op, scalar, ws))

  def build(self, op, scalar, ws):
    def f(m, *args, **kw):
      out, aux = self.ar.run(m, op["prog"], args + tuple(kw[k] for k in sorted(kw)))
      if scalar:
        out = jnp.asarray(out, jnp.float32)
      return (out, aux) if op["aux"] else out
    return self.wrap(f, ws, op.get("sa", ()), op.get("form", "fn"))

  def wrap(self, f, ws, sa=(), form="fn"):
    for w in reversed(list(ws)):
      if w == "remat":
        nums = tuple(i - 3 if form == "neg" else i - 1 for i in sa)
        f = nnx.remat(f, static_argnums=nums[0] if len(nums) == 1 else nums)
      else:
        kw = {}
        pos = tuple(i for i in sa if i == 1 or form != "kw")
        if pos:
          kw["static_argnums"] = pos
        if form == "kw" and 2 in sa:
          kw["static_argnames"] = "y" if len(sa) == 1 else ["y"]
        if w == "jit0":
          kw["stateful"] = False
        f = nnx.jit(f, **kw)
    return f

  def call(self, op):
    m, args, form = self.objs[op["m"] - 1], self.args(op, op["sa"]), op.get("form", "fn")
    if form == "kw":       # the second argument by name
      return self.function(op, ws=op["ws"])(m, args[0], y=args[1])
    if form in ("cls", "meth"):   # the class form of remat around the module
      f = self.function(op, ws=op["ws"][1:])
      rm = self.once(("rm", op["m"], op["sa"]), lambda: nnx.Remat(lambda o: o, static_argnums=(0, *op["sa"]))(m))
      return rm(f, *args) if form == "cls" else rm.call.body(f, *args)
    if form == "lower":
      f = self.function(op, ws=op["ws"])
      v = f.lower(m, *args).compile()(m.partition(), *args)
      if op["ws"] == ["jit"]:
        m.update_state(v[0])
        v = v[1]
      return v
    return self.function(op, ws=op["ws"])(m, *args)

  def do(self, op):
    o = op["o"]
    if o == "set":
      x = op["x"]
      val = self.objs[x["r"] - 1] if x["k"] == "mod" else leaf_conc(
          dict(x, ty="f32") if x["k"] == "arr" else x, "f32")
      old = vars(self.objs[op["m"] - 1]).get(op["n"])
      if x["k"] == "static" and isinstance(old, nnx.Node) and isinstance(val, int):
        val = jnp.asarray(val, jnp.float32)  # a plain number inside a variable has another dtype
      setattr(self.objs[op["m"] - 1], op["n"], val)
      return None
    if o == "call":
      v = self.call(op)
      if op["aux"]:
        return (self.number(v[0]), self.number(v[1]))
      return self.number(v)
    if o == "grad":
      kw = {} if op["st"] else {"stateful": False}
      if op["aux"]:
        kw["has_aux"] = True
      if op["f"] != ["type", "Param"] or op.get("explicit"):
        kw["wrt"] = filt(op["f"])
      g = self.once(("g", {k: v for k, v in op.items() if k not in ("m", "args")}), lambda: nnx.grad(self.function(op, scalar=True, ws=op["ws"]), **kw))
      v = g(self.objs[op["m"] - 1], *self.args(op))
      return (v[0], self.number(v[1])) if op["aux"] else v
    if o == "jcall":
      f = op["f"]
      if f not in self.jits:
        self.counts[f] = 0

        def fun(m, *args):
          self.counts[f] += 1
          return self.ar.run(m, op["prog"], args)[0]
        self.jits[f] = nnx.jit(fun) if op["st"] else nnx.jit(fun, stateful=False)
      before = self.counts[f]
      v = self.jits[f](self.objs[op["m"] - 1], *self.args(op))
      return (self.number(v), self.number(self.counts[f] - before))
    if o == "nonmod":
      arg = {"int": 3, "dict": {"a": 1}, "none": None, "state": nnx.State({"a": nnx.Param(1.0)})}[op["x"]]
      t = {"jit": nnx.jit, "grad": nnx.grad, "lower": lambda f: nnx.jit(f).lower}[op["k"]](lambda m: 1.0)
      return self.number(t(arg))
    return super().do(op)


def too_big(ex, v=2**22):
  def nums(t):
    if t[0] == "i":
      return [abs(t[1])]
    if t[0] == "t":
      return [n for y in t[1] for n in nums(y)]
    return [v + 1] if t[0] == "o" and t[1].startswith(("float", "big")) else []
  e = ex.events[-1]
  vals = [x["v"] for m in ex.heap for x in m["a"].values() if "v" in x]
  def walkres(r):
    if r["t"] == "pair":
      return walkres(r["x"]) + walkres(r["y"])
    if r["t"] == "val":
      return [r["v"]]
    if r["t"] == "state":
      return [x["v"] for s in r["ss"] for _, x in s if "v" in x]
    return []
  return any(n > v for t in vals + walkres(e["res"]) for n in nums(t))
