"""Executor for spec/Graph.tla: performs abstract operations on real nnx modules and
projects every tracked object back to abstract state after each of them."""
import copy, functools, json, pickle
from common import *
import jax
import jax.numpy as jnp
import nnx
from nnx import containers, partitioning
from nnx.state import State


class MyParam(nnx.Param):
  pass


class MyVar(nnx.Variable):
  pass


VARS = {
    "Param": nnx.Param, "BatchStat": nnx.BatchStat, "Cache": nnx.Cache,
    "Intermediate": containers.Intermediate, "Variable": nnx.Variable, "Node": nnx.Node,
    "MyParam": MyParam, "MyVar": MyVar,
}


class Tree(nnx.Pytree):

  def __init__(self, x):
    self.x = x


class Reg:
  """A class whose instances its user declares to be nodes."""

  def __init__(self, x):
    self.x = x


jax.tree_util.register_pytree_node(Reg, lambda r: ((r.x,), None), lambda _, kids: Reg(*kids))
nnx.register_node_type(Reg)
NODES = {"Tree": Tree, "Reg": Reg, "State": lambda x: State({"x": x})}
VARS["TreeNode"] = nnx.TreeNode
TYPES = dict(VARS, Tree=Tree, Pytree=nnx.Pytree, State=State, Reg=Reg, Container=containers.Container, object=object, np=np.ndarray, jax=jax.Array)


class Runnable:
  """Methods interpreting abstract programs; `probe` observes the start of the call."""
  probe = None

  def run(self, prog, args, **kw):
    if Runnable.probe is not None:
      Runnable.probe()
    return exec_prog(self, prog, args)

  hook = None

  def __call__(self, prog, *args, **kw):
    if Runnable.hook is not None:
      return Runnable.hook(self, prog, *args, **kw)
    if callable(prog):
      return prog(self, *args, **kw)
    return self.run(prog, *args, **kw)

  def body(self, f, *args, **kw):
    return f(self, *args, **kw)

  def layer(self, *args, **kw):
    return Runnable.hook(self, *args, **kw)


class A(Runnable, nnx.Module):
  pass


class B(A):
  pass


class E(B):
  pass


class C(Runnable, nnx.Module):

  def __getitem__(self, key):
    """by position among the submodules, or along a path of names"""
    if isinstance(key, tuple):
      return nav(self, key)
    subs = [v for _, v in sorted(user_vars(self).items()) if isinstance(v, nnx.Module)]
    return subs[key]


class D(Runnable, nnx.Dict):
  pass


CLASSES = {"A": A, "B": B, "C": C, "D": D, "E": E, "Module": nnx.Module}
CLASS_NAME = {v: k for k, v in CLASSES.items()}


class ProgError(Exception):
  pass


def nav(m, path):
  for n in path:
    m = vars(m).get(n)      # a module inside a container does not count
    if not isinstance(m, nnx.Module):
      raise ProgError("not a module")
  return m


def ev(m, args, e):
  if e[0] == "c":
    return e[1]
  if e[0] == "arg":
    return args[e[1] - 1]
  if e[0] == "at":
    v = getattr(nav(m, e[1]), e[2])
    t = tag(v)
    if isinstance(v, nnx.Module) or t[0] != "i":
      raise ProgError("not a number")
    return t[1]
  a, b = ev(m, args, e[1]), ev(m, args, e[2])
  return (a % 10007 + b % 10007) % 10007 if e[0] == "+" else (a % 10007) * (b % 10007) % 10007


def exec_prog(self, prog, args):
  for ins in prog:
    k = ins[0]
    if k == "raise":
      raise ProgError("raised")
    if k == "ret":
      return ev(self, args, ins[1])
    m = nav(self, ins[1])
    if k == "set":
      setattr(m, ins[2], ev(self, args, ins[3]))
    elif k == "mkvar":
      setattr(m, ins[2], VARS[ins[3]](ev(self, args, ins[4])))
    elif k == "mkmod":
      setattr(m, ins[2], CLASSES[ins[3]]())
    elif k == "sow":
      m.sow(VARS[ins[2]], ins[3], ev(self, args, ins[4]))
    elif k == "del":
      delattr(m, ins[2])
    else:
      raise ValueError(ins)
  return 0


# ---------------------------------------------------------------- abstraction
class Blank(nnx.Module):
  pass


class BlankTree(nnx.Pytree):
  pass


@functools.lru_cache(None)
def bookkeeping():
  """what the library itself keeps in an object, whatever it is called"""
  return {*vars(Blank()), *vars(BlankTree())}


def internal(n):
  return n.startswith(("_module__", "_pytree__")) or n in bookkeeping()


def user_vars(m):
  return {n: v for n, v in vars(m).items() if not internal(n)}


def md_proj(c):
  out = {}
  for k, v in vars(c).items():
    if k == "value":
      continue
    if v is None:
      out[k] = "None"
    elif isinstance(v, tuple):
      out[k] = "(" + ",".join(map(str, v)) + ")"
    else:
      out[k] = str(v)
  return out


def md_conc(md):
  out = {}
  for k, s in md.items():
    if s == "None":
      out[k] = None
    elif s.startswith("("):
      out[k] = tuple(None if x == "None" else x for x in s[1:-1].split(",") if x)
    else:
      out[k] = s
  return out


def leaf_proj(v):
  if isinstance(v, (containers.Node, nnx.TreeNode)):
    return {"k": "var", "ty": type(v).__name__, "md": md_proj(v), "v": tag(v.value)}
  if isinstance(v, np.ndarray):
    return {"k": "arr", "ty": "np", "v": tag(v)}
  if isinstance(v, jax.Array):
    return {"k": "arr", "ty": "jax", "v": tag(v)}
  if type(v) in (Tree, Reg) or isinstance(v, State):
    return {"k": "arr", "ty": type(v).__name__, "v": tag(v)}
  if isinstance(v, containers.Static):
    return {"k": "cstatic", "v": tag(v.value)}
  if isinstance(v, containers.Container):
    return {"k": "other", "v": ["o", type(v).__name__]}
  return {"k": "static", "v": tag(v)}


def leaf_conc(x, how="py"):
  k = x["k"]
  if k == "var":
    return VARS[x["ty"]](untag(x["v"], how), **md_conc(x["md"] if x["md"] else {}))
  if k == "arr":
    return NODES[x["ty"]](untag(x["v"], "np")) if x["ty"] in NODES else untag(x["v"], x["ty"])
  if k == "static":
    return untag(x["v"])
  if k == "cstatic":
    return nnx.Static(untag(x["v"]))
  raise ValueError(x)


def state_proj(s):
  if not isinstance(s, State):
    return [[["?"], {"k": "other", "v": ["o", type(s).__name__]}]]
  return [[p.split("/"), leaf_proj(v)] for p, v in s.items()]


def walk(m):
  ids, seen = [], set()

  def go(x):
    if id(x) in seen:
      return
    seen.add(id(x))
    ids.append(x)
    for n, v in sorted(user_vars(x).items()):
      if isinstance(v, nnx.Module):
        go(v)
  go(m)
  return ids


def def_proj(d):
  try:
    m = d.merge(State({}))
  except Exception as e:
    return [{"c": "?", "i": 0, "a": {"?": {"k": "other", "v": ["o", err_class(e)]}}}]
  ids = walk(m)
  pos = {id(x): i + 1 for i, x in enumerate(ids)}
  out = []
  for x in ids:
    a = {}
    for n, v in user_vars(x).items():
      a[n] = {"k": "mod", "r": pos[id(v)]} if isinstance(v, nnx.Module) else leaf_proj(v)
    out.append({"c": CLASS_NAME.get(type(x), type(x).__name__), "i": int(x.is_initializing), "a": a})
  return out


def filt(f):
  k = f[0]
  if k == "type":
    return TYPES[f[1]]
  if k == "path":
    return lambda path, v, n=f[1]: path.split("/")[-1] == n
  if k == "under":
    return lambda path, v, n=f[1]: path.split("/")[0] == n
  if k == "val":
    return lambda path, v, n=f[1]: tag(v.value if isinstance(v, containers.Container) else v) == ["i", n]
  if k == "...":
    return ...
  if k == "none":
    return None
  if k == "tuple":
    return tuple(filt(x) for x in f[1])
  if k == "any":
    return partitioning.Any(*[filt(x) for x in f[1]])
  if k == "all":
    return partitioning.All(*[filt(x) for x in f[1]])
  if k == "not":
    return partitioning.Not(filt(f[1]))
  if k == "bad":
    return {"str": "params", "int": 3, "list": [nnx.Param], "dict": {"a": nnx.Param}}[f[1]]
  raise ValueError(f)


def filts(fs):
  # building a combinator out of an invalid filter raises already here
  return [filt(f) for f in fs]


class Pred:
  pass


class Exec:

  def __init__(self):
    self.objs = []      # real modules, position = abstract id - 1
    self.num = {}       # id(obj) -> abstract id
    self.heap = []      # projections
    self.callers = {}
    self.regs = []      # real values
    self.rproj = []     # their projections
    self.events = LAST[0] = []
    self.held = {}      # slot -> container object at the last event

  # -- projection
  def entry(self, v):
    if isinstance(v, nnx.Module):
      return {"k": "mod", "r": self.num.get(id(v), 0)}
    return leaf_proj(v)

  def mod_proj(self, x):
    return {"c": CLASS_NAME.get(type(x), type(x).__name__), "i": int(x.is_initializing),
            "a": {n: self.entry(v) for n, v in user_vars(x).items()}}

  def discover(self, roots):
    new = []
    for r in roots:
      for x in walk(r):
        if id(x) not in self.num:
          self.objs.append(x)
          self.num[id(x)] = len(self.objs)
          new.append(x)
    return new

  def reg_proj(self, v):
    if isinstance(v, State):
      return {"t": "state", "ss": [state_proj(v)]}
    if isinstance(v, nnx.module.ModuleDef):
      return {"t": "def", "d": def_proj(v)}
    if isinstance(v, nnx.Pure):
      st = v.states
      one = isinstance(st, State)
      return {"t": "pure", "one": one, "ss": [state_proj(s) for s in ((st,) if one else st)],
              "d": def_proj(v.moduledef)}
    if isinstance(v, tuple):
      return {"t": "states", "ss": [state_proj(s) for s in v]}
    return {"t": "other"}

  def is_reg(self, v):
    return isinstance(v, (State, nnx.module.ModuleDef, nnx.Pure)) or (
        isinstance(v, tuple) and len(v) > 0 and all(isinstance(s, State) for s in v))

  def res_proj(self, v):
    if isinstance(v, Res):
      return v.f(self)
    if v is None:
      return {"t": "none"}
    if isinstance(v, nnx.Module):
      return {"t": "mod", "r": self.num.get(id(v), 0)}
    if self.is_reg(v):
      return self.reg_proj(v)
    if isinstance(v, tuple) and len(v) == 2:
      return {"t": "pair", "x": self.res_proj(v[0]), "y": self.res_proj(v[1])}
    return {"t": "val", "v": tag(v)}

  def state_of(self, ref):
    r = self.regs[ref[0] - 1]
    if isinstance(r, nnx.Pure):
      r = r.states
    if isinstance(r, State):
      return r
    return r[ref[1] - 1]

  def reg_def(self, i):
    r = self.regs[i - 1]
    return r.moduledef if isinstance(r, nnx.Pure) else r

  # -- performing
  def src(self, s):
    if s["t"] == "states":
      xs = tuple(self.state_of(r) for r in s["ss"])
      return xs[0] if len(xs) == 1 and not s.get("tup") else xs
    if s["t"] == "pure":
      return self.regs[s["p"] - 1]
    return self.objs[s["m"] - 1]

  def access(self, x, acc):
    for kind, n in acc:
      x = getattr(x, n) if kind == "attr" else x[tuple(n)] if kind == "tup" else x[n]
    return x

  def keep(self, op, get):
    """a caller object; callers kept under op["hold"] are used for several calls"""
    k = op.get("hold")
    if not k:
      return get()
    if k not in self.callers:
      self.callers[k] = get()
    return self.callers[k]

  def call(self, base, op):
    f = self.access(base, op["acc"])
    if op.get("direct"):
      return f(op["prog"], list(op["args"]))
    return f.run(op["prog"], list(op["args"]))

  def do(self, op):
    o = op["o"]
    M = (lambda k="m": self.objs[op[k] - 1])
    R = (lambda k: self.regs[op[k] - 1])
    if o == "new":
      return CLASSES[op["c"]]()
    if o == "set":
      x = op["x"]
      val = self.objs[x["r"] - 1] if x["k"] == "mod" else leaf_conc(x, op.get("as", "py"))
      if op.get("from"):      # the very object another attribute holds
        val = vars(self.objs[op["from"][0] - 1])[op["from"][1]]
      if op.get("item"):
        M()[op["n"]] = val
      else:
        setattr(M(), op["n"], val)
      if isinstance(val, containers.Container) and not op.get("from"):
        val.value = 7777      # what is done to the container afterwards is no concern of the module
      return None
    if o == "del":
      delattr(M(), op["n"])
      return None
    if o == "get":
      v = getattr(M(), op["n"]) if not op.get("item") else M()[op["n"]]
      return v if isinstance(v, nnx.Module) else Res(lambda ex: {"t": "val", "v": tag(v)})
    if o == "state":
      return M().get_state()
    if o == "def":
      return M().get_module_def()
    if o == "idef":      # the definition taken while initialising
      return M().init(lambda self: self.get_module_def())
    if o == "mdict":
      paths = [p.split("/") for p in M().mutable_state_dict()]
      return Res(lambda ex: {"t": "list", "xs": paths})
    if o in ("mlget", "mlset"):
      leaf = self.keep(op, lambda: M().mutable_state_dict()["/".join(op["path"])])
      if o == "mlset":
        leaf.value = leaf_conc(op["x"], op.get("as", "py"))
        return None
      v, sh = leaf.value, leaf.sharding
      return Res(lambda ex: {"t": "pair", "x": {"t": "mod", "r": ex.num.get(id(v), 0)} if isinstance(v, nnx.Module) else {"t": "val", "v": tag(v)},
                             "y": {"t": "val", "v": ["s", md_proj(nnx.Node(0, sharding=sh))["sharding"]]}})
    if o == "part":
      return M().partition(*filts(op["fs"]))
    if o == "filt":
      return M().filter(*filts(op["fs"]))
    if o == "clone":
      return M().clone()
    if o == "copy":
      return copy.copy(M())
    if o == "deepcopy":
      return copy.deepcopy(M())
    if o == "pickle":
      return pickle.loads(pickle.dumps(M()))
    if o == "merge":
      return self.reg_def(op["d"]).merge(*[self.state_of(r) for r in op["ss"]])
    if o == "pmerge":
      return R("p").merge()
    if o == "upd":
      M().update_state(self.src(op["src"]))
      return None
    if o == "pop":
      return M().pop_state(*filts(op["fs"]))
    if o == "pget":
      return R("p").get_state()
    if o == "pfilt":
      return R("p").filter(*filts(op["fs"]))
    if o == "ppart":
      return R("p").partition(*filts(op["fs"]))
    if o == "ppop":
      return R("p").pop_state(*filts(op["fs"]))
    if o == "pupd":
      return R("p").update_state(self.src(op["src"]))
    if o == "smerge":
      return State.merge(*[self.state_of(r) for r in op["ss"]])
    if o == "sor":
      return self.state_of(op["s"]) | self.state_of(op["s2"])
    if o == "ssub":
      return self.state_of(op["s"]) - self.state_of(op["s2"])
    if o == "spart":
      return self.state_of(op["s"]).partition(*filts(op["fs"]))
    if o == "sfilt":
      return self.state_of(op["s"]).filter(*filts(op["fs"]))
    if o == "smk":
      items = [("/".join(p), leaf_conc(e)) for p, e in op["es"]]
      return State(iter(items)) if op.get("how") == "iter" else State(dict(items))
    if o == "smap":
      add = lambda x: np.asarray(x + op["by"]) if isinstance(x, np.ndarray) else x + op["by"]
      return jax.tree_util.tree_map(add, self.state_of(op["s"]))
    if o == "sflat":
      s = self.state_of(op["s"])
      leaves, treedef = jax.tree_util.tree_flatten(s)
      keyed, _ = jax.tree_util.tree_flatten_with_path(s)
      paths = []
      for kp, _v in keyed:
        p = kp[0].key.split("/")
        if not paths or paths[-1] != p:
          paths.append(p)
      return (Res(lambda ex: {"t": "list", "xs": paths}), jax.tree_util.tree_unflatten(treedef, leaves))
    if o == "sget":
      v = self.state_of(op["s"])["/".join(op["path"])]
      return Res(lambda ex: {"t": "leaf", "e": leaf_proj(v)})
    if o == "deq":
      d1, d2 = self.reg_def(op["d1"]), self.reg_def(op["d2"])
      eq, ne, h = bool(d1 == d2), bool(d1 != d2), hash(d1) == hash(d2)
      return Res(lambda ex: {"t": "deq", "eq": eq, "ne": ne, "h": h})
    if o == "dflat":
      d = self.reg_def(op["d"])
      leaves, treedef = jax.tree_util.tree_flatten(d)
      back = jax.tree_util.tree_unflatten(treedef, leaves)
      n = len(leaves) if back == d and hash(back) == hash(d) else -1
      return (Res(lambda ex: {"t": "nleaves", "n": n}), back)
    if o == "sow":
      M().sow(VARS[op["ty"]], op["n"], untag(op["v"], op.get("as", "py")))
      return None
    if o == "each":
      seen = []
      M().for_each(CLASSES[op["c"]], seen.append)
      return Res(lambda ex: {"t": "list", "xs": sorted(ex.num.get(id(x), 0) for x in seen)})
    if o == "run":
      return self.call(M(), op)
    if o == "init":
      during = []
      n = len(self.objs)

      def probe():
        during.append([i + 1 for i in range(n) if self.objs[i].is_initializing])
      Runnable.probe = probe
      try:
        out = self.call(self.keep(op, lambda: M().init), op)
      except Exception as e:
        if not during:
          raise
        return Res(lambda ex: {"t": "pair", "x": {"t": "list", "xs": during[0]}, "y": {"t": "err"}})
      finally:
        Runnable.probe = None
      return Res(lambda ex: {"t": "pair", "x": {"t": "list", "xs": during[0]},
                             "y": {"t": "val", "v": tag(out)}})
    if o == "apply":
      return self.call(self.keep(op, lambda: M().apply), op)
    if o == "papply":
      return self.call(self.keep(op, lambda: R("p").apply), op)
    if o == "dapply":
      return self.call(self.keep(op, lambda: self.reg_def(op["d"]).apply(*[self.state_of(r) for r in op["ss"]])), op)
    if o == "pcall":
      return self.call(self.keep(op, lambda: R("p").call), op)
    raise ValueError(op)

  def step(self, op, judge=1):
    ec = ""
    try:
      with limit():
        v = self.do(op)
    except Exception as e:
      v = Res(lambda ex: {"t": "err"})
      ec = err_class(e)
    parts = list(v) if isinstance(v, tuple) and not isinstance(v, nnx.Pure) else [v]
    roots = [x for x in parts if isinstance(x, nnx.Module)] + list(getattr(v, "mods", ()))
    base = len(self.objs)
    self.discover(roots)
    # new modules created inside a call on a tracked module
    if op.get("m"):
      self.discover([self.objs[op["m"] - 1]])
    self.discover(list(self.objs))
    proj = [self.mod_proj(x) for x in self.objs]
    chg, ichg = [], []
    for i in range(base):
      old, new = self.heap[i], proj[i]
      for n in sorted(set(old["a"]) | set(new["a"])):
        if old["a"].get(n) != new["a"].get(n):
          chg.append([i + 1, n, new["a"].get(n, {"k": "none"})])
      if old["i"] != new["i"]:
        ichg.append([i + 1, new["i"]])
    self.heap = proj
    regchg = []
    for j, r in enumerate(self.regs):
      p = self.reg_proj(r)
      if p != self.rproj[j]:
        regchg.append([j + 1, p])
        self.rproj[j] = p
    # containers shared by two attribute slots, one of which got its container just now.
    # Static containers are immutable and compared by value: only assignment must copy them.
    slots, alias, now = {}, [], {}
    for i, x in enumerate(self.objs):
      for n, c in user_vars(x).items():
        if isinstance(c, containers.Container):
          now[i + 1, n] = c
          slots.setdefault(id(c), []).append((i + 1, n))
    if op["o"] != "copy":
      for group in slots.values():
        fresh = [s for s in group if self.held.get(s) is not now[s]]
        if len(group) > 1 and fresh and (
            op["o"] == "set" or isinstance(now[fresh[0]], containers.Node)):
          alias.append([*group[0], *group[1]])
    self.held = now
    res = self.res_proj(v)
    for x in ([v] if not isinstance(v, tuple) or self.is_reg(v) else list(v)):
      if self.is_reg(x):
        self.regs.append(x)
        self.rproj.append(self.reg_proj(x))
    e = {"op": op, "res": res, "new": self.heap[base:], "chg": chg, "ichg": ichg,
         "alias": alias, "regchg": regchg, "j": judge, "ec": ec}
    self.events.append(e)
    return e


class Res:
  """A result with its own projection."""

  def __init__(self, f, mods=()):
    self.f, self.mods = f, mods


def _prefix(self, ops):
  """Perform construction operations without judging them; one sync event follows."""
  try:
    for op in ops:
      v = self.do(op)
      if isinstance(v, nnx.Module):
        self.discover([v])
  except Exception:     # the construction itself fails: judge each step of it
    self.__init__()
    for op in ops:
      self.step(op)
    return
  self.heap = [self.mod_proj(x) for x in self.objs]
  self.held = {(i + 1, n): c for i, x in enumerate(self.objs) for n, c in user_vars(x).items()
               if isinstance(c, containers.Container)}
  self.events.append({"op": {"o": "sync"}, "res": {"t": "none"}, "new": self.heap, "chg": [], "ichg": [],
                      "alias": [], "regchg": [], "j": 0, "ec": ""})


Exec.prefix = _prefix
