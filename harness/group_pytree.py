"""C28-C30, C37: Pytree objects, field declarations and state dictionaries against spec/Pytree.tla."""
import copy, dataclasses, types
from drive import *
from common import *
import jax
import jax.numpy as jnp
import nnx
from flax import serialization
from nnx import containers
from nnx.pytreelib import TreeNode
import graph
from graph import md_conc, md_proj

TYPES = dict(graph.VARS, TreeNode=TreeNode, Static=nnx.Static)
NAMES = {v: k for k, v in TYPES.items()}


class Stop(Exception):
  pass


def is_obj(x):
  return isinstance(x, (nnx.Pytree, nnx.Module))


def attrs(x):
  return graph.user_vars(x)


def key(k):
  return str(next(getattr(k, a) for a in ("name", "idx", "key") if hasattr(k, a)))


class Exec:

  def __init__(self):
    self.regs, self.cls, self.evs = [], [], []
    LAST[0] = self.evs

  # -- abstraction
  def proj(self, x):
    if isinstance(x, nnx.State):
      return ["map", "state", [[k, self.proj(v)] for k, v in sorted(x.items())]]
    if is_obj(x):
      c = self.cls.index(type(x)) + 1 if type(x) in self.cls else 0
      return ["obj", c, [[k, self.proj(v)] for k, v in sorted(attrs(x).items())]]
    if isinstance(x, containers.Container):
      return ["c", NAMES.get(type(x), type(x).__name__), md_proj(x), self.proj(x.value)]
    if isinstance(x, containers.ContainerMetadata):
      return ["o", "ContainerMetadata"]
    if x is None:
      return ["none"]
    if isinstance(x, str):
      return ["str", x]
    if isinstance(x, (list, tuple)):
      return ["seq", type(x).__name__, [self.proj(v) for v in x]]
    if isinstance(x, dict):
      return ["map", type(x).__name__, [[k, self.proj(v)] for k, v in sorted(x.items())]]
    if isinstance(x, bool):
      return ["o", "bool"]
    if isinstance(x, int):
      return ["num", tag(x)]
    if isinstance(x, jax.Array):
      return ["arr", tag(x)]
    return ["o", type(x).__name__]

  def conc(self, t):
    k = t[0]
    if k == "reg":
      return self.regs[t[1] - 1]
    if k == "num":
      return t[1][1]
    if k == "arr":
      return jnp.asarray(t[1][1]) if t[1][0] == "i" else jnp.asarray([x[1] for x in t[1][1]])
    if k == "str":
      return t[1]
    if k == "none":
      return None
    if k == "c":
      return TYPES[t[1]](self.conc(t[3]), **md_conc(t[2] or {}))
    if k == "cm":
      return nnx.ContainerMetadata(self.conc(t[2]), md_conc(t[1] or {}))
    if k == "seq":
      return {"list": list, "tuple": tuple}[t[1]](self.conc(x) for x in t[2])
    if k == "map":
      d = {n: self.conc(x) for n, x in t[2]}
      return nnx.State(d) if t[1] == "state" else d
    raise ValueError(t)

  # -- classes
  def field(self, f):
    kw = {}
    d = f["d"]
    if d[0] == "d":
      kw["default"] = self.conc(d[1])
    elif d[0] == "f":
      kw["default_factory"] = lambda: self.conc(d[1])
    if not f["init"]:
      kw["init"] = False
    opt = f.get("opt")
    if opt:
      kw.update({k: False for k, n in (("compare", "cmp"), ("repr", "rep")) if not opt[n]})
      if opt.get("hash", 2) != 2:
        kw["hash"] = bool(opt["hash"])
      if opt["note"]:
        kw["metadata"] = {"nnx_container_fn": lambda v: v} if opt["note"] == 9 else {"note": opt["note"]}
    if f["k"] == "plain":
      return dataclasses.field(**kw)
    if f["k"] == "var":
      return nnx.var_field(TYPES[f["ty"]], sharding=md_conc({"s": f["sh"]})["s"], **kw)
    return {"field": nnx.field, "node": nnx.node_field, "static": nnx.static_field, "param": nnx.param_field}[f["k"]](**kw)

  def define(self, op):
    b = op["base"]
    base = nnx.Pytree if b[0] == "P" else nnx.Module if b[0] == "M" else self.cls[b[1] - 1]
    ns = {}
    if op["dc"]:
      # a field without default in a class whose base has one: the class attribute has to go
      ns["__annotations__"] = {f["n"]: object for f in op["fields"]}
      for f in op["fields"]:
        ns[f["n"]] = self.field(f)
    elif not dataclasses.is_dataclass(base):
      def init(obj, steps, log):
        for s in steps:
          self.step_of(obj, s, log)
      ns["__init__"] = init
    if op["post"]:
      def post(obj):
        for n, v in op["post"]:
          setattr(obj, n, self.conc(v))
      ns["__post_init__"] = post
    kw = {} if issubclass(base, nnx.Module) else {"mutable": True} if op["mut"] else {}
    cls = types.new_class("K%d" % len(self.cls), (base,), kw, lambda d: d.update(ns))
    if op["dc"]:
      kw = {"frozen": True} if op["frozen"] else {}
      opt = op.get("opt")
      if opt:
        kw.update(eq=bool(opt["eq"]), order=bool(opt["ord"]), repr=bool(opt["rep"]), unsafe_hash=bool(opt.get("uh")), init=bool(opt.get("init", 1)))
        cls = nnx.dataclass(**kw)(cls)
      else:
        cls = nnx.dataclass(cls, **kw)
    self.cls.append(cls)

  def step_of(self, obj, s, log):
    if s["k"] == "raise":
      raise Stop()
    try:
      if s["k"] == "set":
        self.assign(obj, s["n"], s["v"])
      else:
        target = getattr(obj, s["n"])
        if not is_obj(target):
          raise TypeError("not an object")
        self.assign(target, s["m"], s["v"])
      log.append(1)
    except Exception:
      log.append(0)

  # -- operations
  def assign(self, obj, name, v):
    x = self.conc(v)
    setattr(obj, name, x)
    if isinstance(x, containers.Container):
      x.value = 7777          # what is done to the container afterwards is no concern of the object

  def obj(self, x):
    self.regs.append(x)
    return {"t": "obj", "x": self.proj(x)}

  def do(self, op):
    o = op["o"]
    R = self.regs[op["r"] - 1] if "r" in op else None
    if o == "cls":
      self.define(op)
      return {"t": "ok"}
    if o == "new":
      cls = self.cls[op["c"] - 1]
      if dataclasses.is_dataclass(cls):
        kw = [(n, self.conc(v)) for n, v in op["kw"]]
        pos = []
        for f in [f.name for f in dataclasses.fields(cls) if f.init][:op.get("pos", 0)]:
          if not kw or kw[0][0] != f:
            break
          pos.append(kw.pop(0)[1])
        return self.obj(cls(*pos, **dict(kw)))
      log = []
      x = cls(op["steps"], log)
      return {**self.obj(x), "t": "new", "log": log}
    if o == "get":
      return {"t": "val", "x": self.proj(getattr(R, op["n"]))}
    if o == "grab":
      x = getattr(R, op["n"])
      if not is_obj(x):
        raise TypeError("not an object")
      return self.obj(x)
    if o == "set":
      self.assign(R, op["n"], op["v"])
      return {"t": "ok"}
    if o == "replace":
      return self.obj(R.replace(**{n: self.conc(v) for n, v in op["kw"]}))
    if o == "copy":
      return self.obj(copy.copy(R))
    if o == "clone":
      return self.obj(R.clone())
    if o == "deepcopy":
      return self.obj(copy.deepcopy(R))
    if o == "map":
      if op["how"] == "jit":
        return self.obj(jax.jit(lambda t: t)(R))
      if op["how"] == "fill":
        return self.obj(jax.tree_util.tree_map(lambda x: op["by"] if x is None else x, R, is_leaf=lambda x: x is None))
      f = (lambda x: x) if op["how"] == "id" else (lambda x: None) if op["how"] == "clear" else (lambda x: x + op["by"])
      return self.obj(jax.tree_util.tree_map(f, R))
    if o == "flat":
      keyed, td = jax.tree_util.tree_flatten_with_path(R)
      leaves, td2 = jax.tree_util.tree_flatten(R)
      if td != td2 or len(leaves) != len(keyed) or any(a is not b for (_, a), b in zip(keyed, leaves)):
        return {"t": "flattenings differ"}
      return {"t": "flat", "xs": [[[key(k) for k in p], self.proj(v)] for p, v in keyed]}
    if o == "struct":
      a, b = (jax.tree_util.tree_structure(self.regs[op[r] - 1]) for r in ("r", "r2"))
      return {"t": "bool", "b": int(a == b)}
    if o == "cmp":
      R2 = self.regs[op["r2"] - 1]
      return {"t": "bool", "b": int(bool(R == R2 if op["how"] == "eq" else R < R2 if op["how"] == "lt" else hash(R) == hash(R2)))}
    if o == "repr":
      shown = repr(R)
      names = [f.name for f in dataclasses.fields(R)]
      for k in range(2 ** len(names)):
        ns = [n for i, n in enumerate(names) if k >> i & 1]
        if all(hasattr(R, n) for n in ns) and shown == "%s(%s)" % (type(R).__qualname__, ", ".join("%s=%r" % (n, getattr(R, n)) for n in ns)):
          return {"t": "names", "b": 1, "ns": ns}
      return {"t": "names", "b": 0, "ns": []}
    if o == "notes":
      return {"t": "notes", "ns": [[f.name, int(f.init), f.metadata.get("note", 0)] for f in dataclasses.fields(self.cls[op["c"] - 1])]}
    if o == "state":
      return {"t": "state", "xs": [[k, self.proj(v)] for k, v in sorted(R.get_state().items())]}
    if o == "sd":
      return self.obj(serialization.to_state_dict(R))
    if o == "ed":
      d = top = copy.deepcopy(R)
      for k in op["p"][:-1]:
        d = d[k]
      if op["how"] == "del":
        del d[op["p"][-1]]
      else:
        d[op["p"][-1]] = self.conc(op["v"])
      return self.obj(top)
    if o == "restore":
      return self.obj(serialization.from_state_dict(R, self.regs[op["r2"] - 1]))
    raise ValueError(op)

  def step(self, op):
    n = len(self.regs)
    try:
      with limit():
        res = self.do(op)
    except Exception as e:
      del self.regs[n:]
      res = {"t": "err"}
    self.evs.append({"op": op, "res": res, "obs": [self.proj(x) for x in self.regs]})
    return res


def execute(ops):
  ex = Exec()
  for op in ops:
    ex.step(op)
  return ex.evs


# ---------------------------------------------------------------- random histories
class Gen:
  MIX = {"C28": dict(cls=2, new=5, set=9, replace=8, copy=2, deepcopy=1, get=1, grab=8, map=3, flat=1),
         "C29": dict(cls=2, new=6, set=2, replace=3, copy=1, deepcopy=1, grab=2, map=5, flat=4, struct=9),
         "C30": dict(cls=2, new=5, set=2, replace=3, copy=1, grab=4, map=2, sd=6, ed=9, restore=9, struct=2),
         "C37": dict(cls=6, new=14, get=5, set=3, replace=4, flat=4, map=2, state=3, clone=2, struct=2, copy=1, cmp=6, repr=3, notes=1)}
  ATTR = ["x", "y", "x1", "x10", "b", "a", "Z", "_p"]

  def __init__(self, r, pid):
    self.r, self.pid = r, pid
    self.ex = Exec()
    self.cl, self.meta = [], []   # per class: spec record; per register: dict(dict=, fam=, cm=, mod=)
    self.fam = 0

  # -- values
  def num(self):
    return ["num", ["i", self.r.randint(0, 9)]]

  def arr(self):
    r = self.r
    return ["arr", ["i", r.randint(0, 9)]] if r.random() < 0.6 else ["arr", ["a", [["i", r.randint(0, 9)] for _ in range(r.randint(1, 3))]]]

  def static(self, d=2):
    r = self.r
    k = r.random()
    if d == 0 or k < 0.5:
      return self.num()
    if k < 0.6:
      return ["str", r.choice("ab")]
    if k < 0.65:
      return ["none"]
    return self.coll(lambda: self.static(d - 1))

  def coll(self, kid):
    r = self.r
    if r.random() < 0.5:
      return ["seq", r.choice(["list", "tuple"]), [kid() for _ in range(r.randint(1, 3))]]
    return ["map", "dict", [[n, kid()] for n in sorted(r.sample(["p", "q", "k1", "k10"], r.randint(1, 3)))]]

  def refs(self):
    return [i + 1 for i, m in enumerate(self.meta) if not m.get("dict") and not m.get("mod") and not m.get("cm")]

  def node(self, d=2, refs=True):
    """a value whose leaves belong to the tree"""
    r = self.r
    k = r.random()
    if d == 0 or k < 0.5:
      k = r.random()
      return self.num() if k < 0.4 else self.arr() if k < 0.92 else ["str", "s"] if k < 0.94 else ["none"]
    if k < 0.6 and refs and self.refs():
      return ["reg", r.choice(self.refs())]
    if k < 0.7:
      return ["map", "state", [[n, ["c", r.choice(["Param", "BatchStat"]), {}, self.arr()]] for n in sorted(r.sample(["a", "b", "c"], r.randint(1, 2)))]]
    if k < 0.78:
      return self.box(d - 1, refs)
    return self.coll(lambda: self.node(d - 1, refs))

  def md(self, ty):
    r = self.r
    md = {}
    if ty in graph.VARS and ty != "Node" and r.random() < 0.4:
      md["sharding"] = r.choice(["(x)", "(x,y)", "None"])
    if r.random() < 0.1:
      md["tag"] = r.choice("tu")
    return md

  def box(self, d=1, refs=True):
    r = self.r
    ty = r.choice(["Node", "Param", "BatchStat", "TreeNode", "MyVar", "Static"])
    if ty == "Static":
      return ["c", "Static", {}, self.static(1)]
    v = self.node(d, refs)
    if v[0] == "c":
      v = ["seq", "list", [v]]
    return ["c", ty, self.md(ty), v]

  def value(self, refs=True):
    r = self.r
    k = r.random()
    if k < 0.3:
      return self.num()
    if k < 0.5:
      return self.arr()
    if k < 0.6:
      return self.static()
    if k < 0.75 and refs and self.refs():
      return ["reg", r.choice(self.refs())]
    if k < 0.79:
      return ["map", "state", [["a", ["c", "Param", {}, self.arr()]]]]
    return self.box(refs=refs)

  def over(self, cur, refs=False):
    """a value to assign over the stored value cur"""
    r = self.r
    if isinstance(cur, nnx.Static):
      return self.static(1) if r.random() < 0.7 else r.choice([["c", "Static", {}, self.num()], ["c", "Node", {}, self.num()]])
    if isinstance(cur, containers.Container):
      if r.random() < 0.6:
        return self.node(1, refs)
      ty, md = NAMES[type(cur)], md_proj(cur)
      v = ["c", ty, md if r.random() < 0.7 else self.md(ty), self.node(1, refs)]
      if v[3][0] == "c":
        v[3] = ["seq", "list", [v[3]]]
      return v if r.random() < 0.8 else self.box(refs=refs)
    if r.random() < 0.15:
      return self.value(refs)
    return self.num() if isinstance(cur, int) else self.arr() if isinstance(cur, jax.Array) and r.random() < 0.8 else self.value(refs)

  # -- classes
  def fields(self, base, mod):
    r = self.r
    out = []
    inherited = [f["d"][0] != "no" and f["init"] for f in base["fields"]] if base else []
    had = any(inherited)
    for n in r.sample(self.ATTR, r.randint(1, 3)):
      k = r.choice(["plain", "field", "node", "static", "var", "param"])
      old = [f for f in base["fields"] if f["n"] == n] if base else []
      init = 1 if r.random() < 0.8 else 0
      dk = r.choice(["no", "no", "d", "f", "f"])
      if init and had and r.random() < 0.95 and dk == "no":
        dk = r.choice(["d", "f"])
      if not init and dk == "no" and (k in ("plain", "field") or r.random() < 0.8):
        dk = "f"
      if dk == "no" and old:
        # an annotation without a value would pick up the base's class attribute: give the value
        dk = "f"
      if dk == "d":
        d = ["d", r.choice([self.num(), ["str", "d"], ["none"]])]
      elif dk == "f":
        d = ["f", self.static(1) if k == "static" or mod else self.fit(k, "BatchStat", refs=False)]
        if mod:
          d[1] = self.num()
      else:
        d = ["no"]
      had = had or (init and dk != "no")
      f = {"n": n, "k": k, "ty": r.choice(["BatchStat", "Param", "MyVar"]), "sh": r.choice(["None", "(x)"]), "init": init, "d": d}
      if self.pid == "C37" and r.random() < 0.3:
        f["opt"] = {"cmp": r.choice([0, 1]), "rep": r.choice([0, 1]), "note": r.choice([0, 0, 1, 2]), "hash": r.choice([0, 1, 2, 2])}
        if r.random() < 0.03 and k not in ("plain", "field"):
          f["opt"]["note"] = 9
      out.append(f)
    return out

  def fit(self, k, ty, refs=True, sh="None", mod=False):
    """an argument for a declared field"""
    r = self.r
    if mod:
      v = self.num() if r.random() < 0.5 else self.arr() if k != "static" else self.num()
      if r.random() < 0.3:
        t = {"node": "Node", "static": "Static", "param": "Param"}.get(k, ty)
        v = ["c", t, {"sharding": sh} if k == "var" else {}, self.num()]
      return v
    if k in ("plain", "field"):
      return self.value(refs)
    if k == "static":
      return self.static() if r.random() < 0.8 else ["c", r.choice(["Static", "Static", "Node"]), {}, self.static(1)]
    t = {"node": "Node", "param": "Param"}.get(k, ty)
    if r.random() < 0.65:
      v = self.node(1, refs)
      if v[0] != "c" or r.random() < 0.3:
        return v
    md = {"sharding": sh} if k == "var" else {}
    if r.random() < 0.15:
      md = self.md(t)
    v = self.node(1, refs)
    return ["c", t if r.random() < 0.85 else r.choice(["Node", "Param"]), md if t != "Node" else {}, v if v[0] != "c" else self.num()]

  def op_cls(self):
    r = self.r
    if len(self.cl) >= (10 if self.pid == "C37" else 6):
      return None
    dc = int(r.random() < {"C37": 0.9, "C28": 0.45}.get(self.pid, 0.4))
    bases = [i for i, c in enumerate(self.cl) if not (c["dc"] and c["frozen"] and not dc)]
    base, spec = ["P"], None
    if self.pid == "C37" and r.random() < 0.25:
      base = ["M"]
    elif bases and r.random() < 0.4:
      i = r.choice(bases)
      base, spec = ["c", i + 1], self.cl[i]
    mod = base == ["M"] or bool(spec and spec["mod"])
    frozen = int(dc and not mod and r.random() < 0.2)
    if spec and spec["dc"]:
      frozen = spec["frozen"] if r.random() < 0.95 else 1 - spec["frozen"]
      if mod:
        frozen = 0
    fields = self.fields(spec if spec and spec["dc"] else None, mod) if dc else []
    post = []
    if dc and not frozen and r.random() < 0.2:
      late = [f for f in fields if not f["init"] and f["d"][0] == "d"]
      post = [[late[0]["n"], late[0]["d"][1]]] if late and r.random() < 0.7 else [[r.choice(["p", "p1", "x"]), self.num() if r.random() < 0.5 else ["c", "Node", {}, self.num()]]]
    if post and any(f["n"] == post[0][0] for f in fields + (spec["fields"] if spec else [])):
      post = [[post[0][0], self.num()]]
    op = {"o": "cls", "base": base, "mut": 0 if mod else int(r.random() < 0.4), "dc": dc, "frozen": frozen, "fields": fields, "post": post}
    if self.pid == "C37" and dc and base[0] != "c" and r.random() < 0.4:
      op["opt"] = {"eq": int(r.random() < 0.8), "ord": int(r.random() < 0.4), "rep": int(r.random() < 0.8), "uh": int(r.random() < 0.4), "init": int(r.random() < 0.93)}
    return op

  def defined(self, op):
    b = self.cl[op["base"][1] - 1] if op["base"][0] == "c" else {"mod": int(op["base"][0] == "M"), "dc": 0, "frozen": 0, "fields": []}
    names = [f["n"] for f in op["fields"]]
    self.cl.append({"opt": op.get("opt", {"eq": 1, "ord": 0}) if op["dc"] else b.get("opt"), "over": (op["dc"] and op["base"][0] == "c") or b.get("over", False),
                    "mod": b["mod"], "mut": op["mut"], "dc": int(op["dc"] or b["dc"]), "frozen": op["frozen"] if op["dc"] else b["frozen"],
                    "fields": ([f if f["n"] not in names else op["fields"][names.index(f["n"])] for f in b["fields"]]
                               + [f for f in op["fields"] if f["n"] not in [g["n"] for g in b["fields"]]]) if op["dc"] else b["fields"]})

  def op_new(self):
    r = self.r
    if not self.cl:
      return None
    i = r.randrange(len(self.cl))
    c = self.cl[i]
    if c["dc"]:
      kw = []
      for f in c["fields"]:
        if (not f["init"] and r.random() < 0.95) or (f["d"][0] != "no" and r.random() < 0.4) or r.random() < 0.03:
          continue
        v = self.fit(f["k"], f["ty"], True, f["sh"], c["mod"])
        if self.pid == "C37" and f["k"] in ("node", "var", "param") and r.random() < 0.1:
          v = ["cm", {"tag": "t"} if f["k"] == "node" or r.random() < 0.5 else {"sharding": "(y)"}, self.num()]
        kw.append([f["n"], v])
      if r.random() < 0.03:
        kw.append(["zz", self.num()])
      op = {"o": "new", "c": i + 1, "steps": [], "kw": kw}
      if r.random() < 0.4:
        op["pos"] = r.randint(1, 3)
      return op
    steps = []
    refd = set()
    for _ in range(r.randint(0, 5)):
      k = r.random()
      n = r.choice(self.ATTR[:4])
      if k < 0.8 or c["mod"]:
        v = (self.num() if r.random() < 0.6 else ["c", "Param", {}, self.num()]) if c["mod"] else self.value()
        prev = [s for s in steps if s["n"] == n and s["k"] == "set"]
        if prev and not c["mod"]:
          v = self.num()
        steps.append({"k": "set", "n": n, "m": n, "v": v})
      elif k < 0.95:
        steps.append({"k": "poke", "n": n, "m": r.choice(self.ATTR), "v": self.num()})
      else:
        steps.append({"k": "raise", "n": n, "m": n, "v": self.num()})
    return {"o": "new", "c": i + 1, "steps": steps, "kw": []}

  def pick(self, dict_=False, mod=None):
    regs = [i for i, m in enumerate(self.meta) if bool(m.get("dict")) == dict_ and (mod is None or bool(m.get("mod")) == mod)]
    if not regs:
      return None
    return (self.r.choice(regs) if self.r.random() < 0.6 else regs[-1]) + 1

  def of(self, reg):
    return self.ex.cls.index(type(self.ex.regs[reg - 1]))

  def op_cmp(self):
    """two dataclass objects; of the same class their compared fields hold plain values"""
    r = self.r
    a = self.pick()
    if not a or not self.cl[self.of(a)]["dc"]:
      return None
    same = [i + 1 for i in range(len(self.meta)) if self.of(i + 1) == self.of(a)]
    b = r.choice(same) if r.random() < 0.9 else self.pick()
    c = self.cl[self.of(a)]
    if not self.cl[self.of(b)]["dc"] or (not c["opt"]["eq"] and c["over"]):
      return None
    how = "lt" if c["opt"]["ord"] and r.random() < 0.5 else "hash" if r.random() < 0.35 else "eq"
    if c["over"] and how == "lt":
      return None
    kinds = (int, jax.Array) + (() if how == "lt" else (str, type(None)))
    if how == "hash" and self.cl[self.of(b)]["opt"]["eq"] == 0 and self.cl[self.of(b)]["over"]:
      return None
    for reg in (a, b):
      x = self.ex.regs[reg - 1]
      for f in dataclasses.fields(x):
        if (how == "hash" or self.of(a) == self.of(b) and f.compare) and hasattr(x, f.name):
          v = getattr(x, f.name)
          if not isinstance(v, kinds) or (isinstance(v, jax.Array) and v.shape):
            return None
    return {"o": "cmp", "how": how, "r": a, "r2": b}

  def make(self, o):
    r = self.r
    if o == "cls":
      return self.op_cls()
    if o == "new":
      return self.op_new() if len(self.meta) < 14 else None
    if o in ("state", "clone"):
      reg = self.pick(mod=True)
      return reg and {"o": o, "r": reg}
    if o == "notes":
      cs = [i for i, c in enumerate(self.cl) if c["dc"]]
      return {"o": o, "c": r.choice(cs) + 1} if cs else None
    if o == "repr":
      reg = self.pick()
      c = self.cl[self.of(reg)] if reg else {"dc": 0}
      if not c["dc"] or self.meta[reg - 1].get("cm") or (c["mod"] and not c["opt"].get("rep", 1)):
        return None
      return {"o": o, "r": reg}
    if o == "cmp":
      return self.op_cmp()
    if o == "struct":
      a, b = self.pick(mod=False), self.pick(mod=False)
      return a and {"o": o, "r": a, "r2": b}
    if o == "ed":
      reg = self.pick(True)
      if not reg or len(self.meta) > 16:
        return None
      d = self.ex.regs[reg - 1]
      if not d and r.random() < 0.9:
        return None
      p = []
      while d and (not p or r.random() < 0.75):
        k = r.choice(sorted(d))
        p.append(k)
        if not isinstance(d[k], dict):
          leaf = d[k]
          how = r.choice(["set", "set", "del"])
          return {"o": o, "r": reg, "p": p, "how": how, "v": self.arr() if isinstance(leaf, jax.Array) else self.num()}
        d = d[k]
      how = r.choice(["add", "del", "set"]) if p else "add"
      if how == "add":
        p = p + [r.choice(["w", "0", "3"])]
        how = "set" if p[-1] in d else "add"
      return {"o": o, "r": reg, "p": p, "how": how, "v": r.choice([["none"], self.num(), self.arr(), ["str", "s"]]) if how == "add" else self.num()}
    if o == "restore":
      a, b = self.pick(), self.pick(True)
      fams = [(i + 1, j + 1) for i, m in enumerate(self.meta) for j, n in enumerate(self.meta)
              if not m.get("dict") and n.get("dict") and m["fam"] == n["fam"] and not m.get("mod")]
      if not fams or len(self.meta) > 16:
        return None
      a, b = r.choice(fams)
      return {"o": o, "r": a, "r2": b}
    reg = self.pick()
    if not reg:
      return None
    mod = self.meta[reg - 1].get("mod")
    x = self.ex.regs[reg - 1]
    names = sorted(attrs(x))
    if o in ("get", "grab"):
      if mod and o == "grab":
        return None
      held = [n for n in names if is_obj(getattr(x, n, None)) and not isinstance(getattr(x, n), nnx.State)]
      if o == "grab" and held and r.random() < 0.9:
        return {"o": o, "r": reg, "n": r.choice(held)} if len(self.meta) < 16 else None
      if o == "grab" and r.random() < 0.9:
        return None
      return {"o": o, "r": reg, "n": r.choice(names + ["q9"]) if names and r.random() < 0.9 else r.choice(self.ATTR)}
    if o == "set":
      n = r.choice(names) if names and r.random() < 0.85 else r.choice(self.ATTR + ["q"])
      if mod:
        return {"o": o, "r": reg, "n": n, "v": self.num() if r.random() < 0.5 else ["c", r.choice(["Param", "Node"]), {}, self.num()]}
      return {"o": o, "r": reg, "n": n, "v": self.over(vars(x).get(n))}
    if mod and o not in ("flat", "struct"):
      return None
    if mod:
      return None
    if o == "flat":
      return {"o": o, "r": reg}
    if len(self.meta) > 16:
      return None
    if o == "replace":
      if self.meta[reg - 1].get("cm"):
        return None
      fields = [f.name for f in dataclasses.fields(x)] if dataclasses.is_dataclass(x) else []
      pool = fields if fields and r.random() < 0.9 else names
      kw = [[n, self.over(vars(x).get(n), True)] for n in r.sample(pool, min(len(pool), r.choice([0, 1, 1, 2])))]
      c = self.cl[self.ex.cls.index(type(x))]
      for f in c["fields"]:
        for q in kw:
          if q[0] == f["n"] and f["k"] == "static" and q[1][0] not in ("num", "str", "none", "c"):
            q[1] = self.num()
      if r.random() < 0.06:
        kw.append(["zz", self.num()])
      return {"o": o, "r": reg, "kw": kw}
    if o in ("copy", "deepcopy", "sd"):
      return {"o": o, "r": reg}
    if o == "map":
      return {"o": o, "r": reg, "how": r.choice(["id", "map", "map", "jit", "fill", "clear"]), "by": r.randint(1, 5)}

  def run(self, length):
    r = self.r
    mix = self.MIX[self.pid]
    ops, w = list(mix), list(mix.values())
    while len(self.ex.evs) < length:
      o = r.choices(ops, w)[0]
      if not self.cl:
        o = "cls"
      elif not self.meta and o != "cls":
        o = "new"
      op = self.make(o)
      if not op:
        continue
      n = len(self.ex.regs)
      res = self.ex.step(op)
      if o == "cls" and res["t"] == "ok":
        self.defined(op)
      if len(self.ex.regs) > n:
        src = self.meta[op["r"] - 1] if "r" in op else None
        if o == "new":
          self.fam += 1
          m = {"fam": self.fam, "mod": self.cl[op["c"] - 1]["mod"], "cm": any(v[0] == "cm" for _, v in op["kw"])}
        elif o == "sd":
          m = {"fam": src["fam"], "dict": True}
        elif o == "grab":
          self.fam += 1
          m = {"fam": self.fam, "mod": src["mod"], "cm": src["cm"]}
        else:
          m = dict(src)
          if o == "replace":
            if any(v[0] not in ("num", "arr") for _, v in op["kw"]):
              self.fam += 1
              m["fam"] = self.fam
        self.meta.append(m)
    return self.ex.evs


SIZES = {"C28": (2, 3, 3500, 40000, 250, 4000), "C29": (0, 0, 4000, 20000, 250, 4000),
         "C30": (0, 0, 4000, 20000, 250, 4000), "C37": (0, 0, 4000, 20000, 300, 5000)}


def run(c):
  kq, kt, cq, ct, nq, nt = SIZES[c.pid]
  lines = c.tlc("MC_Pytree", cfg("Spec", ["Prop", "Emit"], dict(Profile=c.pid, K=kt if c.thorough else kq, Rich=c.thorough)))
  tr = replay(c, scripts_of(lines), execute, ct if c.thorough else cq)
  tr += randoms(c, lambda r: Gen(r, c.pid).run(35), nt if c.thorough else nq)
  c.validate("TracePytree", tr, lambda op, clause, v: True)
