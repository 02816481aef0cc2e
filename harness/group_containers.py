"""C13: containers against spec/Containers.tla."""
import copy
from drive import *
from common import *
import jax
import nnx
from nnx import containers, nodes
from nnx.pytreelib import TreeNode
import graph
from graph import md_conc, md_proj

TYPES = dict(graph.VARS, TreeNode=TreeNode, Static=nnx.Static)
NAMES = {v: k for k, v in TYPES.items()}


class Exec:

  def __init__(self):
    self.regs, self.proj, self.evs = [], [], []
    LAST[0] = self.evs

  def cont(self, x):
    return {"ty": NAMES.get(type(x), type(x).__name__), "md": md_proj(x), "v": tag(x.value)}

  def do(self, op):
    o = op["o"]
    R = self.regs[op["r"] - 1] if "r" in op else None
    R2 = self.regs[op["r2"] - 1] if "r2" in op else None
    if o == "mk":
      return TYPES[op["ty"]](untag(op["v"]), **md_conc(op["md"] or {}))
    if o == "mkmeta":
      inner = nnx.ContainerMetadata(untag(op["v"]), md_conc(op["inner"] or {}))
      if op["ty"] == "Static":
        raise TypeError("static containers take no metadata")
      return TYPES[op["ty"]](inner, **md_conc(op["md"] or {}))
    if o == "mkinit":
      if op["ty"] == "Static":
        raise TypeError("static containers take no metadata")
      inner = md_conc(op["inner"] or {})
      if op["via"] == "init":
        make = nnx.with_metadata(lambda: untag(op["v"]), **inner)
      else:
        one = nnx.ContainerMetadata(untag(op["v"]), inner)
        make = lambda: one
      for ty, md in op["uses"]:
        TYPES[ty](make(), **md_conc(md or {}))
      return TYPES[op["ty"]](make(), **md_conc(op["md"] or {}))
    if o == "wrap":
      return TYPES[op["ty"]](R, **md_conc(op["md"] or {}))
    if o == "copy":
      return R.copy()
    if o == "replace":
      kw = md_conc(op["kw"] or {})
      if op["val"]:
        kw["value"] = untag(op["val"][1]) if op["val"][0] == "v" else self.regs[op["val"][1] - 1]
      return R.replace(**kw)
    if o == "eq":
      b = bool(R == R2)
      return {"t": "bool", "b": int(b)} if b == (not (R != R2)) else {"t": "inconsistent"}
    if o == "equiv":
      return {"t": "bool", "b": int(R.is_equivalent(R2))}
    if o == "eqv":
      return {"t": "bool", "b": int(R == R.value)}
    if o == "map":
      return jax.tree_util.tree_map(lambda x: x + op["by"], R)
    if o == "leaves":
      keyed, _ = jax.tree_util.tree_flatten_with_path(R)
      keys = sorted({getattr(p[0], "name", str(p[0])) for p, _ in keyed})
      xs = [v for _, v in keyed]
      same = xs == jax.tree_util.tree_leaves(R)
      return {"t": "leaves", "xs": xs if same else ["flatten differs"], "keys": keys}
    if o == "struct":
      return {"t": "bool", "b": int(jax.tree_util.tree_structure(R) == jax.tree_util.tree_structure(R2))}
    if o == "isnode":
      return {"t": "bool", "b": int(nodes.is_node(R))}
    if o == "meta":
      return {"t": "str", "s": md_proj(R)[op["n"]] if getattr(R, op["n"], R) is not R else 1 / 0}
    if o == "hash":
      if R == R2 and isinstance(R, nnx.Static):
        return {"t": "bool", "b": int(hash(R) == hash(R2))}
      return {"t": "bool", "b": 1}
    raise ValueError(op)

  def step(self, op):
    try:
      with limit():
        v = self.do(op)
    except Exception as e:
      v = {"t": "err"}
    if isinstance(v, containers.Container):
      res = {"t": "cont", "c": self.cont(v), "fresh": int(all(v is not x for x in self.regs))}
    elif isinstance(v, dict):
      res = v
    else:
      res = {"t": "other", "v": tag(v)}
    now = [self.cont(x) for x in self.regs]
    chg = [j + 1 for j in range(len(now)) if now[j] != self.proj[j]]
    if isinstance(v, containers.Container):
      self.regs.append(v)
      now.append(res["c"])
    self.proj = now
    self.evs.append({"op": op, "res": res, "chg": chg})
    return res


def execute(ops):
  ex = Exec()
  for op in ops:
    ex.step(op)
  return ex.evs


def gen(r, length):
  ex = Exec()

  def val(d=2):
    if d and r.random() < 0.3:
      return ["t", [val(d - 1) for _ in range(r.randint(0, 3))]]
    return ["i", r.randint(0, 4)]

  def md():
    m = {}
    if r.random() < 0.4:
      m["sharding"] = r.choice(["None", "(x,y)", "(z)"])
    if r.random() < 0.3:
      m["tag"] = r.choice("tu")
    if r.random() < 0.1:
      m["mu"] = r.choice("pq")
    return m
  for _ in range(length):
    n = len(ex.regs)
    o = r.choice(["mk", "mk", "mkmeta", "mkinit", "wrap", "wrap", "copy", "replace", "replace", "replace", "eq", "equiv", "eqv", "map",
                  "leaves", "struct", "isnode", "meta", "hash"]) if n else "mk"
    if n > 14 and o in ("mk", "mkmeta", "mkinit", "copy", "map"):
      continue
    ty = r.choice(sorted(TYPES))
    reg = r.randint(1, n) if n else 0
    reg2 = r.randint(1, n) if n else 0
    pr = ex.proj[reg - 1] if n else None
    if o in ("mk", "mkmeta", "mkinit"):
      op = {"o": o, "ty": ty, "md": {} if ty == "Static" and r.random() < 0.9 else md(), "v": val()}
      if o != "mk":
        op["inner"] = md()
      if o == "mkinit":
        op["uses"] = [[r.choice(sorted(set(TYPES) - {"Static"})), md()] for _ in range(r.randint(0, 2))]
        op["via"] = r.choice(["init", "meta"])
    elif o == "wrap":
      like = r.random() < 0.6
      op = {"o": o, "r": reg, "ty": pr["ty"] if like else ty, "md": pr["md"] if like and r.random() < 0.8 else md()}
    elif o == "replace":
      k = r.random()
      v = [] if k < 0.2 else ["v", val()] if k < 0.5 else ["r", reg2]
      kw = md() if r.random() < 0.5 else {}
      if r.random() < 0.7:
        kw = {x: y for x, y in kw.items() if x in pr["md"]}
      op = {"o": o, "r": reg, "kw": kw, "val": v}
    elif o in ("eq", "equiv", "struct", "hash"):
      op = {"o": o, "r": reg, "r2": reg2}
    elif o == "map":
      op = {"o": o, "r": reg, "by": r.randint(1, 3)}
    elif o == "meta":
      op = {"o": o, "r": reg, "n": r.choice(["sharding", "tag", "mu"])}
    else:
      op = {"o": o, "r": reg}
    ex.step(op)
  return ex.evs


def run(c):
  lines = c.tlc("MC_Containers", cfg(invariants=["Prop", "Emit"], constants={"Rich": c.thorough}))
  foc = lambda op, clause, v: True
  tr = replay(c, scripts_of(lines), execute, 60000 if c.thorough else 3000)
  c.validate("TraceContainers", tr, foc)
  c.validate("TraceContainers", randoms(c, lambda r: gen(r, 30), 4000 if c.thorough else 500), foc)
