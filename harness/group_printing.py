"""C36: identities and printing of modules against spec/Printing.tla, in several threads."""
import copy, pickle, queue, sys, threading
from drive import *
from common import *
import jax, jax.numpy as jnp
import nnx
import graph
from nnx import ids as nnx_ids


class A(nnx.Module):
  pass


class B(nnx.Module):
  pass


TY = {"A": A, "B": B}
TL = threading.local()
NNX = os.path.join(os.path.realpath(REPO), "nnx") + os.sep


class P:
  """An object whose printing pauses or fails when the schedule says so."""

  def __init__(self, k):
    self.k = k

  def __repr__(self):
    pause = getattr(TL, "pause", None)
    if pause is not None:
      pause(self.k)
    return "P%d" % self.k

  def __deepcopy__(self, memo):
    return self

  def __reduce__(self):
    return P, (self.k,)


class N:
  """An object that prints a module."""

  def __init__(self, m):
    self.m = m

  def __repr__(self):
    return repr(self.m)


class Worker:
  """A thread that prints one thing at a time, pausing at every P."""

  def __init__(self):
    self.jobs, self.replies, self.go = queue.Queue(), queue.Queue(), queue.Queue()
    self.kept, self.waiting, self.hung = [], False, False
    self.th = threading.Thread(target=self.main, daemon=True)
    self.th.start()

  def pause(self, k):
    self.replies.put({"t": "wait", "at": k})
    how = self.go.get()
    if how == "E":
      raise RuntimeError("scheduled failure")
    if how == "K":
      raise KeyboardInterrupt("scheduled interruption")

  def main(self):
    TL.pause = self.pause
    while True:
      x = self.jobs.get()
      if x is None:
        return
      try:
        r = {"t": "text", "x": repr(x[0]).split("\n")}
      except BaseException as e:
        self.kept.append(e)     # and with it the frames of the failed print
        r = {"t": "err"}
      self.replies.put(r)

  def tell(self, q, x):
    """Hands x over and waits for what comes of it; a print that is over cannot be resumed."""
    if self.hung or (q is self.go) != self.waiting:
      return {"t": "hang" if self.hung else "busy" if self.waiting else "over"}
    q.put(x)
    try:
      r = self.replies.get(timeout=20)
    except queue.Empty:
      r, self.hung = {"t": "hang"}, True
    self.waiting = r["t"] == "wait"
    return r


def apart(fn, tracer=None):
  """fn() in a thread of its own: (thread, box of its result)"""
  box = []

  def main():
    if tracer is not None:
      sys.settrace(tracer)
    try:
      box.append(fn())
    except BaseException as e:
      box.append((None, e))
    finally:
      sys.settrace(None)
  th = threading.Thread(target=main, daemon=True)
  th.start()
  return th, box


class Exec:

  def __init__(self):
    self.ms, self.us, self.gs, self.ws, self.evs = [], [], [], {}, []
    LAST[0] = self.evs

  def value(self, v):
    k = v[0]
    if k == "i":
      return v[1]
    if k == "s":
      return "\n".join(v[1])
    if k == "p":
      return P(v[1])
    if k == "r":
      return self.ms[v[1] - 1]
    if k == "n":
      return N(self.ms[v[1] - 1])
    if k == "c":
      return nnx.Static(self.value(v[1]))
    if k == "l":
      return [self.value(x) for x in v[2]]
    if k == "t":
      return tuple(self.value(x) for x in v[1])
    if k == "v":
      return nnx.Param(v[1])
    if k == "a":
      return jnp.array(v[1])
    raise ValueError(v)

  def refs(self, v):
    if isinstance(v, nnx.Module):
      return [v]
    if isinstance(v, N):
      return [v.m]
    if isinstance(v, list):
      return [x for x in v if isinstance(x, nnx.Module)]
    return []

  def reach(self, m, out):
    if not any(m is x for x in out):
      out.append(m)
      for v in vars(m).values():
        for x in self.refs(v):
          self.reach(x, out)
    return out

  def thing(self, w):
    return self.ms[w[1] - 1] if w[0] == "m" else self.gs[w[1] - 1]

  def plan(self, op):
    """A function performing op in any thread, and one recording its result afterwards."""
    o = op["o"]
    if o == "mk":
      how = op["how"]
      src = self.ms[op["m"] - 1] if op["m"] else None
      fn = {"new": lambda: TY[op["ty"]](), "copy": lambda: copy.copy(src), "deep": lambda: copy.deepcopy(src),
            "pickle": lambda: pickle.loads(pickle.dumps(src))}[how]

      def record(x):
        self.ms += self.reach(x, []) if how in ("deep", "pickle") else [x]
        return {"t": "ok"}
    elif o == "uid":
      src = self.us[op["i"] - 1] if op["i"] else None
      fn = {"new": lambda: nnx_ids.uuid(), "copy": lambda: copy.copy(src), "deep": lambda: copy.deepcopy([src])[0],
            "pickle": lambda: pickle.loads(pickle.dumps(src))}[op["how"]]

      def record(x):
        self.us.append(x)
        return {"t": "ok"}
    elif o == "print":
      x = self.thing(op["w"])
      fn = lambda: repr(x)
      record = lambda s: {"t": "text", "x": s.split("\n")}
    else:
      raise ValueError(op)
    return fn, record

  def worker(self, t):
    if t not in self.ws:
      self.ws[t] = Worker()
    return self.ws[t]

  def safe(self, fn):
    def f():
      try:
        return fn(), None
      except BaseException as e:
        return None, e
    return f

  def do(self, op):
    o = op["o"]
    if o in ("mk", "uid", "print"):
      fn, record = self.plan(op)
      if op.get("t"):
        th, box = apart(self.safe(fn))
        th.join(20)
        x, e = box[0]
        if e is not None:
          raise e
        return record(x)
      return record(fn())
    if o == "set":
      setattr(self.ms[op["m"] - 1], op["n"], self.value(op["v"]))
    elif o == "del":
      delattr(self.ms[op["m"] - 1], op["n"])
    elif o == "state":
      T = {"Param": nnx.Param, "Node": nnx.Node, "BatchStat": nnx.BatchStat}
      self.gs.append(nnx.State({"/".join(x["p"]): T[x["k"]](self.value(x["v"])) for x in reversed(op["x"])}))
    elif o == "def":
      self.gs.append(self.ms[op["m"] - 1].get_module_def())
    elif o == "fresh":
      for _ in range(op["burn"]):
        nnx_ids.uuid()
      ids, h = set(self.us), nnx.Module()
      for i in range(op["n"]):
        ids.add(nnx_ids.uuid())
        vars(h)["n%04d" % i] = TY["A"]()
      for i, m in enumerate(self.ms):
        vars(h)["m%04d" % i] = m
      seen = []
      h.for_each(nnx.Module, seen.append)
      return {"t": "num", "x": len(seen) - 1, "y": len(ids)}
    elif o == "start":
      w = self.worker(op["t"])
      return w.tell(w.jobs, [self.thing(op["w"])])
    elif o == "step":
      w = self.worker(op["t"])
      return w.tell(w.go, "go")
    elif o == "raise":
      w = self.worker(op["t"])
      return w.tell(w.go, op["k"])
    elif o == "pre":
      return self.preempt(op)
    else:
      raise ValueError(op)
    return {"t": "ok"}

  def preempt(self, op):
    """Operation a, paused at its k-th step inside nnx, while operation b takes place in another thread."""
    fa, ra = self.plan(op["a"])
    fb, rb = self.plan(op["b"])
    at, paused, resume = op["k"], threading.Event(), threading.Event()
    count = [0]
    opcodes = op["gr"] == "opcode"

    def local(frame, event, arg):
      if event == ("opcode" if opcodes else "line"):
        count[0] += 1
        if count[0] == at:
          paused.set()
          resume.wait(20)
      return local

    def tracer(frame, event, arg):
      if os.path.realpath(frame.f_code.co_filename).startswith(NNX):
        frame.f_trace_opcodes = opcodes
        return local
      return None

    def a():
      try:
        return self.safe(fa)()
      finally:
        paused.set()
    ta, ba = apart(a, tracer)
    paused.wait(20)
    tb, bb = apart(self.safe(fb))
    tb.join(0.3)            # unless it waits for something a holds
    resume.set()
    ta.join(20), tb.join(20)
    out = []
    for box, rec in ((ba, ra), (bb, rb)):
      x, e = box[0] if box else (None, "hang")
      out.append({"t": "hang"} if e == "hang" else {"t": "err"} if e is not None else rec(x))
    return {"t": "two", "x": out[0], "y": out[1]}

  def look(self):
    """Which modules are one and the same when split together, which identifiers are equal."""
    h = nnx.Module()
    for i, m in enumerate(self.ms):
      vars(h)["m%04d" % i] = m
    index = {}

    def walk(d, path):
      index.setdefault(path, d.index)
      for n, x in d.submodules:
        if isinstance(x, int):
          index.setdefault(path + (n,), x)
        else:
          walk(x, path + (n,))
    walk(h.get_module_def(), ())
    own = [index[("m%04d" % i,)] for i in range(len(self.ms))]
    us = []
    for i, u in enumerate(self.us):
      us.append(next(j for j, v in enumerate(self.us[:i + 1], 1) if v == u and hash(v) == hash(u)))
    return {"m": [own.index(x) + 1 for x in own], "u": us}

  def step(self, op):
    try:
      with limit():
        res = self.do(op)
    except Exception as e:
      res = {"t": "err"}
    self.evs.append({"op": op, "res": res, "obs": self.look()})
    return res

  def close(self):
    for w in self.ws.values():
      w.go.put("E")
      w.jobs.put(None)


def execute(ops):
  ex = Exec()
  for op in ops:
    ex.step(op)
  ex.close()
  return ex.evs


NAMES = ["_g", "_h", "a", "b", "c", "k", "x", "x1", "x10"]


def gen(r, n):
  ex = Exec()
  own, attrs, nl, probe, busy, ndef = [], [], 16, 0, {}, 0

  def step(op):
    before = len(ex.ms)
    res = ex.step(op)
    for m in ex.ms[before:]:
      own.append(op.get("t", 1))
      attrs.append({k: "?" for k in vars(m) if not graph.internal(k)})
    return res

  def simple():
    nonlocal probe
    k = r.random()
    if k < 0.3:
      probe += 1
      return ["p", probe]
    return ["s", [r.choice(["u", "v w", ""]) for _ in range(r.randint(1, 3))]] if k < 0.45 else ["i", r.randint(0, 99)]

  def inner():
    v = simple()
    return v

  def value():
    nonlocal nl
    k = r.random()
    ref = lambda: ["r", r.randint(1, len(ex.ms))]
    if k < 0.38:
      return ref()
    if k < 0.45:
      return ["n", r.randint(1, len(ex.ms))]
    if k < 0.55:
      return ["l", nl, [ref() if r.random() < 0.5 else inner() for _ in range(r.randint(0, 3))]]
    if k < 0.62:
      return ["t", [inner() for _ in range(r.randint(0, 3))]]
    if k < 0.7:
      v = inner()
      return ["c", v if v[0] != "s" else ["i", 1]]
    if k < 0.78:
      return [r.choice("va"), r.randint(0, 9)]
    return simple()

  def creation(t):
    nonlocal nl
    k = r.random()
    if k < 0.4 or not ex.ms:
      return {"o": "mk", "how": "new", "ty": r.choice("AB"), "m": 0, "t": t}
    how = r.choice(["copy", "deep", "pickle"])
    m = r.randint(1, len(ex.ms))
    if how != "copy":
      if len(ex.reach(ex.ms[m - 1], [])) + len(ex.ms) > 12:
        return None
      nl *= 2
    return {"o": "mk", "how": how, "ty": "", "m": m, "t": t}

  def uid(t):
    i = r.randint(0, len(ex.us)) if ex.us else 0
    return {"o": "uid", "how": r.choice(["copy", "deep", "pickle"]) if i else "new", "i": i, "t": t}

  def target():
    return ["g", r.randint(1, len(ex.gs))] if ex.gs and r.random() < 0.3 else ["m", r.randint(1, len(ex.ms))]

  while len(ex.evs) < n:
    k = r.random()
    if len(ex.ms) < 2 or (k < 0.06 and len(ex.ms) < 9):
      step({"o": "mk", "how": "new", "ty": r.choice("AB"), "m": 0, "t": 0 if len(ex.ms) < 2 else r.choice([0, 0, 3])})
    elif k < 0.1 and len(ex.ms) < 9:
      op = creation(r.choice([0, 0, 3]))
      if op:
        step(op)
    elif k < 0.4 and not busy:
      mine = [i for i, t in enumerate(own) if t == 0]
      i = r.choice(mine)
      name = r.choice(NAMES)
      if attrs[i].get(name) in ("v", "c", "?"):
        continue
      if name in attrs[i] and r.random() < 0.3:
        step({"o": "del", "m": i + 1, "n": name})
        attrs[i].pop(name)
        continue
      v = value()
      step({"o": "set", "m": i + 1, "n": name, "v": v})
      attrs[i][name] = v[0]
      if v[0] == "l":
        nl = max(nl, v[1] + 1)
    elif k < 0.45 and len(ex.us) < 12:
      step(uid(r.choice([0, 3])))
    elif k < 0.46:
      step({"o": "fresh", "burn": max(0, 2 ** r.choice([4, 8, 8, 10, 12, 14, 16] + [20] * (r.random() < 0.05)) - 30), "n": 40})
    elif k < 0.49 and len(ex.gs) < 5:
      step({"o": "state", "x": [{"p": p, "k": r.choice(["Param", "Node", "BatchStat"]), "v": simple()} for p in sorted(r.sample([["a"], ["b"], ["b", "x"], ["c", "k", "x1"]], r.randint(0, 3)))]})
      if ex.evs[-1]["res"]["t"] != "ok":
        break
    elif k < 0.53 and len(ex.gs) < 5:
      step({"o": "def", "m": r.randint(1, len(ex.ms))})
    elif k < 0.6:
      step({"o": "print", "w": target(), **({"t": 3} if r.random() < 0.3 else {})})
    elif k < 0.9:
      t = r.choice([1, 2])
      if t in busy:
        res = step({"o": "raise", "t": t, "k": r.choice("EK")} if r.random() < 0.15 else {"o": "step", "t": t})
      else:
        res = step({"o": "start", "t": t, "w": target()})
      busy.pop(t, None)
      if res["t"] == "wait":
        busy[t] = 1
      elif res["t"] == "hang":
        break
    elif len(ex.ms) < 9:
      any_op = lambda: r.choice([lambda: creation(3), lambda: uid(3), lambda: {"o": "print", "w": target()}])()
      a = any_op()
      b = any_op()
      if not a or not b or len(ex.ms) + sum(8 for x in (a, b) if x["o"] == "mk" and x["how"] in ("deep", "pickle")) > 20:
        nl = nl
        continue
      step({"o": "pre", "gr": r.choice(["line", "line", "opcode"]), "k": r.choice([r.randint(1, 40), r.randint(1, 200)]), "a": a, "b": b, "t": 3})
  for t in list(busy):
    while step({"o": "step", "t": t})["t"] == "wait":
      pass
  for m in range(len(ex.ms)):
    step({"o": "print", "w": ["m", m + 1]})
  ex.close()
  return ex.evs


def run(c):
  c.tlc("MC_Printer", cfg("Spec", ["Correct", "Clean"], constants=dict(NT=3 if c.thorough else 2, Shared=False, Rounds=3)))
  tr = []
  for profile, d, cap in (("Shapes", 0, 1500), ("Threads", 5 if c.thorough else 4, 900), ("Points", 0, 2400)):
    lines = c.tlc("MC_Printing", cfg("Spec", ["Prop", "Emit"], constants=dict(Profile=profile, D=d, Rich=c.thorough)))
    tr += replay(c, scripts_of(lines), execute, cap * 15 if c.thorough else cap, prefix=profile[0].lower())
  tr += randoms(c, lambda r: gen(r, 45), 3000 if c.thorough else 250, prefix="q")
  c.validate("TracePrinting", tr, lambda op, clause, v: True)
