"""Seeded interleaving of threads: exactly one runs at a time; it hands over between operations and,
with `inside`, at seeded lines of nnx's own code."""
import os, sys, threading
import nnx
NNX = os.path.dirname(os.path.realpath(nnx.__file__)) + os.sep
STALL = 20.0


class Turns:

  def __init__(self, r, n):
    self.r, self.n, self.live = r, n, set(range(n))
    self.cv, self.now = threading.Condition(), 0
    self.free, self.switches = False, 0

  def pick(self):
    self.now = self.r.choice(sorted(self.live)) if self.live else -1
    self.cv.notify_all()

  def turn(self, i):
    with self.cv:
      if self.free:
        return
      self.pick()
      self.switches += self.now != i
      # whoever has the turn may wait for something this thread holds: then all run freely
      if not self.cv.wait_for(lambda: self.now == i or self.free, STALL):
        self.free = True
        self.cv.notify_all()

  def leave(self, i):
    with self.cv:
      self.live.discard(i)
      self.pick()

  def inside(self, i, p):
    """a trace function for thread i: hands over before some lines of nnx (except where it holds the
    lock of its identities)"""
    r, known = type(self.r)(self.r.random()), {}

    def ours(code):
      if code.co_filename not in known:
        f = os.path.realpath(code.co_filename)
        known[code.co_filename] = f.startswith(NNX) and not f.endswith("ids.py")
      return known[code.co_filename]

    def local(frame, event, arg):
      if event == "line" and r.random() < p:
        self.turn(i)
      return local

    return lambda frame, event, arg: local if ours(frame.f_code) else None


def together(turns, jobs, p=0.0, wait=300):
  """run the jobs in one thread each; a job that raises leaves its exception as a result"""
  out = [None] * len(jobs)

  def work(i, job):
    if turns and p:
      sys.settrace(turns.inside(i, p))
    try:
      job()
    except BaseException as e:
      out[i] = e
    finally:
      sys.settrace(None)
      if turns:
        turns.leave(i)
  ths = [threading.Thread(target=work, args=(i, job), daemon=True) for i, job in enumerate(jobs)]
  for t in ths:
    t.start()
  for t in ths:
    t.join(wait)
    if t.is_alive():
      raise RuntimeError("a thread did not finish")
  return out


def own_lines(fn):
  """run fn in a thread of its own; how often it passed each line of nnx"""
  seen = {}

  def local(frame, event, arg):
    if event == "line":
      k = (frame.f_code.co_filename, frame.f_lineno)
      seen[k] = seen.get(k, 0) + 1
    return local
  files = {}

  def ours(code):
    f = code.co_filename
    if f not in files:
      g = os.path.realpath(f)
      files[f] = g.startswith(NNX) and not g.endswith("ids.py")
    return files[f]

  def job():
    sys.settrace(lambda frame, event, arg: local if ours(frame.f_code) else None)
    try:
      fn()
    except BaseException:
      pass
    finally:
      sys.settrace(None)
  t = threading.Thread(target=job, daemon=True)
  t.start()
  t.join(60)
  return seen


class Crossing:
  """one thread stops before the n-th passage of a line of nnx; another takes place up to its h-th
  operation (or to its end), the first goes on to its end, the second too"""

  def __init__(self, line, n, hold):
    self.line, self.n, self.hold = line, n, hold
    self.go, self.held, self.done = threading.Event(), threading.Event(), threading.Event()
    self.count = self.ops = 0

  def turn(self):   # called by the second thread before each of its operations
    self.ops += 1
    if self.ops == self.hold:
      self.held.set()
      self.done.wait(STALL)

  def run(self, first, second):
    out = [None, None]

    def local(frame, event, arg):
      if event == "line" and frame.f_lineno == self.line[1]:
        self.count += 1
        if self.count == self.n:
          self.go.set()
          self.held.wait(STALL)
      return local

    def one():
      sys.settrace(lambda frame, event, arg: local if frame.f_code.co_filename == self.line[0] else None)
      try:
        first()
      except BaseException as e:
        out[0] = e
      finally:
        sys.settrace(None)
        self.done.set()
        self.go.set()

    def two():
      self.go.wait(60)
      try:
        second()
      except BaseException as e:
        out[1] = e
      finally:
        self.held.set()
    ths = [threading.Thread(target=x, daemon=True) for x in (one, two)]
    for t in ths:
      t.start()
    for t in ths:
      t.join(120)
      if t.is_alive():
        raise RuntimeError("a thread did not finish")
    return out


def crossings(r, make, pairs, cap):
  """make(ops, turn) -> executor.  Jobs: each pair with each line of nnx the first one passes."""
  out = []
  for i, (a, b) in enumerate(pairs):
    lines = own_lines(make(a, None).run)
    some = sorted(lines)
    if len(some) > cap:
      some = r.sample(some, cap)
    out += [(i, a, b, l, r.randint(1, lines[l]), r.randint(1, len(b) + 1)) for l in some]
  return out


def cross(make, job, lost):
  _, a, b, line, n, hold = job
  c = Crossing(line, n, hold)
  ex = [make(a, None), make(b, c.turn)]
  for x, e in zip(ex, c.run(ex[0].run, ex[1].run)):
    if e is not None:
      x.evs.append(dict(lost, x=repr(e)))
  return [x.evs for x in ex]
