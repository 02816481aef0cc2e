"""Generic driver: behaviours enumerated by TLC and random histories, performed on nnx by an
executor and judged by a trace specification."""
import contextlib, json, os, pickle, random, signal, sys, threading, time
from framework import *
from common import rng, LAST


def pmap(fn, items, until=None):
  """[fn(x) for x in items] in forked workers.  JAX must not have been used in this process
  before: its backend threads do not survive a fork.  until = (t, s): past the time t an item that
  has not been dealt with becomes None; one that takes more than s seconds is given up (Endless)."""
  items = list(items)
  k = min(int(NWORK), len(items))
  if k <= 1 or os.environ.get("NNXV_SERIAL"):
    return [fn(x) for x in items]
  sys.stdout.flush(), sys.stderr.flush()
  kids = []
  for w in range(k):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
      code = 1
      try:
        os.close(rd)
        for r, _ in kids:
          r.close()
        with os.fdopen(wr, "wb") as f:
          for x in items[w::k]:
            if until and time.time() > until[0]:
              break
            try:
              with patience(until and until[1]):
                data = ("ok", fn(x))
            except BaseException as e:
              import traceback
              data = ("error", traceback.format_exc()[-3000:])
            pickle.dump(data, f)
            f.flush()
          pickle.dump(("end", None), f)
        code = 0
      finally:
        os._exit(code)
    os.close(wr)
    kids.append((os.fdopen(rd, "rb"), pid))
  out, errors = [None] * len(items), []

  def collect(w):
    n = w
    while True:
      try:
        what, v = pickle.load(kids[w][0])
      except Exception as e:
        return errors.append("a worker was lost (%r)" % e)
      if what == "end":
        return
      if what == "error":
        errors.append(v)
      else:
        out[n] = v
      n += k
  readers = [threading.Thread(target=collect, args=(w,), daemon=True) for w in range(k)]
  for t in readers:
    t.start()
  late = False
  for t in readers:
    t.join(max(0, until[0] + 60 - time.time()) if until else None)
    late = late or t.is_alive()
  for _, pid in kids:
    if late:
      os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
  for t in readers:
    t.join()
  if errors and not late:
    raise Machinery("while performing operations:\n" + errors[0])
  return out


class Endless(Exception):
  """A history that does not come to its end."""


@contextlib.contextmanager
def patience(seconds):
  if not seconds:
    yield
    return

  def onsignal(*_):
    raise Endless("a history did not end within %d s" % seconds)
  me, done = threading.get_ident(), threading.Event()
  signal.signal(signal.SIGUSR1, onsignal)
  th = threading.Thread(target=lambda: done.wait(seconds) or signal.pthread_kill(me, signal.SIGUSR1), daemon=True)
  th.start()
  try:
    yield
  finally:
    done.set()


def guard(fn):
  """fn(x) -> events; a history whose bookkeeping breaks down on the way keeps the events seen so
  far (the library has left the specification before), and the reason."""
  def g(x):
    LAST[0] = []
    try:
      return fn(x), None
    except Endless:
      return list(LAST[0] or []), ENDLESS
    except Exception:
      import traceback
      return list(LAST[0] or []), traceback.format_exc()[-1500:]
  return g


ENDLESS = "a history did not end"


def timely(c, fn, items, missing=()):
  """[fn(x) for x in items], with `missing` for those that were not done in time."""
  out = pmap(fn, items, (c.t0 + 7200, 1200) if c.thorough else (c.t0 + 420, 200))
  if None in out:
    c.errors.append("%d of %d jobs were not done in time" % (out.count(None), len(out)))
  return [missing if x is None else x for x in out]


def perform(c, fn, items):
  out = timely(c, guard(fn), items, ([], None))
  for i, (evs, e) in enumerate(out):
    if e == ENDLESS:        # every history the specification has comes to its end
      c.violation({"trace": "item %d" % i, "event": len(evs) + 1, "op": None, "clauses": ["ends"], "observed": e}, {"evs": evs}, None)
  c.errors += [e for _, e in out if e]
  return [evs for evs, _ in out]


def replay(c, scripts, execute, cap, prefix="s"):
  """scripts: list of op lists; execute(ops) -> events"""
  r = rng(c.seed, c.pid, "scripts", prefix)
  c.extra["scripts_from_spec"] = c.extra.get("scripts_from_spec", 0) + len(scripts)
  scripts = sorted(scripts, key=lambda x: json.dumps(x, sort_keys=True))  # TLC's workers print in any order
  if len(scripts) > cap:
    scripts = r.sample(scripts, cap)
  c.extra["scripts_replayed"] = c.extra.get("scripts_replayed", 0) + len(scripts)
  evs = perform(c, execute, scripts)
  traces = [{"id": "%s%d" % (prefix, i), "evs": e, "script": ops} for i, (e, ops) in enumerate(zip(evs, scripts))]
  if scripts:
    c.sample({"from": "specification", "script": scripts[len(scripts) // 2]}, 1)
  return traces


def randoms(c, gen, n, prefix="r"):
  """gen(rng) -> events"""
  evs = perform(c, lambda i: gen(rng(c.seed, c.pid, prefix, i)), range(n))
  traces = [{"id": "%s%d" % (prefix, i), "evs": e, "seed": [c.seed, c.pid, prefix, i]} for i, e in enumerate(evs)]
  hist = c.extra.setdefault("random_ops", {})
  for t in traces:
    for e in t["evs"]:
      hist[e["op"]["o"]] = hist.get(e["op"]["o"], 0) + 1
  if traces:
    c.sample({"from": "random history", "ops": [e["op"] for e in traces[0]["evs"][:12]]}, 2)
  return traces


def scripts_of(lines):
  out = []
  for l in lines.get("STATE", []):
    d = unq(l)
    for p in d["p"]:
      out.append(d.get("h", []) + p)
  return out
