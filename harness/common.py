"""Shared by every harness: import path of the library under test, seeds, projection of values."""
import contextlib, json, os, random, signal, sys, threading

sys.dont_write_bytecode = True
REPO = os.environ.get("NNX_REPO", "/repo")
os.environ.setdefault("JAX_PLATFORMS", "cpu")
# the harness compiles many tiny programs once each
os.environ["XLA_FLAGS"] = os.environ.get("XLA_FLAGS", "") + " --xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true"
if sys.path[0] != REPO:
  sys.path.insert(0, REPO)

import numpy as np


LAST = [None]  # the events of the history being performed


def rng(seed, *salt):
  return random.Random("%s|%s" % (seed, "|".join(map(str, salt))))


def tag(v):
  """Project a value to its tagged form."""
  import jax
  if isinstance(v, bool):
    return ["b", int(v)]
  if isinstance(v, (int, np.integer)):
    return ["i", int(v)] if abs(int(v)) < 10**9 else ["o", "big %d" % int(v)]
  if v is None:
    return ["n", 0]
  if isinstance(v, str):
    return ["s", v]
  if isinstance(v, tuple):
    return ["t", [tag(x) for x in v]]
  if isinstance(v, jax.core.Tracer):
    return ["o", "tracer"]
  if isinstance(v, (np.ndarray, jax.Array, float, np.floating)):
    try:
      a = np.asarray(v)
      if a.ndim == 0:
        f = float(a)
        if f == int(f) and abs(f) < 10**9:
          return ["i", int(f)]
        return ["o", "float %r" % f]
      return ["a", [tag(x) for x in a]]
    except Exception as e:  # projection is total
      return ["o", "array %s" % type(e).__name__]
  if type(v).__name__ in ("Tree", "Reg"):
    return tag(v.x)
  if type(v).__name__ == "State" and list(v) == ["x"]:
    return tag(v["x"])
  return ["o", type(v).__name__]


def untag(v, how="py"):
  import jax.numpy as jnp
  if v[0] == "i":
    if how == "np":
      return np.array(v[1])
    if how == "f32":
      return jnp.asarray(v[1], jnp.float32)
    if how == "jax":
      return jnp.array(v[1])
    return v[1]
  if v[0] == "n":
    return None
  if v[0] == "b":
    return bool(v[1])
  if v[0] == "s":
    return v[1]
  if v[0] == "t":
    return tuple(untag(x, how) for x in v[1])
  raise ValueError(v)


class Hang(Exception):
  pass


@contextlib.contextmanager
def limit(seconds=[30]):
  """Turns a hang of the library into an error of the operation (main thread only)."""
  if threading.current_thread() is not threading.main_thread() or signal.getitimer(signal.ITIMER_REAL)[0]:
    yield
    return
  def onalarm(*_):
    seconds[0] = 4          # no need to be patient twice
    raise Hang("operation did not end")
  old = signal.signal(signal.SIGALRM, onalarm)
  signal.setitimer(signal.ITIMER_REAL, seconds[0])
  try:
    yield
  finally:
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.signal(signal.SIGALRM, old)


def err_class(e):
  return type(e).__name__
