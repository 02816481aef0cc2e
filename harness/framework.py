"""Runs one check: TLC runs, conformance traces, verdicts, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
NWORK = str(min(8, os.cpu_count() or 4))


class Machinery(Exception):
  """The check itself could not work (never a verdict about nnx)."""


def unq(s):
  return json.loads(json.loads('"' + s + '"'))


LINE = re.compile(r'^<<"([A-Z]+)", "(.*)">>$')


class Check:

  def __init__(self, pid, tier=None, seed=None):
    self.pid = pid
    self.tier = tier or os.environ.get("VERIF_TIER", "quick")
    self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
    self.thorough = self.tier == "thorough"
    self.t0 = time.time()
    self.work = tempfile.mkdtemp(prefix="nnxv_%s_" % pid)
    self.states = self.transitions = self.traces = self.events = 0
    self.errors = []
    self.samples, self.violations, self.foreign, self.extra, self.tlc_runs = [], [], 0, {}, []

  # -- TLC
  def tlc(self, module, cfg, env=None, workers=NWORK, timeout=None, args=(), count=True):
    n, self.last_out = len(self.tlc_runs), ""
    cfgp = os.path.join(self.work, "%s_%d.cfg" % (module, n))
    with open(cfgp, "w") as f:
      f.write(cfg)
    meta = os.path.join(self.work, "meta%d" % n)
    e = dict(os.environ, **{k: str(v) for k, v in (env or {}).items()})
    e["JAVA_TOOL_OPTIONS"] = "-Xss64m"
    t = time.time()
    try:
      p = subprocess.run(
          ["tlc", "-noGenerateSpecTE", "-workers", workers, "-metadir", meta, "-config", cfgp, *args,
           os.path.join(SPEC, module + ".tla")],
          cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
          timeout=timeout or (3000 if self.thorough else max(60, 840 - (time.time() - self.t0))), errors="replace")
    except subprocess.TimeoutExpired:
      raise Machinery("TLC timed out on " + module)
    shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    lines = {}
    for l in out.splitlines():
      m = LINE.match(l)
      if m:
        lines.setdefault(m.group(1), []).append(m.group(2))
    st = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    gen, dist = (int(x.replace(",", "")) for x in st.groups()) if st else (0, 0)
    self.last_out, self.last_lines = out, lines
    ok = "No error has been found" in out or ("-simulate" in args and "Error:" not in out)
    self.tlc_runs.append({"module": module, "generated": gen, "distinct": dist, "ok": ok,
                          "wall_s": round(time.time() - t, 1)})
    if count:
      self.states += dist
      self.transitions += gen
    if not ok:
      with open("/tmp/tlc_fail.txt", "w") as f:
        f.write(out)
      tail = "\n".join(x[:1500] for x in out.splitlines() if not x.startswith("<<") and not x.startswith(("Semantic", "Linting", "Parsing")))
      raise Machinery("TLC failed on %s:\n%s" % (module, tail[:2500]))
    return lines

  # -- conformance traces
  def validate(self, module, traces, focus, cfg="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env=None,
               describe=None):
    """traces: list of {"id":..., "evs": [...], ...}; focus(op, clause, event) -> bool"""
    traces = [t for t in traces if t["evs"]]
    if not traces:
      return []
    lines, rest, odd = {}, list(traces), []
    while True:
      p = os.path.join(self.work, "traces%d.ndjson" % len(self.tlc_runs))
      with open(p, "w") as f:
        for t in rest:
          f.write(json.dumps({"id": t["id"], "evs": t["evs"], **t.get("hdr", {})}) + "\n")
      try:
        lines = self.tlc(module, cfg, dict(env or {}, TRACES=p), count=False)
        break
      except Machinery:
        # an observation outside the specification's universe of values: no model of it exists
        m = re.search(r"^/\\ tid = (\d+)$", self.last_out, re.M)
        if not m:
          raise
        n = [int(x) for x in re.findall(r"^/\\ pos = (\d+)$", self.last_out, re.M)][-1]
        t = rest.pop(int(m.group(1)) - 1)
        n = min(n, len(t["evs"]))
        e = t["evs"][n - 1]
        odd.append(({"trace": t["id"], "event": n, "op": e["op"]["o"], "clauses": ["outside-specification"],
                     "expected": re.findall(r"^Error: .*$", self.last_out, re.M)[:2], "observed": e.get("res")}, t))
        if len(odd) > 5:      # enough of them: what was said about the others has to do
          lines = self.last_lines
          break
    done = lines.get("DONE", [])
    ended = set(done)
    if len(odd) <= 5 and len(ended) != len({t["id"] for t in rest}):
      raise Machinery("%d of %d traces were not consumed by %s" % (len(rest) - len(ended), len(rest), module))
    self.traces += len(traces)
    self.events += sum(len(t["evs"]) for t in traces)
    byid = {t["id"]: t for t in traces}
    bad = list(odd)
    for l in lines.get("VERDICT", []):
      v = unq(l)
      t = byid[v["trace"]]
      hit = [c for c in v["clauses"] if focus(v["op"], c, v)]
      if hit:
        v["clauses_hit"] = hit
        bad.append((v, t))
      else:
        self.foreign += 1
    for v, t in bad[:50]:
      self.violation(v, t, module)
    return bad

  def violation(self, verdict, trace, module):
    self.violations.append(verdict)
    if len(self.violations) > 5:
      return
    d = os.path.join(OUT, self.pid)
    os.makedirs(d, exist_ok=True)
    body = {"property": self.pid, "seed": self.seed, "tier": self.tier, "spec": module,
            "verdict": verdict, "trace": trace}
    s = json.dumps(body, default=str)
    path = os.path.join(d, hashlib.sha1(s.encode()).hexdigest()[:12] + ".json")
    with open(path, "w") as f:
      f.write(s)
    print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
    print("  event %s op=%s clauses=%s" % (verdict.get("event"), verdict.get("op"), verdict.get("clauses")))
    print("  expected=%s" % json.dumps(verdict.get("expected"))[:300])
    print("  observed=%s" % json.dumps(verdict.get("observed"))[:300], flush=True)

  def sample(self, x, cap=3):
    if len(self.samples) < cap:
      self.samples.append(x)

  def finish(self):
    cov = {"states": self.states, "transitions": self.transitions,
           "traces_validated_against_impl": self.traces, "events_validated": self.events,
           "samples": self.samples, "tlc_runs": self.tlc_runs, "violations": len(self.violations),
           "mismatches_outside_property": self.foreign, **self.extra}
    ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
          "coverage": cov, "wall_s": round(time.time() - self.t0, 2)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
      json.dump(ev, f, indent=1, default=str)
    shutil.rmtree(self.work, ignore_errors=True)
    if self.errors:
      print("%d histories could not be completed:\n%s" % (len(self.errors), self.errors[0]), flush=True)
    print("%s %s: %d states, %d transitions, %d traces (%d events), %d violations, %.1fs" % (
        self.pid, self.tier, self.states, self.transitions, self.traces, self.events,
        len(self.violations), time.time() - self.t0), flush=True)
    return 1 if self.violations else 2 if self.errors else 0


def cfg(spec="Spec", invariants=(), constants=None, view=None, constraint=None, extra=""):
  out = ["SPECIFICATION " + spec, "CHECK_DEADLOCK FALSE"]
  if invariants:
    out.append("INVARIANTS " + " ".join(invariants))
  if view:
    out.append("VIEW " + view)
  if constraint:
    out.append("CONSTRAINT " + constraint)
  if constants:
    out.append("CONSTANTS")
    for k, v in constants.items():
      out.append("  %s = %s" % (k, tla(v)))
  return "\n".join(out) + "\n" + extra + "\n"


def tla(v):
  if isinstance(v, bool):
    return "TRUE" if v else "FALSE"
  if isinstance(v, int):
    return str(v)
  if isinstance(v, str):
    return '"%s"' % v
  if isinstance(v, (set, frozenset)):
    return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
  raise ValueError(v)
