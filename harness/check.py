import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from framework import Check, Machinery

GRAPH = {"C%02d" % i for i in range(1, 13)} | {"C36"}

GROUPS = {"C13": "group_containers", "C31": "group_collections", "C32": "group_train", "C33": "group_norm", "C34": "group_dropout", "C35": "group_layers", **{"C%d" % i: "group_levels" for i in range(14, 19)},
          **{p: "group_spmd" for p in ("C25", "C26", "C27")},
          **{p: "group_pytree" for p in ("C28", "C29", "C30", "C37")},
          "C22": "group_scan", "C23": "group_scan",
          **{p: "group_transforms" for p in ("C19", "C20", "C21", "C24")}}


def main(pid):
  c = Check(pid)
  try:
    if pid in GROUPS:
      importlib.import_module(GROUPS[pid]).run(c)
    elif pid in GRAPH:
      import graph_checks
      if pid == "C36":
        import group_printing
        group_printing.run(c)
      graph_checks.run(c)
    else:
      raise Machinery("no check for " + pid)
  except Machinery as e:
    print("MACHINERY-ERROR %s: %s" % (pid, e))
    c.finish()
    return 2
  return c.finish()


if __name__ == "__main__":
  sys.exit(main(sys.argv[1]))
