"""Which lines of /repo's code does no harness execute?  (Not a check: it tells where to extend.)

usage: python3-vt tools/cov.py [PROP ...]      each parameter set gets COV_SECONDS (6) on one core
"""
import concurrent.futures as cf
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from engine import run as R, registry, loader      # noqa: E402

DIR = os.path.join(loader.REPO, "nion", "utils") + "/"
SECONDS = float(os.environ.get("COV_SECONDS", "6"))


def lines_of(code, out):
    if "<module>" not in code.co_name and not code.co_name.startswith("__repr"):
        lines = [ln for _, _, ln in code.co_lines() if ln]
        out.update(ln for ln in lines if ln != code.co_firstlineno)
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            lines_of(c, out)
    return out


def work(job):
    prop, hname, i = job
    R._init_worker()
    params = registry.find(prop, hname).quick[i]
    seen = set()
    mon = sys.monitoring
    mon.use_tool_id(1, "cov")

    def line(code, ln):
        if code.co_filename.startswith(DIR):
            seen.add((code.co_filename, ln))
        return mon.DISABLE
    mon.register_callback(1, mon.events.LINE, line)
    mon.set_events(1, mon.events.LINE)
    err = None
    try:
        R._task(prop, hname, params, [[]], time.time() + SECONDS, SECONDS, 1, set(), "quick")
    except BaseException as e:
        err = "%s %s %r" % (prop, hname, e)
    return seen, err


def main():
    registry.load_all()
    props = sys.argv[1:] or sorted(registry.PROPERTIES)
    jobs = [(p, h.name, i) for p in props for h in registry.PROPERTIES[p] for i in range(len(h.quick))]
    seen = set()
    with cf.ProcessPoolExecutor(6, max_tasks_per_child=1) as ex:
        for s, err in ex.map(work, jobs):
            seen |= s
            if err:
                print(err[:300])
    for f in sorted(os.listdir(DIR)):
        if not f.endswith(".py"):
            continue
        path = DIR + f
        src = open(path).read()
        want = lines_of(compile(src, path, "exec"), set())
        missing = sorted(ln for ln in want if (path, ln) not in seen)
        text = src.splitlines()
        missing = [ln for ln in missing if not text[ln - 1].strip().startswith(('"""', "class ", "@"))]
        print("== %s: %d of %d lines not executed" % (f, len(missing), len(want)))
        for ln in missing:
            print("   %4d %s" % (ln, text[ln - 1]))


if __name__ == "__main__":
    main()
