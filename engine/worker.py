"""One worker process: executes contract cases in one of the two worlds."""
import importlib
import itertools
import json
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def jsonable(x, depth=0):
    if isinstance(x, (str, bool, type(None))):
        return x
    if isinstance(x, (int, float)):
        return x
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in x]
    return repr(x)[:400]


class Coverage(object):
    """Which functions of /repo were executed (sys.monitoring)."""

    def __init__(self, repo):
        self.hit = set()
        self.repo = os.path.join(repo, "hftools") + os.sep
        m = sys.monitoring
        self.tool = 3
        m.use_tool_id(self.tool, "vp")
        m.register_callback(self.tool, m.events.PY_START, self.start)
        m.set_events(self.tool, m.events.PY_START)

    def start(self, code, off):
        fn = code.co_filename
        if fn.startswith(self.repo) and code.co_name != "<module>":
            mod = fn[len(self.repo):-3].replace(os.sep, ".")
            self.hit.add("%s:%s" % (mod, code.co_qualname))
        return sys.monitoring.DISABLE


def load(pid):
    mods = [f[:-3] for f in sorted(os.listdir(os.path.join(HERE,
                                                           "contracts")))
            if f.endswith(".py") and not f.startswith("_")]
    for m in mods:
        src = open(os.path.join(HERE, "contracts", m + ".py")).read()
        if '"%s"' % pid in src:
            importlib.import_module("contracts." + m)
    from engine import contract
    return contract.CONTRACTS.get(pid, [])


def where(tb):
    out = []
    for f in traceback.extract_tb(tb)[-6:]:
        out.append("%s:%d %s" % (f.filename, f.lineno, f.name))
    return out


def run_sym(c, case, np, seconds, sizes=None, seed=0, only=None):
    from engine import core, num, world
    res = {"obl": [], "paths": 0, "status": "ok", "why": None}
    rng = random.Random(seed)

    def one(p):
        w = world.SymWorld(p, np, sizes, rng)
        w.only = only
        try:
            try:
                c.fn(w, **case)
            except (core.Unsupported, core.Undecided, core.Infeasible):
                raise
            except world.Skip:
                raise core.Infeasible()
            except RecursionError:
                raise core.Undecided("recursion limit")
            except Exception as e:
                if p.check() == __import__("z3").unsat:
                    raise core.Infeasible()
                env = num.model_env(p) or num.model_env(p, False) or {}
                w.obl.append(("terminates without %s" % type(e).__name__,
                              "refuted", "execution",
                              {"ints": env, "exception": repr(e)[:300],
                               "at": where(e.__traceback__)}, False))
        finally:
            w.close()
        res["paths"] += 1
        for o in w.obl:
            res["obl"].append([o[0], o[1], o[2],
                               jsonable(o[3]) if o[1] != "proved" else None,
                               o[4], [t for t in p.trail]
                               if o[1] != "proved" else None])
    try:
        core.explore(one, max_paths=c.paths, seconds=seconds)
    except core.Unsupported as e:
        res["status"], res["why"] = "unsupported", str(e)[:200]
        res["at"] = where(e.__traceback__)
        res["sizes"] = getattr(e, "sizes", None)
    except core.Undecided as e:
        res["status"], res["why"] = "undecided", str(e)[:200]
    except MemoryError:
        res["status"], res["why"] = "undecided", "memory"
    core.CUR.path = None
    return res


def bounded(c, case, np, seconds, only):
    tot, t0 = None, time.time()
    if only is None:
        todo = [{}, {}, {}]
    elif len(only) == 1:
        todo = [dict((n, k) for n in only) for k in range(1, 7)]
    else:
        names = sorted(only)
        todo = sorted(itertools.product(range(1, 4), repeat=len(names)),
                      key=lambda t: (max(t), sum(t)))
        todo = [dict(zip(names, t)) for t in todo]
    whole = 0
    for k, sizes in enumerate(todo):
        if k >= 3 and time.time() - t0 > 1.5:
            break
        b = run_sym(c, case, np, seconds / 2, sizes=dict(sizes), seed=k,
                    only=only)
        if b["status"] != "ok" or any(o[1] == "unknown" for o in b["obl"]):
            return None, b
        if tot is None:
            tot = b
        else:
            tot["obl"] += b["obl"]
            tot["paths"] += b["paths"]
        whole = k + 1
    tot["tried"] = whole
    tot["largest"] = max([0] + [v for t in todo[:whole] for v in t.values()])
    return tot, b


def do_sym(c, case, np, seconds):
    from engine import core
    t0 = time.time()
    z0, r0 = core.STATS["z3_time"], core.STATS["ring_time"]
    res = run_sym(c, case, np, seconds)
    res["mode"] = "bounded: " + c.bound if c.bound else "unbounded"
    bad = res["status"] != "ok" or any(o[1] == "unknown" for o in res["obl"])
    refuted = any(o[1] == "refuted" for o in res["obl"])
    if bad and not refuted:
        first = dict(res)
        tot, mode = None, "bounded sizes"
        if first.get("sizes"):
            # only the axis the code loops over is bounded
            only, b = set(), first
            while b.get("sizes") and not set(b["sizes"]) <= only:
                only |= set(b["sizes"])
                tot, b = bounded(c, case, np, seconds, only)
            if tot is not None:
                mode = "bounded sizes of %s<=%d" % (",".join(sorted(only)),
                                                     tot["largest"])
                if len(only) > 1:
                    mode += " (%d combinations)" % tot["tried"]
        if tot is None:
            tot, b = bounded(c, case, np, seconds, None)
        if tot is not None:
            res = tot
            res["mode"] = mode
            res["unbounded_why"] = first["why"] or [
                o[3] for o in first["obl"] if o[1] == "unknown"][:1]
            res["unbounded_at"] = first.get("at")
        else:
            res["bounded_why"] = [b["why"], b.get("at"), [
                o[:4] for o in b["obl"] if o[1] != "proved"][:2]]
    res["time"] = time.time() - t0
    res["z3_time"] = core.STATS["z3_time"] - z0
    res["ring_time"] = core.STATS["ring_time"] - r0
    return res


# values of any magnitude have to come through these unchanged
WIDE = ("C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C27")

# length of the first axis in one run of every case
LONG = {None: (60, 140)}
LONG.update((p, (1030, 1300)) for p in ("C11", "C17", "C18", "C19", "C20",
                                        "C24", "C27"))



def do_conc(c, case, np, seed, runs, ints=None):
    from engine import world
    res = {"runs": 0, "skipped": 0, "checks": 0, "fail": None,
           "samples": []}
    tries = list(range(runs))
    if ints is None and runs > 1:
        tries.append("long")        # one long axis
    for k in tries:
        s = "%s/%s/%s/%s/%s" % (seed, c.pid, c.name,
                                sorted(case.items(), key=str), k)
        w = world.ConcWorld(s, np, ints)
        w.wide = c.pid in WIDE
        w.long = LONG.get(c.pid, LONG[None]) if k == "long" else None
        try:
            c.fn(w, **case)
            res["runs"] += 1
            res["checks"] += w.checks
            if len(res["samples"]) < 1:
                res["samples"].append(jsonable(w.inputs))
        except world.Skip:
            res["skipped"] += 1
        except world.Fail as e:
            res["fail"] = {"label": e.label, "detail": e.detail, "seed": s,
                           "inputs": jsonable(w.inputs), "ints": ints}
            break
        except Exception as e:
            res["fail"] = {"label": "terminates without %s"
                           % type(e).__name__, "detail": repr(e)[:400],
                           "seed": s, "inputs": jsonable(w.inputs),
                           "at": where(e.__traceback__), "ints": ints}
            break
        finally:
            w.close()
    return res


def main():
    mode, pid, tier, seed = sys.argv[1:5]
    sys.path.insert(0, HERE)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    sys.setrecursionlimit(5000)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)          # code under test must not write into the protocol
    sys.stdout = sys.stderr
    from engine import loader
    cov = Coverage(loader.REPO)
    np = loader.prepare_symbolic() if mode == "sym" else \
        loader.prepare_concrete()
    cs = load(pid)
    print(json.dumps({"ready": True, "n": len(cs)}), file=out, flush=True)
    for line in sys.stdin:
        t = json.loads(line)
        if t.get("quit"):
            print(json.dumps({"functions": sorted(cov.hit)}), file=out,
                  flush=True)
            break
        c = cs[t["contract"]]
        case = c.all_cases(tier)[t["case"]]
        try:
            if t["kind"] == "sym":
                r = do_sym(c, case, np, c.seconds *
                           (4 if tier == "thorough" else 1))
            else:
                r = do_conc(c, case, np, seed, t.get("runs") or (
                    c.runs * (8 if tier == "thorough" else 1)),
                    t.get("ints"))
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            r = {"error": repr(e)[:300], "at": where(e.__traceback__)}
        print(json.dumps(r), file=out, flush=True)


if __name__ == "__main__":
    main()
