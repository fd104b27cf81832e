"""Check one property: python run.py C01 [--tier quick|thorough].

Exit 0: every obligation generated from /repo's current source that is within
the verifier's reach was discharged and no bounded stand-in failed.
Exit 1: VIOLATION lines.  Exit 3: nothing could be decided.
"""
import json
import os
import queue
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def environment(scratch):
    env = dict(os.environ)
    env.update(HOME=scratch, LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", MPLBACKEND="Agg",
               MPLCONFIGDIR=os.path.join(scratch, "mpl"),
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
               TMPDIR=scratch, PYTHONWARNINGS="ignore", TZ="UTC")
    env.pop("PYTHONPATH", None)
    return env


class Worker(object):
    def __init__(self, mode, pid, tier, seed, env, scratch):
        self.args = [PY, os.path.join(HERE, "engine", "worker.py"), mode, pid,
                     tier, str(seed)]
        self.env = env
        self.scratch = scratch
        self.p = None

    def start(self):
        self.err = tempfile.NamedTemporaryFile(dir=self.scratch, delete=False)
        self.p = subprocess.Popen(self.args, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err,
                                  env=self.env, cwd=self.scratch, text=True)
        r = self.read(120)
        if not r or "ready" not in r:
            e = self.stderr()
            self.kill()
            raise RuntimeError("worker did not start: " + e)

    def stderr(self):
        try:
            return open(self.err.name).read()[-1500:]
        except OSError:
            return ""

    def read(self, timeout):
        box = []
        p = self.p

        def rd():
            try:
                box.append(p.stdout.readline())
            except Exception:
                pass
        t = threading.Thread(target=rd, daemon=True)
        t.start()
        t.join(timeout)
        if not box or not box[0]:
            return None
        return json.loads(box[0])

    def ask(self, task, timeout):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(task) + "\n")
            self.p.stdin.flush()
        except OSError:
            self.kill()
            return None
        r = self.read(timeout)
        if r is None:
            self.kill()
        return r

    def kill(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None

    def close(self):
        if self.p is None:
            return []
        r = self.ask({"quit": True}, 20)
        self.kill()
        return (r or {}).get("functions", [])


TRUSTED = [
    "engine/symnp.py: model of the numpy operations used (indexing, views, "
    "broadcasting, reductions, linear algebra over the exact field), "
    "cross-checked against real numpy by the concrete leg and selftest.py",
    "engine/num.py: ring normal form of rational functions; engine/core.py: "
    "path exploration; z3 %s",
    "machine floating point treated as exact real/complex arithmetic; "
    "divisors and determinants that are not identically zero are assumed "
    "non-zero",
    "CPython executes the unmodified /repo source; len, range, isinstance, "
    "int, float and complex are replaced in the module builtins so that they "
    "accept symbolic values",
]


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1]
    verbose = "-v" in sys.argv
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        code = check(pid, tier, seed, only, verbose, t0, scratch)
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def check(pid, tier, seed, only, verbose, t0, scratch):
    env = environment(scratch)
    sys.path.insert(0, HERE)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    sys.dont_write_bytecode = True
    from engine import worker as wk
    cs = wk.load(pid)
    if not cs:
        print("no contracts for", pid)
        return 2
    ncpu = os.cpu_count() or 4
    limit = 400 if tier == "quick" else 3 * 3600
    tasks = []
    for ci, c in enumerate(cs):
        if only and only not in c.name:
            continue
        for k, case in enumerate(c.all_cases(tier)):
            if c.conc:
                tasks.append({"kind": "conc", "contract": ci, "case": k})
            if c.prove:
                tasks.append({"kind": "sym", "contract": ci, "case": k})
    known = []
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k["property"] == pid and
                 k.get("status") == "known"]

    qs = {"sym": queue.Queue(), "conc": queue.Queue()}
    for t in tasks:
        qs[t["kind"]].put(t)
    results = []
    functions = {"sym": set(), "conc": set()}
    lock = threading.Lock()
    stop = threading.Event()
    fails = []
    errors = []

    def is_known(c, case, label):
        for k in known:
            if k["contract"] == c.name and k["label"] in label and \
                    all(case.get(a) == b for a, b in
                        k.get("case", {}).items()):
                return k
        return None

    def pump(mode):
        w = Worker(mode, pid, tier, seed, env, scratch)
        while not stop.is_set():
            try:
                t = qs[mode].get_nowait()
            except queue.Empty:
                break
            c = cs[t["contract"]]
            if time.time() - t0 > limit:
                with lock:
                    results.append((t, {"error": "time limit of the check"}))
                continue
            tl = (c.seconds * (4 if tier == "thorough" else 1)) * 4 + 30 \
                if mode == "sym" else 120
            tl = min(tl, t0 + limit + 150 - time.time())
            try:
                r = w.ask(t, tl)
            except RuntimeError as e:
                with lock:
                    errors.append(str(e))
                return
            if r is None:
                r = {"error": "worker died or timed out: " + w.stderr()[-300:]}
            with lock:
                results.append((t, r))
                if mode == "conc" and r.get("fail") and not is_known(
                        c, c.all_cases(tier)[t["case"]], r["fail"]["label"]):
                    fails.append((t, r["fail"]))
                    if len(fails) >= 3:
                        stop.set()
        fs = w.close()
        with lock:
            functions[mode].update(fs)

    nsym = min(max(1, ncpu - 2), max(1, qs["sym"].qsize()))
    nconc = min(2, max(1, qs["conc"].qsize()))
    threads = [threading.Thread(target=pump, args=("conc",))
               for _ in range(nconc)] + \
              [threading.Thread(target=pump, args=("sym",))
               for _ in range(nsym)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()

    # replay the refuted obligations on the real code
    rep = Worker("conc", pid, tier, seed, env, scratch)
    obl = {"total": 0, "proved": 0, "unknown": 0, "refuted_unconfirmed": 0}
    backends = {}
    undischarged = []
    bounded = []
    unconfirmed = []
    paths = 0
    z3t = ringt = 0.0
    evals = checks = 0
    samples = []
    conc_only = []
    dist = set()
    percase = {}
    cfails = [(cs[t["contract"]].name, t["case"]) for t, _ in fails]
    for t, r in results:
        c = cs[t["contract"]]
        case = c.all_cases(tier)[t["case"]]
        ident = "%s%s" % (c.name, case or "")
        if t["kind"] == "conc":
            if r.get("error"):
                errors.append("%s: %s" % (ident, r["error"]))
                continue
            evals += r["runs"]
            checks += r["checks"]
            if r["checks"]:
                dist.add((t["contract"], t["case"]))
            if r["samples"] and len(samples) < 6:
                samples.append({"contract": c.name, "case": wk.jsonable(case),
                                "inputs": trim(r["samples"][0])})
            if verbose and r["runs"] == 0 and not r["fail"]:
                print("  no concrete run satisfied the precondition:", ident)
            continue
        if r.get("error"):
            undischarged.append({"case": ident, "why": r["error"]})
            continue
        paths += r["paths"]
        z3t += r["z3_time"]
        ringt += r["ring_time"]
        if verbose:
            print("  %-60s %-15s paths=%d obl=%d %.1fs %s" % (
                ident[:60], r["mode"] if r["status"] == "ok" else
                r["status"], r["paths"], len(r["obl"]), r["time"],
                r["why"] or r.get("unbounded_why") or ""))
            if r.get("at") or r.get("unbounded_at"):
                print("      ", (r.get("at") or r.get("unbounded_at"))[-4:])
            if r.get("bounded_why"):
                print("       bounded:", str(r["bounded_why"])[:900])
        if r["mode"] != "unbounded" and r["status"] == "ok":
            bounded.append({"case": ident, "why": r.get("unbounded_why"),
                            "mode": r["mode"]})
        if r["status"] != "ok":
            undischarged.append({"case": ident, "why": "%s: %s" % (
                r["status"], r["why"])})
        for label, st, be, detail, definite, trail in r["obl"]:
            obl["total"] += 1
            if st == "proved":
                obl["proved"] += 1
                key = be if r["mode"] == "unbounded" else be + " (bounded)"
                backends[key] = backends.get(key, 0) + 1
                continue
            if verbose:
                print("    ", st, label, str(detail)[:600], trail)
            if st == "unknown":
                obl["unknown"] += 1
                undischarged.append({"case": ident, "obligation": label,
                                     "why": str(detail)[:200]})
                continue
            if is_known(c, case, label):
                obl["refuted_unconfirmed"] += 1
                continue
            if any(f[0] == c.name for f in cfails):
                obl["refuted_unconfirmed"] += 1
                continue
            # replay
            ints = (detail or {}).get("ints") or {}
            ints = {k: v for k, v in ints.items() if "!" not in k}
            done = None
            for attempt in ({"ints": ints, "runs": 30}, {"runs": 60}):
                q = dict(t, kind="conc", **attempt)
                rr = rep.ask(q, 120) if c.conc else None
                if rr and rr.get("fail") and not is_known(
                        c, case, rr["fail"]["label"]):
                    done = rr["fail"]
                    break
            if done:
                done["obligation"] = label
                done["model"] = detail
                fails.append((t, done))
                cfails.append((c.name, t["case"]))
            elif definite:
                unconfirmed.append((t, label, detail, trail))
                cfails.append((c.name, t["case"]))
            else:
                obl["refuted_unconfirmed"] += 1
                undischarged.append({"case": ident, "obligation": label,
                                     "why": "refutation under uninterpreted "
                                     "conditions did not replay: "
                                     + str(detail)[:200]})
    rep.close()
    kf_seen = {}
    for t, r in results:
        if t["kind"] == "conc" and r.get("fail"):
            c = cs[t["contract"]]
            k = is_known(c, c.all_cases(tier)[t["case"]], r["fail"]["label"])
            if k:
                kf_seen[k["what"]] = True
    for what in sorted(kf_seen):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))

    lines = []
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    seen = set()
    for t, f in fails:
        c = cs[t["contract"]]
        if (c.name, f["label"]) in seen:
            continue
        seen.add((c.name, f["label"]))
        fn = os.path.join(rdir, "%s_%s_%d.json" % (pid, c.name, t["case"]))
        with open(fn, "w") as fh:
            json.dump({"property": pid, "contract": c.name,
                       "case": wk.jsonable(c.all_cases(tier)[t["case"]]),
                       "failed": f, "functions": c.functions,
                       "replay_cmd": "python run.py %s --only %s"
                       % (pid, c.name)}, fh, indent=1, default=repr)
        lines.append("VIOLATION property=%s replay=%s" % (pid, fn))
        print("  failed: %s case=%s: %s: %s" % (
            c.name, c.all_cases(tier)[t["case"]], f["label"],
            str(f["detail"])[:300]))
    for t, label, detail, trail in unconfirmed:
        c = cs[t["contract"]]
        if (c.name, label) in seen or any(x[0] == c.name for x in seen):
            continue
        seen.add((c.name, label))
        fn = os.path.join(rdir, "%s_%s_%d.json" % (pid, c.name, t["case"]))
        with open(fn, "w") as fh:
            json.dump({"property": pid, "contract": c.name,
                       "case": wk.jsonable(c.all_cases(tier)[t["case"]]),
                       "obligation": label, "verifier_output": detail,
                       "path": trail}, fh, indent=1, default=repr)
        print("  refuted obligation: %s: %s" % (c.name, label))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found"
                     % (pid, fn))

    wall = time.time() - t0
    import z3
    trusted = [x % z3.get_version_string() if "%s" in x else x
               for x in TRUSTED]
    under = sorted(set(f for c in cs for f in c.functions))
    ev = {
        "property": pid, "tier": tier, "seed": seed,
        "level": level_of(pid),
        "coverage": {
            "obligations": obl["total"],
            "discharged": obl["proved"],
            "checker_cmd": "python run.py %s" % pid,
            "trusted_base": trusted,
            "contracts": len(cs),
            "cases": len([t for t in tasks if t["kind"] == "sym"]),
            "paths": paths,
            "functions_under_contract": under,
            "repo_functions_executed_symbolically": sorted(functions["sym"]),
            "discharged_by_back_end": backends,
            "solver_seconds": {"z3": round(z3t, 2), "ring": round(ringt, 2)},
            "bounded_in_axis_sizes": bounded,
            "undischarged": undischarged,
            "bounded_standin": {
                "bound": "seeded inputs, axis sizes 1..4, real numpy",
                "evaluations": evals, "checks": checks},
            "evaluations": evals,
            "distinct_nontrivial": len(dist),
            "rule": "one drawn input per contract case and seed on the real "
                    "numpy; non-trivial: the case's precondition held and at "
                    "least one postcondition was evaluated",
            "samples": samples,
        },
        "assumptions": trusted + [
            "contracts enumerate the array ranks, dimension-class patterns, "
            "matrix orders and text sizes listed in their cases; values (and "
            "axis sizes, except the cases under bounded_in_axis_sizes) are "
            "unbounded"],
        "wall_s": round(wall, 2),
        "violations": len(lines),
    }
    if only is None:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=repr)
    print("%s %s: %d contracts, %d cases, %d paths, obligations %d, "
          "discharged %d, bounded cases %d, undischarged %d, concrete runs %d "
          "(%d checks), %.1fs" % (
              pid, tier, len(cs), ev["coverage"]["cases"], paths,
              obl["total"], obl["proved"], len(bounded), len(undischarged),
              evals, checks, wall))
    for e in errors[:5]:
        print("  error:", e[:600])
    for l in lines:
        print(l)
    if lines:
        return 1
    if obl["total"] == 0 and checks == 0:
        print("  nothing decided")
        return 3
    if errors and checks == 0:
        return 3
    return 0


def level_of(pid):
    try:
        m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
        for c in m["checks"]:
            if c["property"] == pid:
                return c["level"]
    except Exception:
        pass
    return "proof"


def trim(x, n=12):
    if isinstance(x, dict):
        return {k: trim(v, n) for k, v in x.items()}
    if isinstance(x, list):
        return x[:n]
    return x


if __name__ == "__main__":
    main()
