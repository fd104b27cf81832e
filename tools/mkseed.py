"""Plant a bug: python tools/mkseed.py SPEC.py

SPEC.py defines ID, PROP, FILE, OLD, NEW (or EDITS=[(file, old, new)]), DEMO
(python source), NEEDS, BREAKS.  Works in a scratch copy of /repo, confirms
that the demo passes before and fails after, that the stable tests still pass,
and reports whether the property's check catches it; writes seeded/<ID>/.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = """#!/bin/sh
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore
t=$(mktemp -d); export HOME="$t" MPLCONFIGDIR="$t" TMPDIR="$t"
PYTHONPATH="$PWD" /opt/venv/bin/python "$d/demo.py"
r=$?
rm -rf "$t"
exit $r
"""


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=env,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True)


def tests(repo):
    """Run the suite of the copy as /opt/vp/test.sh does; passing tests."""
    import xml.etree.ElementTree as ET
    env = dict(os.environ, HOME="/root", LANG="C.UTF-8", MPLBACKEND="Agg",
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               MPLCONFIGDIR="/tmp/w/mpl", OPENBLAS_NUM_THREADS="1",
               OMP_NUM_THREADS="1")
    env.pop("PYTHONWARNINGS", None)
    py = ("/opt/venv/bin/python -m pytest -p h5py -q -p no:cacheprovider "
          "--timeout=300 --randomly-seed=1 --randomly-dont-reorganize "
          "--continue-on-collection-errors --tb=short -o junit_family=xunit2 ")
    sh("cp -a hftools/file_formats/tests/testdata ../testdata", repo)
    sh(py + "-o python_files='test*.py' --junitxml=../t.xml hftools", repo,
       env)
    sh(py + "--doctest-modules --junitxml=../d.xml hftools/math.py "
       "hftools/utils.py hftools/dataset/arrayobj.py", repo, env)
    sh("rm -rf hftools/file_formats/tests/testdata && mv ../testdata "
       "hftools/file_formats/tests/testdata", repo)
    ok = set()
    for f in ("t.xml", "d.xml"):
        for c in ET.parse(os.path.join(repo, "..", f)).iter("testcase"):
            if not list(c):
                ok.add("%s::%s" % (c.get("classname"), c.get("name")))
    return ok


BASE = "/tmp/w/base_tests.json"


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    edits = spec.get("EDITS") or [(spec["FILE"], spec["OLD"], spec["NEW"])]
    tmp = tempfile.mkdtemp(prefix="seed_")
    repo = os.path.join(tmp, "repo")
    sh("cp -a /repo %s" % repo, "/")
    d = os.path.join(tmp, "out")
    os.makedirs(d)
    open(os.path.join(d, "demo.py"), "w").write(spec["DEMO"])
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    if not os.path.exists(BASE):
        json.dump(sorted(tests(repo)), open(BASE, "w"))
    base = set(json.load(open(BASE)))
    r0 = sh("sh %s/demo.sh" % d, repo)
    for f, old, new in edits:
        p = os.path.join(repo, f)
        s = open(p, encoding="latin-1", newline="").read()
        if s.count(old) != 1:
            print("OLD occurs %d times in %s" % (s.count(old), f))
            return 1
        open(p, "w", encoding="latin-1", newline="").write(
            s.replace(old, new))
    diff = subprocess.run("git diff --no-color", cwd=repo, shell=True,
                          stdout=subprocess.PIPE).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    r1 = sh("sh %s/demo.sh" % d, repo)
    now = tests(repo)
    lost = sorted(base - now)
    env = dict(os.environ, VERIF_REPO=repo)
    env.pop("VERIF_TIER", None)
    ck = sh("/opt/venv/bin/python run.py %s" % spec["PROP"], HERE, env)
    ok = r0.returncode == 0 and r1.returncode != 0 and not lost
    print("%s: demo before=%d after=%d lost tests=%d  check exit=%d %s" % (
        spec["ID"], r0.returncode, r1.returncode, len(lost), ck.returncode,
        [l for l in ck.stdout.splitlines() if "VIOLATION" in l][:2]))
    if not ok:
        print(r0.stdout[-800:], r1.stdout[-500:], lost[:5])
    elif ck.returncode != 1:
        print(ck.stdout[-1500:])
    if ok:
        out = os.path.join(HERE, "seeded", spec["ID"])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": spec["PROP"], "needs": spec["NEEDS"],
                   "what_it_breaks": spec["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
    shutil.rmtree(tmp)
    return 0 if ok else 1


if __name__ == "__main__":
    sys.exit(main())
