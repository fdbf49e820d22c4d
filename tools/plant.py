"""Author and confirm planted bugs.

plant.py new FILE.py    FILE.py defines PLANTS = [dict(id, property, needs, what_it_breaks, edits=[(file, old, new)], demo)]
plant.py verify ID...   in a scratch copy: patch applies, demo passes without / fails with it, the stable tests pass with it
plant.py check ID...    apply to /repo, run the check of its property, undo
"""
import concurrent.futures, json, os, runpy, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def copy():
    d = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    sh(["cp", "-a", "/repo/.", d])
    return d


def new(fn):
    for p in runpy.run_path(fn)["PLANTS"]:
        d = copy()
        try:
            for f, a, b in p["edits"]:
                s = open(d + "/" + f).read()
                assert s.count(a) == 1, (p["id"], f, s.count(a), a)
                open(d + "/" + f, "w").write(s.replace(a, b))
            _, diff = sh(["git", "diff"], cwd=d)
            o = V + "/seeded/" + p["id"]
            os.makedirs(o, exist_ok=True)
            open(o + "/patch.diff", "w").write(diff)
            open(o + "/demo.py", "w").write(p["demo"])
            open(o + "/demo.sh", "w").write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nS=$(mktemp -d /tmp/demo_XXXXXX)\n'
                'trap \'/bin/rm -rf "$S"\' EXIT\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg HOME="$S" TMPDIR="$S" OMP_NUM_THREADS=1\n'
                'cd "$S" && timeout 280 /opt/venv/bin/python "$D/demo.py"\n')
            json.dump(dict(property=p["property"], needs=p["needs"], what_it_breaks=p["what_it_breaks"]), open(o + "/meta.json", "w"), indent=1)
        finally:
            shutil.rmtree(d)
        print("wrote", p["id"])


def tests(d):
    env = dict(os.environ, HOME="/tmp", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MPLBACKEND="Agg", MPLCONFIGDIR="/opt/bilby-cache/mpl", PYTENSOR_FLAGS="base_compiledir=/opt/bilby-cache/pytensor", PYTHONPATH=d)
    out = d + "/../" + os.path.basename(d) + ".json"
    rep = tempfile.mkdtemp(prefix="rep_", dir="/tmp")
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=200", "--continue-on-collection-errors", "--skip-roqs",
        "-o", "junit_family=xunit2", "--junitxml=%s/pytest.xml" % rep], cwd=d, env=env, timeout=1500)
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=50", "-o", "addopts=", "-o", "junit_family=xunit2",
        "--junitxml=%s/plot.xml" % rep, "test/gw/plot_test.py"], cwd=d, env=env, timeout=200)
    sh(["python3", "/opt/vp/results.py", out, "junit:%s/*.xml" % rep])
    r = json.load(open(out))
    os.remove(out)
    shutil.rmtree(rep)
    return r


def verify(i):
    o = V + "/seeded/" + i
    d = copy()
    s = tempfile.mkdtemp(prefix="pd_", dir="/tmp")
    try:
        for f in os.listdir(o):
            if f.startswith("demo"):
                shutil.copy(o + "/" + f, s)
        a, oa = sh(["bash", s + "/demo.sh"], cwd=d)
        r, out = sh(["git", "apply", o + "/patch.diff"], cwd=d)
        if r:
            return i, "does not apply " + out
        b, ob = sh(["bash", s + "/demo.sh"], cwd=d)
        if a or not b:
            return i, "demo: unchanged %s patched %s\n%s\n%s" % (a, b, oa[-1500:], ob[-1500:])
        res = tests(d)
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = base["stable"]
        got = set(res.get("passed") or [])
        missing = [t for t in want if t not in got]
        return i, "OK" if not missing else "BREAKS TESTS %d %s" % (len(missing), missing[:5])
    finally:
        shutil.rmtree(d)
        shutil.rmtree(s)


def check(i):
    o = V + "/seeded/" + i
    p = json.load(open(o + "/meta.json"))["property"]
    r, out = sh(["git", "-C", "/repo", "apply", o + "/patch.diff"])
    if r:
        return i, "does not apply " + out
    try:
        r, out = sh(["timeout", "600", V + "/check", p], cwd=V)
    finally:
        sh(["git", "-C", "/repo", "checkout", "--", "."])
    return i, "%s exit %d %s" % (p, r, "\n".join(out.splitlines()[-1:] if r != 3 else out.splitlines()[-10:]))


if __name__ == "__main__":
    if sys.argv[1] == "new":
        new(sys.argv[2])
    elif sys.argv[1] == "verify":
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            for i, r in ex.map(verify, sys.argv[2:]):
                print(i, r, flush=True)
    else:
        for i in sys.argv[2:]:
            print(*check(i), flush=True)
