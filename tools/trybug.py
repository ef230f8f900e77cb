"""trybug.py [--no-tests] [--tier T] ID...: tries planted bugs in a scratch copy of /repo."""
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
args = [a for a in sys.argv[1:] if not a.startswith("--")]
tests = "--no-tests" not in sys.argv
others = "--others" in sys.argv
if not args:
    args = sorted(os.listdir(f"{HERE}/seeded"))
for ident in args:
    src = f"{HERE}/seeded/{ident}"
    copy = f"/tmp/plant_{ident}"
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree("/repo", copy, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=copy)
    out = [ident]

    def demo():
        return subprocess.run(["bash", f"{src}/demo.sh"], cwd=copy, capture_output=True,
                              text=True, timeout=300)

    r = demo()
    out.append(f"clean demo {r.returncode}")
    if r.returncode:
        print(r.stdout[-1500:], r.stderr[-1500:])
    p = subprocess.run(["git", "apply", "--unsafe-paths", f"--directory={copy}",
                        f"{src}/patch.diff"], cwd="/", capture_output=True, text=True)
    if p.returncode:
        print("patch fails", p.stderr)
    r = demo()
    out.append(f"bug demo {r.returncode}")
    tail = (r.stdout + r.stderr).strip().splitlines()[-1:]
    if tests:
        t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-n0", "-p", "no:cacheprovider",
                            "tests", "comb_spec_searcher", "test_readme.txt", "example.py"],
                           cwd=copy, env=env, capture_output=True, text=True)
        if "unrecognized" in t.stderr:
            t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
                                "tests", "comb_spec_searcher", "test_readme.txt",
                                "example.py"],
                               cwd=copy, env=env, capture_output=True, text=True)
        out.append("tests " + (t.stdout.strip().splitlines() or ["?"])[-1])
    prop = json.load(open(f"{src}/meta.json"))["property"]
    if "--no-check" in sys.argv:
        print(" | ".join(out), tail, flush=True)
        shutil.rmtree(copy)
        continue
    start = time.time()
    env = dict(os.environ, VMON_REPO=copy)
    env.pop("PYTHONPATH", None)
    c = subprocess.run(["python3", "check.py", prop], cwd=HERE, env=env, capture_output=True,
                       text=True)
    viol = [ln for ln in c.stdout.splitlines() if ln.startswith("VIOLATION")]
    out.append(f"check {prop} exit {c.returncode} ({len(viol)} violations, "
               f"{time.time() - start:.0f} s)")
    print(" | ".join(out), tail, flush=True)
    if not viol:
        print(c.stdout[-800:], c.stderr[-800:])
    shutil.rmtree(copy, ignore_errors=True)
