#!/usr/bin/env python3
"""
plant.py ID PROPERTY file old new [file old new ...]   with meta on stdin as: needs \n---\n what it breaks \n---\n demo.py text
Makes /verif/seeded/ID in a scratch copy of /repo, and confirms it: tests pass, demo passes without and fails with it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def main():
    bid, prop = sys.argv[1:3]
    args = sys.argv[3:]
    needs, breaks, demo = sys.stdin.read().split("\n---\n")
    out = os.path.join(HERE, "seeded", bid)
    d = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    ok = True
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        subprocess.run(["git", "-C", d, "checkout", "-q", "--", "."], check=True)
        files = set()
        for i in range(0, len(args), 3):
            f, o, n = args[i:i + 3]
            p = os.path.join(d, "src/autosar", f)
            files.add("src/autosar/" + f)
            s = open(p, encoding="utf-8").read()
            if s.count(o) != 1:
                print("matches:", s.count(o), repr(o))
                return 2
            open(p, "w", encoding="utf-8").write(s.replace(o, n))
        diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True, check=True).stdout
        # the removed lines must be lines of the original repository
        base = subprocess.run(["git", "-C", d, "rev-list", "--max-parents=0", "HEAD"], capture_output=True,
                              text=True, check=True).stdout.split()[0]
        for f in files:
            bl = subprocess.run(["git", "-C", d, "blame", "-s", "-l", "HEAD", "--", f], capture_output=True,
                                text=True, check=True).stdout.splitlines()
            cur = f
            removed = []
            ln = None
            for line in diff.splitlines():
                if line.startswith("+++ "):
                    cur = line[6:]
                elif line.startswith("@@"):
                    ln = int(line.split()[1][1:].split(",")[0])
                elif cur == f and ln is not None:
                    if line.startswith("-") and not line.startswith("---"):
                        removed.append(ln)
                        ln += 1
                    elif line.startswith(" "):
                        ln += 1
            for n in removed:
                if base not in bl[n - 1] and not bl[n - 1].startswith("^" + base[:39]):
                    print("WARNING: removes a line of my own:", bl[n - 1][:120])
                    ok = False
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w", encoding="utf-8").write(diff)
        open(os.path.join(out, "demo.py"), "w", encoding="utf-8").write(demo.lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w", encoding="utf-8").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs.strip(), "what_it_breaks": breaks.strip()},
                  open(os.path.join(out, "meta.json"), "w", encoding="utf-8"), indent=1)
        env = dict(os.environ, PYTHONPATH=d + "/src", PYTHONDONTWRITEBYTECODE="1")
        r0 = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd="/repo", capture_output=True, text=True)
        r1 = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=d, env=env, capture_output=True, text=True)
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=d,
                           env=env, capture_output=True, text=True)
        print("demo unchanged rc", r0.returncode, (r0.stdout + r0.stderr)[-300:] if r0.returncode else "")
        print("demo patched rc", r1.returncode, (r1.stdout + r1.stderr).strip()[-200:])
        print("tests:", t.stdout.strip().splitlines()[-1])
        ok = ok and r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0
        for c in [prop] + os.environ.get("ALSO", "").split():
            if os.path.exists(os.path.join(HERE, "checks", c.lower() + ".py")):
                r = subprocess.run(["python3", os.path.join(HERE, "check.py"), c],
                                   env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
                lines = [x for x in (r.stdout + r.stderr).splitlines() if not x.startswith("KNOWN")]
                print(c, "rc", r.returncode, "\n".join(x[:220] for x in lines[:3]))
        print("OK" if ok else "NOT OK")
    finally:
        shutil.rmtree(d)
    return 0 if ok else 1


if __name__ == "__main__":
    sys.exit(main())
