"""Adds a planted bug: tools_mkseed.py SPEC.py   (SPEC defines ID, PROPERTY, EDITS=[(file, old, new)], DEMO, NEEDS, BREAKS)

Applies the edits to a scratch copy of /repo, confirms that they change original lines only, that the stable tests
pass there, that the demonstration passes without and fails with them, and writes seeded/<ID>/.
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
V = "/verif/seeded"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **k)


def main(spec):
    s = runpy.run_path(spec)
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        w = tmp + "/repo"
        sh(f"cp -a /repo {w}", "/")
        for f, old, new in s["EDITS"]:
            t = open(f"{w}/{f}").read()
            assert t.count(old) == 1, (f, old, t.count(old))
            open(f"{w}/{f}", "w").write(t.replace(old, new))
        diff = sh("git diff", w).stdout
        # lines removed must be original ones
        cur = None
        bad = []
        for line in sh("git diff -U0", w).stdout.splitlines():
            if line.startswith("--- a/"):
                cur = line[6:]
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
            if m:
                a, n = int(m[1]), int(m[2] or 1)
                if n:
                    for b in sh(f"git blame -s -L {a},{a+n-1} HEAD -- {cur}", w).stdout.splitlines():
                        if not b.startswith("^") and not b.startswith("2538695"):
                            bad.append(b)
        if bad:
            print("not original:", *bad, sep="\n  ")
        d = f"{tmp}/demo"
        os.makedirs(d)
        open(d + "/demo.py", "w").write(s["DEMO"])
        open(d + "/demo.sh", "w").write(f'#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec {PY} "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        r0 = sh(f"bash {d}/demo.sh", "/repo", timeout=280)
        if any(f.endswith(".pyx") for f, _, _ in s["EDITS"]):
            print(sh("find tt_sketch -name '*.so' -delete; rm -f tt_sketch/drm/*.c; " + PY + " setup.py -q build_ext --inplace --force", w).stdout[-500:])
        r1 = sh(f"bash {d}/demo.sh", w, timeout=280)
        t = sh(f"{PY} -m pytest -q -p no:cacheprovider -n 8 --timeout=300 --randomly-seed=1 --randomly-dont-reorganize tests", w)
        tests_ok = t.returncode == 0
        print(s["ID"], "original lines:", not bad, "demo without:", r0.returncode, "with:", r1.returncode, "tests:", t.stdout.strip().splitlines()[-1])
        ok = not bad and r0.returncode == 0 and r1.returncode != 0 and tests_ok
        if not ok:
            print(r0.stdout[-800:], "\n---with:", r1.stdout[-800:], "\n", t.stdout[-1500:] if not tests_ok else "")
            return 1
        print("   demo says:", r1.stdout.strip().splitlines()[-1][:200])
        out = f"{V}/{s['ID']}"
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


rc = 0
for spec in sys.argv[1:]:
    try:
        rc |= main(spec)
    except Exception as e:
        print(spec, "ERROR", repr(e))
        rc = 1
sys.exit(rc)
