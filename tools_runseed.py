"""Runs checks against planted bugs in scratch worktrees: tools_runseed.py [ID ...]; by default the check of the bug's property."""
import json, os, shutil, subprocess, sys, tempfile, time
V = "/verif/seeded"
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V))
allchecks = "--all" in sys.argv
for i in ids:
    meta = json.load(open(f"{V}/{i}/meta.json"))
    tmp = tempfile.mkdtemp(prefix="rs-")
    try:
        w = tmp + "/repo"
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        subprocess.run(["git", "apply", f"{V}/{i}/patch.diff"], cwd=w, check=True)
        for c in ([f"C{k:02d}" for k in range(1, 40) if os.path.exists(f"/verif/checks/C{k:02d}.py")] if allchecks else [meta["property"]]):
            t = time.time()
            r = subprocess.run(["python3", "/verif/run.py", c], env=dict(os.environ, VERIF_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd="/verif")
            hit = r.returncode == 1 and f"VIOLATION property={c}" in r.stdout
            print(f"{i} {c} rc={r.returncode} {'CAUGHT' if hit else 'missed'} {time.time()-t:.0f}s", (r.stdout.strip().splitlines() or [''])[-2][:160] if hit else "", flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
