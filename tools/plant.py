#!/usr/bin/env python3
"""Development tool, no check: try planted bugs.

plant.py [-j N] [-c C01,C02|own|all] DIR...   each DIR has patch.diff, demo.sh, meta.json

In a private mount namespace with copies of /repo and /verif in their places: the demo passes on the unchanged
tree, the patch applies and builds, the stable tests pass, the demo fails, and which checks fire.
"""
import argparse, json, os, queue, shutil, subprocess, sys, threading
W = "/tmp/plant"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def inside(w, cmd, timeout=1500):
    script = f"mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && cd /repo && {cmd}"
    try:
        return sh(["unshare", "-m", "bash", "-c", script], timeout=timeout)
    except subprocess.TimeoutExpired as e:
        class R: returncode = 124; stdout = str(e.stdout)
        return R
def prepare(w):
    os.makedirs(w, exist_ok=True)
    sh(f"mkdir -p {w}/repo {w}/verif && rsync -a --delete --exclude target /repo/ {w}/repo/ && rsync -a --delete --exclude .build --exclude seeded --exclude evidence --exclude replays /verif/ {w}/verif/") if shutil.which("rsync") else \
    sh(f"mkdir -p {w}/repo {w}/verif; cd /repo && tar cf - --exclude=./target . | (cd {w}/repo && find . -mindepth 1 -maxdepth 1 ! -name target -exec rm -rf {{}} + && tar xf -); cd /verif && tar cf - --exclude=./.build --exclude=./seeded --exclude=./evidence --exclude=./replays . | (cd {w}/verif && find . -mindepth 1 -maxdepth 1 ! -name .build -exec rm -rf {{}} + && tar xf -)")
    sh(f"cd {w}/repo && git checkout -q -f HEAD -- . && git clean -qfd")
def one(w, d, checks, seed, lock):
    d = os.path.abspath(d); name = os.path.basename(d)
    meta = json.load(open(f"{d}/meta.json")); own = meta["property"]
    res = dict(id=name, property=own, problems=[], fired=[], quiet=[], broken=[])
    prepare(w)
    shutil.copy(f"{d}/patch.diff", f"{w}/patch.diff")
    demo = f"{w}/demo"; shutil.rmtree(demo, ignore_errors=True); shutil.copytree(d, demo)
    for f in os.listdir(demo):
        if f.endswith((".diff", ".patch")) or f == "meta.json": os.remove(f"{demo}/{f}")
    r = inside(w, "bash /opt/vp/build.sh")
    if r.returncode: res["problems"].append("clean build fails"); return res
    r = inside(w, f"bash {demo}/demo.sh", 300)
    if r.returncode: res["problems"].append("demo fails on clean tree: " + r.stdout[-1500:])
    r = inside(w, f"git apply {w}/patch.diff")
    if r.returncode: res["problems"].append("does not apply: " + r.stdout[-500:]); return res
    r = inside(w, "bash /opt/vp/build.sh")
    if r.returncode: res["problems"].append("patched build fails: " + r.stdout[-1500:]); return res
    r = inside(w, f"bash /opt/vp/test.sh {w}/out.json >/dev/null 2>&1; cat {w}/out.json")
    try:
        out = json.load(open(f"{w}/out.json")); passed = set(out.get("passed", out.get("pass", [])))
        missing = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in passed]
        if missing: res["problems"].append(f"tests fail: {missing}")
    except Exception as e: res["problems"].append(f"tests: {e} {r.stdout[-300:]}")
    r = inside(w, f"bash {demo}/demo.sh", 300)
    if r.returncode == 0: res["problems"].append("demo passes with the patch")
    todo = [own] if checks == "own" else [f"C{i:02}" for i in range(1, 26)] if checks == "all" else [] if checks == "none" else checks.split(",")
    for c in todo:
        r = inside(w, f"cd /verif && VERIF_SEED={seed} VERIF_TIER=quick timeout 900 bash run.sh {c}")
        if r.returncode == 1 and f"VIOLATION property={c} " in r.stdout:
            res["fired"].append(c); open(f"{W}/{name}.{c}.log", "w").write(r.stdout)
        elif r.returncode == 0: res["quiet"].append(c)
        else: res["broken"].append(f"{c}: {r.returncode} {r.stdout[-800:]}")
    return res
def main():
    a = argparse.ArgumentParser(); a.add_argument("-j", type=int, default=3); a.add_argument("-c", default="own"); a.add_argument("-s", default="1"); a.add_argument("dirs", nargs="+")
    a = a.parse_args(); q = queue.Queue(); lock = threading.Lock(); bad = 0
    for d in a.dirs: q.put(d)
    def work(i):
        nonlocal bad
        while True:
            try: d = q.get_nowait()
            except queue.Empty: return
            try: r = one(f"{W}/w{i}", d, a.c, a.s, lock)
            except Exception as e: r = dict(id=d, problems=[repr(e)], fired=[], quiet=[], broken=[], property="?")
            with lock:
                ok = "OK  " if not r["problems"] else "BAD "
                print(ok, r["id"], r["property"], "FIRED" if r["property"] in r["fired"] else "missed", "fired=" + ",".join(r["fired"]), "quiet=" + ",".join(r["quiet"]), *r["broken"], *r["problems"], flush=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(min(a.j, len(a.dirs)))]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
