#!/usr/bin/env python3
"""Runs every property's plain monitors (except C25's) on behaviour-preserving edits: DIR/<id>/patch.diff,
one build per edit. Prints every violation; expected: none.
usage: run_quiet.py DIR [--workers N] [--seeds 1,2] [--props C01,C02] [id...]"""
import argparse, concurrent.futures, json, os, queue, shutil, subprocess, tempfile
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
ap = argparse.ArgumentParser()
ap.add_argument("dir"); ap.add_argument("ids", nargs="*"); ap.add_argument("--workers", type=int, default=2)
ap.add_argument("--seeds", default="1"); ap.add_argument("--props", default=""); ap.add_argument("--work", default="/tmp/rq"); ap.add_argument("--scale", default="0.25"); ap.add_argument("--show", type=int, default=1)
o = ap.parse_args()
props = o.props.split(",") if o.props else [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl") if l.strip() and '"C25"' not in l]
def sh(cmd, **k): return subprocess.run(cmd, shell=True, check=True, **k)
slots = queue.Queue()
for i in range(o.workers):
    w = f"{o.work}/{i}"
    sh(f"rm -rf {w} && mkdir -p {w}/verif/target && cp -a /repo {w}/repo && git -C {w}/repo checkout -q -- . && cd {V} && cp -a harness golden {w}/verif/")
    if os.path.isdir(f"{V}/target/plain"): sh(f"cp -a {V}/target/plain {w}/verif/target/")
    slots.put(w)
def inside(w, cmd):
    return subprocess.run(["unshare", "-Ur", "-m", "bash", "-c", f"mount --bind {w}/repo /repo && cd {w}/verif && {cmd}"], text=True, errors="replace",
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
def one(d):
    w = slots.get()
    try:
        sh(f"git -C {w}/repo checkout -q -- . && git -C {w}/repo apply {o.dir}/{d}/patch.diff && find {w}/repo/src -exec touch {{}} +")
        sh(f"rm -rf {w}/verif/target/plain/release/.fingerprint/rusty_network-*")
        r = inside(w, 'cd harness && RUSTFLAGS="--cfg rn_hooks --cfg rn_faults" cargo build --release --offline --target-dir ../target/plain')
        if r.returncode: print(f"{d}: BUILD FAILS\n{r.stdout[-1500:]}", flush=True); return
        bad = []
        for p in props:
            for s in o.seeds.split(","):
                t = tempfile.mkdtemp(prefix="rq-", dir="/dev/shm"); os.mkdir(t + "/w")
                r = inside(w, f"timeout 800 target/plain/release/vh {p} --tier quick --seed {s} --scratch {t}/w --out {t}/r.json --scale {o.scale} --threads 3")
                try: j = json.load(open(f"{t}/r.json"))
                except OSError: j = None
                shutil.rmtree(t, ignore_errors=True)
                if j is None: bad.append(f"{p}/{s}: no result, exit {r.returncode} {r.stdout[-300:]}")
                elif j["violations"] or j["harness_errors"]:
                    bad.append(f"{p}/{s}: {len(j['violations'])} violations, {j['harness_errors'][:1]} " + " || ".join(f"{v['family']}:{v['idx']} {v['message'][:300]}" for v in j["violations"][:o.show]))
        print(f"{d}: " + ("quiet" if not bad else "ALARM\n    " + "\n    ".join(bad)), flush=True)
    except Exception as e:
        print(f"{d}: ERROR {e}", flush=True)
    finally: slots.put(w)
ids = [d for d in sorted(os.listdir(o.dir)) if os.path.exists(f"{o.dir}/{d}/patch.diff") and (not o.ids or d in o.ids)]
with concurrent.futures.ThreadPoolExecutor(o.workers) as ex: list(ex.map(one, ids))
shutil.rmtree(o.work, ignore_errors=True)
