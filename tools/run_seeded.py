#!/usr/bin/env python3
"""Runs checks against each planted bug, in copies: every worker has its own copy of /repo, which it
mounts over /repo in a mount namespace of its own, and its own copy of /verif with its own build folder.
usage: run_seeded.py [--all-props] [--workers N] [--dir DIR] [--seeds 1,2,3] [--quiet-ok] [id...]
  --all-props   also run every other property's plain check
  --dir DIR     patches from DIR/<id>/patch.diff instead of /verif/seeded (meta.json optional)
Not a check; results go to stdout."""
import argparse, concurrent.futures, json, os, queue, re, shutil, subprocess, sys
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*"); ap.add_argument("--all-props", action="store_true"); ap.add_argument("--only-props", default="")
ap.add_argument("--workers", type=int, default=3); ap.add_argument("--dir", default=f"{V}/seeded"); ap.add_argument("--seeds", default="1")
ap.add_argument("--work", default="/tmp/rs")
o = ap.parse_args()
props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl") if l.strip()]
def sh(cmd, **k): return subprocess.run(cmd, shell=True, check=True, **k)
slots = queue.Queue()
for i in range(o.workers):
    w = f"{o.work}/{i}"
    sh(f"rm -rf {w} && mkdir -p {w}/verif/target && cp -a /repo {w}/repo && git -C {w}/repo checkout -q -- . && cd {V} && cp -a vc.py harness golden known_findings.txt MANIFEST.json properties.jsonl {w}/verif/")
    if os.path.isdir(f"{V}/target/plain"): sh(f"cp -a {V}/target/plain {w}/verif/target/")
    slots.put(w)
def inside(w, cmd, env=None):
    return subprocess.run(["unshare", "-Ur", "-m", "bash", "-c", f"mount --bind {w}/repo /repo && cd {w}/verif && {cmd}"], text=True, errors="replace",
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})))
def one(d):
    w = slots.get()
    try:
        meta = {}
        if os.path.exists(f"{o.dir}/{d}/meta.json"): meta = json.load(open(f"{o.dir}/{d}/meta.json"))
        own = meta.get("property")
        sh(f"git -C {w}/repo checkout -q -- . && git -C {w}/repo apply {o.dir}/{d}/patch.diff")
        plist = o.only_props.split(",") if o.only_props else (props if (o.all_props or not own) else [own])
        hit, other, text = [], [], ""
        for p in plist:
            if p in ("C25",) and p != own and not o.only_props: continue
            for s in o.seeds.split(","):
                r = inside(w, f"python3 vc.py check {p}", {"VERIF_SEED": s})
                if r.returncode == 1 and f"VIOLATION property={p} " in r.stdout: hit.append(p); st = "hit"; break
                elif r.returncode != 0: other.append(f"{p}!{r.returncode}"); st = "odd"; text += r.stdout[-1500:]
                else: st = "ok"
            if p == own or st == "hit" and not own: text += "\n".join([l for l in r.stdout.splitlines() if not l.startswith("built")][:1 if st == "hit" else 12]) + "\n"
        mark = ("CAUGHT" if own in hit else "MISSED") if own else ("ALARM" if hit else "quiet")
        print(f"{d}: {own} {mark}; hit {' '.join(hit)}; odd {' '.join(other)}\n    " + "\n    ".join(x[:260] for x in text.strip().splitlines()), flush=True)
    except Exception as e:
        print(f"{d}: ERROR {e}", flush=True)
    finally:
        slots.put(w)
ids = [d for d in sorted(os.listdir(o.dir)) if os.path.exists(f"{o.dir}/{d}/patch.diff") and (not o.ids or d in o.ids)]
with concurrent.futures.ThreadPoolExecutor(o.workers) as ex: list(ex.map(one, ids))
shutil.rmtree(o.work, ignore_errors=True)
