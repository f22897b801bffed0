#!/usr/bin/env python3
# usage: mk.py seeds_file.py [id...]   builds /verif/seeded/<id>
import sys, os, subprocess, shutil, json, runpy, re
SW=os.environ.get("SW","/tmp/sw"); W=SW+"/repo"
PRE='''#![allow(unused)]
use rusty_network::layer::{convolutional::*, fully_connected::*, max_pool::*, softmax::*, Layer, SerializedLayer};
use rusty_network::network::{Network, NetworkRunState};
use rusty_network::tensor::helper::{TensorIndex, TensorShape, TensorStride};
use rusty_network::tensor::operations::convolution::*;
use rusty_network::tensor::Tensor;

fn sh(i: u32, j: u32, k: u32) -> TensorShape {
    TensorShape { di: i, dj: j, dk: k }
}
fn at(t: &Tensor, i: u32, j: u32, k: u32) -> f32 {
    t.get_item(&TensorIndex { i, j, k })
}
fn ten(i: u32, j: u32, k: u32, v: &[f32]) -> Tensor {
    let mut t = Tensor::new(sh(i, j, k));
    t.fill_with_vec(v.to_vec()).unwrap();
    t
}
fn name() -> String {
    String::from("layer")
}
'''
SH='''#!/bin/bash
# Runs demo.rs against the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" "$d/work"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here/demo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rusty_network = { path = "$repo" }
bincode = "1.3.3"
[workspace]
EOF
cd "$d/work" || exit 2
unset RUSTFLAGS
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
%s
'''
RUN='cargo run -q --offline --manifest-path "$d/Cargo.toml"'
def sh(cmd, **k): return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def main():
    seeds=runpy.run_path(sys.argv[1])["SEEDS"]; only=sys.argv[2:]
    if not os.path.isdir(W): sh(f"cp -a /repo {W}")
    sh(f"git -C {W} fetch -q /repo HEAD && git -C {W} reset -q --hard FETCH_HEAD && git -C {W} clean -fdq -e target")
    for s in seeds:
        if only and s["id"] not in only: continue
        sh(f"git -C {W} checkout -q -- .")
        for f,old,new in s["edits"]:
            p=f"{W}/{f}"; t=open(p).read()
            n=None
            if isinstance(old,tuple): old,n=old
            c=t.count(old)
            assert c==1 or (n is not None and c>n), (s["id"],f,c,old)
            if n is None: t=t.replace(old,new)
            else:
                parts=t.split(old); t=old.join(parts[:n+1])+new+old.join(parts[n+1:])
            open(p,"w").write(t)
        diff=subprocess.check_output(["git","-C",W,"diff","-U3"],text=True)
        # removed lines must be original
        bad=[]; minus=0
        for f in {e[0] for e in s["edits"]}:
            bl=subprocess.check_output(["git","-C",W,"blame","-s","-l","HEAD","--",f],text=True).splitlines()
            d0=subprocess.check_output(["git","-C",W,"diff","-U0","--",f],text=True)
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ",d0,re.M):
                a=int(m[1]); k=int(m[2]) if m[2] is not None else 1
                for i in range(a,a+k):
                    minus+=1
                    if "c5854bd" not in bl[i-1].split()[0]: bad.append((f,i))
        if bad or not minus: print(s["id"],"NON-ORIGINAL LINES" if bad else "NO REMOVED LINES",bad,minus); sh(f"git -C {W} checkout -q -- ."); continue
        r=sh("cargo test --offline -- --test-threads 8",cwd=W,env=dict(os.environ,CARGO_TARGET_DIR=SW+"/target"))
        if "test result: ok" not in r.stdout or "FAILED" in r.stdout or r.returncode:
            print(s["id"],"TESTS FAIL\n", "\n".join(l for l in r.stdout.splitlines() if "FAILED" in l or l.startswith("error") or "panicked" in l or "-->" in l and 0)[:1500]); print(r.stdout[-1500:] if "error" in r.stdout else ""); sh(f"git -C {W} checkout -q -- ."); continue
        d=f"/verif/seeded/{s['id']}"; os.makedirs(d,exist_ok=True)
        open(d+"/patch.diff","w").write(diff)
        open(d+"/demo.rs","w").write(PRE+s["demo"])
        open(d+"/demo.sh","w").write(SH%(s.get("run") or RUN)); os.chmod(d+"/demo.sh",0o755)
        shutil.copy("/verif/seeded/c01-eq-permuted-shape/demo.lock",d+"/demo.lock")
        json.dump({"property":s["prop"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(d+"/meta.json","w"),indent=1)
        def demo(): 
            r=sh(f"timeout 280 bash {d}/demo.sh",cwd=W); return r.returncode,r.stdout
        rp,op=demo()
        sh(f"git -C {W} checkout -q -- .")
        rc,oc=demo()
        ok = rc==0 and rp!=0 and "could not compile" not in op and "error" not in op.split("panicked")[0][:0]
        print(s["id"],s["prop"],"OK" if ok else "BAD","clean",rc,"patched",rp, "" if ok else (oc+op)[-2500:], flush=True)
        if not ok: shutil.rmtree(d)
        elif "panicked" in op: print("    ",op[op.index("panicked"):][:160].replace("\n"," "))
main()
