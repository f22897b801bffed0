#!/usr/bin/env python3
"""Driver of the checks.

  vc.py setup            build everything once
  vc.py check <ID>       run one property's check (VERIF_SEED, VERIF_TIER)
  vc.py replay <file>    rerun the case a VIOLATION line points to

Exit codes of check: 0 held on everything observed, 1 violation, 3 no verdict.
"""
import concurrent.futures, json, os, re, shutil, signal, subprocess, sys, tempfile, time, glob, resource

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
TRIPLE = "x86_64-unknown-linux-gnu"
KNOWN = os.path.join(HERE, "known_findings.txt")
FAULT_ENUM = {"C19", "C20"}
FLAVOURS = {
    # name: (toolchain, rustflags, extra cargo args, binary)
    "plain": (None, "--cfg rn_hooks --cfg rn_faults", [], "release/vh"),
    "asan": ("+nightly", "--cfg rn_hooks -Zsanitizer=address", ["--target", TRIPLE], f"{TRIPLE}/release/vh"),
    "msan": ("+nightly", "--cfg rn_hooks -Zsanitizer=memory -Zsanitizer-memory-track-origins", ["-Zbuild-std", "--target", TRIPLE], f"{TRIPLE}/release/vh"),
    "tsan": ("+nightly", "--cfg rn_hooks -Zsanitizer=thread", ["-Zbuild-std", "--target", TRIPLE], f"{TRIPLE}/release/vh"),
}
LOG = []


def log(s):
    LOG.append(s)
    print(s, flush=True)


class NoVerdict(Exception):
    pass


def build(name):
    tc, flags, extra, binary = FLAVOURS[name]
    td = os.path.join(TARGET, name)
    # never trust time stamps for the code under test: always compile it anew
    for fp in glob.glob(f"{td}/**/.fingerprint/rusty_network-*", recursive=True):
        shutil.rmtree(fp, ignore_errors=True)
    cmd = ["cargo"] + ([tc] if tc else []) + ["build", "--release", "--offline", "--target-dir", td] + extra
    t = time.time()

    def cargo(flags):
        env = dict(os.environ, RUSTFLAGS=flags, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
        env.pop("CARGO_ENCODED_RUSTFLAGS", None)
        return subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)

    r = cargo(flags)
    if r.returncode != 0:
        # the crate may be fine and only the hook not fit it any more (a private field renamed)
        first, r = r, cargo(flags.replace("--cfg rn_hooks", ""))
        if r.returncode != 0:
            print(first.stdout[-6000:])
            raise NoVerdict(f"the {name} build failed")
        log(f"the {name} build fails with the hook rn_hooks; built without: parameter gradients are not observed\n{first.stdout[-1500:]}")
    log(f"built {name} in {time.time() - t:.1f} s")
    return os.path.join(td, binary)


class Scratch:
    def __enter__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.d = tempfile.mkdtemp(prefix="vc-", dir=base)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def limits_mem():
    limits()
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))


def execute(cmd, scratch, timeout, env=None, mem=True, cwd=None):
    """Runs cmd in its own session; (returncode or None on timeout, output)."""
    out = os.path.join(scratch, "output.txt")
    with open(out, "wb") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})), cwd=cwd or scratch,
                             start_new_session=True, preexec_fn=limits_mem if mem else limits)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    with open(out, "rb") as f:
        text = f.read().decode("utf-8", "replace")
    return rc, text


def harness_cmd(binary, prop, tier, seed, scratch, **kw):
    work = os.path.join(scratch, "work")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    res = os.path.join(scratch, "result.json")
    if os.path.exists(res):
        os.unlink(res)
    cmd = [binary, prop, "--tier", tier, "--seed", str(seed), "--scratch", work, "--out", res]
    for k, v in kw.items():
        cmd += ["--" + k, str(v)]
    return cmd, res


def run_harness(binary, prop, tier, seed, scratch, timeout, env=None, mem=True, **kw):
    cmd, res = harness_cmd(binary, prop, tier, seed, scratch, **kw)
    rc, text = execute(cmd, scratch, timeout, env, mem)
    result = None
    if rc == 0 and os.path.exists(res):
        with open(res) as f:
            result = json.load(f)
    return rc, text, result


def crash_case(binary, prop, tier, seed, scratch, how, budget, text):
    """A run died or hung. A violation only if one and the same case does so again, alone."""
    named = re.search(r"^HANG (\S+:\d+)$", text, re.M)
    if named:
        case = named[1]
    else:
        trace = os.path.join(scratch, "trace")
        rc, text, _ = run_harness(binary, prop, tier, seed, scratch, budget, trace=trace)
        if rc == 0:
            return None
        try:
            case = open(trace).read().strip()
        except OSError:
            return None
    rc2, text2, _ = run_harness(binary, prop, tier, seed, scratch, 90, only=case)
    if rc2 == 0 or rc2 == 2:
        return None
    if rc2 is None:
        msg = "the case does not finish within 90 s (normally it takes milliseconds)"
    elif rc2 < 0:
        msg = f"the process dies of {signal.Signals(-rc2).name} in this case"
    elif rc2 == 101:
        return None  # a panic of the harness itself
    else:
        msg = f"the process ends with status {rc2} in this case"
    fam, idx = case.rsplit(":", 1)
    return {"family": fam, "idx": int(idx), "message": msg + "; " + text2.strip()[-300:], "case": case}


def sanitizer_reports(text):
    pats = [r"==\d+==\s*ERROR: (AddressSanitizer: [^\n]*)", r"(WARNING: ThreadSanitizer: [^\n]*)", r"==\d+==\s*WARNING: (MemorySanitizer: [^\n]*)",
            r"(error: Undefined Behavior: [^\n]*)", r"(unsafe precondition\(s\) violated[^\n]*)", r"==\d+==\s*ERROR: (MemorySanitizer: [^\n]*)"]
    found = []
    for p in pats:
        for m in re.finditer(p, text):
            frames = re.findall(r"(rusty_network[^\n]*|/repo/src/[^\s:]+:\d+)", text[m.start():m.start() + 6000])
            found.append((m.group(1), frames[:4]))
    return found


def sanitized(kind, prop, tier, seed, scratch, timeout, events, **kw):
    """One run under a sanitizer: list of violations."""
    binary = build(kind)
    env = {"asan": {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=1"},
           "tsan": {"TSAN_OPTIONS": "exitcode=77:halt_on_error=0:report_thread_leaks=0"},
           "msan": {"MSAN_OPTIONS": "exitcode=77:abort_on_error=0"}}[kind]
    rc, text, res = run_harness(binary, prop, tier, seed, scratch, timeout, env, mem=False, **kw)
    reps = sanitizer_reports(text)
    if reps:
        print(text[:5000])
        return [{"family": kind, "idx": 0, "message": f"{m} {' '.join(fr)}", "case": f"{kind} run of the {prop} workload", "sanitizer": kind, "args": kw} for m, fr in reps[:1]], res
    if rc is None:
        raise NoVerdict(f"the {kind} run did not finish within {timeout} s")
    if rc != 0:
        print(text[-3000:])
        raise NoVerdict(f"the {kind} run ended with status {rc} without a report")
    events[f"{kind}_evaluations"] = res["evaluations"]
    for k, v in res["observed_events"].items():
        if not k.startswith("cases:") and not k.startswith("class:"):
            events[f"{kind}:{k}"] = v
    log(f"{kind}: {res['evaluations']} cases, no report, {res['wall_s']:.1f} s")
    return [], res


def miri(prop, tier, seed, scratch, budget, events, scale):
    work = os.path.join(scratch, "work")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    res = os.path.join(scratch, "miri.json")
    env = {"RUSTFLAGS": "--cfg rn_hooks", "MIRIFLAGS": f"-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed={seed % 1000}", "CARGO_NET_OFFLINE": "true"}
    for fp in glob.glob(f"{TARGET}/miri/**/.fingerprint/rusty_network-*", recursive=True):
        shutil.rmtree(fp, ignore_errors=True)
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--target-dir", os.path.join(TARGET, "miri"), "--", prop, "--tier", tier, "--seed", str(seed),
           "--scratch", work, "--out", res, "--threads", "1", "--scale", str(scale), "--budget", str(budget)]
    t = time.time()
    rc, text = execute(cmd, scratch, budget + 150, env, mem=False, cwd=HARNESS)
    if rc == 101 and "could not compile" in text:
        env["RUSTFLAGS"] = ""  # without the hook, as in build()
        rc, text = execute(cmd, scratch, budget + 150, env, mem=False, cwd=HARNESS)
    reps = sanitizer_reports(text)
    if reps:
        print(text[-5000:])
        return [{"family": "miri", "idx": 0, "message": f"{m} {' '.join(fr)}", "case": f"Miri run of the {prop} workload", "sanitizer": "miri", "args": {"scale": scale}} for m, fr in reps[:1]]
    if rc is None:
        raise NoVerdict(f"the Miri run did not finish within {budget + 150} s")
    if rc != 0 or not os.path.exists(res):
        print(text[-3000:])
        raise NoVerdict(f"Miri ended with status {rc} without a report")
    r = json.load(open(res))
    events["miri_evaluations"] = r["evaluations"]
    events["miri_stopped_by_time_budget"] = r["observed_events"].get("stopped_by_time_budget", 0)
    log(f"miri: {r['evaluations']} cases, no report, {time.time() - t:.1f} s")
    return []


def known_findings(prop):
    """finding: property=<id> match=<substring of the message> :: <what fails>"""
    out = []
    try:
        for line in open(KNOWN, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) match=(.+?) :: (.*)$", line.rstrip("\n"))
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def check(prop):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    events, violations, res = {}, [], None
    budget = 420 if tier == "quick" else 6000
    try:
        with Scratch() as scratch:
            if prop == "C25":
                k = 6 if tier == "quick" else 60
                with concurrent.futures.ThreadPoolExecutor() as pool, Scratch() as ms:
                    # Miri runs beside the other two: it needs one core and most of the time
                    m = pool.submit(miri, prop, tier, seed, ms, 360 if tier == "quick" else 5000, events, 0.002 if tier == "quick" else 0.04)
                    v, res = sanitized("asan", prop, tier, seed, scratch, budget, events, scale=k)
                    violations += v
                    if not violations:
                        v, _ = sanitized("msan", prop, tier, seed + 1, scratch, budget, events, scale=0.5 * k)
                        violations += v
                    violations += m.result()
            else:
                binary = build("plain")
                rc, text, res = run_harness(binary, prop, tier, seed, scratch, budget)
                if res is None:
                    how = "hung" if rc is None else f"ended with status {rc}"
                    log(f"the run {how}: {text[-500:]}")
                    v = crash_case(binary, prop, tier, seed, scratch, how, 240, text)
                    if v is None:
                        raise NoVerdict(f"the run {how}; no single case reproduces it")
                    violations.append(v)
                else:
                    violations += res["violations"]
                if prop == "C26" and not violations:
                    v, _ = sanitized("tsan", prop, tier, seed, scratch, budget, events, scale=0.25)
                    violations += v
    except NoVerdict as e:
        print(f"NO VERDICT property={prop}: {e}")
        return 3
    except subprocess.TimeoutExpired as e:
        print(f"NO VERDICT property={prop}: {e}")
        return 3
    known = known_findings(prop)
    fresh = []
    hit = set()
    for v in violations:
        for m, what in known:
            if m in v["message"] or m in v.get("case", ""):
                hit.add(what)
                break
        else:
            fresh.append(v)
    write_evidence(prop, tier, seed, res, events, len(fresh), time.time() - t0)
    for m, what in known:
        print(f"KNOWN-FINDING: property={prop} {what}")
    if fresh:
        v = fresh[0]
        d = os.path.join(HERE, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}-{seed}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "violations": fresh}, f, indent=1, ensure_ascii=False)
        for v in fresh[:3]:
            print(f"{v['family']}:{v['idx']}: {v['message']}\n    case: {v.get('case', '')[:600]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if res and res["harness_errors"]:
        print(f"NO VERDICT property={prop}: harness error: {res['harness_errors'][:2]}")
        return 3
    if res and res["insufficient"]:
        print(f"NO VERDICT property={prop}: not enough observed: {res['insufficient']}")
        return 3
    print(f"OK property={prop} tier={tier} seed={seed}: {res['evaluations']} cases, {res['distinct_nontrivial']} distinct and non-trivial, {time.time() - t0:.1f} s")
    return 0


def write_evidence(prop, tier, seed, res, events, nviol, wall):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    res = res or {"evaluations": 0, "distinct_nontrivial": 0, "rule": "the run did not end normally", "samples": [], "observed_events": {}, "distinct_observed": {}, "assumptions": []}
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "fault_enumeration" if prop in FAULT_ENUM else "exploration",
        "coverage": {
            "evaluations": res["evaluations"],
            "distinct_nontrivial": res["distinct_nontrivial"],
            "rule": "cases are generated from the seed, one family of workloads after the other; " + res["rule"],
            "samples": res["samples"][:12],
            "observed_events": {**res["observed_events"], **events},
            "distinct_observed": res["distinct_observed"],
        },
        "assumptions": res["assumptions"] + ["the reference model of the harness (refm.rs, wire.rs) states the mathematics and the file format correctly"],
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)


def replay(path):
    d = json.load(open(path))
    v = d["violations"][0]
    with Scratch() as scratch:
        if v.get("sanitizer"):
            if v["sanitizer"] == "miri":
                r = miri(d["property"], d["tier"], d["seed"], scratch, 1500, {}, v["args"]["scale"])
            else:
                r, _ = sanitized(v["sanitizer"], d["property"], d["tier"], d["seed"], scratch, 3000, {}, **v["args"])
            print("\n".join(x["message"] for x in r) or "not reproduced")
            return 1 if r else 0
        binary = build("plain")
        rc, text, res = run_harness(binary, d["property"], d["tier"], d["seed"], scratch, 600, only=f"{v['family']}:{v['idx']}")
        if res is None:
            print(text, f"\nended with status {rc}")
            return 1
        for v in res["violations"]:
            print(f"{v['family']}:{v['idx']}: {v['message']}\n    case: {v['case']}")
        print("violation reproduced" if res["violations"] else "not reproduced")
        return 1 if res["violations"] else 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        try:
            build("plain")
        except NoVerdict as e:
            print(e)
            return 1
        return 0
    if a[:1] == ["check"] and len(a) == 2:
        return check(a[1])
    if a[:1] == ["replay"] and len(a) == 2:
        return replay(a[1])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
