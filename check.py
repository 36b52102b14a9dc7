#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its compiled code.

usage: check.py PROPERTY            decide the property (tier from VERIF_TIER)
       check.py --setup             build the executor
       check.py --replay FILE       run a recorded counterexample against the real code
"""
import glob, json, os, random, re, resource, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor, FIRST_COMPLETED, wait

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from instances import INSTANCES, FINDINGS, ASSUMPTIONS   # noqa: E402

LSX = f"{V}/engine/target/release/lsx"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)
START = time.time()
LIMIT = float(os.environ.get("LSX_LIMIT", "780"))
IR = f"{V}/harness/target/release/deps/harness.ll"
procs, plock, stop = set(), threading.Lock(), threading.Event()


def say(*a):
    print(*a, flush=True)


def run(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def broken(what):
    say("INCONCLUSIVE " + what)
    sys.exit(3)


FEATURES = []  # C25 needs the crates of the example


def build_engine():
    rc, o = run(["cargo", "build", "--release", "--offline"], f"{V}/engine")
    if rc:
        say(o[-3000:])
        broken("the executor does not build")


def build_ir():
    shutil.copy("/repo/Cargo.lock", f"{V}/harness/Cargo.lock")
    env = dict(ENV, RUSTFLAGS="--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp")
    for f in glob.glob(f"{V}/harness/target/release/deps/harness*.ll"):
        os.remove(f)
    # the crate's own fingerprint decides whether it is rebuilt; the harness always is
    os.utime(f"{V}/harness/src/lib.rs")
    rc, o = run(["cargo", "build", "--release", "--offline"] + FEATURES, f"{V}/harness", env)
    if rc or not os.path.exists(IR):
        say(o[-3000:])
        broken("the harness does not build against /repo")


def build_native():
    shutil.copy("/repo/Cargo.lock", f"{V}/native/Cargo.lock")
    out = []
    for rel in ([], ["--release"]):
        rc, o = run(["cargo", "build", "--offline"] + FEATURES + rel, f"{V}/native")
        if rc:
            say(o[-3000:])
            broken("the replay program does not build against /repo")
        out.append(f"{V}/native/target/{'release' if rel else 'debug'}/replay")
    return out


def limits(mem_gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        os.setpgrp()
    return f


def engine(inst, out, secs, fix=None, xcheck=None):
    """One run of the executor; returns its report."""
    cmd = [LSX, "--ir", IR, "--entry", inst["entry"], "--params", ",".join(map(str, inst.get("params", []))),
           "--secs", str(int(secs)), "--hard-secs", str(int(min(secs, inst.get("hard_secs", 300)))), "--out", out]
    if fix is not None:
        cmd += ["--fix", ",".join(f"{k}={v}" for k, v in fix)]
    if xcheck:
        cmd += ["--xcheck", xcheck]
    if os.path.exists(out):
        os.remove(out)
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, preexec_fn=limits(inst.get("mem_gb", 24)))
    with plock:
        procs.add(p)
    try:
        _, err = p.communicate(timeout=secs + 60)
    except subprocess.TimeoutExpired:
        kill(p)
        err = "timed out"
    with plock:
        procs.discard(p)
    try:
        return json.load(open(out))
    except Exception:
        return {"status": "inconclusive", "message": f"executor ended with {p.returncode}: {(err or '')[-400:]}", "violations": []}


def kill(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        p.kill()


def native(exe, inst, inputs):
    cmd = [exe, inst["entry"], ",".join(map(str, inst.get("params", []))) or "-"] + [f"{k}={v}" for k, v in inputs]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60, errors="replace")
    except subprocess.TimeoutExpired:
        return "hang", ""
    rc = p.returncode
    kind = "ok" if rc == 0 else "check" if rc == 1 else "assume" if rc == 3 else "panic"
    return kind, p.stdout


def replay_file(path):
    r = json.load(open(path))
    FEATURES[:] = ["--features", "example"] if r["entry"].startswith("h_c25") else []
    bad = False
    for exe in build_native():
        for _ in range(r.get("repeat", 1)):
            k, o = native(exe, r, r["inputs"])
            if k in ("check", "panic", "hang"):
                break
        say(f"{os.path.basename(os.path.dirname(exe))}: {k}\n{o.strip()}")
        bad |= k in ("check", "panic", "hang")
    return 1 if bad else 0


def main():
    if sys.argv[1:] == ["--setup"]:
        build_engine()
        build_ir()
        build_native()
        return 0
    if sys.argv[1] == "--replay":
        return replay_file(sys.argv[2])
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    if pid == "C25":
        FEATURES[:] = ["--features", "example"]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rng = random.Random(seed)
    insts = [i for i in INSTANCES[pid] if tier in i.get("tiers", ("quick", "thorough"))]
    work = f"{V}/build/{pid}"
    os.makedirs(work, exist_ok=True)
    os.makedirs(f"{V}/evidence", exist_ok=True)
    limit = LIMIT if tier == "quick" else float(os.environ.get("LSX_LIMIT", "7200"))
    build_engine()
    build_ir()
    exes = build_native()
    say(f"{pid}: {len(insts)} instances, tier {tier}, built in {time.time() - START:.0f} s")

    viol, problems, undecided, skipped, reports = [], [], [], [], []
    lock = threading.Lock()
    rc_file = f"{V}/evidence/{pid}.replay"
    for f in glob.glob(rc_file + "*"):
        os.remove(f)

    def confirm(inst, rep):
        """Replay the solver's counterexamples against the real code."""
        for v in rep["violations"]:
            hit = None
            for exe in exes:
                for _ in range(inst.get("repeat", 1)):
                    k, o = native(exe, inst, v["inputs"])
                    if k in ("check", "panic", "hang"):
                        hit = (exe, k, o)
                        break
                if hit:
                    break
            with lock:
                if hit:
                    path = f"{rc_file}.{len(viol)}.json"
                    json.dump({"property": pid, "entry": inst["entry"], "params": inst.get("params", []), "repeat": inst.get("repeat", 1), "inputs": v["inputs"],
                               "violation": {k: v[k] for k in ("kind", "code", "msg")}, "at": v["at"][:2000], "native": [os.path.relpath(hit[0], V), hit[1], hit[2][-2000:]],
                               "rerun": f"python3 /verif/check.py --replay {path}"}, open(path, "w"), indent=1)
                    viol.append((path, inst, v, hit))
                    stop.set()
                else:
                    (skipped if inst.get("optional") else undecided).append(f"{name(inst)}: counterexample {v['kind']} {v['code']} {v['msg'][:200]} with inputs {v['inputs']} does not reproduce on the real code")

    def name(i):
        return i["entry"] + "".join(f"/{p}" for p in i.get("params", []))

    def one(n, inst):
        if stop.is_set():
            return
        left = limit - (time.time() - START)
        if left < 5:
            with lock:
                (skipped if inst.get("optional") else undecided).append(f"{name(inst)}: no time left")
            return
        rep = engine(inst, f"{work}/{n}.json", left if tier == "thorough" else min(left, inst.get("secs", 1e9)), xcheck="z3" if tier == "thorough" else None)
        if stop.is_set() and rep["status"] != "violation":
            return
        if rep["status"] == "violation":
            confirm(inst, rep)
        elif rep["status"] != "ok":
            with lock:
                (skipped if inst.get("optional") else undecided).append(f"{name(inst)}: {rep['message'][:600]}")
        else:
            miss = [c for c in inst.get("covers", [1]) if str(c) not in rep["covers"]]
            if miss:
                with lock:
                    problems.append(f"{name(inst)}: vacuous, never reached cover {miss}")
        if rep.get("solver", {}).get("cross_disagree"):
            with lock:
                problems.append(f"{name(inst)}: the second solver disagrees")
        with lock:
            reports.append((inst, rep))
        say(f"  {name(inst)}: {rep['status']} in {rep.get('total_ms', 0) / 1000:.1f} s, {rep.get('solver', {}).get('queries', 0)} queries, {time.time() - START:.0f} s since start")

    def validate(n, inst, rep):
        """The executor on fixed inputs must do what the real code does natively: same outcome, same covers, same logged values."""
        inp = rep.get("inputs") or []
        for _ in range(40):
            fix = [(i, rng.randint(lo, hi)) for i, lo, hi in inp]
            k, o = native(exes[0], inst, fix)
            if k != "assume":
                break
        else:
            return None
        r = engine(inst, f"{work}/v{n}.json", 120, fix=fix)
        nc = sorted({int(x) for x in re.findall(r"^COVER (\d+)", o, re.M)})
        nl = [int(x) for x in re.findall(r"^LOG (\d+)", o, re.M)]
        ec = sorted(int(x) for x in r.get("covers", {}))
        same = (k == "ok") == (r["status"] == "ok") and nc == ec and nl == r.get("logs")
        return dict(entry=inst["entry"], params=inst.get("params", []), inputs=fix, native=k, executor=r["status"], covers=nc, logged=nl[:20], agree=same)

    jobs = min(8, max(1, len(insts)))
    with ThreadPoolExecutor(jobs) as ex:
        fs = {ex.submit(one, n, i) for n, i in enumerate(insts)}
        while fs:
            done, fs = wait(fs, timeout=1, return_when=FIRST_COMPLETED)
            for f in done:
                f.result()
            if stop.is_set() or time.time() - START > limit + 30:
                with plock:
                    for p in list(procs):
                        kill(p)
                if not stop.is_set():
                    stop.set()
                    undecided.append("time limit")

    traces = []
    if not viol and not problems and time.time() - START < limit - 60:
        pick = [(n, i, r) for n, (i, r) in enumerate(reports) if i.get("validate", True)]
        rng.shuffle(pick)
        with ThreadPoolExecutor(8) as ex:
            traces = [t for t in ex.map(lambda x: validate(*x), pick[:8]) if t]
        for t in traces:
            if not t["agree"]:
                problems.append(f"executor and real code differ on {t}")

    known = []
    for f in FINDINGS.get(pid, []):
        if any(str(f["cover"]) in r.get("covers", {}) for _, r in reports):
            known.append(f["what"])
    for k in known:
        say(f"KNOWN-FINDING: property={pid} {k}")

    fn, stubs, tot = {}, {}, {}
    for _, r in reports:
        for a, b in r.get("functions", []):
            fn[a] = fn.get(a, 0) + b
        for a, b in r.get("stubs", {}).items():
            stubs[a] = stubs.get(a, 0) + b
        for grp in ("solver", "counts"):
            for a, b in r.get(grp, {}).items():
                if isinstance(b, int):
                    tot[a] = max(tot.get(a, 0), b) if a.startswith("max") else tot.get(a, 0) + b
    own = sorted(demangle(a) for a in fn if "poker" in a)
    cov = dict(
        states=tot.get("forks", 0) + len(reports), transitions=tot.get("instructions", 0),
        traces_validated_against_impl=sum(1 for t in traces if t["agree"]),
        samples=traces[:5] or [dict(path=v[0], inputs=v[2]["inputs"]) for v in viol] or [dict(entry=i["entry"], params=i.get("params", []), status=r["status"]) for i, r in reports][:3] or ["none"],
        solver=dict(command="kissat (SAT on the bit-blasted encoding; UNSAT verdicts)", queries=tot.get("queries", 0), sat=tot.get("sat", 0), unsat=tot.get("unsat", 0), unknown=tot.get("unknown", 0),
                    time_ms=tot.get("ms", 0), slowest_ms=tot.get("max_ms", 0), largest_vars=tot.get("max_vars", 0), largest_clauses=tot.get("max_clauses", 0),
                    second_solver_agreed=tot.get("cross_agree", 0), second_solver_unknown=tot.get("cross_unknown", 0)),
        checks=dict(folded_to_constant=tot.get("checks_const", 0), by_solver=tot.get("checks_solver", 0), by_abstraction=tot.get("checks_abs", 0), by_cut=tot.get("checks_cut", 0), panics_shown_unreachable=tot.get("panics_excluded", 0), address_checks=tot.get("addr_checks", 0)),
        encoded=dict(forks=tot.get("forks", 0), merges=tot.get("merges", 0), terms=tot.get("terms", 0), functions_of_poker=own, functions_in_all=len(fn), stubs=stubs),
        instances=[dict(entry=i["entry"], params=i.get("params", []), bounds=i.get("bounds", ""), status=r["status"], inputs=len(r.get("inputs", [])), queries=r.get("solver", {}).get("queries", 0), ms=r.get("total_ms", 0), covers=r.get("covers", {})) for i, r in reports],
        shared_objects_written=sorted({a for _, r in reports for a in r.get("shared_written", [])}), known_findings=known, inconclusive=problems[:20], not_decided=(undecided + skipped)[:40])
    json.dump(dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=ASSUMPTIONS, wall_s=round(time.time() - START, 1), violations=len(viol)),
              open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    if viol:
        for path, inst, v, hit in viol[:3]:
            say(f"{name(inst)}: {v['kind']} {v['code']} {v['msg'][:200]}\n  inputs {v['inputs']}\n  real code: {hit[1]}: {hit[2].strip()[-300:]}")
            say(f"VIOLATION property={pid} replay={path}")
        return 1
    for p in skipped[:20]:
        say("NOT DECIDED (beyond the core bounds) " + p)
    for p in undecided[:20]:
        say("NOT DECIDED (core bounds) " + p)
    if undecided and not any(r["status"] == "ok" for _, r in reports):
        problems.append("nothing was decided")
    if problems:
        for p in problems[:20]:
            say("INCONCLUSIVE " + p)
        return 3
    say(f"{pid}: held on everything explored, {tot.get('queries', 0)} queries, {time.time() - START:.0f} s")
    return 0


def demangle(n):
    """Readable path of a legacy- or v0-mangled name."""
    if n.startswith("_ZN"):
        o, i = [], 3
        while i < len(n) and n[i].isdigit():
            m = re.match(r"\d+", n[i:]).group()
            i += len(m)
            o.append(n[i:i + int(m)])
            i += int(m)
        return "::".join(x for x in o if not re.fullmatch(r"h[0-9a-f]{16}", x))
    o, i = [], 2
    for m in re.finditer(r"(?<![0-9a-zA-Z_])?(\d+)_?([A-Za-z_][A-Za-z0-9_]*)", n):
        k = int(m.group(1))
        if 0 < k <= len(m.group(2)):
            o.append(m.group(2)[:k])
    return "::".join(o) or n


if __name__ == "__main__":
    sys.exit(main())
