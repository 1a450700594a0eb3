#!/usr/bin/env python3
"""Builds the monitor for one property from /repo's current working tree and runs it.

usage: run.py <property id> [--case <workload> <index>]

Exit 0: held on everything explored. Exit 1: violated (VIOLATION line). Exit 2: no verdict.
A monitor process that dies (abort, stack overflow, out of memory) is not a verdict by itself: the cases that were
in flight are re-run one by one in a process of their own, and only a case that kills its process again is reported.
"""
import json, os, re, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))

BINS = json.load(open(os.path.join(ROOT, "bins.json")))


def env():
    e = dict(os.environ)
    for line in open("/opt/vp/env.sh"):
        m = re.match(r"export (\w+)=(.*)$", line.strip())
        if m and m.group(1) not in ("PATH", "CARGO_TARGET_DIR"):
            e[m.group(1)] = m.group(2).strip('"')
    e["PATH"] = e.get("PATH", "") + ":/usr/local/bin:/root/.cargo/bin"
    e["CARGO_TARGET_DIR"] = os.path.join(ROOT, "target")
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTFLAGS"] = "--cap-lints warn"
    e["VERIF_ROOT"] = ROOT
    e.setdefault("VERIF_SEED", "1")
    e.setdefault("VERIF_TIER", "quick")
    e["RUST_BACKTRACE"] = "0"
    return e


def build(crate, binary, e):
    p = subprocess.run(
        ["cargo", "build", "--offline", "--quiet", "--locked"] + (["--bins"] if crate == "harness3" else ["--bin", binary]),
        cwd=os.path.join(ROOT, crate), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-6000:])
        print("INCONCLUSIVE: the monitor does not build against /repo's working tree")
        sys.exit(2)
    return os.path.join(ROOT, "target", "debug", binary)


def evidence_for_crash(pid, e, what, wall):
    path = os.path.join(ROOT, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    json.dump({
        "property": pid, "tier": e["VERIF_TIER"], "seed": int(e["VERIF_SEED"]), "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1,
                     "rule": "the monitor process died; the cases in flight were re-run in isolation",
                     "samples": [what]},
        "wall_s": wall, "violations": 1}, open(path, "w"), indent=1)


def main():
    pid = sys.argv[1]
    rest = sys.argv[2:]
    e = env()
    crate, binary = BINS[pid]
    exe = build(crate, binary, e)
    start = time.time()
    limit = 760 if e["VERIF_TIER"] == "quick" else 6 * 3600
    try:
        p = subprocess.run([exe, pid] + rest, env=e, timeout=limit)
    except subprocess.TimeoutExpired:
        print(f"INCONCLUSIVE property={pid} the monitor did not finish within {limit} s")
        sys.exit(2)
    rc = p.returncode
    if rc in (0, 1, 2):
        sys.exit(rc)
    if rest:
        sys.exit(1)
    print(f"monitor process ended with {rc}; re-running the cases in flight one by one")
    slots = []
    try:
        raw = open(os.path.join(ROOT, "work", pid + ".progress")).read()
        for line in raw.split("\n"):
            f = line.split()
            if len(f) == 2 and f[0] != "-" and (f[0], f[1]) not in slots:
                slots.append((f[0], f[1]))
    except OSError:
        pass
    for (w, i) in slots:
        try:
            q = subprocess.run([exe, pid, "--case", w, i], env=e, timeout=120, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace")
            code, out = q.returncode, q.stdout
        except subprocess.TimeoutExpired:
            continue
        if code not in (0, 2):
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            path = os.path.join(ROOT, "replays", f"{pid}-crash.txt")
            how = f"killed by signal {signal.Signals(-code).name}" if code < 0 else f"exit code {code}"
            with open(path, "w") as f:
                f.write(f"property: {pid}\nworkload: {w}\ncase: {i}\nseed: {e['VERIF_SEED']}\ntier: {e['VERIF_TIER']}\n"
                        f"rerun: VERIF_SEED={e['VERIF_SEED']} VERIF_TIER={e['VERIF_TIER']} python3 {ROOT}/run.py {pid} --case {w} {i}\n"
                        f"violation: the process was {how}\n---- output ----\n{out[-20000:]}\n")
            print(f"violation [{w} #{i}]: the process was {how}")
            print(f"VIOLATION property={pid} replay={path}")
            evidence_for_crash(pid, e, f"{w} #{i}: {how}", time.time() - start)
            sys.exit(1)
    print(f"INCONCLUSIVE property={pid} the monitor died ({rc}) and no case reproduces it")
    sys.exit(2)


main()
