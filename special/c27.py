#!/usr/bin/env python3
"""C27: the touch-everything workload and the other monitors' workloads under Miri and AddressSanitizer."""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.environ.get("VERIF_SEED", "1").strip() or "1"
TIER = os.environ.get("VERIF_TIER", "quick")
TH = TIER == "thorough"
NATIVE, ASAN, MIRI = V + "/target", V + "/target-asan", V + "/target-miri"
TRIPLE = "x86_64-unknown-linux-gnu"
BINS = ["touch", "c10", "c19", "c22", "c23", "c28", "c20", "c03"]
if TH: BINS += ["c06", "c08", "c09", "c14", "c15", "c17", "c21", "c24"]
T0 = time.time()
LOGS = V + "/replays"

def env(**k):
    e = dict(os.environ); e.update(CARGO_NET_OFFLINE="true", VERIF_DIR=V, RUST_MIN_STACK="67108864"); e.update(k)
    for x in ("VERIF_REPLAY", "VERIF_ONLY"): e.pop(x, None)
    return e

def sh(cmd, log, e, timeout):
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, cwd=V + "/harness", stdout=f, stderr=subprocess.STDOUT, env=e, start_new_session=True)
        try: return p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            import signal
            os.killpg(p.pid, signal.SIGKILL); p.wait(); return None

ASAN_ENV = dict(CARGO_TARGET_DIR=ASAN, RUSTFLAGS="-Zsanitizer=address -Cforce-frame-pointers=yes", ASAN_OPTIONS="detect_leaks=0:exitcode=77:abort_on_error=0:detect_stack_use_after_return=1:symbolize=0")
MIRI_ENV = dict(CARGO_TARGET_DIR=MIRI, MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-symbolic-alignment-check")

def build_native(): return sh(["cargo", "build", "--release", "--offline", "--locked", "--bin", "touch"], LOGS + "/c27-build-native.log", env(CARGO_TARGET_DIR=NATIVE), 800)
def build_asan():
    c = ["cargo", "+nightly", "build", "--release", "--offline", "--locked", "--target", TRIPLE]
    for b in BINS: c += ["--bin", b]
    return sh(c, LOGS + "/c27-build-asan.log", env(**ASAN_ENV), 800)
def miri(args, log, timeout): return sh(["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--release", "--bin", "touch", "--"] + [str(a) for a in args], log, env(**MIRI_ENV), timeout)
def build_miri(): return miri([1, 0, 0, "mini"], LOGS + "/c27-build-miri.log", 800)

def inconclusive(m):
    print("INCONCLUSIVE: " + m); sys.exit(2)

def main():
    os.makedirs(LOGS, exist_ok=True); os.makedirs(V + "/evidence", exist_ok=True)
    ex = ThreadPoolExecutor(8)
    b = [ex.submit(f) for f in (build_native, build_asan, build_miri)]
    for f, n in zip(b, ("native", "asan", "miri")):
        if f.result() != 0:
            txt = open(LOGS + "/c27-build-%s.log" % n).read()
            if n == "miri" and "Undefined Behavior" in txt: continue
            print("\n".join(re.findall(r"(?ms)^error.*?(?=^\s*$)", txt)[:4])[:3000])
            if sys.argv[1] == "setup": sys.exit(1)
            inconclusive("the %s build failed" % n)
    if sys.argv[1] == "setup": return
    bad, unknown, ev, cases = [], [], {}, set()
    def count(k, n=1): ev[k] = ev.get(k, 0) + n
    jobs = []
    # 1. natively: out-of-range requests are refused
    n = 24000 if TH else 2400
    for i in range(4): jobs.append(("native", "touch%d" % i, ["%s/release/touch" % NATIVE, SEED, str(n // 4 * i), str(n // 4 * (i + 1))], {}, 600))
    # 2. AddressSanitizer: the same and the other monitors' workloads
    n = 12000 if TH else 1200
    for i in range(3): jobs.append(("asan", "touch%d" % i, ["%s/%s/release/touch" % (ASAN, TRIPLE), SEED, str(n // 3 * i + 50000), str(n // 3 * (i + 1) + 50000)], ASAN_ENV, 700))
    for x in BINS[1:]:
        # small scale in the quick tier; the full quick workload of each monitor in the thorough one
        sc = {"c10": 0.15, "c19": 0.15, "c22": 0.15, "c23": 0.1, "c28": 0.15, "c20": 0.15, "c03": 0.05}.get(x, 0.3)
        jobs.append(("asan", x, ["%s/%s/release/%s" % (ASAN, TRIPLE, x)], dict(ASAN_ENV, VERIF_TIER="quick", VERIF_SCALE=str(1.0 if TH else sc), VERIF_THREADS="2", VERIF_EVIDENCE="/dev/null"), 1800 if TH else 600))
    # 3. Miri
    w = 8
    m = 400 if TH else 96
    mj = [("miri", "mini%d" % i, [SEED, m // w * i, m // w * (i + 1), "mini"], {}, 3600 if TH else 700) for i in range(w)]
    longs = range(5) if TH else [0, 2]
    mj = [("miri", "long%d" % i, [SEED, i, i + 1, "long"], {}, 3600 if TH else 700) for i in longs] + mj
    def run(j):
        kind, name, cmd, e, to = j
        log = "%s/c27-%s-%s.log" % (LOGS, kind, name)
        rc = miri(cmd, log, to) if kind == "miri" else sh(cmd, log, env(**e), to)
        return j, log, rc
    for j, log, rc in ex.map(run, mj + jobs):
        kind, name = j[0], j[1]
        txt = open(log, errors="replace").read()
        for l in txt.splitlines():
            f = l.split()
            if l.startswith("@ ok "):
                count("%s: %s" % (kind, f[2])); count("oracle observations", int(f[4])); cases.add((kind, f[2], f[3]))
            elif l.startswith("@ bad "): bad.append((kind, name, l[6:], log))
            elif re.match(r"C\d\d: \d+ executions", l):
                x = re.match(r"(C\d\d): (\d+) executions, (\d+) oracle", l)
                count("%s: %s workload executions" % (kind, x.group(1)), int(x.group(2))); cases.add((kind, x.group(1), SEED))
        if "ERROR: AddressSanitizer" in txt or "AddressSanitizer:DEADLYSIGNAL" in txt:
            bad.append((kind, name, "AddressSanitizer: " + next((l for l in txt.splitlines() if "ERROR: AddressSanitizer" in l or "DEADLYSIGNAL" in l), "")[:300], log))
        elif "Undefined Behavior" in txt:
            bad.append((kind, name, "Miri: " + next(l for l in txt.splitlines() if "Undefined Behavior" in l)[:300], log))
        elif rc is None: unknown.append("%s %s did not finish in time" % (kind, name))
        elif kind == "miri" and rc != 0: unknown.append("miri %s ended with %s: %s" % (name, rc, (re.findall(r"(?m)^error.*", txt) or [""])[0][:200]))
        elif rc in (134, 139, 132, 135, -6, -11, -4, -7): bad.append((kind, name, "the process died with status %s" % rc, log))
        elif name.startswith("touch") and "@ end" not in txt: unknown.append("%s %s ended with %s" % (kind, name, rc))
        elif not name.startswith("touch") and kind == "asan" and rc not in (0, 1): unknown.append("asan %s ended with %s" % (name, rc))
    total = sum(v for k, v in ev.items() if k != "oracle observations")
    out = dict(property="C27", tier="thorough" if TH else "quick", seed=int(SEED), level="exploration",
        coverage=dict(evaluations=total, distinct_nontrivial=len(cases), oracle_observations=ev.get("oracle observations", 0),
            rule="a case is one piece of the touch-everything workload, or one other monitor's workload, executed under Miri, AddressSanitizer or natively; the sanitizer judges every memory access, the workload judges refusals",
            events=ev, samples=["%s %s %s" % c for c in sorted(cases)[:8]]),
        assumptions=["aliasing-model checks are off: the linked-list dependency itself does not conform to stacked borrows", "layout assumptions of the transmutes are judged for the compilers used", "memory leaks are not violations"],
        wall_s=round(time.time() - T0, 1), violations=len(bad))
    json.dump(out, open(V + "/evidence/C27.json", "w"), indent=1)
    print("C27: %d executions, %d oracle observations, %d distinct cases, %.1fs" % (total, ev.get("oracle observations", 0), len(cases), time.time() - T0))
    if bad:
        for i, (kind, name, m, log) in enumerate(bad[:5]):
            p = "%s/C27-%s-%s.json" % (LOGS, kind, name)
            json.dump(dict(property="C27", seed=SEED, tier=TIER, message=m, log=log, report=open(log, errors="replace").read()[-6000:]), open(p, "w"), indent=1)
            print("  %s %s: %s" % (kind, name, m[:600]))
            print("VIOLATION property=C27 replay=%s" % p)
        sys.exit(1)
    if unknown: inconclusive("; ".join(unknown)[:800])
main()
