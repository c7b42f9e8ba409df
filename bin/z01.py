#!/usr/bin/env python3
"""Z01 (memory safety): one workload under three kinds of monitors.

1. native build: allocator monitor (layout of every deallocation, double free,
   poisoned freed memory, leaks per case), UTF-8 and containment of every text;
2. AddressSanitizer build of the same harness, all properties' workloads;
3. Miri (Stacked Borrows; thorough also Tree Borrows) on short inputs.

usage: z01.py quick|thorough | replay FILE
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HARNESS, "target")
TRIPLE = "x86_64-unknown-linux-gnu"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
WORKERS = max(1, min(8, os.cpu_count() or 1))
EVID = os.path.join(HERE, "evidence")
REPLAY = os.path.join(EVID, "replay")


def env(**kw):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", VERIF_SEED=str(SEED), VERIF_DIR=HERE, VERIF_TRACE="1")
    e.setdefault("RUSTFLAGS", "-Awarnings")
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(kw)
    return e


def run(cmd, e, timeout=None):
    return subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          timeout=timeout, text=True, errors="replace")


def native_exe():
    r = run(["cargo", "build", "--offline", "--quiet"], env())
    if r.returncode != 0:
        print(r.stderr[-3000:], file=sys.stderr)
        sys.exit(2)
    return os.path.join(TARGET, "debug", "vharness")


ASAN_ENV = dict(RUSTFLAGS="-Awarnings -Zsanitizer=address --cfg plain_alloc",
                ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=1")


def asan_exe():
    r = run(["cargo", "+nightly", "build", "--offline", "--quiet", "--target", TRIPLE,
             "--target-dir", os.path.join(TARGET, "asan")], env(**ASAN_ENV))
    if r.returncode != 0:
        return None, r.stderr[-1500:]
    return os.path.join(TARGET, "asan", TRIPLE, "debug", "vharness"), ""


MIRI_BASE = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--target-dir", os.path.join(TARGET, "miri"), "--"]
MIRI_FLAGS = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"


class Job:
    """A batch process whose output goes to files."""

    def __init__(self, scratch, name, cmd, e):
        self.name = name
        self.out = os.path.join(scratch, name + ".out")
        self.err = os.path.join(scratch, name + ".err")
        self.cmd = cmd
        with open(self.out, "wb") as o, open(self.err, "wb") as r:
            self.p = subprocess.Popen(cmd, cwd=HARNESS, env=e, stdout=o, stderr=r, start_new_session=True)

    def stop(self):
        import signal
        if self.p.poll() is None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.p.wait()
            return True
        return False

    def texts(self):
        with open(self.out, errors="replace") as o, open(self.err, errors="replace") as r:
            return o.read(), r.read()


def wait(jobs, cap):
    end = time.monotonic() + cap
    while time.monotonic() < end and any(j.p.poll() is None for j in jobs):
        time.sleep(0.1)
    return [j.stop() for j in jobs]


def cases(out):
    return re.findall(r"^CASE (\w+) (\d+)$", out, re.M)


def violation(tool, prop, index, message, detail, tier):
    os.makedirs(REPLAY, exist_ok=True)
    path = os.path.join(REPLAY, f"Z01-{SEED}-{tool}-{prop}-{index}.json")
    with open(path, "w") as f:
        json.dump({"property": "Z01", "tier": tier, "seed": SEED, "tool": tool, "workload": prop, "index": int(index),
                   "message": message, "report": detail[-4000:]}, f, indent=2)
        f.write("\n")
    print(f"  {tool}: workload {prop} case {index}: {message}")
    print(f"VIOLATION property=Z01 replay={path}")


def judge(tool, out, err, tier):
    """Reports of the tool in one finished or stopped process."""
    found = []
    last = (cases(out) or [("Z01", "0")])[-1]
    if tool == "asan":
        m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", err)
        if m and "out-of-memory" not in m.group(1) and "allocation-size-too-big" not in m.group(1):
            found.append((last, m.group(0), err))
    else:
        m = re.search(r"error: Undefined Behavior: ([^\n]*)", err)
        if m:
            found.append((last, m.group(0), err))
    for m in re.finditer(r"^FAIL Z01 (\d+) (input .*)\n  (.*)$", out, re.M):
        found.append((("Z01", m.group(1)), m.group(3), m.group(2)))
    for (prop, idx), msg, detail in found[:2]:
        violation(tool, prop, idx, msg, detail, tier)
    return len(found)


def replay(path):
    with open(path) as f:
        d = json.load(f)
    global SEED
    SEED = d["seed"]
    idx, prop = str(d["index"]), d.get("workload", "Z01")
    tool = d.get("tool", "native")
    if tool == "native":
        return subprocess.run([native_exe(), "show", prop, idx], env=env()).returncode
    if tool == "asan":
        exe, why = asan_exe()
        if exe is None:
            sys.exit(why)
        return subprocess.run([exe, "show", prop, idx], env=env(**ASAN_ENV)).returncode
    return subprocess.run(MIRI_BASE + ["show", prop, idx], cwd=HARNESS, env=env(MIRIFLAGS=MIRI_FLAGS)).returncode


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    tier = sys.argv[1] if len(sys.argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    quick = tier != "thorough"
    start = time.monotonic()
    scratch = tempfile.mkdtemp(prefix="z01-")
    notes, bad = [], 0
    try:
        exe = native_exe()
        # Miri is started first: it runs beside the others.
        miri, miri_total = [], 0
        per = 100000
        probe = run(MIRI_BASE + ["selftest-miri"], env(MIRIFLAGS=MIRI_FLAGS), timeout=300)
        miri_ok = "miri-ready" in probe.stdout
        if not miri_ok:
            notes.append("Miri did not run: " + probe.stderr[-300:])
        asan, why = asan_exe()
        if asan is None:
            notes.append("the AddressSanitizer build failed: " + why[-300:])

        # 1. native
        r = run([exe, "check", "Z01", tier], env())
        sys.stdout.write(r.stdout)
        if r.returncode == 1:
            bad += 1
        elif r.returncode != 0:
            print(r.stderr[-2000:], file=sys.stderr)
            print("INCONCLUSIVE property=Z01: native run")
            return 2
        with open(os.path.join(EVID, "Z01.json")) as f:
            ev = json.load(f)

        # 2. AddressSanitizer
        asan_cases = {}
        if asan:
            ids = run([exe, "list"], env()).stdout.split()
            n = (4000 if quick else 150000)
            small = (400 if quick else 8000)
            jobs = []
            for w in range(WORKERS):
                others = [i for k, i in enumerate(x for x in ids if x != "Z01") if k % WORKERS == w]
                jobs.append(Job(scratch, f"asan-own-{w}", [asan, "batch", str(w * n), str(n), "Z01"], env(**ASAN_ENV)))
                jobs.append(Job(scratch, f"asan-rest-{w}", [asan, "batch", "0", str(small)] + others, env(**ASAN_ENV)))
            stopped = wait(jobs, 90 if quick else 300)
            for j in jobs:
                out, err = j.texts()
                bad += judge("asan", out, err, tier)
                for p, _ in cases(out):
                    asan_cases[p] = asan_cases.get(p, 0) + 1
            if any(stopped):
                notes.append("some AddressSanitizer batches were stopped at the time limit")

        # 3. Miri
        miri_cases, miri_distinct, modes = 0, set(), []
        if miri_ok:
            rounds = [("stacked", MIRI_FLAGS, 60)] if quick else \
                [("stacked", MIRI_FLAGS, 240), ("tree", MIRI_FLAGS + " -Zmiri-tree-borrows", 150)]
            for name, flags, cap in rounds:
                jobs = [Job(scratch, f"miri-{name}-{w}",
                            MIRI_BASE + ["batch", str((SEED * 1000003 + w) * per), str(per), "Z01"], env(MIRIFLAGS=flags))
                        for w in range(WORKERS)]
                wait(jobs, cap)
                n = 0
                for j in jobs:
                    out, err = j.texts()
                    bad += judge("miri", out, err, tier)
                    c = cases(out)
                    n += len(c)
                    miri_distinct.update(c)
                miri_cases += n
                modes.append(f"{name}: {n} cases")
                if n == 0:
                    notes.append(f"Miri ({name}) executed no case")

        cov = ev["coverage"]
        cov["native_cases"] = cov["evaluations"]
        cov["evaluations"] = cov["evaluations"] + sum(asan_cases.values()) + miri_cases
        cov["asan_cases_per_workload"] = asan_cases
        cov["miri_cases"] = miri_cases
        cov["miri_distinct_cases"] = len(miri_distinct)
        cov["miri_modes"] = modes
        cov["notes"] = notes
        ev["tier"] = "quick" if quick else "thorough"
        ev["wall_s"] = round(time.monotonic() - start, 3)
        ev["violations"] = bad
        ev["assumptions"] = ["what the tools do not report on these executions is fine: red zones, layout checks and the borrow models are incomplete",
                             "the unsafe code of the crate is reached through its public API"]
        with open(os.path.join(EVID, "Z01.json"), "w") as f:
            json.dump(ev, f, indent=2, ensure_ascii=False)
            f.write("\n")
        print(f"Z01: native {cov['native_cases']} cases, AddressSanitizer {sum(asan_cases.values())}, Miri {miri_cases} ({', '.join(modes)}) {notes}")
        return 1 if bad else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
