#!/usr/bin/env python3
"""D01 (results depend only on the arguments): three monitors.

1. native: the same calls under other circumstances (after other calls, in
   reused memory, on several threads, inside and after callbacks);
2. two fresh processes observe one input stream, one of them backwards and in
   another environment (variables, locale, directory, stack limit); every log
   has to agree;
3. ThreadSanitizer build of the same workload: no data race, no result changed.

usage: d01.py quick|thorough | replay FILE
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from z01 import HARNESS, TARGET, TRIPLE, SEED, WORKERS, EVID, REPLAY, HERE, Job, cases, env, native_exe, run, wait

TSAN_ENV = dict(RUSTFLAGS="-Awarnings -Zsanitizer=thread --cfg plain_alloc",
                TSAN_OPTIONS="exitcode=77:halt_on_error=1:report_signal_unsafe=0")


def tsan_exe():
    r = run(["cargo", "+nightly", "build", "--offline", "--quiet", "-Zbuild-std", "--target", TRIPLE,
             "--target-dir", os.path.join(TARGET, "tsan")], env(**TSAN_ENV))
    if r.returncode != 0:
        return None, r.stderr[-1500:]
    exe = os.path.join(TARGET, "tsan", TRIPLE, "debug", "vharness")
    # Some kernels do not let the sanitizer map its shadow memory.
    p = run([exe, "list"], env(**TSAN_ENV))
    if p.returncode != 0:
        return None, p.stderr[-500:]
    return exe, ""


def violation(tool, index, message, detail, tier):
    os.makedirs(REPLAY, exist_ok=True)
    path = os.path.join(REPLAY, f"D01-{SEED}-{tool}-{index}.json")
    with open(path, "w") as f:
        json.dump({"property": "D01", "tier": tier, "seed": SEED, "tool": tool, "index": int(index),
                   "message": message, "report": detail[-4000:]}, f, indent=2)
        f.write("\n")
    print(f"  {tool}: case {index}: {message}")
    print(f"VIOLATION property=D01 replay={path}")


def observed(exe, frm, count, scratch):
    """The hashes of two fresh processes: forwards, and backwards elsewhere."""
    other = env(LC_ALL="tr_TR.UTF-8", LANG="tr_TR.UTF-8", TZ="Asia/Kathmandu", HOME="/nonexistent", RUST_BACKTRACE="0",
                COLUMNS="3", PADDING="x" * 3001)
    ps = [subprocess.Popen([exe, "observe", str(frm), str(count), order], cwd=cwd, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True)
          for order, cwd, e in (("forward", HARNESS, env()), ("backward", scratch, other))]
    outs = [p.communicate(timeout=500)[0] for p in ps]
    return [dict(l.split(" ", 1) for l in o.splitlines()) for o in outs], [p.returncode for p in ps]


def replay(path):
    with open(path) as f:
        d = json.load(f)
    os.environ["VERIF_SEED"] = str(d["seed"])
    tool, idx = d.get("tool", "native"), str(d["index"])
    exe = native_exe()
    e = env(VERIF_SEED=str(d["seed"]))
    if tool == "native":
        return subprocess.run([exe, "show", "D01", idx], env=e).returncode
    if tool == "process":
        with tempfile.TemporaryDirectory(prefix="d01-") as scratch:
            frm = int(idx) // 2000 * 2000
            (a, b), _ = observed(exe, frm, 2000, scratch)
        subprocess.run([exe, "observed", idx], env=e)
        bad = a.get(idx) != b.get(idx)
        print("the two processes", "differ" if bad else "agree", f"on case {idx}: {a.get(idx)} / {b.get(idx)}")
        return 1 if bad else 0
    exe, why = tsan_exe()
    if exe is None:
        sys.exit(why)
    rc = 0
    for _ in range(20):  # a race needs its schedule
        rc = subprocess.run([exe, "show", "D01", idx], env={**e, **TSAN_ENV}).returncode
        if rc:
            break
    return 1 if rc else 0


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    tier = sys.argv[1] if len(sys.argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    quick = tier != "thorough"
    start = time.monotonic()
    scratch = tempfile.mkdtemp(prefix="d01-")
    notes, bad = [], 0
    try:
        exe = native_exe()
        # 1. native
        r = run([exe, "check", "D01", tier], env())
        sys.stdout.write(r.stdout)
        if r.returncode == 1:
            bad += 1
        elif r.returncode != 0:
            print(r.stderr[-2000:], file=sys.stderr)
            print("INCONCLUSIVE property=D01: native run")
            return 2
        with open(os.path.join(EVID, "D01.json")) as f:
            ev = json.load(f)

        # 2. fresh processes
        n, per = (24 if quick else 400), 2000
        compared = 0
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(max(1, WORKERS // 2)) as ex:
            results = list(ex.map(lambda k: observed(exe, k * per, per, scratch), range(n)))
        for k, ((a, b), codes) in enumerate(results):
            if any(codes) or len(a) != per or len(b) != per:
                notes.append(f"observing processes of block {k} ended with {codes}")
                continue
            diff = [i for i in a if a[i] != b.get(i)]
            compared += per
            if diff and bad < 3:
                bad += 1
                violation("process", diff[0], f"{len(diff)} of {per} cases observed differently by two fresh processes, one of them backwards and in another environment",
                          f"{a[diff[0]]} / {b[diff[0]]}", tier)

        # 3. ThreadSanitizer
        tsan, why = tsan_exe()
        seen, kinds = 0, {}
        if tsan is None:
            notes.append("the ThreadSanitizer build failed: " + why[-300:])
        else:
            cnt = 6000 if quick else 200000
            jobs = [Job(scratch, f"tsan-{w}", [tsan, "batch", str(w * cnt), str(cnt), "D01"], env(**TSAN_ENV)) for w in range(max(2, WORKERS // 2))]
            stopped = wait(jobs, 60 if quick else 300)
            if any(stopped):
                notes.append("ThreadSanitizer batches were stopped at the time limit")
            for j in jobs:
                out, err = j.texts()
                cs = cases(out)
                seen += len(cs)
                last = (cs or [("D01", "0")])[-1][1]
                m = re.search(r"WARNING: ThreadSanitizer: ([^\n]*)", err)
                if m:
                    kinds[m.group(1)] = kinds.get(m.group(1), 0) + 1
                    if bad < 4:
                        bad += 1
                        violation("tsan", last, m.group(0), err, tier)
                for f in re.finditer(r"^FAIL D01 (\d+) (input .*)\n  (.*)$", out, re.M):
                    if bad < 4:
                        bad += 1
                        violation("tsan", f.group(1), f.group(3), f.group(2), tier)
                if j.p.returncode not in (0, 1, 77) and not any(stopped):
                    notes.append(f"a ThreadSanitizer batch ended with {j.p.returncode}: {err[-200:]}")
        cov = ev["coverage"]
        cov["native_cases"] = cov["evaluations"]
        cov["process_pairs"] = n
        cov["cases_compared_between_processes"] = compared
        cov["tsan_cases"] = seen
        cov["tsan_reports"] = kinds
        cov["evaluations"] += compared + seen
        cov["notes"] = notes
        ev["tier"] = "quick" if quick else "thorough"
        ev["wall_s"] = round(time.monotonic() - start, 3)
        ev["violations"] = bad
        ev["assumptions"] = ["a hidden state that influences results shows in one of the circumstances produced",
                             "ThreadSanitizer sees the races of the schedules that occurred, not of all schedules"]
        with open(os.path.join(EVID, "D01.json"), "w") as f:
            json.dump(ev, f, indent=2, ensure_ascii=False)
            f.write("\n")
        print(f"D01: native {cov['native_cases']} cases, {compared} compared between processes, ThreadSanitizer {seen} {notes}")
        return 1 if bad else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
