#!/usr/bin/env python3
"""Z02 (build configurations): the library is built with every feature set and
in both profiles, the same input stream is run through each build, and the
recorded observations have to be identical.

usage: z02.py quick|thorough | replay FILE
"""
import concurrent.futures, json, os, re, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OBS = os.path.join(HERE, "obs")
HARNESS = os.path.join(HERE, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
WORKERS = max(1, min(8, os.cpu_count() or 1))
EVID = os.path.join(HERE, "evidence")
REPLAY = os.path.join(EVID, "replay")
REC = 24

CONFIGS = {
    "std-dev": ("std", False),
    "std-release": ("std", True),
    "std-memchr-dev": ("std,memchr", False),
    "std-memchr-release": ("std,memchr", True),
    "alloc-dev": ("alloc", False),
    "alloc-memchr-release": ("alloc,memchr", True),
    "bare-dev": ("", False),
    "bare-release": ("", True),
    "bare-memchr-dev": ("memchr", False),
}
BASE = "std-dev"


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", VERIF_SEED=str(SEED), VERIF_DIR=HERE, RUSTFLAGS="-Awarnings")
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "VERIF_TRACE"):
        e.pop(k, None)
    return e


def build(cwd, target, features, release):
    cmd = ["cargo", "build", "--offline", "--quiet", "--target-dir", target]
    if features:
        cmd += ["--features", features]
    if release:
        cmd += ["--release"]
    r = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    return (r.returncode == 0, r.stderr[-1500:])


def obs_exe(name):
    return os.path.join(OBS, "target", name, "release" if CONFIGS[name][1] else "debug", "vobs")


def build_all(names):
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fs = {n: ex.submit(build, OBS, os.path.join(OBS, "target", n), *CONFIGS[n]) for n in names}
        return {n: f.result() for n, f in fs.items()}


def show(name, i):
    r = subprocess.run([obs_exe(name), "show", str(i)], env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, errors="replace", timeout=60)
    return r.stdout


def first_difference(a, b):
    la, lb = a.splitlines(), b.splitlines()
    for x, y in zip(la, lb):
        if x != y:
            return x, y
    return (la[len(lb):] or ["(nothing)"])[0], (lb[len(la):] or ["(nothing)"])[0]


def violation(tier, index, other, message, detail):
    os.makedirs(REPLAY, exist_ok=True)
    path = os.path.join(REPLAY, f"Z02-{SEED}-{other}-{index}.json")
    with open(path, "w") as f:
        json.dump({"property": "Z02", "tier": tier, "seed": SEED, "index": index, "builds": [BASE, other],
                   "message": message, "report": detail}, f, indent=2, ensure_ascii=False)
        f.write("\n")
    print(f"  case {index}, builds {BASE} and {other}: {message}")
    print(f"VIOLATION property=Z02 replay={path}")


def compare_case(i, other):
    """Differing observation lines of one case, restricted to what both builds have."""
    a, b = show(BASE, i), show(other, i)
    if "ALLOC\n" not in b:
        a = a.split("ALLOC\n")[0]
    if a.rstrip() == b.rstrip():
        return None
    return first_difference(a, b)


def replay(path):
    global SEED
    with open(path) as f:
        d = json.load(f)
    SEED = d["seed"]
    _, other = d["builds"]
    if other not in CONFIGS:
        print(d["report"])
        return 1
    for n, (ok, err) in build_all([BASE, other]).items():
        if not ok:
            sys.exit(f"{n}: {err}")
    diff = compare_case(d["index"], other)
    if diff is None:
        print("the builds agree on this case")
        return 0
    print(show(BASE, d["index"]).splitlines()[0])
    print(f"{BASE}: {diff[0]}\n{other}: {diff[1]}")
    return 1


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    tier = sys.argv[1] if len(sys.argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    quick = tier != "thorough"
    tier = "quick" if quick else "thorough"
    per = 16000 if quick else 400000  # cases per worker and build
    start = time.monotonic()
    scratch = tempfile.mkdtemp(prefix="z02-")
    bad, notes = 0, []
    try:
        for n, (ok, err) in build_all(CONFIGS).items():
            if not ok:
                print(f"the {n} build fails:\n{err}", file=sys.stderr)
                print(f"INCONCLUSIVE property=Z02: the {n} build fails")
                return 2

        def stream(name, w):
            out = os.path.join(scratch, f"{name}-{w}")
            p = subprocess.run([obs_exe(name), "stream", str(w * per), str(per), out], env=env(),
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=600)
            return p.returncode

        def compare(names):
            nonlocal bad
            for name in names:
                for w in range(WORKERS):
                    if bad >= 3:
                        return
                    with open(os.path.join(scratch, f"{BASE}-{w}"), "rb") as f:
                        a = f.read()
                    with open(os.path.join(scratch, f"{name}-{w}"), "rb") as f:
                        b = f.read()
                    if a == b:
                        continue
                    alloc = "alloc" in CONFIGS[name][0] or "std" in CONFIGS[name][0]
                    for k in range(min(len(a), len(b)) // REC):
                        x = struct.unpack_from("<QQQ", a, k * REC)
                        y = struct.unpack_from("<QQQ", b, k * REC)
                        if x[0] != y[0] or (alloc and x[1] != y[1]):
                            i = w * per + k
                            d = compare_case(i, name)
                            if d is None:
                                continue
                            bad += 1
                            violation(tier, i, name, f"observed {d[0]!r} against {d[1]!r}", show(BASE, i).splitlines()[0])
                            break

        jobs = [(n, w) for n in CONFIGS for w in range(WORKERS)]
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            rcs = list(ex.map(lambda j: (j, stream(*j)), jobs))
        broken = {}
        for (n, w), rc in rcs:
            if rc != 0:
                broken.setdefault(n, []).append((w, rc))
        # A build that dies where the reference build lives differs observably.
        for n, ws in broken.items():
            w, rc = ws[0]
            if n != BASE and BASE not in broken:
                bad += 1
                violation(tier, w * per, n, f"the build ended with status {rc} while {BASE} completed the stream", "")
            else:
                print(f"INCONCLUSIVE property=Z02: {n} ended with {rc}")
                return 2
        compare([n for n in CONFIGS if n != BASE and n not in broken])

        observed, distinct = 0, set()
        for w in range(WORKERS):
            with open(os.path.join(scratch, f"{BASE}-{w}"), "rb") as f:
                data = f.read()
            for k in range(len(data) // REC):
                x = struct.unpack_from("<QQQ", data, k * REC)
                observed += x[2]
                if len(distinct) < 2000000:
                    distinct.add(x[0])

        # The model-based monitors, in the optimized build with memchr.
        model = {}
        targets = {"harness-dev": ("", False), "harness-memchr-release": ("memchr", True)}
        exes = {}
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            fs = {n: ex.submit(build, HARNESS, os.path.join(HARNESS, "target") if n == "harness-dev" else os.path.join(HARNESS, "target", "z02"), *v)
                  for n, v in targets.items()}
            for n, f in fs.items():
                ok, err = f.result()
                if not ok:
                    print(f"INCONCLUSIVE property=Z02: {n} does not build\n{err}")
                    return 2
        exes["harness-dev"] = os.path.join(HARNESS, "target", "debug", "vharness")
        exes["harness-memchr-release"] = os.path.join(HARNESS, "target", "z02", "release", "vharness")
        ids = subprocess.run([exes["harness-dev"], "list"], stdout=subprocess.PIPE, text=True).stdout.split()
        count = 2500 if quick else 60000

        def batch(job):
            n, pid, cnt = job
            r = subprocess.run([exes[n], "batch", "0", str(cnt), pid], env=env(), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, errors="replace", timeout=600)
            fails = re.findall(r"^FAIL (\w+) (\d+) (input .*)\n  (.*)$", r.stdout, re.M)
            m = re.search(r"evals=(\d+)", r.stdout)
            return pid, r.returncode, fails, int(m.group(1)) if m else 0

        with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            res = list(ex.map(batch, [("harness-memchr-release", i, count) for i in ids]))
            for pid, rc, fails, n in res:
                model[pid] = n
                if rc == 0:
                    continue
                # Only what the reference build does not do on the same cases.
                _, rc0, fails0, _ = batch(("harness-dev", pid, count))
                known = {(p, i) for p, i, _, _ in fails0}
                new = [f for f in fails if (f[0], f[1]) not in known]
                if (new or (not fails and rc0 == 0)) and bad < 3:
                    bad += 1
                    f = new[0] if new else (pid, "0", "", f"the process ended with status {rc}")
                    violation(tier, int(f[1]), f"harness-memchr-release-{pid}",
                              f"{f[0]}: {f[3]} (only in the optimized build with memchr)", f[2])

        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, "Z02.json"), "w") as f:
            json.dump({
                "property": "Z02", "tier": tier, "seed": SEED, "level": "exploration",
                "coverage": {
                    "evaluations": per * WORKERS * len(CONFIGS) + sum(model.values()),
                    "distinct_nontrivial": len(distinct),
                    "rule": "cases of one input stream run in every build; non-trivial ones are the distinct observation logs of the reference build",
                    "cases_per_build": per * WORKERS,
                    "builds": {n: {"features": v[0], "profile": "release" if v[1] else "dev"} for n, v in CONFIGS.items()},
                    "bytes_of_observations": observed,
                    "model_cases_in_memchr_release": model,
                    "samples": [show(BASE, i).splitlines()[0][:600] for i in (0, 1, 2, 3)],
                    "notes": notes,
                },
                "assumptions": ["a feature set or profile that is not built here behaves like one of those that are"],
                "wall_s": round(time.monotonic() - start, 3), "violations": bad,
            }, f, indent=2, ensure_ascii=False)
            f.write("\n")
        print(f"Z02: {per * WORKERS} cases in each of {len(CONFIGS)} builds, {observed} bytes of observations, "
              f"{sum(model.values())} model-checked cases in the optimized memchr build, {time.monotonic() - start:.1f} s")
        return 1 if bad else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
