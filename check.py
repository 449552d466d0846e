#!/usr/bin/env python3
"""Runs the check of one property:  check.py CNN  |  check.py --replay FILE

Builds the harness against /repo's working tree in three variants (checked:
overflow and debug checks on; release; cov: coverage-guided), runs a fixed
number of generated cases per worker and writes evidence/CNN.json.
Exit 0: held on everything explored; 1: violation; 2: the check failed to run.
"""
import json, os, re, resource, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"

sys.path.insert(0, os.path.join(VERIF, "tools"))
import i686  # noqa: E402
from plan import PLAN, LEVEL, ASSUME  # noqa: E402


class CheckError(Exception):
    pass


def env(variant):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_PROFILE_DEV_DEBUG", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update({
        "HOME": "/root",
        "PATH": "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin"),
        "RUSTUP_TOOLCHAIN": "stable",
        "RUSTC_WRAPPER": os.path.join(VERIF, "tools/covrustc") if variant == "cov" else "",
        "RUSTFLAGS": "-Awarnings",
        "CARGO_NET_OFFLINE": "true",
        "CARGO_INCREMENTAL": "0",
        "CARGO_TERM_COLOR": "never",
        "CARGO_TARGET_DIR": os.path.join(BUILD, variant),
        "VP_BUILD": variant,
    })
    return e


PROFILE = {"checked": "checked", "release": "release", "cov": "checked"}


def start_build(variant, binary):
    if variant in i686.PROFILE:
        return i686.start_build(env(variant), variant, binary)
    cmd = ["cargo", "build", "--offline", "-q", "--profile", PROFILE[variant], "--bin", binary]
    return subprocess.Popen(cmd, cwd=os.path.join(VERIF, "harness"), env=env(variant),
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def exe(variant, binary):
    if variant in i686.PROFILE:
        return i686.exe(variant, binary)
    return os.path.join(BUILD, variant, PROFILE[variant], binary)


def build(variants, binary):
    procs = [(v, start_build(v, binary)) for v in variants]
    for v, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            sys.stdout.write(out[-6000:])
            raise CheckError("building variant %s failed" % v)


def dictionary(path):
    """Integer literals of the code under test, for boundary-biased generators."""
    words = set()
    for d, _, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            if f.endswith(".rs"):
                text = open(os.path.join(d, f), errors="replace").read()
                for m in re.findall(r"\b(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|size))?\b", text):
                    try:
                        v = int(m.replace("_", ""), 0) if not re.match(r"0\d", m) else int(m)
                    except ValueError:
                        continue
                    if 8 < v < 1 << 64:
                        words.add(v)
    open(path, "w").write("\n".join(map(str, sorted(words))))


def limits(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    return f


def crash_choices(path):
    try:
        data = open(path, "rb").read()
        n = struct.unpack_from("<Q", data)[0]
        return list(struct.unpack_from("<%dQ" % n, data, 8)) if n else None
    except (OSError, struct.error):
        return None


def save_replay(prop, text):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.txt" % (prop, TIER, SEED))
    open(path, "w").write(text)
    return path


def run_check(prop):
    t0 = time.time()
    binary = prop.lower()
    plan = PLAN[prop]
    variants = list(plan["workers"])
    build(variants, binary)
    t_build = time.time() - t0

    out = os.path.join(BUILD, "run", prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    dict_path = os.path.join(out, "dict")
    dictionary(dict_path)

    jobs = []
    w = 0
    for v in variants:
        for k in range(plan["workers"][v]):
            cases = plan["cases"][v]
            if TIER == "thorough":
                cases *= plan["thorough"]
            jobs.append((v, w, cases, k == 0 and v != "cov"))
            w += 1
    budget = (780 if TIER == "quick" else 6 * 3600) - t_build
    running = []
    for v, w, cases, directed in jobs:
        cmd = [exe(v, binary), "run", "--seed", str(SEED), "--worker", str(w), "--cases", str(cases),
               "--out", out, "--dict", dict_path, "--tier", TIER, "--directed", "1" if directed else "0"]
        log = open(os.path.join(out, "w%d.log" % w), "w")
        p = subprocess.Popen(cmd, env=env(v), stdout=log, stderr=subprocess.STDOUT, preexec_fn=limits(plan.get("gb", 8)))
        running.append((v, w, p))

    violation = None
    deadline = time.time() + budget
    errors = []
    pending = list(running)
    while pending and violation is None:
        if time.time() > deadline:
            for _, _, p in pending:
                p.kill()
            raise CheckError("time limit reached before the fixed number of cases was done")
        time.sleep(0.05)
        for item in list(pending):
            v, w, p = item
            rc = p.poll()
            if rc is None:
                continue
            pending.remove(item)
            if rc == 0:
                continue
            fail = os.path.join(out, "w%d.fail" % w)
            if rc == 1 and os.path.exists(fail):
                violation = open(fail).read()
                break
            log = open(os.path.join(out, "w%d.log" % w)).read()
            if rc < 0 and rc != -signal.SIGKILL:
                violation = crash(prop, v, w, rc, out, plan)
                if violation:
                    break
            errors.append("worker %d (%s) ended with %s: %s" % (w, v, rc, log[-2000:]))
    for _, _, p in pending:
        if p.poll() is None:
            p.kill()
        p.wait()

    if violation is None and errors:
        raise CheckError("\n".join(errors))

    stats = []
    for v, w, p in running:
        f = os.path.join(out, "w%d.json" % w)
        if os.path.exists(f):
            d = json.load(open(f))
            d["variant"], d["worker"] = v, w
            stats.append(d)
    evidence(prop, stats, out, t0, t_build, violation)

    if violation is not None:
        path = save_replay(prop, violation)
        for l in violation.splitlines()[:40]:
            if not l.startswith("choices"):
                print(l)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s: held on %d cases (%d distinct non-trivial), %.1f s" % (
        prop, sum(d["cases"] for d in stats), distinct(out), time.time() - t0))
    return 0


def crash(prop, variant, worker, rc, out, plan):
    """A worker died of a signal: does its last case do that on its own?"""
    choices = crash_choices(os.path.join(out, "w%d.crash" % worker))
    if choices is None:
        return None
    what = {signal.SIGVTALRM: "does not terminate (over 60 s of processor time in one case)"}.get(
        -rc, "the process is ended by signal %d (%s)" % (-rc, signal.Signals(-rc).name))
    text = "property %s\nbuild %s\n# failure: %s\nchoices %s\n" % (prop, variant, what, " ".join(map(str, choices)))
    f = os.path.join(out, "crash.txt")
    open(f, "w").write(text)
    r = subprocess.run([exe(variant, prop.lower()), "replay", f], env=env(variant),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limits(plan.get("gb", 8)))
    return text if r.returncode == rc else None


def distinct(out):
    seen = set()
    for f in os.listdir(out):
        if f.endswith(".hashes"):
            data = open(os.path.join(out, f), "rb").read()
            seen.update(struct.unpack("<%dQ" % (len(data) // 8), data))
    return len(seen)


def evidence(prop, stats, out, t0, t_build, violation):
    labels = {}
    for d in stats:
        for k, n in d["labels"].items():
            labels[k] = labels.get(k, 0) + n
    samples = [s if len(s) < 1200 else s[:1200] + " ..." for d in stats for s in d["samples"]]
    cov = {
        "evaluations": sum(d["cases"] + d["directed"] for d in stats),
        "distinct_nontrivial": distinct(out),
        "rule": stats[0]["rule"] if stats else "",
        "samples": samples[:6],
        "nontrivial": sum(d["nontrivial"] for d in stats),
        "choices_drawn": sum(d["choices"] for d in stats),
        "directed_scenarios_run": sum(d["directed"] for d in stats),
        "classes": labels,
        "workers": [{k: d[k] for k in ("variant", "worker", "cases", "guided", "mutated", "corpus", "edges")} for d in stats],
    }
    extra = sum(d["extra"] for d in stats)
    if extra:
        cov["inner_checks"] = extra
    e = {
        "property": prop, "tier": TIER, "seed": SEED, "level": LEVEL, "coverage": cov,
        "assumptions": ASSUME + PLAN[prop].get("assume", []),
        "wall_s": round(time.time() - t0, 2), "build_s": round(t_build, 2),
        "violations": 0 if violation is None else 1,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(e, open(os.path.join(d, prop + ".json"), "w"), indent=1)


def replay(path):
    text = open(path).read()
    prop = re.search(r"^property (\S+)", text, re.M).group(1)
    variant = (re.search(r"^build (\S+)", text, re.M) or [None, "checked"])[1]
    build([variant], prop.lower())
    r = subprocess.run([exe(variant, prop.lower()), "replay", os.path.abspath(path)], env=env(variant),
                       preexec_fn=limits(PLAN[prop].get("gb", 8)))
    if r.returncode:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def main():
    try:
        if sys.argv[1:] == ["--setup"]:
            build(["checked"], "c20")
            return 0
        if len(sys.argv) == 3 and sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        if len(sys.argv) == 2 and sys.argv[1] in PLAN:
            return run_check(sys.argv[1])
    except CheckError as e:
        print("check error:", e)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
