#!/usr/bin/env python3
"""Builds and runs the check of one property against /repo's working tree.

  run.py ID [--tier quick|thorough] [--replay FILE] [--keep]
  run.py --selfcheck

exit 0: the property held on everything explored; exit 1: a VIOLATION line was printed; anything else: no verdict.
"""
import argparse, fcntl, json, os, shutil, subprocess, sys, tempfile, time, glob, struct

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PBT_REPO", "/repo")
BUILD = os.environ.get("PBT_BUILD", os.path.join(VERIF, "build"))
WORKERS = 8

ASAN = "-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS"
TSAN = "-O1 -g1 -fsanitize=thread -fno-omit-frame-pointer"
ON, OFF = "ON", "OFF"
VARIANTS = {
    # the two configurations of the project's CI, and the options it documents
    "A": dict(flags=ASAN, opts=dict(RETURN_NON_ZERO=ON)),
    "B": dict(flags=ASAN, opts=dict(RETURN_NON_ZERO=ON, TRACE=ON), fakegen=ON),
    "C": dict(flags=ASAN, opts=dict(RETURN_NON_ZERO=OFF)),
    # (with debug off class.h does not find std::string by itself)
    "D": dict(flags=ASAN + " -include string", opts=dict(RETURN_NON_ZERO=ON, DEBUG=OFF)),
    # what the fake-jni layer does with static functions is an option
    "M": dict(flags=ASAN, opts=dict(RETURN_NON_ZERO=ON), cmake=["-DJNIVM_FAKE_JNI_MINECRAFT_LINUX_COMPAT=ON"]),
    "T": dict(flags=TSAN, opts=dict(RETURN_NON_ZERO=ON)),
    # line coverage of the library, for tools/cov.sh only
    "P": dict(flags="-O1 -g1 -fprofile-instr-generate -fcoverage-mapping -mllvm -runtime-counter-relocation", opts=dict(RETURN_NON_ZERO=ON)),
    # coverage instrumented, for libFuzzer (thorough tier)
    "F": dict(flags=ASAN + " -fsanitize=fuzzer-no-link", opts=dict(RETURN_NON_ZERO=ON)),
}

sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class NoVerdict(Exception):
    pass


def build(variant, prop, fuzz=False):
    v = VARIANTS[variant]
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sig = json.dumps([v, REPO, sorted(os.listdir(os.path.join(VERIF, "harness", "props")))])
        stamp = os.path.join(d, ".configured")
        if not os.path.exists(stamp) or open(stamp).read() != sig:
            cmd = ["cmake", "-S", os.path.join(VERIF, "harness"), "-B", d, "-G", "Ninja", "-Wno-dev", "-Wno-deprecated",
                   "-DCMAKE_CXX_COMPILER=/usr/bin/clang++", "-DCMAKE_BUILD_TYPE=", "-DCMAKE_CXX_FLAGS=" + v["flags"],
                   "-DREPO=" + REPO, "-DVARIANT=" + variant, "-DJNIVM_USE_FAKE_JNI_CODEGEN=" + v.get("fakegen", OFF)]
            cmd += ["-DJNIVM_ENABLE_%s=%s" % (k, x) for k, x in v["opts"].items()] + v.get("cmake", [])
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise NoVerdict("cmake failed\n" + r.stdout)
            open(stamp, "w").write(sig)
        r = subprocess.run(["ninja", "-C", d, "prop_" + prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            err = [x for x in r.stdout.splitlines() if "error:" in x or "FAILED" in x][:12]
            raise NoVerdict("build failed\n" + "\n".join(err) + "\n" + r.stdout[-2500:])
        return os.path.join(d, "prop_" + prop)


def known_findings(prop):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [x for x in json.load(open(f)) if x.get("property") == prop and x.get("status") == "known"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--selfcheck", action="store_true")
    ap.add_argument("--time", type=float, help="override the search time of each variant")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--variants")
    a = ap.parse_args()
    if a.selfcheck:
        for t in ("cmake", "ninja", "clang++", "g++"):
            if not shutil.which(t):
                log("missing", t)
                return 2
        for p in PROPS:
            if not os.path.exists(os.path.join(VERIF, "harness", "props", p.lower() + ".cpp")):
                log("missing harness of", p)
                return 2
        return 0
    cfg = PROPS[a.id]
    prop = a.id.lower()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="pbt-%s-" % a.id)
    env = dict(os.environ)
    env.pop("ASAN_OPTIONS", None)
    env.pop("TSAN_OPTIONS", None)
    env["PBT_TMP"] = tmp
    try:
        return (replay if a.replay else check)(a, cfg, prop, seed, t0, tmp, env)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(a, cfg, prop, seed, t0, tmp, env):
    variant = "A"
    for line in open(a.replay):
        if line.startswith("variant "):
            variant = line.split()[1]
        if line.startswith("--"):
            break
    exe = build(variant, prop)
    env["ASAN_OPTIONS"] = env["TSAN_OPTIONS"] = "symbolize=1"
    r = subprocess.run([exe, "--replay", a.replay, "--tmp", tmp, "--concurrent", "1" if cfg.get("concurrent") else "0"],
                       env=env, stdout=subprocess.PIPE, text=True, errors="replace")
    print(r.stdout)
    if r.returncode == 1:
        print("VIOLATION property=%s replay=%s" % (a.id, a.replay))
    return r.returncode


def check(a, cfg, prop, seed, t0, tmp, env):
    from concurrent.futures import ThreadPoolExecutor
    tier = cfg[a.tier]
    names = [v for v in (a.variants or tier.get("variants", cfg["variants"])).split(",")]
    with ThreadPoolExecutor(len(names)) as ex:
        exes = dict(zip(names, ex.map(lambda v: build(v, prop), names)))
    tb = time.time() - t0
    log("%s: built %s in %.1f s" % (a.id, ",".join(names), tb))
    stats, violation = [], None
    hashes = set()
    for i, v in enumerate(names):
        out = os.path.join(tmp, "stats-%s.json" % v)
        rep = os.path.join(VERIF, "replays", "%s-%s-%d.replay" % (a.id, v, seed))
        if os.path.exists(rep):
            os.unlink(rep)
        budget = a.time if a.time is not None else tier["time"] / len(names)
        # the wall clock only stops a run which a slow machine made long; the case count is what normally ends it
        cases = a.cases or max(1, tier["cases"] // len(names))
        cmd = [exes[v], "--seed", str(seed * 16 + i), "--workers", str(tier.get("workers", WORKERS)), "--cases", str(cases), "--time", str(budget),
               "--batch", str(tier.get("batch", cfg.get("batch", 400))), "--out", out, "--tmp", tmp, "--variant", v, "--replay-out", rep,
               "--hang", str(cfg.get("hang", 25)), "--shrink-time", "25" if a.tier == "quick" else "90",
               "--concurrent", "1" if cfg.get("concurrent") else "0"]
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, text=True, errors="replace")
        if r.returncode not in (0, 1) or not os.path.exists(out):
            raise NoVerdict("the harness of %s failed (%s)\n%s" % (a.id, r.returncode, r.stdout))
        s = json.load(open(out))
        stats.append(s)
        raw = open(s["hashfile"], "rb").read()
        hashes.update(struct.unpack("<%dQ" % (len(raw) // 8), raw))
        log("%s/%s: %d cases, %d distinct non-trivial, %d discarded, %.1f s%s" % (
            a.id, v, s["evaluations"], s["distinct_nontrivial"], s["discarded"], s["wall_s"],
            ", UNCONFIRMED %s" % s["unconfirmed"] if s["unconfirmed"] else ""))
        if r.returncode == 1:
            print(r.stdout)
            violation = (rep, s["failure"])
            break
    fuzz = None
    if not violation and a.tier == "thorough" and tier.get("fuzz"):
        fuzz, violation = run_fuzz(a, cfg, prop, seed, tmp, env, tier["fuzz"])
    labels = {}
    for s in stats:
        for k, n in s["labels"].items():
            labels[k] = labels.get(k, 0) + n
    samples = []
    for s in stats:
        samples += ["variant %s, %s" % (s["variant"], x) for x in s["samples"]]
    if not samples:
        samples = [stats[-1]["failure"] or "none"]
    cov = dict(evaluations=sum(s["evaluations"] for s in stats), distinct_nontrivial=len(hashes), rule=stats[0]["rule"], samples=samples[:6],
               discarded=sum(s["discarded"] for s in stats), draws=sum(s["draws"] for s in stats), labels=labels,
               per_variant={s["variant"]: dict(evaluations=s["evaluations"], distinct_nontrivial=s["distinct_nontrivial"], wall_s=s["wall_s"]) for s in stats},
               unconfirmed=[u for s in stats for u in s["unconfirmed"]])
    if fuzz:
        cov["coverage_guided"] = fuzz
    ev = dict(property=a.id, tier=a.tier, seed=seed, level="exploration", coverage=cov, assumptions=cfg.get("assumptions", []),
              wall_s=round(time.time() - t0, 1), violations=1 if violation else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violation:
        print("VIOLATION property=%s replay=%s" % (a.id, violation[0]))
        return 1
    if cov["evaluations"] < 50 or cov["distinct_nontrivial"] < 10:
        raise NoVerdict("too little was explored: %d cases" % cov["evaluations"])
    print("%s: held on %d cases (%d distinct non-trivial) in %.0f s" % (a.id, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0


def run_fuzz(a, cfg, prop, seed, tmp, env, secs):
    """Coverage-guided search (libFuzzer) over the draws of the same cases; a crash is re-run, shrunk and reported by the engine."""
    exe = build("F", prop)            # the engine build, to convert inputs
    d = os.path.join(BUILD, "F")
    fz = os.path.join(d, "fuzz_" + prop)
    objs = glob.glob(os.path.join(d, "CMakeFiles", "prop_%s.dir" % prop, "props", "*.o"))
    libs = [os.path.join(d, "repo", x) for x in ("libbaron.a", "libfake-jni.a", "libjnivm.a")]
    r = subprocess.run(["/usr/bin/clang++", "-std=c++17", "-O1", "-g1", "-fsanitize=address,fuzzer", "-DPBT_FUZZ", "-I", os.path.join(VERIF, "harness"),
                        os.path.join(VERIF, "harness", "engine.cpp")] + objs + libs + ["-ldl", "-o", fz],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise NoVerdict("fuzz target failed to build\n" + r.stdout[-4000:])
    corpus, art = os.path.join(tmp, "corpus"), os.path.join(tmp, "art")
    os.makedirs(corpus)
    os.makedirs(art)
    jobs = []
    for w in range(WORKERS):
        jobs.append(subprocess.Popen([fz, corpus, "-seed=%d" % (seed * 100 + w + 1), "-max_total_time=%d" % secs, "-max_len=4096", "-timeout=60",
                                      "-rss_limit_mb=3000", "-reload=1", "-print_final_stats=1", "-artifact_prefix=%s/w%d-" % (art, w)],
                                     env=env, stdout=subprocess.DEVNULL, stderr=open(os.path.join(tmp, "fz%d.log" % w), "w")))
    for j in jobs:
        j.wait()
    execs = 0
    cov = 0
    for w in range(WORKERS):
        for line in open(os.path.join(tmp, "fz%d.log" % w), errors="replace"):
            if "stat::number_of_executed_units" in line:
                execs += int(line.split()[-1])
            if " cov: " in line:
                try:
                    cov = max(cov, int(line.split(" cov: ")[1].split()[0]))
                except ValueError:
                    pass
    info = dict(executions=execs, edges=cov, corpus=len(os.listdir(corpus)), seconds=secs)
    log("%s: libFuzzer %s" % (a.id, info))
    rep = os.path.join(VERIF, "replays", "%s-F-%d.replay" % (a.id, seed))
    for f in sorted(os.listdir(art)):
        if f.split("-", 1)[1].startswith(("slow", "oom")):
            continue
        r = subprocess.run([exe, "--bytes", os.path.join(art, f), "--replay-out", rep, "--tmp", tmp, "--variant", "F", "--shrink-time", "60"],
                           env=env, stdout=subprocess.PIPE, text=True, errors="replace")
        if r.returncode == 1:
            print(r.stdout)
            return info, (rep, "fuzz")
    return info, None


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoVerdict as e:
        log("NO VERDICT:", e)
        sys.exit(2)
