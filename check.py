#!/usr/bin/env python3
"""Run the check of one property:  check.py <property> [quick|thorough]
Replay one stored counterexample:  check.py --replay <file>

Exit 0: held. Exit 1: violated (a VIOLATION line names the replay file). Other: error of the check.
"""
import hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")
THREADS = max(2, min(8, os.cpu_count() or 8))

# build configurations of the crate under test
CONFIGS = {
    "64": ([], "release"),          # 64-bit limbs, inline assembly, no overflow checks
    "64c": ([], "chk"),             # ... with overflow checks
    "64n": (["noasm"], "release"),  # 64-bit limbs, portable division step
    "64nc": (["noasm"], "chk"),
    "32": (["limb32"], "release"),  # 32-bit limbs
    "32c": (["limb32"], "chk"),
}
BASIC = ["64", "32", "64c", "32c"]
DIV = ["64", "64n", "32", "64nc", "32c", "64c"]
# properties of division itself see the portable step with overflow checks in the quick tier, too
CORE_DIV = ("P04", "P06")
PROPS_ALL = {
    "P01": BASIC, "P02": BASIC, "P03": BASIC, "P04": DIV, "P05": DIV, "P06": DIV, "P07": BASIC, "P08": BASIC,
    "P09": BASIC, "P10": BASIC, "P11": BASIC, "P12": BASIC, "P13": DIV, "P14": DIV, "P15": DIV, "P16": DIV,
    "P17": DIV, "P18": BASIC, "P19": DIV, "P20": BASIC, "P21": DIV, "P22": DIV, "P23": BASIC, "P24": DIV,
}

PROPS = {p: c for p, c in PROPS_ALL.items()
         if os.path.exists(os.path.join(HARNESS, "src", "props", p.lower() + ".rs"))}

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
for k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "MIRIFLAGS"):
    ENV.pop(k, None)


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def tree_hash():
    """Hash of everything the build of the crate under test reads."""
    h = hashlib.sha256()
    files = [os.path.join(REPO, f) for f in ("Cargo.toml", "build.rs")]
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode())
        if os.path.exists(f):
            h.update(open(f, "rb").read())
    return h.hexdigest()


def fresh(target):
    """Never reuse objects built from another state of /repo, whatever the file times say."""
    stamp = os.path.join(target, "repo.hash")
    now = tree_hash()
    if os.path.exists(stamp) and open(stamp).read() == now:
        return
    if os.path.isdir(target):
        shutil.rmtree(target)
    os.makedirs(target, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(now)


def build(cfg, prop, log):
    feats, profile = CONFIGS[cfg]
    exe = os.path.join(BUILD, "bin", "%s-%s" % (prop, cfg))
    if os.path.exists(exe):
        os.remove(exe)
    target = os.path.join(BUILD, cfg)
    fresh(target)
    cmd = ["cargo", "build", "--offline", "--quiet", "--profile", profile, "--features",
           " ".join([prop.lower()] + feats), "--target-dir", target]
    r = subprocess.run(cmd, cwd=HARNESS, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0:
        shutil.copy2(os.path.join(target, profile, "harness"), exe)
    log[cfg] = (r.returncode, r.stdout)


def build_all(cfgs, prop, broken=None):
    """`broken`: takes configurations whose constants cannot be evaluated, instead of an error."""
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    log = {}
    ts = [threading.Thread(target=build, args=(c, prop, log)) for c in cfgs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for c in cfgs:
        if log[c][0] != 0:
            if broken is not None and "E0080" in log[c][1]:
                broken[c] = log[c][1]
                continue
            print("\n".join(l for l in log[c][1].splitlines()[-60:]))
            die("build of configuration %s failed" % c)


def selftest(prop, cfg):
    """The model and the generators before anything relies on them."""
    r = subprocess.run([os.path.join(BUILD, "bin", "%s-%s" % (prop, cfg)), "selftest"], env=ENV, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=300)
    if r.returncode != 0:
        print(r.stdout[-2000:])
        die("the reference model failed its own test")
    return int(r.stdout.split()[0])


def known_findings(prop):
    """Lines `finding: property=<id> suite=<s> op=<o> args=<a> : <what>` of the known-findings file."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) suite=(\S+) op=(\S+) args=(\S+) : (.*)", l)
            if m and m.group(1) == prop:
                out.append(m.groups())
    return out


def save_replay(prop, cfg, tier, fail):
    d = os.path.join(VERIF, ".replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % prop)
    fail = dict(fail, property=prop, config=cfg, tier=tier)
    with open(path, "w") as f:
        json.dump(fail, f, indent=1)
    return path


def write_evidence(prop, tier, cov, wall, assumptions, violations):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
              coverage=cov, wall_s=round(wall, 2), assumptions=assumptions, violations=violations)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def run_engine(prop, cfg, tier, limit):
    exe = os.path.join(BUILD, "bin", "%s-%s" % (prop, cfg))
    js, fl = exe + ".json", exe + ".fail"
    for f in (js, fl):
        if os.path.exists(f):
            os.remove(f)
    try:
        r = subprocess.run([exe, "run", "--tier", tier, "--threads", str(THREADS), "--json", js, "--fail", fl],
                           env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        die("exploration of %s in configuration %s exceeded its time limit" % (prop, cfg))
    if r.returncode == 0:
        return json.load(open(js)), None
    if os.path.exists(fl):
        return None, json.load(open(fl))
    if r.returncode in (-4, -6, -7, -8, -11):
        return None, dict(suite="?", args="?", op="?", got="process killed by signal %d" % -r.returncode,
                          expected="an ordinary result or panic")
    print(r.stdout[-4000:])
    die("engine failed with code %d" % r.returncode)


ASSUME = [
    "cases are exhaustive over the stated alphabets and bounds, not over all 2^n operands",
    "the reference model (harness/src/model.rs) is right; it shares no code with the crate",
    "values enter and leave through the raw native limb array only",
]


def explore(prop, tier):
    t0 = time.time()
    cfgs = [c for c in PROPS[prop] if c != "64nc" or tier == "thorough" or prop in CORE_DIV]
    build_all(cfgs, prop)
    t_build = time.time() - t0
    model = selftest(prop, cfgs[0])
    limit = 780 if tier == "quick" else 10000
    states = trans = traces = 0
    suites, samples, per_cfg, seen = [], [], {}, {}
    for n, cfg in enumerate(cfgs):
        t1 = time.time()
        rep, fail = run_engine(prop, cfg, tier, limit)
        if fail is not None:
            path = save_replay(prop, cfg, tier, fail)
            cov = dict(states=states, transitions=trans, traces_validated_against_impl=traces,
                       samples=samples or [fail], exhaustive=False, counterexample=fail, configuration=cfg)
            write_evidence(prop, tier, cov, time.time() - t0, ASSUME, 1)
            print("%s in configuration %s: %s: got %s, expected %s [args %s]" %
                  (fail["suite"], cfg, fail["op"], fail["got"], fail["expected"], fail["args"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        ev = sum(s["evals"] for s in rep["suites"])
        ca = sum(s["cases"] for s in rep["suites"])
        if ca == 0:
            die("nothing was explored")
        per_cfg[cfg] = dict(cases=ca, comparisons=ev, wall_s=round(time.time() - t1, 2))
        for s in rep["suites"]:
            for k, v in s["outcomes"].items():
                seen[k] = seen.get(k, 0) + v
        trans += ev
        traces += ca
        if n == 0:
            states = ca
            for s in rep["suites"]:
                suites.append(dict(suite=s["name"], space=s["desc"], cases=s["cases"], comparisons=s["evals"],
                                   outcomes=s["outcomes"]))
                if len(samples) < 8 and s["sample"]:
                    samples.append(dict(suite=s["name"], case=s["sample"]))
    if prop == "P23":
        fail, per = special().p23_interpreted(tier)
        per_cfg.update(per)
        trans += sum(p["results"] for p in per.values())
        traces += sum(p["cases"] for p in per.values())
        if fail is not None:
            path = save_replay(prop, "miri", tier, fail)
            cov = dict(states=states, transitions=trans, traces_validated_against_impl=traces, samples=[fail],
                       exhaustive=False, counterexample=fail)
            write_evidence(prop, tier, cov, time.time() - t0, ASSUME, 1)
            print("%s: %s at %s [args %s]" % (fail["suite"], fail["got"], fail["op"], fail["args"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
    if 0 in seen.values():
        die("no case with outcome: " + ", ".join(k for k, v in seen.items() if v == 0))
    for f in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (f[0], f[4]))
    cov = dict(
        states=states, transitions=trans, traces_validated_against_impl=traces, samples=samples, exhaustive=True,
        explanation="states: distinct cases of the enumerated spaces; transitions: results of the implementation "
                    "compared with the model, over all configurations; traces_validated_against_impl: cases executed on "
                    "the real code, over all configurations",
        configurations=per_cfg, suites=suites, model_selftest_comparisons=model, build_s=round(t_build, 2))
    write_evidence(prop, tier, cov, time.time() - t0, ASSUME, 0)
    print("%s held: %d cases, %d comparisons, %d configurations, %.1f s" %
          (prop, states, trans, len(cfgs), time.time() - t0))
    return 0


def special():
    import special as m
    return m


def replay(path):
    f = json.load(open(path))
    if f["property"] == "P22":
        return special().replay22(f)
    if f["config"] == "miri":
        return special().replay23(f)
    build_all([f["config"]], f["property"])
    exe = os.path.join(BUILD, "bin", "%s-%s" % (f["property"], f["config"]))
    return subprocess.run([exe, "replay", "--tier", f["tier"], "--suite", f["suite"], "--args", f["args"]],
                          env=ENV).returncode


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        die("usage: check.py <property> [quick|thorough] | --replay <file>")
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        die("unknown tier " + tier)
    if sys.argv[1] == "P22":
        return special().p22(tier)
    return explore(sys.argv[1], tier)


if __name__ == "__main__":
    sys.exit(main())
