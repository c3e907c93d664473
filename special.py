"""Checks that compare configurations (P22) and that run the code in an interpreter which detects
undefined behaviour (P23). Used by check.py."""
import json, os, signal, subprocess, threading, time

import check as C

S390X, POWERPC, I686, X86 = ("s390x-unknown-linux-gnu", "powerpc-unknown-linux-gnu", "i686-unknown-linux-gnu",
                             "x86_64-unknown-linux-gnu")
MIRI = os.path.join(C.BUILD, "miri")
WIDTHS = ["1024", "512", "384", "256"]
# results only: the interpreter does not look for undefined behaviour
PLAIN = "-Zmiri-disable-isolation -Zmiri-disable-validation -Zmiri-disable-stacked-borrows -Zmiri-disable-alignment-check"
FULL = "-Zmiri-disable-isolation -Zmiri-symbolic-alignment-check"


def miri_env(target, flags):
    return dict(C.ENV, XDG_CACHE_HOME=os.path.join(MIRI, "cache-" + target), MIRIFLAGS=flags)


def miri_cmd(target, feats, args):
    return ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--release", "--target", target,
            "--target-dir", os.path.join(MIRI, target + "-" + "-".join(feats)), "--features", " ".join(feats), "--"] + args


def miri_setup(target, variants, flags, out):
    """Build the standard library for the target and the harness in each variant."""
    r = subprocess.run(["cargo", "+nightly", "miri", "setup", "--target", target], cwd=C.HARNESS,
                       env=miri_env(target, flags), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        out[target] = r.stdout
        return
    for feats in variants:
        C.fresh(os.path.join(MIRI, target + "-" + "-".join(feats)))
        r = subprocess.run(miri_cmd(target, feats, ["list", "--props", "none"]), cwd=C.HARNESS,
                           env=miri_env(target, flags), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            out[target] = r.stdout
            return


def parallel(jobs):
    ts = [threading.Thread(target=f, args=a) for f, a in jobs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


def pool(jobs, run):
    """Run the jobs on all cores, longest first as given; stops early when `run` returns True."""
    lock, stop, todo = threading.Lock(), [False], list(jobs)

    def worker():
        while True:
            with lock:
                if not todo or stop[0]:
                    return
                j = todo.pop(0)
            if run(j):
                stop[0] = True

    parallel([(worker, ())] * C.THREADS)


def parse(text):
    """suite -> dict(cases, wrong, dep, ops={op: (n, hash)})"""
    out, ops = {}, {}
    for l in text.splitlines():
        f = l.split("\t")
        if f[0] == "R":
            ops.setdefault(f[1], {})[f[2]] = (int(f[3]), f[4])
        elif f[0] == "S":
            out[f[1]] = dict(cases=int(f[2]), wrong=int(f[3]), dep=f[4], ops=ops.get(f[1], {}))
    return out


def native(prop, cfg, tier, limit, extra=()):
    exe = os.path.join(C.BUILD, "bin", "%s-%s" % (prop, cfg))
    try:
        r = subprocess.run([exe, "record", "--tier", tier, "--threads", str(C.THREADS)] + list(extra), env=C.ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        C.die("recording in configuration %s exceeded its time limit" % cfg)
    return r


class Cancelled(Exception):
    pass


class Group:
    """Interpreter processes that can be stopped together."""

    def __init__(self):
        self.lock, self.procs, self.stopped = threading.Lock(), set(), False

    def stop(self):
        with self.lock:
            self.stopped = True
            for p in self.procs:
                kill(p)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


class Run:
    def __init__(self, returncode, stdout, stderr):
        self.returncode, self.stdout, self.stderr = returncode, stdout, stderr


def interpret(target, feats, flags, tier, limit, extra, group=None, seen=None):
    """Record in the interpreter. `seen` gets each line as it is printed and ends the run by returning True.
    None if the time limit was reached."""
    group = group or Group()
    with group.lock:
        if group.stopped:
            raise Cancelled
        p = subprocess.Popen(miri_cmd(target, feats, ["record", "--tier", tier, "--threads", "1"] + extra), cwd=C.HARNESS,
                             env=miri_env(target, flags), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                             start_new_session=True)
        group.procs.add(p)
    late, err, out = [], [], []

    def expire():
        late.append(True)
        kill(p)

    timer = threading.Timer(limit, expire)
    timer.start()
    reader = threading.Thread(target=lambda: err.append(p.stderr.read()))
    reader.start()
    ended = False
    for l in p.stdout:
        out.append(l)
        if not ended and seen and seen(l):
            ended = True
            kill(p)
    reader.join()
    code = p.wait()
    timer.cancel()
    with group.lock:
        group.procs.discard(p)
        if group.stopped:
            raise Cancelled
    if late and not ended:
        return None
    return Run(0 if ended else code, "".join(out), err[0])


def differ(a, b):
    """First (suite, operation) on which two recordings disagree."""
    for s in a:
        if s not in b:
            continue
        if a[s]["cases"] != b[s]["cases"]:
            C.die("suite %s has different cases" % s)
        if a[s]["dep"] != "Nothing":
            continue
        # an unexpected panic ends a case, so the operation that panicked comes first
        for op in sorted(set(a[s]["ops"]) | set(b[s]["ops"]), key=lambda o: (o == "unexpected panic", o)):
            if a[s]["ops"].get(op) != b[s]["ops"].get(op):
                return s, op
    return None


def lines(text, op):
    return [l.split("\t")[1:4] for l in text.splitlines() if l.startswith("L\t") and l.split("\t")[2] == op]


def record_one(where, tier, suite, op, args=""):
    """All results of one operation in one suite, in one configuration."""
    ex = ["--suite", suite, "--op", op] + (["--args", args] if args else []) + list(where[3:])
    if where[0] == "native":
        return lines(native("P22", where[1], tier, 3000, ex).stdout, op)
    r = interpret(where[1], where[2].split(), PLAIN, tier, 3000, ex)
    return lines(r.stdout, op) if r else []


def first_difference(wa, wb, tier, suite, op):
    if wa[0] == "miri":
        # follow the interpreter and stop at the first difference
        b = iter(record_one(wb, tier, suite, op))
        found = []

        def seen(l):
            f = l.rstrip("\n").split("\t")
            if f[0] != "L" or f[2] != op:
                return False
            x, y = f[1:4], next(b, None)
            if x != y:
                found.append(dict(suite=suite, op=op, args=x[0], got=x[2], expected=y[2] if y and y[0] == x[0] else "no result"))
                return True

        interpret(wa[1], wa[2].split(), PLAIN, tier, 150, ["--suite", suite, "--op", op] + list(wa[3:]), seen=seen)
        return found[0] if found else dict(suite=suite, op=op, args="?", got="different results", expected="the results")
    a, b = record_one(wa, tier, suite, op), record_one(wb, tier, suite, op)
    for x, y in zip(a, b):
        if x != y:
            return dict(suite=suite, op=op, args=x[0], got=x[2], expected=y[2])
    return dict(suite=suite, op=op, args="?", got="%d results" % len(a), expected="%d results" % len(b))


def p22(tier):
    prop, t0 = "P22", time.time()
    cfgs = ["64", "64n", "32", "64c", "32c"]
    err, broken = {}, {}
    feats = ["p22"]
    parallel([(miri_setup, (t, [feats], PLAIN, err)) for t in (S390X, POWERPC, I686)] +
             [(C.build_all, (cfgs, prop, broken))])
    for c in cfgs:
        if c not in broken and not os.path.exists(os.path.join(C.BUILD, "bin", "%s-%s" % (prop, c))):
            C.die("build of configuration %s failed" % c)
    t_build = time.time() - t0
    limit = 600 if tier == "quick" else 8000
    rec, per, samples = {}, {}, []

    def violated(fail, wa, wb, rtier):
        fail = dict(fail, got="%s on %s" % (fail["got"], " ".join(wa)), expected="%s as on %s" % (fail["expected"], " ".join(wb)))
        path = C.save_replay(prop, "+".join(wa[1:3] + wb[1:3]), rtier, dict(fail, a=wa, b=wb))
        C.write_evidence(prop, tier, dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[fail],
                                          exhaustive=False, counterexample=fail), time.time() - t0, ASSUME22, 1)
        print("%s: %s: got %s, expected %s [args %s]" % (fail["suite"], fail["op"], fail["got"], fail["expected"], fail["args"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1

    def note(name, r, t1):
        per[name] = dict(cases=sum(s["cases"] for s in r.values()),
                         results=sum(n for s in r.values() for n, _ in s["ops"].values()), wall_s=round(time.time() - t1, 2))
        if per[name]["cases"] == 0:
            C.die("nothing was recorded in %s" % name)

    def ctime(name, r, where, rtier):
        for s, d in r.items():
            if s.endswith("/compile-time") and d["wrong"]:
                return violated(dict(suite=s, op="?", args="?", got="%d results at run time differ" % d["wrong"],
                                     expected="the results at compile time"), where, where, rtier)
        return 0

    # an operation of the compile-time tables that is an error at compile time
    for t in err:
        if "E0080" in err[t]:
            broken[t] = err[t]
    for w, text in broken.items():
        why = [l.strip() for l in text.splitlines() if "E0080" in l][0]
        at = [l.strip() for l in text.splitlines() if l.strip().startswith("-->")]
        return violated(dict(suite="compile-time", op=at[0][4:] if at else "?", args="?", got=why, expected="the result"),
                        ["miri" if w in err else "native", w, "p22"], ["native", "64", ""], tier)
    for t in err:
        print(err[t][-4000:])
        C.die("preparing the interpreter for %s failed" % t)
    # the native configurations, on the large space
    for cfg in cfgs:
        t1 = time.time()
        r = native(prop, cfg, tier, limit)
        if r.returncode != 0:
            return violated(dict(suite="?", op="?", args="?", got="process ended with %d" % r.returncode, expected="results"),
                            ["native", cfg, ""], ["native", "64", ""], tier)
        rec[cfg] = parse(r.stdout)
        note(cfg, rec[cfg], t1)
        if ctime(cfg, rec[cfg], ["native", cfg, ""], tier):
            return 1
    for a, b in (("64n", "64"), ("32", "64"), ("32c", "64c")):
        d = differ(rec[a], rec[b])
        if d:
            wa, wb = ["native", a, ""], ["native", b, ""]
            return violated(first_difference(wa, wb, tier, *d), wa, wb, tier)

    # the foreign targets, on the small space
    dense = ["--dense", "yes"] if tier == "thorough" else []
    base = parse(native(prop, "64", "tiny", limit, dense).stdout)
    rest = "/scalar,/shift,/power,/unary,/text,/parse,/compile-time"
    jobs = [(t, w, rest) for w in WIDTHS for t in (POWERPC, S390X)]
    jobs += [(I686, w, "/unary,/text,/parse") for w in WIDTHS]
    jobs += [(t, w, "/binary") for w in WIDTHS for t in (POWERPC, S390X)]
    got, bad, dead, group = {}, [], [], Group()

    def run(j):
        t1, text = time.time(), []

        def seen(l):
            text.append(l)
            return l.startswith("S\t") and differ(parse("".join(text)), base) is not None

        try:
            r = interpret(j[0], feats, PLAIN, "tiny", limit, ["--widths", j[1], "--match", j[2]] + dense, group, seen)
        except Cancelled:
            return True
        if r is None or r.returncode != 0:
            dead.append((j, "time limit" if r is None else r.stderr[-3000:], r is not None))
            group.stop()
            return True
        got[j] = parse(r.stdout)
        note("%s %s%s" % j, got[j], t1)
        if differ(got[j], base):
            bad.append(j)
            group.stop()
            return True
        return any(d["wrong"] for s, d in got[j].items() if s.endswith("/compile-time"))

    # results at compile time are tabulated for fewer operands under the interpreter
    for s in [s for s in base if s.endswith("/compile-time")]:
        del base[s]
    pool(jobs, run)
    for j in bad:
        wa, wb = ["miri", j[0], " ".join(feats)] + dense, ["native", "64", ""] + dense
        return violated(first_difference(wa, wb, "tiny", *differ(got[j], base)), wa, wb, "tiny")
    for j, r in got.items():
        if ctime(j[0], r, ["miri", j[0], " ".join(feats)], "tiny"):
            return 1
    for j, why, real in dead:
        print(why)
        if real and ("Undefined Behavior" in why or "abort" in why):
            return violated(dict(suite="?", op="?", args="?", got="stopped: " + why.strip().splitlines()[0], expected="results"),
                            ["miri", j[0], " ".join(feats)], ["native", "64", ""], "tiny")
        C.die("interpreting for %s failed" % (j,))
    if len(got) != len(jobs):
        C.die("not everything was interpreted")
    states = per["64"]["cases"]
    for s, d in list(rec["64"].items())[:8]:
        samples.append(dict(suite=s, cases=d["cases"], operations=len(d["ops"])))
    cov = dict(states=states, transitions=sum(p["results"] for p in per.values()),
               traces_validated_against_impl=sum(p["cases"] for p in per.values()), samples=samples, exhaustive=True,
               explanation="states: cases of the native space; transitions: results recorded and compared between "
                           "configurations; traces_validated_against_impl: cases executed, over all configurations and targets",
               configurations=per, build_s=round(t_build, 2))
    C.write_evidence(prop, tier, cov, time.time() - t0, ASSUME22, 0)
    print("%s held: %d configurations and targets, %d results, %.1f s" %
          (prop, len(cfgs) + 3, cov["transitions"], time.time() - t0))
    return 0


ASSUME22 = [
    "big endian and 32-bit targets run in the Miri interpreter",
    "the space on foreign targets is smaller than the one compared between native configurations",
    "results are compared through a 64-bit hash per operation and suite",
]


def replay22(f):
    if "?" in (f["args"], f["op"]):
        return p22("quick")
    C.build_all(sorted({w[1] for w in (f["a"], f["b"]) if w[0] == "native"}) or ["64"], "P22")
    err = {}
    for w in (f["a"], f["b"]):
        if w[0] == "miri":
            miri_setup(w[1], [w[2].split()], PLAIN, err)
    if err:
        C.die("preparing the interpreter failed")
    r = [record_one(w, f["tier"], f["suite"], f["op"], f["args"]) for w in (f["a"], f["b"])]
    print("%s %s [args %s]\n  %s: %s\n  %s: %s" % (f["suite"], f["op"], f["args"], " ".join(f["a"]), r[0], " ".join(f["b"]), r[1]))
    return 0 if r[0] == r[1] else 1


# without the tables evaluated at compile time: what they do wrong would be an error of the build
UB = [(X86, ["p22", "p23", "noasm", "noct"]), (X86, ["p22", "p23", "limb32", "noct"])]


def p23_interpreted(tier):
    """Run the operation table and the unchecked operations looking for undefined behaviour.
    Returns (failure or None, per-shard figures)."""
    err = {}
    miri_setup(X86, [f for _, f in UB], FULL, err)
    if err:
        print(err[X86][-4000:])
        C.die("preparing the interpreter failed")
    limit = 600 if tier == "quick" else 8000
    dense = ["--dense", "yes"] if tier == "thorough" else []
    jobs = [(t, f, w, m) for w in WIDTHS for t, f in UB[::-1]
            for m in ("/scalar", "/shift,/power,/text,/parse", "/binary,/unary,/pairs,/shifts,/edges")]
    per, bad, group = {}, [], Group()

    def run(j):
        t1 = time.time()
        try:
            r = interpret(j[0], j[1], FULL, "tiny", limit, ["--widths", j[2], "--match", j[3]] + dense, group)
        except Cancelled:
            return True
        if r is None:
            bad.append((j, None, ""))
            group.stop()
            return True
        d = parse(r.stdout)
        per["interpreted: %s, width %s, %s" % (j[1][2], j[2], j[3])] = dict(
            cases=sum(s["cases"] for s in d.values()),
            results=sum(n for s in d.values() for n, _ in s["ops"].values()), wall_s=round(time.time() - t1, 2))
        if r.returncode != 0:
            bad.append((j, r, r.stderr))
            group.stop()
            return True

    pool(jobs, run)
    for j, r, why in bad:
        if r is None:
            C.die("interpreting exceeded its time limit")
        what = [l for l in why.splitlines() if "Undefined Behavior" in l]
        if not what:
            print(why[-4000:])
            C.die("interpreting failed")
        # find the suite (the first one not finished) and the case
        done = parse(r.stdout)
        names = interpret_names(j)
        suite = next((n for n in names if n not in done), "?")
        args = "?"
        if suite != "?":
            q = interpret(j[0], j[1], FULL, "tiny", limit, ["--suite", suite] + dense)
            if q:
                cs = [l.split("\t")[1] for l in q.stdout.splitlines() if l.startswith("C\t")]
                args = cs[-1] if cs else "?"
        at = [l.strip() for l in why.splitlines() if l.strip().startswith("-->")]
        return dict(suite=suite, args=args, op=(at[0][4:] if at else "?"), got=what[0].strip(), expected="defined behaviour",
                    target=j[0], features=j[1], dense=dense), per
    return None, per


def interpret_names(j):
    """Names of the suites of a shard, in order."""
    r = subprocess.run(miri_cmd(j[0], j[1], ["list", "--tier", "tiny", "--widths", j[2], "--match", j[3]]), cwd=C.HARNESS,
                       env=miri_env(j[0], FULL), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return [l.split()[0] for l in r.stdout.splitlines() if "/" in l.split()[0]]


def replay23(f):
    err = {}
    miri_setup(f["target"], [f["features"]], FULL, err)
    if err:
        C.die("preparing the interpreter failed")
    ex = ["--suite", f["suite"]] + ([] if f["args"] == "?" else ["--args", f["args"]]) + f["dense"]
    r = interpret(f["target"], f["features"], FULL, "tiny", 3000, ex)
    if r is None:
        C.die("time limit")
    print(r.stderr[-3000:])
    return 1 if "Undefined Behavior" in r.stderr else 0
