#!/usr/bin/env python3
"""check.py PROPERTY {quick|thorough} : build, search seeds, gate and minimise what is found, write evidence.
   check.py replay FILE             : replay a recorded execution (SIM_VERBOSE=1 shows the history).
   check.py min PROPERTY SEED       : minimise one seed (development)."""
import array, concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
import build as B
import props

HERE = os.path.dirname(os.path.abspath(__file__))
SANENV = {
    "ASAN_OPTIONS": "detect_leaks=0:max_malloc_fill_size=65536:malloc_fill_byte=165:max_free_fill_size=4096:"
                    "free_fill_byte=213:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:exitcode=96",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=96",
}

def env(extra=None):
    e = dict(os.environ)
    e.update(SANENV)
    e["PYTHONHASHSEED"] = "0"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e.update(extra or {})
    return e

class Runner:
    """One property's simulator; seed s runs in variant s modulo the number of variants."""
    def __init__(self, argv, tmp):
        self.argvs, self.tmp, self.n = argv, tmp, 0

    def select(self, args):
        if args[0] in ("gen", "batch"):
            return list(self.argvs.values())[int(args[3]) % len(self.argvs)]
        for l in read_replay(args[1])[0]:
            if l.startswith("binary "):
                return self.argvs[l.split()[1]]
        raise Fatal("%s names no binary" % args[1])

    def call(self, args, timeout=200, extra=None, quiet=True):
        self.n += 1
        st = os.path.join(self.tmp, "state-%d-%d" % (os.getpid(), self.n + id(args) % 100000))
        e = env(dict({"SIM_STATE": st}, **(extra or {})))
        try:
            r = subprocess.run(self.select(args) + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout, cwd=self.tmp)
            rc, out, err = r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired as x:
            rc, out, err = 97, (x.stdout or b"").decode(errors="replace"), "SIM-HANG: wall clock"
        shared = None
        try:
            d = open(st, "rb").read()
            if len(d) >= 24:
                shared = array.array("Q", d[:24]).tolist()
            os.unlink(st)
        except OSError:
            pass
        return rc, out, err, shared

def crash_class(rc, err):
    """Class and message of an abnormal end."""
    if "SIM-ERROR" in err:
        return None, err[-500:]
    m = re.search(r"Assertion [`'](.*?)' failed", err)
    loc = ""
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)", err)
    for f in frames:
        if "stored::" in f and "sim::" not in f.split("(")[0]:
            loc = re.sub(r"\(.*", "", f)
            break
    if m:
        fn = re.search(r": ([^:\n]*(?:stored|sim|anonymous)[^\n]*): Assertion", err)
        return "crash-assert", "assertion failed: %s" % m.group(1)
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        return "crash-ubsan", re.sub(r"0x[0-9a-f]+", "0x..", m.group(1))[:200] + (" in " + loc if loc else "")
    m = re.search(r"AddressSanitizer: ([\w-]+)", err)
    if m:
        return "crash-asan", m.group(1) + (" in " + loc if loc else "")
    if rc == 97:
        return "hang", "the step does not terminate"
    m = re.search(r"terminate called[^\n]*\n?[^\n]*", err)
    if m:
        return "crash-terminate", m.group(0).replace("\n", " ")
    if rc < 0:
        return "crash-signal", "signal %d" % -rc
    return "crash-exit", "exit code %d %s" % (rc, err[-300:].replace("\n", " "))

def outcome(res):
    """(cls, msg, hash) of a gen/replay call; cls '' when it held; None when the simulator itself failed."""
    rc, out, err, shared = res
    if rc == 0:
        for line in out.splitlines():
            if line.startswith("{") and '"hash"' in line:
                j = json.loads(line)
                return j["cls"] if j["failed"] else "", j["msg"], j["hash"]
        return None, "no result: " + err[-300:], ""
    if rc in (98, 99):
        return None, err[-500:], ""
    c, m = crash_class(rc, err)
    if c == "hang":
        # Ended at some moment in the step; the history up to there differs.
        return c, m, "hang/%d" % shared[1] if shared else "?"
    return c, m, "%016x/%d" % (shared[2], shared[1]) if shared else "?"

def read_replay(fn):
    head, ops, tail = [], [], []
    for l in open(fn):
        (ops if l.startswith("op ") else tail if l.startswith("#!") else head).append(l)
    return head, ops, tail

def write_replay(fn, head, ops, tail=()):
    with open(fn, "w") as f:
        f.writelines(head)
        f.writelines(ops)
        f.writelines(tail)

def minimise(run, head, ops, cls, deadline, tmp):
    """ddmin over the recorded decisions, then over their arguments; keeps the violation class."""
    pool = concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4)
    cnt = [0]
    def fails(o, h=None):
        cnt[0] += 1
        fn = os.path.join(tmp, "min-%d.rep" % cnt[0])
        write_replay(fn, h or head, o)
        r = outcome(run.call(["replay", fn], timeout=100))
        os.unlink(fn)
        return r[0] == cls
    # Later decisions are irrelevant: find a short prefix first.
    n = 2
    while len(ops) >= 1 and time.time() < deadline:
        size = max(1, (len(ops) + n - 1) // n)
        cands = [ops[:i] + ops[i + size:] for i in range(0, len(ops), size)]
        found = None
        for k in range(0, len(cands), 8):
            if time.time() > deadline:
                break
            for c, ok in zip(cands[k:k + 8], pool.map(fails, cands[k:k + 8])):
                if ok:
                    found = c
                    break
            if found is not None:
                break
        if found is not None:
            ops = found
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(ops), n * 2)
    # Simplify arguments.
    changed = True
    while changed and time.time() < deadline:
        changed = False
        for i in range(len(ops)):
            if time.time() > deadline:
                break
            f = ops[i].split()
            cands = []
            for j in [1] + list(range(3, len(f))):
                v = int(f[j])
                for nv in ({0, 1, v // 2, v - 1} if v > 1 else {0} if v else set()):
                    if nv != v:
                        g = list(f)
                        g[j] = str(nv)
                        cands.append(ops[:i] + [" ".join(g) + "\n"] + ops[i + 1:])
            for c, ok in zip(cands, pool.map(fails, cands)):
                if ok:
                    ops = c
                    changed = True
                    break
    return ops

class Fatal(Exception):
    pass

def gate(prop, run, base, seed, tmp, note):
    """Reproduce a violation; returns (replay file, cls, msg)."""
    f1, f2 = os.path.join(tmp, "g1-%d.rep" % seed), os.path.join(tmp, "g2-%d.rep" % seed)
    r1 = outcome(run.call(["gen", prop, str(base), str(seed), f1]))
    r2 = outcome(run.call(["gen", prop, str(base), str(seed), f2]))
    if r1[0] is None or r2[0] is None:
        raise Fatal("simulator error: %s" % (r1[1] or r2[1]))
    if r1 != r2 or open(f1).read() != open(f2).read():
        raise Fatal("seed %d is not reproducible: %s vs %s" % (seed, r1, r2))
    if r1[0] == "":
        raise Fatal("seed %d fails in a batch only (%s)" % (seed, note))
    head, ops, _ = read_replay(f1)
    r3 = outcome(run.call(["replay", f1]))
    if r3[0] != r1[0]:
        raise Fatal("seed %d: recorded decisions do not replay: %s vs %s" % (seed, r1, r3))
    return head, ops, r1

def report(prop, run, head, ops, r1, tmp, secs):
    nops = len(ops)
    ops = minimise(run, head, ops, r1[0], time.time() + secs, tmp)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    fn = os.path.join(HERE, "replays", "%s-%s.rep" % (prop, hashlib.sha256("".join(head + ops).encode()).hexdigest()[:12]))
    write_replay(fn, head, ops)
    a = outcome(run.call(["replay", fn]))
    b = outcome(run.call(["replay", fn]))
    if a != b or a[0] != r1[0]:
        raise Fatal("minimised replay is not reproducible: %s vs %s" % (a, b))
    write_replay(fn, head, ops, ["#! class %s\n" % a[0], "#! hash %s\n" % a[2], "#! message %s\n" % a[1].replace("\n", " ")])
    print("%s: %s: %s (minimised from %d to %d decisions)" % (prop, a[0], a[1], nops, len(ops)))
    return fn, a

def known_replays(prop):
    """Listed findings that are one recorded execution: {replay file: text}."""
    res = {}
    fn = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"finding: property=(\S+) replay=(\S+) (.*)", l.strip())
            if m and m[1] == prop:
                res[os.path.join(HERE, m[2])] = m[3]
    return res

def known(prop):
    """Listed findings of this property: (class, message regex, text)."""
    res = []
    fn = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=/(.*)/ (.*)", l.strip())
            if m and m[1] == prop:
                res.append((m[2], re.compile(m[3]), m[4]))
    return res

def main():
    if len(sys.argv) < 3:
        print(__doc__)
        return 2
    if sys.argv[1] == "replay":
        head = read_replay(sys.argv[2])[0]
        prop = [l.split()[1] for l in head if l.startswith("property ")][0]
        argv = props.PROPS[prop].argv(B)
        tmp = tempfile.mkdtemp(prefix="sim-")
        try:
            rc, out, err, sh = res = Runner(argv, tmp).call(["replay", os.path.abspath(sys.argv[2])])
            sys.stderr.write(err)
            print(outcome(res))
        finally:
            shutil.rmtree(tmp)
        return 0

    prop = sys.argv[2] if sys.argv[1] == "min" else sys.argv[1]
    tier = sys.argv[2] if sys.argv[1] != "min" else "quick"
    P = props.PROPS[prop]
    base = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    try:
        argv = P.argv(B)
    except B.BuildError as e:
        print("build failed:\n%s" % e)
        return 3
    tbuild = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="sim-")
    try:
        return search(prop, P, tier, base, argv, tbuild, tmp, t0)
    except Fatal as e:
        print("ERROR: %s: %s" % (prop, e))
        return 3
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def search(prop, P, tier, base, argv, tbuild, tmp, t0):
    run = Runner(argv, tmp)
    if sys.argv[1] == "min":
        if os.path.exists(sys.argv[3]):
            head, ops, _ = read_replay(sys.argv[3])
            r = outcome(run.call(["replay", sys.argv[3]]))
        else:
            head, ops, r = gate(prop, run, base, int(sys.argv[3]), tmp, "")
        fn, a = report(prop, run, head, ops, r, tmp, 120)
        print(open(fn).read())
        return 1
    secs = float(os.environ.get("SIM_SECS", P.quick if tier == "quick" else P.thorough))
    workers = int(os.environ.get("SIM_WORKERS", os.cpu_count() or 4))
    workers += -workers % len(argv)
    budget = time.time() + secs
    tsearch = time.time()
    kn = known(prop)
    stats = dict(runs=0, steps=0, sim_us=0, nontrivial=0)
    faults, probes = {}, {}
    hashes, states = set(), set()
    violations, fatal = [], []
    knownhits = {}
    samples = []

    def merge(fn):
        for f, s in ((fn, hashes), (fn + ".states", states)):
            try:
                a = array.array("Q")
                a.frombytes(open(f, "rb").read())
                if len(s) < 20000000:
                    s.update(a)
                os.unlink(f)
            except OSError:
                pass

    # Each worker runs the seeds w, w + workers, w + 2 * workers...; restarted after a known finding.
    def worker(w):
        nxt = w
        part = 0
        while not violations and not fatal and time.time() < budget:
            part += 1
            dump = os.path.join(tmp, "hash-%d-%d" % (w, part))
            left = budget - time.time()
            res = run.call(["batch", prop, str(base), str(nxt), str(workers), "1000000000", "%.2f" % min(left, 120), dump],
                           timeout=left + 300)
            rc, out, err, shared = res
            bad = None
            done = 0
            for line in out.splitlines():
                if not line.startswith("{"):
                    continue
                j = json.loads(line)
                if "summary" in j:
                    done = j["runs"]
                    for k in stats:
                        stats[k] += j[k]
                    for k, v in j["faults"].items():
                        faults[k] = faults.get(k, 0) + v
                    for k, v in j["probes"].items():
                        probes[k] = probes.get(k, 0) + v
                elif j.get("failed"):
                    bad = (j["seed"], j["cls"], j["msg"])
            merge(dump)
            if rc in (98, 99):
                fatal.append(err[-800:])
                return
            if rc != 0:
                c, m = crash_class(rc, err)
                if c is None or shared is None:
                    fatal.append(m)
                    return
                bad = (shared[0], c, m)
            if bad:
                hit = [x for x in kn if x[0] == bad[1] and x[1].search(bad[2])]
                if hit:
                    knownhits[hit[0][2]] = knownhits.get(hit[0][2], 0) + 1
                    nxt = bad[0] + workers
                    continue
                violations.append(bad)
                return
            nxt += done * workers

    # Corpus: recorded executions that once failed (fixed defects, planted bugs); executed first.
    corpus = sorted(os.path.join(HERE, "corpus", f) for f in (os.listdir(os.path.join(HERE, "corpus")) if os.path.isdir(os.path.join(HERE, "corpus")) else [])
                    if f.startswith(prop + "-"))
    pool = concurrent.futures.ThreadPoolExecutor(workers)
    corpusbad = []
    kr = known_replays(prop)
    krhit = []
    for fn, r in zip(corpus, pool.map(lambda f: outcome(run.call(["replay", f])), corpus)):
        if r[0] is None:
            raise Fatal("corpus %s: %s" % (fn, r[1]))
        if r[0] != "" and fn in kr:
            krhit.append(kr[fn])
            knownhits[kr[fn]] = 1
        elif r[0] != "" and not [x for x in kn if x[0] == r[0] and x[1].search(r[1])]:
            corpusbad.append((fn, r))
    if not corpusbad:
        list(pool.map(worker, range(workers)))
    elapsed = time.time() - tsearch
    if fatal:
        raise Fatal("simulator error: " + fatal[0])

    rc = 0
    replay = None
    if corpusbad:
        head, ops, _ = read_replay(corpusbad[0][0])
        r2 = outcome(run.call(["replay", corpusbad[0][0]]))
        if r2 != corpusbad[0][1]:
            raise Fatal("corpus execution is not reproducible: %s vs %s" % (r2, corpusbad[0][1]))
        replay, a = report(prop, run, head, ops, r2, tmp, 60)
        violations = [(0,) + a[:2]]
    elif violations:
        violations.sort()
        for i, (seed, c, m) in enumerate(violations):
            try:
                head, ops, r = gate(prop, run, base, seed, tmp, "%s: %s" % (c, m))
                replay, a = report(prop, run, head, ops, r, tmp, 90)
                break
            except Fatal:
                if i + 1 == len(violations):
                    raise
    else:
        # Determinism on this tree: some seeds again, one process each, and in two batches.
        sel = [(i * 19) % max(1, min(stats["runs"], 5000)) for i in range(24)]
        one = list(pool.map(lambda s: outcome(run.call(["gen", prop, str(base), str(s), os.path.join(tmp, "d-%d" % s)])), sel))
        two = list(pool.map(lambda s: outcome(run.call(["replay", os.path.join(tmp, "d-%d" % s)])), sel))
        ref = {}
        for line in run.call(["batch", prop, str(base), "0", str(19 * len(run.argvs)), "6", "0"])[1].splitlines():
            j = json.loads(line)
            if "seed" in j:
                ref[j["seed"]] = j["hash"]
        for s, a, b in zip(sel, one, two):
            if a[0] is None or a[2] != b[2] or (s in ref and ref[s] != a[2]):
                if not [x for x in kn if x[0] == a[0] and x[1].search(a[1])]:
                    raise Fatal("seed %d is not deterministic: %s vs %s vs %s" % (s, a, b, ref.get(s)))
        d = os.path.join(tmp, "d-%d" % sel[1 % len(sel)])
        for s in sel[1:3]:
            try:
                samples.append("seed %d: " % s + "; ".join(l.strip() for l in open(os.path.join(tmp, "d-%d" % s)) if not l.startswith("#"))[:1500])
            except OSError:
                pass

    ev = dict(property=prop, tier=tier, seed=base, level="exploration",
              coverage=dict(
                  evaluations=stats["runs"], distinct_nontrivial=len(hashes),
                  rule="one evaluation is one simulated run: a seed fixes the configuration (swarm style) and a sequence of workload, "
                       "schedule and fault decisions. Non-trivial: at least one fault or schedule perturbation fired. Distinct: by the "
                       "hash of the complete history of observable events. " + P.rule,
                  samples=samples or ["corpus or violation run only"],
                  steps=stats["steps"], simulated_seconds=stats["sim_us"] / 1e6,
                  runs_per_hour=int(stats["runs"] / max(elapsed, 1e-3) * 3600),
                  seeds="%d.. (%d workers)" % (0, workers), faults_injected=faults, probes=probes,
                  distinct_abstract_states=len(states), corpus_replayed=len(corpus),
                  determinism_checked=0 if rc or violations else len(sel),
                  real_components=P.real, stubs=P.stubs, known_findings=knownhits, build_s=round(tbuild, 1)),
              assumptions=P.assumptions, wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for text in [x[2] for x in kn] + krhit:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    print("%s %s: %d runs, %d steps, %.0f simulated s, %d distinct histories, %d abstract states, faults %s, build %.0f s, total %.0f s" % (
        prop, tier, stats["runs"], stats["steps"], stats["sim_us"] / 1e6, len(hashes), len(states), faults, tbuild, time.time() - t0))
    print("probes: %s" % probes)
    if violations:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    return 0

if __name__ == "__main__":
    sys.exit(main())
