"""Property-based testing harness: parts, workers, shrinking, replay, evidence.

A check module exports PROPERTY, LEVEL, ASSUMPTIONS (optional) and PARTS: a list of Part.  A Part has a
Hypothesis strategy producing JSON-able cases and a `check(case, ctx)` function that raises Violation.
The parent spawns one worker process per (part, shard); a worker runs Hypothesis with a seed derived from
VERIF_SEED and reports counters and, on failure, the shrunk case, which becomes the replay file.
"""
import hashlib, json, os, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from . import boot


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class HarnessError(Exception):
    pass


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Ctx:
    """Per-case recorder: classes (for the distribution) and non-triviality."""

    def __init__(self, scratch):
        self.classes = set()
        self.nontrivial_flag = False
        self.scratch = scratch

    def note(self, *names):
        self.classes.update(names)

    def nontrivial(self, cond=True):
        if cond:
            self.nontrivial_flag = True

    _n = 0

    def fresh_dir(self):
        Ctx._n += 1
        d = os.path.join(self.scratch, "case%d" % Ctx._n)
        os.makedirs(d)
        return d


class Part:
    def __init__(self, name, strategy, check, quick, thorough, rule, shards=1, tshards=None, timeout=120.0,
                 known=None, setup=None, enumerate_cases=None):
        self.name = name
        self.strategy = strategy  # callable returning a strategy (lazy)
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.shards = shards
        self.tshards = tshards or max(shards, 4)
        self.timeout = timeout
        self.setup = setup
        self.enumerate_cases = enumerate_cases  # callable(tier) -> list of cases, run in addition (exhaustive)


def canon(case):
    return json.dumps(case, sort_keys=True, default=repr)


def case_hash(case):
    return hashlib.sha256(canon(case).encode()).hexdigest()[:16]


def sut_frame(exc):
    """True if the exception passed through a frame of the code under test."""
    pk = os.path.join(boot.REPO, "hamilton") + os.sep
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(pk):
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False


def run_case(part, case, ctx):
    """Run one case. Returns None, or (message, timed_out) for a violation; raises HarnessError otherwise."""
    def on_alarm(signum, frame):
        raise CaseTimeout()

    old = None
    if part.timeout:
        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, part.timeout)
    try:
        part.check(case, ctx)
        return None
    except CaseTimeout:
        return ("did not terminate within %ss" % part.timeout, True)
    except Violation as e:
        return (str(e), False)
    except HarnessError:
        raise
    except Exception as e:
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        if sut_frame(e):
            return ("unexpected exception from the code under test: %r\n%s" % (e, tb[-3000:]), False)
        # not reachable on a tree where the property holds (checked over many seeds): the result had a shape no
        # correct execution produces
        return ("the observed behaviour could not be interpreted: %r\n%s" % (e, tb[-3000:]), False)
    finally:
        if part.timeout:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)


class _Fail(Exception):
    pass


CLEANUP = []  # run by a worker before it ends


def _end(rc):
    sys.stdout.flush()
    sys.stderr.flush()
    t = threading.Timer(20, lambda: os._exit(rc))
    t.daemon = True
    t.start()
    for f in CLEANUP:
        try:
            f()
        except BaseException:
            pass
    os._exit(rc)


def derive_seed(*parts):
    return int.from_bytes(hashlib.sha256(":".join(map(str, parts)).encode()).digest()[:6], "big")


def worker_main(prop, part_name, shard, nshards, tier, seed, outfile, scratch):
    mod = __import__("checks." + prop, fromlist=["PARTS"])
    part = next(p for p in mod.PARTS if p.name == part_name)
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    if part.setup:
        part.setup()
    n = part.quick if tier == "quick" else part.thorough
    n = int(n * float(os.environ.get("VERIF_SCALE", "1")))
    n = max(1, -(-n // nshards)) if n else 0
    soft = 420.0 if tier == "quick" else 720.0
    shrink_budget = 45.0
    t0 = time.time()
    st = dict(evaluations=0, nontrivial=set(), classes={}, samples=[], truncated=False)
    best = {"case": None, "msg": None, "t": None, "timeout": False}
    harness_err = []

    def one(case):
        now = time.time()
        if best["t"] is not None and (now - best["t"] > shrink_budget or best["timeout"]):
            return
        if best["t"] is None and now - t0 > soft:
            st["truncated"] = True
            return
        if harness_err:
            return
        ctx = Ctx(scratch)
        try:
            r = run_case(part, case, ctx)
        except HarnessError as e:
            harness_err.append(str(e) + "\ncase: " + canon(case)[:4000])
            return
        finally:
            for d in os.listdir(scratch):
                if d.startswith("case"):
                    shutil.rmtree(os.path.join(scratch, d), ignore_errors=True)
        if best["t"] is None:
            st["evaluations"] += 1
            if ctx.nontrivial_flag:
                h = case_hash(case)
                if h not in st["nontrivial"]:
                    st["nontrivial"].add(h)
                    k = len(st["nontrivial"])
                    if k in (1, 3, 10):
                        st["samples"].append(case)
            for c in ctx.classes:
                st["classes"][c] = st["classes"].get(c, 0) + 1
        if r is not None:
            if best["t"] is None:
                best["t"] = time.time()
            if best["case"] is None or len(canon(case)) <= len(canon(best["case"])):
                best.update(case=case, msg=r[0])
            if r[1]:
                best["timeout"] = True
            raise _Fail(r[0])

    if part.enumerate_cases:
        cases = part.enumerate_cases(tier)
        for i, case in enumerate(cases):
            if i % nshards == shard:
                try:
                    one(case)
                except _Fail:
                    break
    if n and part.strategy is not None and best["case"] is None:
        s = settings(max_examples=n, database=None, deadline=None, phases=(Phase.generate, Phase.shrink),
                     suppress_health_check=list(HealthCheck), report_multiple_bugs=False, print_blob=False,
                     verbosity=hypothesis.Verbosity.quiet)

        @hypothesis.seed(derive_seed(seed, prop, part_name, shard))
        @s
        @given(part.strategy())
        def test(case):
            one(case)

        try:
            test()
        except _Fail:
            pass
        except BaseException as e:  # flaky / hypothesis-internal after a failure
            if best["case"] is None:
                if isinstance(e, KeyboardInterrupt):
                    raise
                harness_err.append("".join(traceback.format_exception(type(e), e, e.__traceback__)))
    reproduced = None
    if best["case"] is not None and not best["timeout"]:
        reproduced = 0
        for _ in range(3):
            try:
                r = run_case(part, best["case"], Ctx(scratch))
            except HarnessError:
                r = None
            if r is not None:
                reproduced += 1
                best["msg"] = r[0]
    res = dict(part=part_name, shard=shard, evaluations=st["evaluations"], nontrivial=sorted(st["nontrivial"]),
               classes=st["classes"], samples=st["samples"], truncated=st["truncated"],
               wall=time.time() - t0, harness_error=harness_err[0] if harness_err else None,
               violation=None if best["case"] is None else dict(case=best["case"], message=best["msg"],
                                                                reproduced=reproduced))
    with open(outfile + ".tmp", "w") as f:
        json.dump(res, f, default=repr)
    os.rename(outfile + ".tmp", outfile)
    sys.stdout.flush()
    _end(0)


def load_check(prop):
    return __import__("checks." + prop, fromlist=["PARTS"])


def known_findings(prop):
    """(entries) of the committed known-findings file for this property (status 'known')."""
    p = os.path.join(boot.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == prop and e["status"] == "known"]


def parts_meta(prop):
    """Part metadata is obtained in a child, so that the parent never imports the code under test."""
    raise NotImplementedError


def parent_main(prop, tier, seed):
    t0 = time.time()
    out = os.path.join(boot.VERIF, "out")
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    rc = 3
    try:
        rc = _parent(prop, tier, seed, out, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc


def _spawn(args, tmp, tag):
    home = os.path.join(tmp, "home-" + tag)
    os.makedirs(home)
    env = boot.child_env(home)
    log = open(os.path.join(tmp, tag + ".log"), "w")
    return subprocess.Popen([boot.PY, "-X", "faulthandler", os.path.join(boot.VERIF, "run.py")] + args, env=env, cwd=home,
                            stdout=log, stderr=subprocess.STDOUT, start_new_session=True), home


def _kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def _parent(prop, tier, seed, out, tmp, t0):
    # part list via a child process
    meta_file = os.path.join(tmp, "meta.json")
    p, _ = _spawn(["--meta", prop, meta_file], tmp, "meta")
    p.wait(timeout=300)
    if not os.path.exists(meta_file):
        print("harness error: cannot load check %s" % prop)
        print(open(os.path.join(tmp, "meta.log")).read()[-4000:])
        return 3
    meta = json.load(open(meta_file))
    jobs = []
    for part in meta["parts"]:
        ns = part["shards"] if tier == "quick" else part["tshards"]
        for s in range(ns):
            jobs.append((part, s, ns))
    jobs.sort(key=lambda j: -j[0]["weight"])
    conc = int(os.environ.get("VERIF_JOBS", "8"))
    running, results, errors = [], [], []
    hard = 780.0
    pending = list(jobs)
    while pending or running:
        while pending and len(running) < conc:
            part, s, ns = pending.pop(0)
            tag = "%s-%d" % (part["name"], s)
            of = os.path.join(tmp, tag + ".json")
            home = os.path.join(tmp, "scratch-" + tag)
            os.makedirs(home)
            pr, _ = _spawn(["--worker", prop, part["name"], str(s), str(ns), tier, str(seed), of, home], tmp, tag)
            running.append((pr, tag, of))
        time.sleep(0.05)
        still = []
        for pr, tag, of in running:
            if pr.poll() is None:
                if time.time() - t0 > hard:
                    _kill(pr)
                    pr.wait()
                    errors.append("%s: hard time limit" % tag)
                else:
                    still.append((pr, tag, of))
                continue
            _kill(pr)
            if os.path.exists(of):
                results.append(json.load(open(of)))
            else:
                errors.append("%s: worker died (%s): %s" % (tag, pr.returncode, open(os.path.join(tmp, tag + ".log")).read()[-3000:]))
        running = still
        if any(r["violation"] for r in results):
            # a violation decides the outcome; stop the rest
            for pr, tag, of in running:
                _kill(pr)
                pr.wait()
            break
    evaluations = sum(r["evaluations"] for r in results)
    nontriv = {}
    classes, samples = {}, []
    per_part = {}
    for r in results:
        nontriv.setdefault(r["part"], set()).update(r["nontrivial"])
        pp = per_part.setdefault(r["part"], dict(evaluations=0, classes={}, wall_s=0, truncated=False))
        pp["evaluations"] += r["evaluations"]
        pp["wall_s"] = round(max(pp["wall_s"], r["wall"]), 2)
        pp["truncated"] = pp["truncated"] or r["truncated"]
        for k, v in r["classes"].items():
            pp["classes"][k] = pp["classes"].get(k, 0) + v
        if r["shard"] == 0:
            samples += [dict(part=r["part"], case=c) for c in r["samples"]]
        if r["harness_error"]:
            errors.append("%s: %s" % (r["part"], r["harness_error"]))
    for k in per_part:
        per_part[k]["distinct_nontrivial"] = len(nontriv.get(k, ()))
    viols = [r for r in results if r["violation"]]
    rules = "; ".join("%s: %s" % (p["name"], p["rule"]) for p in meta["parts"])
    ev = dict(property=prop, tier=tier, seed=seed, level=meta["level"],
              coverage=dict(evaluations=evaluations, distinct_nontrivial=sum(len(v) for v in nontriv.values()),
                            rule=rules, samples=samples[:24], parts=per_part),
              assumptions=meta["assumptions"], wall_s=round(time.time() - t0, 2), violations=len(viols))
    with open(os.path.join(boot.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, pp in sorted(per_part.items()):
        print("part %-24s evaluations=%d nontrivial=%d wall=%.1fs%s" % (
            k, pp["evaluations"], pp["distinct_nontrivial"], pp["wall_s"], " TRUNCATED" if pp["truncated"] else ""))
    for line in meta["known_lines"]:
        print(line)
    if viols:
        for r in viols:
            d = os.path.join(out, "replay", prop)
            os.makedirs(d, exist_ok=True)
            v = r["violation"]
            path = os.path.join(d, "%s-%s.json" % (r["part"], case_hash(v["case"])))
            with open(path, "w") as f:
                json.dump(dict(property=prop, part=r["part"], case=v["case"], message=v["message"], tier=tier, seed=seed,
                               reproduced=v["reproduced"]), f, indent=1)
            print("part %s: %s" % (r["part"], (v["message"] or "")[:3000]))
            print("case: %s" % canon(v["case"])[:2000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("%d harness errors; the first:" % len(errors))
        print("harness error:", errors[0])
        return 3
    print("OK property=%s evaluations=%d nontrivial=%d wall=%.1fs" % (prop, evaluations, ev["coverage"]["distinct_nontrivial"], time.time() - t0))
    return 0


def meta_main(prop, outfile):
    mod = load_check(prop)
    known_lines = []
    for k in known_findings(prop):
        fn = getattr(mod, "KNOWN", {}).get(k["key"])
        if fn is None:
            continue
        try:
            still = fn()
        except Exception as e:
            still = "check of the finding raised %r" % (e,)
        if still:
            known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        else:
            known_lines.append("note: known finding %s no longer reproduces" % k["key"])
    meta = dict(level=mod.LEVEL, assumptions=getattr(mod, "ASSUMPTIONS", []), known_lines=known_lines,
                parts=[dict(name=p.name, rule=p.rule, shards=p.shards, tshards=p.tshards, weight=p.quick) for p in mod.PARTS])
    with open(outfile, "w") as f:
        json.dump(meta, f)
    sys.stdout.flush()
    _end(0)


def replay_main(path):
    with open(path) as f:
        d = json.load(f)
    mod = load_check(d["property"])
    part = next(p for p in mod.PARTS if p.name == d["part"])
    if part.setup:
        part.setup()
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    os.chdir(scratch)
    try:
        r = run_case(part, d["case"], Ctx(scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if r is None:
        print("replay: no violation")
        rc = 0
    else:
        print("replay: %s" % r[0])
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        rc = 1
    sys.stdout.flush()
    _end(rc)
