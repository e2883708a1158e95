"""C15: a failing node fails the run with its own error and no residue."""
import logging, warnings
from collections import Counter
from hypothesis import strategies as st
from vlib.core import Part, Violation, require
from vlib import dags
from vlib.dags import REC, decode, same, qrepr
from vlib.drv import make_driver
from vlib.gen import plain_case
from checks.C02 import verify_trace
from checks.C11 import executor

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
LEVEL = "exploration"
TECH = "property-based testing: generated dataflows with injected failures, modes and follow-up calls against a reference history"


class Boom(Exception):
    pass


class Mute(Exception):
    """An error that cannot be printed."""

    def __str__(self):
        raise RuntimeError("this error cannot be printed")
    __repr__ = __str__


class Base(BaseException):
    pass


class Equal(Exception):
    """All instances compare equal."""

    def __eq__(self, o):
        return True
    __hash__ = None


ERRORS = {"Boom": lambda n: Boom(n), "Value": lambda n: ValueError(n), "Key": lambda n: KeyError(n), "Stop": lambda n: StopIteration(n), "NotImpl": lambda n: NotImplementedError(n),
          "Attr": lambda n: AttributeError(n), "Mute": lambda n: Mute(n), "Base": lambda n: Base(n), "Type": lambda n: TypeError(n), "Import": lambda n: ImportError(n), "Timeout": lambda n: TimeoutError(n),
          "Exit": lambda n: SystemExit(n), "Equal": lambda n: Equal(n), "Index": lambda n: IndexError(n), "Assert": lambda n: AssertionError(n)}


@st.composite
def case_(draw):
    c = draw(plain_case(allow_overrides=True, dag_kw=dict(max_fns=9, min_fns=2, modes=("normal", "normal", "falsy", "prickly", "grumpy"))))
    k = draw(st.sampled_from(["builder", "builder", "legacy", "graph_adapter", "task", "task"]))
    if k == "task":
        k = "task:%s:%s:%s" % (draw(st.sampled_from(["default", "nodes", "asone", "level"])), draw(executor()), draw(executor()))
    c["mode"] = k
    fns = [f["name"] for f in c["dag"]["fns"]]
    c["runs"] = [{"fail": {n: draw(st.sampled_from(sorted(ERRORS))) for n in draw(st.lists(st.sampled_from(fns), max_size=2, unique=True))}, "ov": draw(st.booleans()), "all": draw(st.booleans())}
                 for _ in range(draw(st.integers(1, 4)))]
    return c


def check(case, ctx):
    spec = case["dag"]
    mods = dags.build_modules(spec)
    try:
        config = {k: decode(v) for k, v in case["config"].items()}
        fm = dags.fn_map(spec)
        dr = make_driver(mods, case["mode"], config)
        failed = False
        for run in case["runs"] + [{"fail": {}, "ov": True, "all": False}]:
            inputs = {k: decode(v) for k, v in case["inputs"].items()}
            ov = {k: decode(v) for k, v in case["overrides"].items()} if run["ov"] else {}
            req = list(fm) if run["all"] else list(case["requests"])
            try:
                want, called = dags.ref_eval(spec, req, {**config, **inputs}, ov)
            except dags.Missing:
                continue
            errs = {n: ERRORS[k](n) for n, k in run["fail"].items() if n in called}

            def down(n):
                return any(d in errs or down(d) for d in [p["name"] for p in fm[n]["params"] if p["name"] in fm and p["name"] not in ov])
            first = [n for n in errs if not down(n)]
            REC.reset()
            REC.fail = dict(errs)
            got, exc = None, None
            try:
                got = dr.execute(list(req), inputs=dict(inputs), overrides=dict(ov))
            except BaseException as e:
                if isinstance(e, KeyboardInterrupt):
                    raise
                exc = e
            REC.fail = {}
            if errs:
                require(exc is not None, "functions %s raised but the execution returned %s", sorted(errs), dags.qrepr(got))
                require(any(exc is errs[n] for n in first), "functions %s raised; the execution raised %s: %s instead of the error of one of them", first, type(exc).__name__, "" if isinstance(exc, Mute) else exc)
                ran = REC.names()
                for n in ran:
                    require(not down(n), "%s ran although it depends on a failed function", n)
                    require(n in called, "%s ran although nothing needs it", n)
                require(max(Counter(ran).values()) == 1, "functions were called again: %s", ran)
                failed = True
                ctx.note(*["error:" + run["fail"][n] for n in errs])
            else:
                if exc is not None:
                    raise Violation("an execution without failures raised %s: %s%s" % (type(exc).__name__, "" if isinstance(exc, Mute) else exc, " after a failed one" if failed else ""))
                for n in want:
                    require(same(got[n], want[n]), "node %s is %s instead of %s%s", n, qrepr(got[n]), qrepr(want[n]), " after a failed execution" if failed else "")
                verify_trace(spec, called, REC.events, ov)
                if failed:
                    ctx.note("follow-up")
                    ctx.nontrivial(len(called) >= 2)
        ctx.note("mode:" + case["mode"].split(":")[0])
    finally:
        dags.drop_modules(mods)


BLOCK = """
def items(n: int) -> Parallelizable[int]:
    _REC.call('items', 'int', 'normal', {'n': n})
    for i in range(n):
        if ('items', i) in _REC.plan:
            raise _REC.plan[('items', i)]
        yield i

def pre(n: int) -> int:
    return _REC.call('pre', 'int', 'normal', {'n': n})

def one(items: int, pre: int) -> int:
    if ('one', items) in _REC.plan:
        raise _REC.plan[('one', items)]
    return _REC.call('one', 'int', 'normal', {'items': items})

def two(one: int, items: int) -> int:
    if ('two', items) in _REC.plan:
        raise _REC.plan[('two', items)]
    return _REC.call('two', 'int', 'normal', {'items': items})

def gathered(two: Collect[int]) -> list:
    _REC.call('gathered', 'int', 'normal', {})
    return list(two)

def after(gathered: list) -> int:
    return _REC.call('after', 'int', 'normal', {'g': gathered})
"""


@st.composite
def block_case(draw):
    n = draw(st.integers(1, 6))
    runs = []
    for _ in range(draw(st.integers(1, 3))):
        runs.append([[draw(st.sampled_from(["items", "one", "two"])), draw(st.integers(0, n - 1)), draw(st.sampled_from(["Boom", "Value", "Key", "Stop", "Equal", "Type"]))] for _ in range(draw(st.integers(0, 2)))])
    return {"n": n, "runs": runs, "mode": "task:default:%s:%s" % (draw(executor()), draw(executor()))}


def check_block(case, ctx):
    mod = dags.make_module(BLOCK, header=dags.HEADER + "from hamilton.htypes import Parallelizable, Collect\n")
    try:
        dr = make_driver([mod], case["mode"])
        n = case["n"]
        failed = False
        for run in case["runs"] + [[]]:
            REC.reset()
            plan = {}
            for f, i, k in run:
                if f == "items" and k == "Stop":
                    k = "Boom"  # StopIteration cannot leave a generator
                plan[(f, i)] = ERRORS[k]("%s %d" % (f, i))
            REC.plan = plan
            try:
                got, exc = dr.execute(["after", "gathered"], inputs={"n": n}), None
            except Exception as e:
                got, exc = None, e
            expanding = [e for (f, i), e in plan.items() if f == "items"]
            first = expanding or [e for (f, i), e in plan.items() if f == "one" or ("one", i) not in plan]
            names = REC.names()
            if plan:
                require(exc is not None, "tasks %s failed but the execution returned %r", sorted(plan), got)
                require(any(exc is e for e in first), "tasks %s failed, the execution raised %r", sorted(plan), exc)
                require("gathered" not in names and "after" not in names, "the collecting function ran although items %s failed", sorted(plan))
                require(not expanding or "one" not in names, "items ran although the sequence failed")
                failed = True
            else:
                require(exc is None, "an execution without failures raised %r", exc)
                want = [dags.node_value("two", "int", "normal", {"items": i}) for i in range(n)]
                require(got["gathered"] == want, "collected %r instead of %r%s", got["gathered"], want, " after a failed execution" if failed else "")
                require(Counter(names) == Counter({"items": 1, "pre": 1, "one": n, "two": n, "gathered": 1, "after": 1}), "calls %s", Counter(names))
                ctx.nontrivial(failed)
    finally:
        dags.drop_modules([mod])


PARTS = [Part("failures", case_, check, 7000, 110000, "after a failed execution one of two or more functions succeeds on the same driver", shards=8, tshards=8, timeout=120),
         Part("blocks", block_case, check_block, 1500, 20000, "a failed parallel execution is followed by a successful one", shards=4, tshards=4, timeout=120)]
