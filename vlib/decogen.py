"""Generated decorated dataflows.  Every value is an int (or a dict of ints), every function is a digest of its arguments.
A case is {"blocks": [...], "nmod": n}; render() gives module sources."""
import hashlib
from hypothesis import strategies as st
from vlib import dags

HEADER = """from typing import *
from hamilton.function_modifiers import *
from hamilton.function_modifiers import source, value, group, pipe_input, pipe_output, mutate, step, subdag
from vlib.decogen import h as _h, Even
"""


def h(name, *args):
    return int.from_bytes(hashlib.sha256(("%s|%r" % (name, args)).encode()).digest()[:4], "big")



def __getattr__(n):
    if n == "Even":
        from hamilton.data_quality import base as dqb

        class Even(dqb.DataValidator):
            def applies_to(self, datatype):
                return True

            def description(self):
                return "always passes"

            @classmethod
            def name(cls):
                return "even_validator"

            def validate(self, dataset):
                return dqb.ValidationResult(passes=True, message="")

        globals()["Even"] = Even
        return Even
    raise AttributeError(n)


NAMES = ["a", "ab", "abc", "b", "b1", "b10", "c", "d", "total", "x1", "x10", "zz", "m", "n1", "n10"]
INPUTS = ["i", "ii", "j", "k"]
KINDS = ["plain", "plain", "plain", "param", "params_src", "params_val", "fields", "config", "inject", "group", "pipe_out", "pipe_in", "mutate", "subdag", "psubdag", "check", "tagged", "does", "pex"]


@st.composite
def blocks(draw, min_n=1, max_n=6, kinds=KINDS):
    names = draw(st.permutations(NAMES))
    k = draw(st.integers(min_n, max_n))
    avail = list(INPUTS)
    out = []
    for idx in range(k):
        n = names[idx]
        kind = draw(st.sampled_from(kinds))
        deps = draw(st.lists(st.sampled_from(avail), min_size=1 if kind in ("pipe_in", "inject", "group", "does") else 0, max_size=3, unique=True))
        b = {"n": n, "kind": kind, "deps": deps, "opt": draw(st.integers(0, 4)) == 0, "src": draw(st.lists(st.sampled_from(avail), min_size=2, max_size=2)),
             "m": draw(st.integers(0, 1)), "cfg": draw(st.sampled_from(["A", "B"])), "c": draw(st.integers(0, 5))}
        out.append(b)
        avail += produced(b)
    return {"blocks": out, "cfg": draw(st.sampled_from(["A", "B"])), "order": draw(st.permutations(list(range(k))))}


def produced(b):
    """Names of the int-valued nodes a block is known to define."""
    n, k = b["n"], b["kind"]
    if k in ("param", "params_src", "params_val"):
        return [n + "_p", n + "_q"]
    if k == "fields":
        return [n + "_f", n + "_g"]
    if k == "pex":
        return [n + "_f", n + "_g", n + "_h"]
    if k == "psubdag":
        return [n + "_s", n + "_t"]
    return [n]


def fn(name, params, body=None, opt=False, ret="int", indent=""):
    ps = ["%s: int" % p for p in params]
    if opt:
        ps.append("o_%s: int = 5" % name.split("__")[0])
    args = "".join(", %s" % p for p in list(params) + (["o_%s" % name.split("__")[0]] if opt else []))
    body = body or "return _h(%r%s)" % (name, args)
    return '%sdef %s(%s) -> %s:\n%s    """doc of %s"""\n%s    %s\n' % (indent, name, ", ".join(ps), ret, indent, name, indent, body.replace("ARGS", args))


def render_block(b):
    n, k, d, opt, (s1, s2) = b["n"], b["kind"], b["deps"], b["opt"], b["src"]
    if k in ("plain", "tagged"):
        return ("@tag(owner=%r)\n" % n if k == "tagged" else "") + fn(n, d, opt=opt)
    if k == "param":
        return "@parameterize(%s_p={'u': source(%r), 'w': value(3)}, %s_q={'u': value(%d), 'w': source(%r)})\n" % (n, s1, n, b["c"], s2) + fn(n, ["u", "w"] + d)
    if k == "params_src":
        return "@parameterize_sources(%s_p=dict(u=%r), %s_q=dict(u=%r))\n" % (n, s1, n, s2) + fn(n, ["u"] + d)
    if k == "params_val":
        return "@parameterize_values(parameter='u', assigned_output={(%r, 'doc p'): 1, (%r, 'doc q'): %d})\n" % (n + "_p", n + "_q", b["c"]) + fn(n, ["u"] + d)
    if k == "fields":
        return "@extract_fields({'%s_f': int, '%s_g': int})\n" % (n, n) + fn(n, d, "return {'%s_f': _h('f'ARGS), '%s_g': _h('g'ARGS)}" % (n, n), ret="Dict[str, int]")
    if k == "pex":
        return "@extract_fields({'%s_f': int, '%s_g': int, '%s_h': int})\n@inject(u=source(%r))\n" % (n, n, n, s1) + fn(n, ["u"], "return {'%s_f': _h('f'ARGS), '%s_g': _h('g'ARGS), '%s_h': 1}" % (n, n, n), ret="Dict[str, int]")
    if k == "config":
        return "@config.when(mode='A')\n" + fn(n + "__a", d) + "\n@config.when(mode='B')\n" + fn(n + "__b", [s1], opt=opt)
    if k == "inject":
        return "@inject(%s=source(%r))\n" % ("u", s1) + fn(n, ["u"] + d)
    if k == "group":
        return "@inject(u=group(source(%r), source(%r), value(2)))\n" % (s1, s2) + "def %s(u: List[int], %s) -> int:\n    return _h(%r, u, %s)\n" % (n, ", ".join("%s: int" % p for p in d), n, ", ".join(d))
    if k == "does":
        return "def _does_%s(**kw: int) -> int:\n    return _h(%r, sorted(kw.items()))\n\n@does(_does_%s)\ndef %s(%s) -> int:\n    pass\n" % (n, n, n, n, ", ".join("%s: int" % p for p in d))
    if k == "pipe_out":
        return "def _st_%s(x: int, y: int) -> int:\n    return _h('st', x, y)\n\n@pipe_output(step(_st_%s, y=source(%r)), step(_st_%s, y=%d).when(mode='A'))\n" % (n, n, s1, n, b["c"]) + fn(n, d)
    if k == "pipe_in":
        return "def _st_%s(x: int, y: int) -> int:\n    return _h('st', x, y)\n\n@pipe_input(step(_st_%s, y=source(%r)), step(_st_%s, y=%d))\n" % (n, n, s1, n, b["c"]) + fn(n, d)
    if k == "mutate":
        return fn(n, d) + "\n@mutate(apply_to(%s), z=source(%r))\ndef _mut_%s(v: int, z: int) -> int:\n    return _h('mut', v, z)\n" % (n, s1, n)
    if k in ("subdag", "psubdag"):
        inner = "def _mk_%s():\n    def p(j: int) -> int:\n        return _h('p', j)\n\n    def q(p: int, w: int) -> int:\n        return _h('q', p, w)\n    return p, q\n\n" % n
        if k == "subdag":
            return inner + "@subdag(*_mk_%s(), inputs={'w': source(%r)})\ndef %s(q: int, p: int) -> int:\n    return _h(%r, q, p)\n" % (n, s1, n, n)
        return inner + "@parameterized_subdag(*_mk_%s(), inputs={'w': source(%r)}, %s_s={'inputs': {'j': source(%r)}}, %s_t={'inputs': {'j': value(%d)}})\ndef %s(q: int) -> int:\n    return _h(%r, q)\n" % (n, s1, n, s2, n, b["c"], n, n)
    if k == "check":
        return "@check_output_custom(Even(importance='warn'))\n" + fn(n, d)
    raise ValueError(k)


def render(case):
    srcs = ["", ""]
    bl = case["blocks"]
    for i in case["order"]:
        srcs[bl[i]["m"]] += render_block(bl[i]) + "\n"
    return srcs


def modules(case):
    return [dags.make_module(s, header=HEADER) for s in render(case) if s]


def inputs_for(names, salt=0):
    return {n: h("in", n, salt) % 1000 for n in names}
