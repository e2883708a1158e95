"""C32: the command line reports the truth about a dataflow and its history."""
import json, logging, os, subprocess, sys
from pathlib import Path
from hypothesis import strategies as st
from hamilton import driver
from hamilton.cli import commands
from vlib.core import Part, require, HarnessError
from vlib import dags, srcgen as S

logging.disable(logging.CRITICAL)
LEVEL = "exploration"
TECH = "property-based testing: generated histories of module files in scratch git repositories; build, version, diff and validate against an oracle on the syntax trees and drivers built directly"
HEADER = "from typing import *\nfrom hamilton.function_modifiers import *\n\n"

DECO = {
    "param": ("@parameterize({n}_1=dict(k=value({v})), {n}_2=dict(k=value(7)))\ndef {n}(u: int, k: int) -> int:\n    return u + k + {w}\n", ["{n}_1", "{n}_2"]),
    "fields": ("@extract_fields(dict({n}_x=int, {n}_y=int))\ndef {n}(u: int) -> dict:\n    return {{'{n}_x': u + {v}, '{n}_y': {w}}}\n", ["{n}", "{n}_x", "{n}_y"]),
    "via": ("@parameterize({n}=dict(k=value({v})))\ndef {n}_fn(u: int, k: int) -> int:\n    return u + k + {w}\n", ["{n}"]),
    "when": ("@config.when(cfg={v})\ndef {n}__{sfx}(u: int) -> int:\n    return u + {w}\n", None),
}


@st.composite
def fn(draw, name, avail):
    k = draw(st.sampled_from(["plain"] * 5 + sorted(DECO)))
    if k == "plain":
        return {"n": name, "k": k, "src": draw(S.function(name, avail)).replace("@config.when(cfg=1)\n", "")}
    return {"n": name, "k": k, "v": draw(st.integers(0, 3)), "w": draw(st.integers(0, 3)), "sfx": "a"}


def src_of(f):
    return f["src"] if f["k"] == "plain" else DECO[f["k"]][0].format(**f)


def nodes_of(f, cfg):
    if f["k"] == "plain":
        return [f["n"]]
    if f["k"] == "when":
        return [f["n"]] if cfg == f["v"] else []
    return [x.format(**f) for x in DECO[f["k"]][1]]


def fname(f):
    if f["k"] == "via":
        return f["n"] + "_fn"
    return f["n"] + "__" + f["sfx"] if f["k"] == "when" else f["n"]


@st.composite
def case_(draw):
    nm = draw(st.integers(1, 2))
    # some names are beginnings of others
    names = draw(st.lists(st.sampled_from(["f", "f1", "f12", "fx", "f_1", "e", "h"]), min_size=1, max_size=5, unique=True))
    avail, fns = ["u", "w"], []
    for n in names:
        f = draw(fn(n, avail))
        f["m"] = draw(st.integers(0, nm - 1))
        fns.append(f)
        avail = avail + [x for x in [n] if f["k"] in ("plain", "when") and f["k"] == "plain"]
    edits = []
    for f in fns:
        edits.append({"op": draw(st.sampled_from(["keep", "keep", "layout", "layout", "behave", "behave", "drop", "rename", "move", "suffix"])), "layout": draw(st.lists(st.integers(0, 34), min_size=1, max_size=6)),
                      "doc": draw(st.sampled_from(["keep", None, "other doc"])), "pick": draw(st.integers(0, 10 ** 6))})
    new = []
    for i in range(draw(st.integers(0, 2))):
        f = draw(fn("g%d" % i, ["u", "w"]))
        f["m"] = draw(st.integers(0, nm - 1))
        new.append(f)
    return {"fns": fns, "edits": edits, "new": new, "nm": nm, "cfg": draw(st.sampled_from([None, 0, 1, 2])), "order": draw(st.integers(0, 3)), "head": draw(st.sampled_from(["", "# note\n", "\n\n"])),
            "dirs": draw(st.sampled_from(["", "pkg", "a/b c"])), "ref": draw(st.sampled_from(["HEAD", "HEAD~1", "v1", "sha"])), "view": draw(st.integers(0, 7)) == 0,
            "newfile": draw(st.sampled_from([None] * 8 + ["new 0", "new 1", "empty 0", "empty 1"])) if nm == 2 else None, "ctx": draw(st.sampled_from(["json", "py"]))}


def edited(case):
    out = []
    for f, e in zip(case["fns"], case["edits"]):
        f = dict(f)
        op = e["op"]
        f["text"] = src_of(f)
        if op == "drop":
            continue
        if op == "layout":
            t = S.layout_edit(f["text"], e["layout"])
            if e["doc"] != "keep":
                t = S.doc_edit(t, e["doc"])
            if S.meaning(t) != S.meaning(f["text"]):
                raise HarnessError("layout edit changed the meaning")
            f["text"] = t
        elif op == "behave":
            if f["k"] == "plain":
                eds = [b for a, b in S.behaviour_edits(f["src"]) if S.meaning(b) != S.meaning(f["src"])]
                if eds:
                    f["text"] = f["src"] = eds[e["pick"] % len(eds)]
            else:
                f["w"] += 1 + e["pick"] % 3
                f["text"] = src_of(f)
        elif op == "rename":
            old = f["n"]
            f["n"] = old + "r"
            if f["k"] == "plain":
                f["src"] = f["text"] = f["src"].replace("def %s(" % old, "def %s(" % f["n"], 1)
            else:
                f["text"] = src_of(f)
        elif op == "suffix" and f["k"] == "when":
            f["sfx"] = "b"
            f["text"] = src_of(f)
        elif op == "suffix" and f["k"] in ("plain", "via"):  # the same node, from a function of another name
            f.update({"k": "via", "v": 1, "w": 1, "sfx": "a"} if f["k"] == "plain" else {"k": "plain", "src": "def %s(u: int) -> int:\n    return 3\n" % f["n"]})
            f["text"] = src_of(f)
        elif op == "move":
            f["m"] = (f["m"] + 1) % case["nm"]
        out.append(f)
    for g in case["new"]:
        out.append(dict(g, text=src_of(g)))
    k = case["order"] % max(1, len(out))
    return out[k:] + out[:k]


def texts(fns, nm, head=""):
    r = [HEADER + head for _ in range(nm)]
    for f in fns:
        r[f["m"]] += f["text"] + "\n\n"
    return r


def git(d, *a):
    env = dict(os.environ, GIT_AUTHOR_NAME="x", GIT_AUTHOR_EMAIL="x@y", GIT_COMMITTER_NAME="x", GIT_COMMITTER_EMAIL="x@y", GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_NOSYSTEM="1")
    p = subprocess.run(["git"] + list(a), cwd=d, env=env, capture_output=True, text=True)
    if p.returncode:
        raise HarnessError("git %s: %s" % (a, p.stderr))
    return p.stdout.strip()


def direct(text_list, cfg):
    ms = [dags.make_module(t, header="") for t in text_list]
    try:
        dr = driver.Builder().enable_dynamic_execution(allow_experimental_mode=True).with_modules(*ms).with_config(cfg).build()
        return {v.name: (v.is_external_input, v.version) for v in dr.list_available_variables()}
    finally:
        dags.drop_modules(ms)


def repo_of(case, ctx):
    """A scratch repository with version one of the files committed and version two in the working tree."""
    d = os.path.realpath(str(ctx.fresh_dir()))
    sub = os.path.join(d, case["dirs"]) if case["dirs"] else d
    os.makedirs(sub, exist_ok=True)
    one = [dict(f, text=src_of(f)) for f in case["fns"]]
    two = edited(case)
    paths = [Path(sub) / ("mod%d.py" % i) for i in range(case["nm"])]
    t1, t2 = texts(one, case["nm"]), texts(two, case["nm"], case["head"])
    git(d, "init", "-q")
    Path(d, "readme").write_text("x")
    git(d, "add", "-A")
    git(d, "commit", "-qm", "0")
    gone = {int(case["newfile"][-1])} if case["newfile"] else set()
    for i, p in enumerate(paths):
        if i not in gone:
            p.write_text(t1[i])
        elif case["newfile"].startswith("empty"):
            p.write_text("")
    git(d, "add", "-A")
    git(d, "commit", "-qm", "1")
    git(d, "tag", "v1")
    ref = case["ref"]
    if ref == "sha":
        ref = git(d, "rev-parse", "HEAD")
    elif ref == "HEAD~1":
        for p in paths:
            p.write_text("# other\n")
        git(d, "add", "-A")
        git(d, "commit", "-qm", "2")
    for p, t in zip(paths, t2):
        p.write_text(t)
    if gone:
        one = [f for f in one if f["m"] not in gone]
        t1 = [t for i, t in enumerate(t1) if i not in gone]
    return d, paths, one, two, t1, t2, ref


def write_context(d, kind, ctxd):
    if kind == "json":
        p = Path(d) / "ctx.json"
        p.write_text(json.dumps(ctxd))
    else:
        p = Path(d) / "ctx.py"
        p.write_text("".join("%s = %r\n" % kv for kv in ctxd.items()))
    return p


def buildable(t, cfg):
    try:
        return direct(t, cfg)
    except Exception:
        return None


def check(case, ctx):
    cfg = {} if case["cfg"] is None else {"cfg": case["cfg"]}
    d, paths, one, two, t1, t2, ref = repo_of(case, ctx)
    cp = write_context(d, case["ctx"], {"HAMILTON_CONFIG": cfg}) if case["cfg"] is not None else None
    a, b = buildable(t1, cfg), buildable(t2, cfg)
    if a is None or b is None:
        ctx.note("a version cannot be built")
        return
    cwd = os.getcwd()
    try:
        os.chdir(os.path.dirname(paths[0]))
        dr = commands.build(paths, cp)
        ver = commands.version(dr)
        out = Path(d) / "out.svg"
        df = commands.diff(dr, paths, git_reference=ref, view=case["view"], output_file_path=out, context_path=cp)
    finally:
        os.chdir(cwd)
    require(ver["nodes_hash"] == {n: v[1] for n, v in b.items()}, "version reports %s, the dataflow's nodes have %s", ver["nodes_hash"], b)
    require(set(df) == {"current_only", "reference_only", "edit"}, "diff has keys %s", sorted(df))
    want_c = set(b) - set(a)
    want_r = set(a) - set(b)
    require(set(df["current_only"]) == want_c, "diff: nodes only in the current version: %s, should be %s", sorted(df["current_only"]), sorted(want_c))
    require(set(df["reference_only"]) == want_r, "diff: nodes only in the reference version: %s, should be %s", sorted(df["reference_only"]), sorted(want_r))
    m1 = {n: f for f in one for n in nodes_of(f, case["cfg"])}
    m2 = {n: f for f in two for n in nodes_of(f, case["cfg"])}
    n_edit = n_same = 0
    for n in sorted(set(a) & set(b)):
        if a[n][0] and b[n][0]:
            continue  # inputs on both sides: whether an edit of a user of it counts is left open
        if a[n][0] != b[n][0]:
            require(n in df["edit"], "diff: %s turned from a node into an input (or back) and is not reported as edited", n)
            continue
        ch = S.meaning(m1[n]["text"]) != S.meaning(m2[n]["text"])
        n_edit += ch
        n_same += not ch
        require((n in df["edit"]) == ch, "diff: %s is%s reported as edited:\n%s\n->\n%s", n, "" if n in df["edit"] else " not", m1[n]["text"], m2[n]["text"])
    require(set(df["edit"]) <= set(a) & set(b), "diff: edited nodes %s that are not in both versions", sorted(df["edit"]))
    for st_, names in df.items():
        for n, f in names.items():
            src = m2 if n in b else m1
            if n in src and not (b if n in b else a)[n][0]:
                require(f in (fname(src[n]),) + ((src[n]["n"],) if src[n]["k"] == "when" else ()), "diff: %s is said to come from %s, it comes from %s", n, f, fname(src[n]))
    if case["view"]:
        require(out.exists() and out.stat().st_size > 0, "diff with view wrote no picture")
        ctx.note("view")
    # an unknown reference is an error, not a diff against nothing
    if case["order"] == 0:
        try:
            os.chdir(os.path.dirname(paths[0]))
            commands.diff(dr, paths, git_reference="no/such-ref", context_path=cp)
            bad = True
        except Exception:
            bad = False
        finally:
            os.chdir(cwd)
        require(not bad, "diff against a reference that does not exist gave an answer")
    # the version of the whole dataflow is that of the same text built anew
    require(commands.version(commands.build(paths, cp)) == ver, "version differs between two builds of the same files")
    # the hash of the dataflow identifies the versions of its nodes
    olds = []
    for i, t in enumerate(t1):
        q = Path(d) / ("old%d.py" % i)
        q.write_text(t)
        olds.append(q)
    h1 = commands.version(commands.build(olds, cp))["dataflow_hash"]
    key = [sorted(str(v[1]) for v in x.values()) for x in (a, b)]
    require((h1 == ver["dataflow_hash"]) == (key[0] == key[1]), "the two versions of the dataflow have %s hashes", "equal" if h1 == ver["dataflow_hash"] else "different")
    if want_c or want_r or n_edit:
        ctx.nontrivial()
    if n_edit and n_same:
        ctx.note("edited and unedited nodes")
    if case["newfile"]:
        ctx.note(case["newfile"])


# ---------------------------------------------------------------- the program itself
@st.composite
def run_case(draw):
    c = draw(case_())
    c.update(nm=1, newfile=None, view=False, ref="HEAD", final=draw(st.integers(0, 3)), inputs=draw(st.sampled_from(["all", "all", "none", "extra"])), cmd=draw(st.sampled_from(["diff", "validate", "validate", "version", "build"])), broken=draw(st.integers(0, 5)) == 0)
    for f in c["fns"] + c["new"]:
        f["m"] = 0
    return c


def check_run(case, ctx):
    cfg = {} if case["cfg"] is None else {"cfg": case["cfg"]}
    d, paths, one, two, t1, t2, ref = repo_of(case, ctx)
    if case["broken"]:
        t2 = [t2[0] + "def zz(u) -> int:\n    return 1\n"]
        paths[0].write_text(t2[0])
    a, b = buildable(t1, cfg), buildable(t2, cfg)
    if a is None:
        ctx.note("the first version cannot be built")
        return
    cmd = case["cmd"]
    names = sorted(n for n in (b or {}) if not b[n][0])
    final = names[: case["final"]] + (["nosuch"] if case["final"] == 3 else [])
    ins = {"all": {n: 1 for n in (b or {}) if b[n][0] and n not in cfg}, "none": {}, "extra": {"nobody": 1}}[case["inputs"]]
    ctxd = {"HAMILTON_CONFIG": cfg, "HAMILTON_FINAL_VARS": final, "HAMILTON_INPUTS": ins, "HAMILTON_OVERRIDES": {}}
    cp = write_context(d, case["ctx"], ctxd)
    env = dict(os.environ, PYTHONPATH=os.pathsep.join(x for x in sys.path if x), HAMILTON_TELEMETRY_ENABLED="false")
    p = subprocess.run([sys.executable, "-m", "hamilton.cli", "--json-out", cmd, "-ctx", str(cp), str(paths[0])], cwd=d, env=env, capture_output=True, text=True, timeout=200)
    if cmd == "validate" and b is not None:
        m = dags.make_module(t2[0], header="")
        dr = driver.Builder().enable_dynamic_execution(allow_experimental_mode=True).with_modules(m).with_config(cfg).build()
        try:
            dr.validate_execution(final, inputs=ins, overrides={})
            ok = True
        except ValueError:
            ok = False
        dags.drop_modules([m])
    else:
        ok = b is not None
    require((p.returncode == 0) == ok, "hamilton %s ended with %s; the dataflow or request is %s\n%s", cmd, p.returncode, "valid" if ok else "invalid", p.stderr[-600:])
    if not ok:
        ctx.nontrivial()
        return
    try:
        r = json.loads(p.stdout.strip().splitlines()[-1])
    except Exception:
        require(False, "hamilton --json-out %s printed no JSON: %r", cmd, p.stdout[-300:])
    require(r["command"] == cmd and r["success"] is True, "answer %s", r)
    if cmd == "validate":
        require(r["message"] == ctxd, "validate echoes context %s, given %s", r["message"], ctxd)
    if cmd == "version":
        require(r["message"]["nodes_hash"] == {n: v[1] for n, v in b.items()}, "version printed %s, in process %s", r["message"]["nodes_hash"], b)
    if cmd == "diff":
        require(set(r["message"]["current_only"]) == set(b) - set(a) and set(r["message"]["reference_only"]) == set(a) - set(b), "diff printed %s for %s against %s", r["message"], sorted(b), sorted(a))
    ctx.note(cmd)
    ctx.nontrivial()


PARTS = [Part("diff", case_, check, 700, 8000, "the two versions differ in some node", shards=5, tshards=6),
         Part("program", run_case, check_run, 36, 300, "the program answered", shards=3, tshards=4)]
