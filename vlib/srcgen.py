"""Generated function sources, layout-only edits and behavioural edits of them (decided on the syntax tree)."""
import ast, copy, io, tokenize
from hypothesis import strategies as st

lit = st.one_of(st.integers(0, 9).map(repr), st.sampled_from(["'a'", "'a # b'", "\"it's\"", "1.5", "None", "True", "b'x'", "(1, 2)", "[]", "{'k': 1}", "'''multi\n   line # x\n'''", "-1", "'é'", "''"]))


@st.composite
def stmt(draw, names, depth=0):
    n = draw(st.sampled_from(names))
    a, b = draw(lit), draw(lit)
    kinds = ["assign", "aug", "call", "fstr", "comp", "lam", "ret", "tern", "expr", "expr", "del", "assert"]
    if depth < 2:
        kinds += ["if", "for", "inner", "try", "with", "while"]
    k = draw(st.sampled_from(kinds))
    if k == "assign":
        return "x = (%s, %s)" % (n, a)
    if k == "aug":
        return "x = %s %s %s" % (n, draw(st.sampled_from(["+", "-", "*", "==", "is not", "in", "and", "or", "<", "<="])), a)
    if k == "call":
        return "x = max(%s, %s, key=%s)" % (a, n, b)
    if k == "fstr":
        return "x = f'{%s!r:>%d} # {%s}'" % (n, draw(st.integers(1, 5)), n)
    if k == "comp":
        return "x = [j for j in (%s, %s) if j != %s]" % (a, n, b)
    if k == "lam":
        return "x = (lambda q, r=%s: (q, r, %s))(%s)" % (a, b, n)
    if k == "ret":
        return "return %s" % a
    if k == "expr":
        return draw(st.sampled_from(["print(%s, %s)", "[%s].append(%s)", "dict(q=%s).update(z=%s)"])) % (n, a)
    if k == "del":
        return "x = [%s, %s]\ndel x[%d]" % (n, a, draw(st.integers(0, 1)))
    if k == "assert":
        return "assert %s != %s, %s" % (n, a, b)
    if k == "tern":
        return "x = %s if %s else %s" % (a, n, b)
    body = "\n".join("    " + l if not inside else l for inside, l in _lines(draw(stmt(names, depth + 1))))
    if k == "if":
        return "if %s:\n%s\nelse:\n    x = %s" % (n, body, a)
    if k == "for":
        return "for i in (%s, %s):\n%s\n    continue" % (a, n, body)
    if k == "while":
        return "while %s:\n%s\n    break" % (n, body)
    if k == "inner":
        return "def inner(z=%s):\n    '''inner doc'''\n%s\n    return z" % (a, body)
    if k == "try":
        return "try:\n%s\nexcept (ValueError, KeyError) as e:\n    x = %s\nfinally:\n    pass" % (body, a)
    return "with open(%s) as fh:\n%s" % (a, body)


def _lines(src):
    """(continues a string literal, line) pairs."""
    inside = set()
    try:
        for t in tokenize.generate_tokens(io.StringIO(src + "\n").readline):
            if t.type == tokenize.STRING and t.start[0] != t.end[0]:
                inside.update(range(t.start[0] + 1, t.end[0] + 1))
    except tokenize.TokenError:
        pass
    return [(i + 1 in inside, l) for i, l in enumerate(src.split("\n"))]


def indent(src):
    return "\n".join(l if inside else "    " + l for inside, l in _lines(src))


@st.composite
def function(draw, name, avail):
    params = draw(st.lists(st.sampled_from(avail), max_size=3, unique=True))
    opts = draw(st.lists(st.sampled_from(["o1", "o2"]), max_size=1))
    kwonly = draw(st.booleans())
    sig = ["%s: %s" % (p, draw(st.sampled_from(["int", "Any", "'int'", "Optional[int]"]))) for p in params]
    if opts:
        sig += (["*"] if kwonly else []) + ["%s: Any = %s" % (o, draw(lit)) for o in opts]
    body = [draw(stmt((params or ["None"]) + opts)) for _ in range(draw(st.integers(0, 3)))]
    deco = draw(st.sampled_from(["", "", "", "@tag(owner='%s')\n" % draw(st.sampled_from("ab")), "@config.when(cfg=1)\n"]))
    doc = draw(st.sampled_from([None, None, "doc of it", "doc # x"]))
    src = deco + "def %s(%s) -> %s:\n" % (name, ", ".join(sig), draw(st.sampled_from(["int", "Any", "Dict[str, int]"])))
    if doc:
        src += '    """%s"""\n' % doc
    src += "\n".join(indent(b) for b in body + ["return %s" % draw(lit)]) + "\n"
    return src


def strip_doc(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:]
    return tree


def meaning(src):
    return ast.dump(strip_doc(ast.parse(src)))


def layout_edit(src, choices):
    """Comments, blank lines, trailing blanks and doc strings; choices: list of ints that decide what goes where."""
    out, k = [], 0
    ls = _lines(src)
    nxt = [x[0] for x in ls[1:]] + [False]
    for (inside, l), cont in zip(ls, nxt):
        c = choices[k % len(choices)] if choices else 0
        k += 1
        pad = l[:len(l) - len(l.lstrip())]
        if not inside and l.strip() and not l.startswith("@"):
            if c % 7 == 1 and pad:
                out.append(pad + "# comment %d" % c)
            if c % 7 == 2 and pad:
                out.append("")
            if c % 7 == 3 and pad:
                out.append("# comment at column 0")
        if not cont and not inside and l.strip() and c % 5 == 1:
            l += "  # trailing %d" % c
        elif not cont and not inside and l.strip() and c % 5 == 2:
            l += "   "
        out.append(l)
    return "\n".join(out)


def doc_edit(src, new):
    """Replace (or add, or with None remove) the doc string."""
    t = ast.parse(src)
    f = t.body[0]
    has = f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) and isinstance(f.body[0].value.value, str)
    lines = src.split("\n")
    if has:
        a, b = f.body[0].lineno - 1, f.body[0].end_lineno
        lines[a:b] = ["    '''%s'''" % new] if new is not None else []
        return "\n".join(lines)
    if new is None:
        return src
    a = f.body[0].lineno - 1
    lines[a:a] = ["    '''%s'''" % new]
    return "\n".join(lines)


BIN = {ast.Add: ast.Sub, ast.Sub: ast.Mult, ast.Mult: ast.Add}
CMP = {ast.Eq: ast.NotEq, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.NotEq: ast.Eq}


def behaviour_edits(src):
    """All single edits of the syntax tree we know of: list of (what, source)."""
    res = []
    base = ast.parse(src)
    nodes = list(ast.walk(strip_doc(ast.parse(src))))

    def emit(what, i, fn):
        t = strip_doc(ast.parse(src))
        n = list(ast.walk(t))[i]
        fn(n)
        ast.fix_missing_locations(t)
        try:
            s = ast.unparse(t) + "\n"
            ast.parse(s)
        except Exception:
            return
        res.append((what, s))
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                new = not v
            elif v is None:
                new = 0
            elif isinstance(v, (int, float)):
                new = v + 1
            elif isinstance(v, str):
                new = v + " "
            elif isinstance(v, bytes):
                new = v + b"z"
            else:
                continue
            emit("literal", i, lambda m, new=new: setattr(m, "value", new))
            if isinstance(v, str) and len(v) > 1:
                emit("case of a literal", i, lambda m, v=v: setattr(m, "value", v.swapcase() if v.swapcase() != v else v[::-1]))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            emit("operator", i, lambda m: setattr(m, "op", BIN[type(m.op)]()))
            emit("operands swapped", i, lambda m: m.__dict__.update(left=m.right, right=m.left))
        elif isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            emit("comparison", i, lambda m: setattr(m, "ops", [CMP[type(m.ops[0])]()]))
        elif isinstance(n, ast.BoolOp):
            emit("and/or", i, lambda m: setattr(m, "op", ast.And() if isinstance(m.op, ast.Or) else ast.Or()))
        elif isinstance(n, ast.FunctionDef):
            emit("statement added", i, lambda m: m.body.insert(0, ast.parse("y = 1").body[0]))
            emit("pass added", i, lambda m: m.body.append(ast.Pass()))
            emit("call added", i, lambda m: m.body.insert(len(m.body) // 2, ast.parse("print('y')").body[0]))
            if len(n.body) > 1:
                emit("statement dropped", i, lambda m: m.body.pop(0))
                emit("statements swapped", i, lambda m: m.body.__setitem__(slice(0, 2), m.body[0:2][::-1]))
            if n.args.args and n.returns is not None:
                emit("annotation", i, lambda m: setattr(m.args.args[0], "annotation", ast.Name("float", ast.Load())))
                emit("parameter added", i, lambda m: m.args.args.insert(0, ast.arg("extra_p", ast.Name("int", ast.Load()))))
            if n.returns is not None:
                emit("return annotation", i, lambda m: setattr(m, "returns", ast.Name("float", ast.Load())))
                emit("decorator added", i, lambda m: m.decorator_list.insert(0, ast.parse("tag(z='1')", mode="eval").body))
                if n.decorator_list:
                    emit("decorator dropped", i, lambda m: m.decorator_list.pop())
        elif isinstance(n, ast.If):
            emit("branches swapped", i, lambda m: m.__dict__.update(body=m.orelse, orelse=m.body))
        elif isinstance(n, ast.Return) and n.value is not None:
            emit("return value wrapped", i, lambda m: setattr(m, "value", ast.Tuple([m.value], ast.Load())))
    # inside string literals that span lines: blanks at the end of a line, at the start of one, an empty line
    lines = src.split("\n")
    for i, (inside, l) in enumerate(_lines(src)):
        if inside:
            res.append(("blanks at the end of a line of a literal", "\n".join(lines[:i - 1] + [lines[i - 1] + "  "] + lines[i:])))
            res.append(("blanks at the start of a line of a literal", "\n".join(lines[:i] + [" " + l] + lines[i + 1:])))
            res.append(("a line of a literal", "\n".join(lines[:i] + ["# no comment"] + lines[i:])))
            res.append(("an empty line of a literal", "\n".join(lines[:i] + [""] + lines[i:])))
    return res
