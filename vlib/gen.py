"""Strategies shared by checks."""
from hypothesis import strategies as st
from . import dags


@st.composite
def plain_case(draw, modes=("builder",), allow_overrides=False, dag_kw=None, complete=True, requests_min=1):
    """A DAG, a valid set of inputs (split between config and runtime inputs), requests and a mode."""
    spec = draw(dags.dag(**(dag_kw or {})))
    fns = [f["name"] for f in spec["fns"]]
    ui = dags.used_inputs(spec)
    config, inputs = {}, {}
    supplied = []
    for n in sorted(ui):
        required = ui[n]
        if required or draw(st.booleans()):
            v = draw(dags.value_for(spec["inputs"][n]["type"]))
            (config if draw(st.integers(0, 4)) == 0 else inputs)[n] = v
            supplied.append(n)
    pool = fns + supplied
    k = draw(st.integers(requests_min, min(4, len(pool))))
    reqs = draw(st.lists(st.sampled_from(pool), min_size=k, max_size=k))
    if draw(st.integers(0, 7)) == 0:
        reqs = list(draw(st.permutations(fns)))
    case = {"dag": spec, "config": config, "inputs": inputs, "requests": reqs,
            "how": [draw(st.sampled_from(["str", "str", "fn", "var"])) for _ in reqs],
            "mode": draw(st.sampled_from(list(modes))), "empty_inputs": draw(st.booleans())}
    if allow_overrides:
        k = draw(st.integers(0, min(4, len(fns) + len(ui))))
        ov = draw(st.lists(st.sampled_from(fns + sorted(ui)), min_size=k, max_size=k, unique=True))
        case["overrides"] = {n: draw(dags.value_for("Any")) for n in ov}
    return case
