"""Topological sorting and type dependencies against the real code (properties C15 and C16)."""

import itertools
import random
import sys

from codec import outcome
from gen import Gen
from lang import PYNAME, SCALARS, TEXTS, World, opt


class Node:
    "A node with value semantics whose hash tells nothing."

    def __init__(self, i):
        self.i = i

    def __eq__(self, other):
        return type(other) is Node and self.i == other.i

    def __hash__(self):
        return 7

    def __bool__(self):
        return False


CLASSES = [type(f"N{i}", (), {}) for i in range(100)]
ODD = [None, "", 0, (), 0.5, "None", frozenset(), b"", ((),), -1, "0", 1.5]
REPS = {
    "int": lambda i: i - 1,
    "str": lambda i: "" if i == 1 else f"n{i}",
    "odd": lambda i: ODD[i - 1] if i <= len(ODD) else i,
    "fresh": lambda i: ("node", i),
    "type": lambda i: CLASSES[i % 100] if i < 100 else i,
    "node": Node,
}


def run_topo(w):
    from strong_typing.topological import topological_sort

    events = []
    for ev in w["ev"]:
        rep = REPS[ev["rep"]]
        order = ev.get("order") or range(1, len(ev["g"]) + 1)
        graph = {rep(i): {rep(j) for j in ev["g"][i - 1]} for i in order}
        names = {rep(i): i for i in range(1, len(ev["g"]) + 1)}
        before = [(k, set(v)) for k, v in graph.items()]
        out = dict(ev)
        r = outcome(lambda: topological_sort(graph), lambda ns: [names[n] if type(n).__hash__ and n in names else 0 for n in ns], "v")
        if not r["ok"]:
            r["e"] = kind_of(lambda: topological_sort(graph))
        out["o"] = {"ok": r["ok"], "e": r["e"], "v": r["v"] if r["ok"] else []}
        out["same"] = before == list(graph.items())
        events.append(out)
    return {"ev": events}


def kind_of(fun):
    try:
        fun()
    except Exception as ex:
        return type(ex).__name__
    return ""


def random_graph(r, n, acyclic):
    p = r.choice([0.05, 0.15, 0.3, 0.6])
    rank = list(range(n))
    r.shuffle(rank)
    g = []
    for i in range(n):
        adj = [j + 1 for j in range(n) if r.random() < p and (not acyclic or rank[j] < rank[i] or (i == j and r.random() < 0.5))]
        g.append(adj)
    return g


def long_graph(r, n):
    shape = r.choice(["chain", "back", "ladder", "ring"])
    ids = list(range(1, n + 1))
    r.shuffle(ids)
    g = [[] for _ in range(n)]
    for a, b in zip(ids, ids[1:]):
        g[a - 1].append(b)
    if shape == "ladder":
        for a, b in zip(ids, ids[2:]):
            g[a - 1].append(b)
    if shape == "ring":
        g[ids[-1] - 1].append(ids[0])
    if shape == "back":
        g[ids[n // 2] - 1].append(ids[n // 3])
    return g


def topo_worlds(seed, graphs, count, long):
    r = random.Random(seed)
    events = []
    for g in graphs:
        n = len(g)
        orders = list(itertools.permutations(range(1, n + 1)))
        if n > 3:
            orders = [r.choice(orders)]
        for i, order in enumerate(orders):
            events.append({"g": g, "order": list(order), "rep": list(REPS)[(i + sum(map(sum, g))) % len(REPS)]})
    for _ in range(count):
        n = r.randint(4, 12)
        g = random_graph(r, n, r.random() < 0.75)
        order = list(range(1, n + 1))
        r.shuffle(order)
        events.append({"g": g, "order": order, "rep": r.choice(list(REPS))})
    worlds = [{"name": f"t{i}", "ev": events[i:i + 400]} for i in range(0, len(events), 400)]
    for i in range(long):
        n = r.choice([60, 150, 300])
        worlds.append({"name": f"l{i}", "ev": [{"g": long_graph(r, n), "order": r.sample(range(1, n + 1), n), "rep": r.choice(["int", "str", "fresh", "node"] if n < 100 else ["int", "str", "fresh"])}]})
    return worlds


def deep_chain(n=5000):
    "A chain too long to be judged by the specification: the only order is known."
    from strong_typing.topological import topological_sort

    try:
        r = topological_sort({i: {i + 1} if i < n else set() for i in range(n + 1)})
    except Exception as ex:
        return f"bad:sorting a chain of {n} nodes failed with {type(ex).__name__}"
    return None if r == list(range(n, -1, -1)) else f"bad:a chain of {n} nodes is not sorted"


# ---------------------------------------------------------------------------------------------------------------------
# type dependencies


def kinds(world):
    "Maps type objects to their names in the specification."
    m = {typ: n for n, typ in world.types.items()}
    for k in SCALARS + TEXTS + ("decimal", "jobj", "jarr"):
        if k != "none":
            m[eval(PYNAME[k], world.ns)] = k
    return m


def run_deps(w):
    from strong_typing.inspection import get_referenced_types
    from strong_typing.topological import type_topological_sort

    world = World(w["E"], w.get("style"), w["name"]).load()
    try:
        names = kinds(world)
        events = []
        for ev in w["ev"]:
            out = dict(ev)
            name = lambda t: names.get(t, f"<{t!r}>"[:80])  # noqa: E731
            if ev["op"] == "refs":
                if ev["T"]["k"] == "ref":
                    typ = ev["T"]["n"]
                else:
                    typ = world.type(ev["T"], ev.get("notation"))
                fun = lambda: get_referenced_types(typ, world.module)  # noqa: E731
                if ev.get("plain"):
                    fun = lambda: get_referenced_types(typ)  # noqa: E731
                show = lambda ts: sorted(name(t) for t in ts)  # noqa: E731
            else:
                typs = [world.type(T) for T in ev["types"]]
                if ev["how"] == "iter":
                    given = lambda: iter(typs)  # noqa: E731
                else:
                    given = lambda: list(typs)  # noqa: E731
                types_by_name = {n: t for t, n in names.items()}
                extra = {types_by_name[n]: [types_by_name[x] for x in xs] for n, xs in ev["extra"].items()}
                if ev["extra"] or ev["how"] == "fn":
                    back = (lambda t: iter(extra.get(t, ()))) if ev["how"] == "iter" else (lambda t: extra.get(t, []))
                    fun = lambda: type_topological_sort(given(), back)  # noqa: E731
                else:
                    fun = lambda: type_topological_sort(given())  # noqa: E731
                show = lambda ts: [name(t) for t in ts]  # noqa: E731
            r = outcome(fun, show, "v")
            if not r["ok"]:
                r["e"] = kind_of(fun)
            out["o"] = {"ok": r["ok"], "e": r["e"], "v": r["v"] if r["ok"] else []}
            events.append(out)
        return {"E": w["E"], "ev": events}
    finally:
        world.unload()


FORMS = [
    lambda x: x,
    lambda x: opt(x),
    lambda x: {"k": "list", "a": [x]},
    lambda x: {"k": "dict", "a": [{"k": "str"}, opt(x)]},
    lambda x: {"k": "ann", "a": [x], "m": [{"mk": "doc", "s": "note", "i": []}]},
    lambda x: {"k": "tuple", "a": [{"k": "int"}, x]},
    lambda x: {"k": "union", "a": [{"k": "str"}, x, {"k": "uuid"}]},
    lambda x: {"k": "set", "a": [{"k": "ann", "a": [x], "m": [{"mk": "doc", "s": "note", "i": []}]}]},
]


def class_graph(g, salt, mods=False):
    "Classes that refer to each other as a graph says, in various forms."
    cls = {}
    for i, adj in enumerate(g):
        fields = []
        for j in adj:
            ref = {"k": "cls", "n": f"C{j}"} if j - 1 < i and (salt + i + j) % 2 else {"k": "ref", "n": f"C{j}"}
            form = FORMS[(salt + 3 * i + j) % len(FORMS)]
            fields.append({"n": f"f{j}", "t": form(ref), "d": {"k": "no", "v": []}})
        cls[f"C{i + 1}"] = {"kind": "dc" if (salt + i) % 3 else "typed" if (salt + i) % 2 else "nt" if fields else "dc", "f": fields, "opts": {}}
    return {"cls": cls, "enm": {}, "als": {}}


def class_worlds(graphs):
    worlds = []
    for n, g in enumerate(graphs):
        if not g:
            continue
        env = class_graph(g, n)
        names = list(env["cls"])
        ev = [{"op": "refs", "T": {"k": "cls", "n": x}} for x in names]
        for k in range(1, len(names) + 1):
            for some in itertools.permutations(names, k):
                if k < 3 or (n + k) % 3 == 0:
                    ev.append({"op": "sort", "types": [{"k": "cls", "n": x} for x in some], "extra": {}, "how": ["list", "iter", "fn"][(n + k) % 3]})
        # the same graph by extra dependencies: of nodes whose fields say nothing, and on top of the fields
        for x in names:
            extra = {y: [names[(n + k) % len(names)] for k, c in enumerate(names) if (n >> k) % 2] for y in names if y == x or n % 5 == 0}
            ev.append({"op": "sort", "types": [{"k": "cls", "n": x}], "extra": extra, "how": ["fn", "iter"][n % 2]})
        worlds.append({"name": f"g{n}", "E": env, "style": {"postponed": n % 4 == 3, "notation": ["typing", "union", "pep604"][n % 3]}, "ev": ev})
    return worlds


def deps_worlds(seed, count, per):
    out = []
    for i in range(count):
        r = random.Random(f"{seed}:{i}")
        g = Gen(r, wide=r.random() < 0.5, aliases=r.random() < 0.5, fset=True, pcustom=0.3).world()
        env = g.env
        names = list(env["cls"]) + list(env["enm"])
        ev = []
        for _ in range(per):
            if r.random() < 0.6:
                T = g.type(r.choice([1, 2, 3]), later=[]) if r.random() < 0.6 else g.top(3)
                if g.has_ref(T) and not g.style.get("mods") or not g.has_ref(T):
                    ev.append({"op": "refs", "T": T, "plain": not g.has_ref(T) and "json" not in str(T) and r.random() < 0.3, "notation": r.choice(["typing", "union", "pep604"])})
            else:
                some = r.sample(names, r.randint(1, min(3, len(names))))
                types = [{"k": "cls" if n in env["cls"] else "enum", "n": n} for n in some] + [{"k": r.choice(SCALARS[1:])} for _ in range(r.choice([0, 0, 1]))]
                extra = {}
                if r.random() < 0.6:
                    for n in r.sample(names, r.randint(1, len(names))):
                        extra[n] = r.sample(names + ["int", "uuid"], r.choice([0, 1, 1, 2]))
                ev.append({"op": "sort", "types": types, "extra": extra, "how": r.choice(["list", "iter", "fn"])})
        out.append({"name": f"d{i}", "E": env, "style": g.style, "ev": ev})
    return out
