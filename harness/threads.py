"""Calls made in several threads under schedules that are fixed beforehand (property C12)."""

import os
import random
import sys
import threading
import time

import schema
from codec import BAD, has_ref
from gen import Gen
from lang import World, a2j, error_kind, j2a, opt

FOREVER = 1 << 60


def library():
    import strong_typing

    return os.path.dirname(os.path.abspath(strong_typing.__file__)) + os.sep


class Run:
    """Runs functions in threads of their own, one at a time.

    A plan lists which thread goes for how many steps; a step is a line (or instruction) of the library.
    """

    def __init__(self, funs, plan, grain="line"):
        self.funs, self.plan = funs, plan
        self.opcodes = grain == "opcode"
        self.root = library()
        n = len(funs)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.back = threading.Semaphore(0)
        self.budget = [0] * n
        self.count = [0] * n
        self.out = [None] * n
        self.free = self.blocked = False

    def tracer(self, i):
        event_kind = "opcode" if self.opcodes else "line"

        def local(frame, event, arg):
            if event == event_kind:
                self.count[i] += 1
                self.budget[i] -= 1
                if self.budget[i] <= 0 and not self.free:
                    self.pause(i)
            return local

        def on_call(frame, event, arg):
            if frame.f_code.co_filename.startswith(self.root):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None

        return on_call

    def pause(self, i):
        self.back.release()
        self.sem[i].acquire()

    def body(self, i):
        self.sem[i].acquire()
        sys.settrace(self.tracer(i))
        try:
            self.out[i] = self.funs[i]()
        finally:
            sys.settrace(None)
            self.done[i] = True
            self.back.release()

    def go(self):
        "Returns true if all calls ended."
        n = len(self.funs)
        self.done = [False] * n
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(n)]
        for x in ts:
            x.start()
        for i, steps in list(self.plan) + [(i, FOREVER) for i in range(n)]:
            if self.done[i] or steps <= 0:
                continue
            self.budget[i] = steps
            self.sem[i].release()
            seen = -1
            while not self.back.acquire(timeout=0.1):
                if self.count[i] == seen:
                    self.blocked = True
                    break
                seen = self.count[i]
            if self.blocked:
                # the thread waits for another one: let all of them run
                break
        self.free = True
        for s in self.sem:
            s.release()
        end = time.time() + 10
        for x in ts:
            x.join(max(0.05, end - time.time()))
        return all(self.done)


# ---------------------------------------------------------------------------------------------------------------------


def prepare(world, c):
    "A function that makes the call and describes its outcome."
    from strong_typing.deserializer import DeserializerOptions, create_deserializer
    from strong_typing.serialization import json_to_generic, object_to_json
    from strong_typing.serializer import create_serializer

    typ = world.type(c["T"])
    if c["op"] == "de":
        data = a2j(c["J"])
        options = DeserializerOptions(skip_unassigned=c["skip"])
        if c.get("via") == "parse":
            call = lambda: create_deserializer(typ, world.module, options=options).parse(data)
        else:
            call = lambda: json_to_generic(typ, data, context=world.module, options=options)
        describe, field = world.describe, "v"
    elif c["op"] == "wr":
        obj = world.value(c["V"])
        if c.get("via") == "typ":
            call = lambda: create_serializer(typ, world.module).generate(obj)
        else:
            call = lambda: object_to_json(obj)
        describe, field = j2a, "j"
    else:
        call = lambda: schema.generate(typ, c["O"])[0]
        describe, field = j2a, "j"

    def run():
        try:
            r = call()
        except Exception as ex:
            return dict(BAD, e=error_kind(ex))
        return dict(BAD, ok=True, e="", **{field: describe(r)})

    return run


def fresh(w):
    world = World(w["E"], w["style"], w["name"])
    world.load()
    return world


def lengths(w, calls, grain):
    "How many steps each call takes when it comes first."
    out = []
    for c in calls:
        world = fresh(w)
        try:
            r = Run([prepare(world, c)], [], grain)
            r.go()
            out.append(max(1, r.count[0]))
        finally:
            world.unload()
    return out


def plans_of(ev, ns):
    how = ev["how"]
    n = len(ns)
    if how["k"] == "cut":
        # the steps of one thread at which another one gets its turn, evenly spread
        for i in range(n):
            stride = max(1, ns[i] // how["cuts"])
            for k in range(1 + int(stride * how["offset"]), ns[i], stride):
                yield [[i, k]] + [[j, FOREVER] for j in range(n) if j != i]
    elif how["k"] == "random":
        r = random.Random(how["seed"])
        for _ in range(how["count"]):
            plan = []
            for _ in range(r.choice([2, 3, 4, 6, 10])):
                i = r.randrange(n)
                plan.append([i, max(1, int(ns[i] * r.random() ** 2))])
            yield plan
    else:
        # turns of the model, in which a call takes a number of steps; each is an equal part of the real call
        for turns in how["turns"]:
            total = [max(1, turns.count(i)) for i in range(n)]
            seen = [0] * n
            plan = []
            for i in turns:
                a = ns[i] * seen[i] // total[i]
                seen[i] += 1
                b = ns[i] * seen[i] // total[i]
                if plan and plan[-1][0] == i:
                    plan[-1][1] += b - a
                else:
                    plan.append([i, b - a])
            yield plan


def run_event(w, ev):
    calls = ev["calls"]
    out = {"op": "par", "calls": [dict(c, o=[]) for c in calls], "stuck": [], "runs": 0}
    plans = [ev["plan"]] if "plan" in ev else plans_of(ev, lengths(w, calls, ev["grain"]))
    blocked = 0
    for plan in plans:
        if blocked > 12:
            break
        world = fresh(w)
        try:
            run = Run([prepare(world, c) for c in calls], plan, ev["grain"])
            ended = run.go()
            out["runs"] += 1
            blocked += run.blocked
            if not ended:
                out["stuck"].append(plan)
                break
            # the same calls once more, one after another
            again = [prepare(world, c)() for c in calls]
        finally:
            world.unload()
        for o, rs in zip(out["calls"], zip(run.out, again)):
            for r in rs:
                r = r if r is not None else dict(BAD, e="X:none")
                if all(x["r"] != r for x in o["o"]):
                    o["o"].append({"r": r, "plan": plan})
    return out


def run(w):
    return {"E": w["E"], "ev": [run_event(w, e) for e in w["ev"]]}


# ---------------------------------------------------------------------------------------------------------------------

FLAGS = {"naive": 0, "tagged": 0.4}


def random_call(g, r, T, op=None):
    op = op or r.choice(["de", "de", "de", "wr", "wr", "sg"])
    if op == "sg":
        return {"op": "sg", "T": T, "O": schema.PLAIN}
    V = g.value(T, r.choice([2, 4]))
    if V is None:
        return None
    if op == "wr":
        return {"op": "wr", "T": T, "V": V, "via": r.choice(["obj", "typ"])}
    J = g.doc(T, V)
    if r.random() < 0.3:
        J = g.mutate(J)
    return {"op": "de", "T": T, "J": J, "skip": r.random() < 0.3, "via": r.choice(["gen", "parse"])}


def class_type(g, r):
    g.current = None
    classes = [n for n, c in g.env["cls"].items() if c["kind"] != "custom"]
    T = {"k": "cls", "n": r.choice(classes)}
    q = r.random()
    if q < 0.2:
        return {"k": "list", "a": [T]}
    if q < 0.3:
        return opt(T)
    return T


def random_worlds(seed, count, plans, grain="line"):
    out = []
    i = 0
    while len(out) < count:
        i += 1
        r = random.Random(f"{seed}:{i}")
        g = Gen(r, **{**FLAGS, "schema": True, "aliases": False, "suffix": f"_h{i}"}).world()
        if not [n for n, c in g.env["cls"].items() if c["kind"] != "custom"]:
            continue
        n = r.choice([2, 2, 3])
        T = class_type(g, r)
        op = r.choice(["de", "de", "wr", None])
        calls = [random_call(g, r, T if r.random() < 0.6 else class_type(g, r), op) for _ in range(n)]
        if None in calls:
            continue
        out.append({"name": f"vh{i}", "E": g.env, "style": g.style,
                    "ev": [{"op": "par", "calls": calls, "grain": grain, "how": {"k": "random", "seed": f"{seed}:{i}", "count": plans}}]})
    return out
