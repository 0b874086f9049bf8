"""Typed properties: objects of the same class, assignments whose callbacks fail or look back."""
import copy

from .. import access as A
from ..base import Check
from ..target import cpe
from ..world import Violation, Inadmissible, CALLBACK_ERRORS

TYPES = {"i": int, "s": str, "l": list, "d": dict, "t": tuple, "f": float, "b": bool, "n": type(None), "z": set}
CONV = {"int": int, "str": str, "list": list, "tuple": tuple, "float": float}
TRANS = {"upper": lambda v: v.upper(), "inc": lambda v: v + 1, "dup": lambda v: v + v, "str": str,
         "sorted": lambda v: sorted(v), "len": lambda v: len(v), "same": lambda v: v, "none": lambda v: None}
VALID = {"len2": lambda v: 1 if len(v) == 2 else 0, "pos": lambda v: v > 0, "self": lambda v: v, "true": lambda v: "yes",
         "short": lambda v: len(str(v)) < 6, "never": lambda v: [], "noneok": lambda v: v is not None}
HP = {"section_root": (["s"], ["n"], None, None), "raw_option": (["t"], ["t", [["n"], ["n"]]], None, "len2"),
      "op": (["s"], ["s", ""], None, None), "params": (["l", "t"], ["l", []], "list", None),
      "value": (["s", "n"], ["s", ""], None, None), "data_shared": (["d"], ["d", {}], None, None),
      "data_internal": (["d"], ["d", {}], None, None), "handler_name": (["s"], ["s", ""], None, None)}


def dec(v):
    k = v[0]
    if k == "n":
        return None
    if k in ("l", "t"):
        x = [dec(y) for y in v[1]]
        return x if k == "l" else tuple(x)
    if k == "d":
        return {a: dec(b) for a, b in v[1].items()}
    if k == "z":
        return set(v[1])
    return v[1]


def gen_value(rng, depth=0):
    k = rng.choice("iisslltdfbnz")
    if k == "z":
        return ["z", rng.sample(["a", "b", "c"], rng.randrange(3))]
    if k == "n":
        return ["n"]
    if k == "i":
        return ["i", rng.choice([-3, 0, 1, 2, 7])]
    if k == "s":
        return ["s", rng.choice(["", "a", "ab", "12", "-4", "long text", "x y"])]
    if k == "f":
        return ["f", rng.choice([0.0, 1.5, -2.0])]
    if k == "b":
        return ["b", rng.random() < 0.5]
    n = 0 if depth > 1 else rng.randrange(3)
    if k == "d":
        return ["d", {f"k{i}": gen_value(rng, depth + 1) for i in range(n)}]
    return [k, [gen_value(rng, depth + 1) for _ in range(n)]]


def frozen(v):
    """A value with its types, comparable."""
    if isinstance(v, dict):
        return ("dict", tuple(sorted((k, frozen(x)) for k, x in v.items())))
    if isinstance(v, set):
        return ("set", tuple(sorted(v, key=repr)))
    if isinstance(v, (list, tuple)):
        return ("list" if isinstance(v, list) else "tuple", tuple(frozen(x) for x in v))
    return (type(v).__name__, repr(v))


def mutable(v):
    """The value or the first part of a tuple that can be changed in place."""
    if isinstance(v, tuple):
        return next((m for m in map(mutable, v) if m is not None), None)
    return v if isinstance(v, (list, dict, set)) else None


class Hard(list):
    """A default whose copying can fail."""
    sim = None

    def __deepcopy__(self, memo):
        if Hard.sim is not None:
            Hard.sim.hit("copy", self)
        return [copy.deepcopy(x, memo) for x in self]


class Sim:

    def __init__(self, w):
        self.w = w
        self.plans = []
        self.fired = 0
        self.ctx = None       # (object, property name, frozen previous state)
        self.peeks = []

    def hit(self, point, arg):
        w = self.w
        w.steps += 1
        w.note("callback", point)
        for p in self.plans:
            if p["h"] != point:
                continue
            k = p["seen"]
            p["seen"] = k + 1
            if not p["nth"] <= k < p["nth"] + p["span"]:
                continue
            w.count(f"fault.{point}.{p['act']}")
            if p["act"] == "peek":
                if self.ctx is not None:
                    o, n, busy = self.ctx
                    self.ctx = None
                    saved, self.plans = self.plans, []
                    self.peeks.append(w.call(getattr, o, n))
                    self.plans = saved
                    self.ctx = (o, n, busy)
                continue
            self.fired += 1
            raise CALLBACK_ERRORS[p["act"]]("injected by the simulator")


class C12(Check):
    id = "C12"
    quick_n = 60000
    thorough_n = 2000000
    rule = "history in which a converter, transform, validator, default factory or default copy failed by injection"
    real = ["configparserenhanced.TypedProperty.typed_property", "configparserenhanced.HandlerParameters"]
    stub = ["user callbacks: internal type, transform, validator, default factory, __deepcopy__ of the default"]

    def gen(self, rng, tier):
        props = {}
        for n in rng.sample(["alpha", "beta", "gamma", "x", "x_y", "X", "Alpha"], rng.randrange(1, 4)):
            sp = {"types": rng.sample(sorted(TYPES), rng.randrange(1, 4)), "single": rng.random() < 0.2}
            if rng.random() < 0.6:
                sp["default"] = gen_value(rng)
                sp["hard"] = sp["default"][0] == "l" and rng.random() < 0.6
            elif rng.random() < 0.6:
                sp["factory"] = rng.choice([gen_value(rng), ["l", []], ["d", {}], ["bad"]])
            if rng.random() < 0.3:
                sp["req"] = True
            if rng.random() < 0.4:
                sp["conv"] = rng.choice(sorted(CONV))
            if rng.random() < 0.35:
                sp["trans"] = rng.choice(sorted(TRANS) * 2 + ["bad"])
            if rng.random() < 0.5:
                sp["valid"] = rng.choice(sorted(VALID) * 2 + ["bad"])
            props[n] = sp
        objs = [rng.choice(["base", "base", "sub", "hp"]) for _ in range(rng.randrange(1, 4))]
        seq = []
        for _ in range(rng.randrange(3, 16 if tier == "quick" else 30)):
            r = rng.random()
            o = rng.randrange(len(objs))
            n = rng.choice(sorted(HP) if objs[o] == "hp" else sorted(props))
            if r < 0.22:
                seq.append(["plan", {"h": rng.choice(["conv", "conv", "trans", "valid", "valid", "fact", "copy"]),
                                     "nth": rng.choice([0, 0, 0, 1]), "span": rng.choice([1, 1, 2]),
                                     "act": rng.choice(sorted(CALLBACK_ERRORS) + ["peek"] * 4)}])
            elif r < 0.28:
                seq.append(["disarm"])
            elif r < 0.55:
                v = gen_value(rng)
                sp = self.spec({"objs": objs, "props": props}, o, n)
                want = rng.random() < 0.7                # mostly assignments that succeed
                for _ in range(12):
                    if self.model_set(sp, dec(v))[0] == want:
                        break
                    v = gen_value(rng)
                seq.append(["set", o, n, v])
            elif r < 0.8:
                seq.append(["get", o, n])
            elif r < 0.9:
                seq.append(["del", o, n])
            else:
                seq.append(["mut", o, n])
        seq.append(["disarm"])
        for o in range(len(objs)):
            for n in (rng.sample(sorted(HP), 3) if objs[o] == "hp" else sorted(props)):
                seq.append(["get", o, n])
        return {"props": props, "objs": objs, "ops": seq}

    # ------------------------------------------------------------------
    def build(self, props, sim):
        tp = cpe().TypedProperty.typed_property
        ns = {}

        def wrap(point, fn):
            def f(v):
                sim.hit(point, v)
                return fn(v)
            return f

        for n, sp in props.items():
            kw = {}
            types = tuple(TYPES[t] for t in sp["types"])
            if not types:
                raise Inadmissible()
            if sp.get("single"):
                types = types[0]
            if "default" in sp:
                d = dec(sp["default"])
                kw["default"] = Hard(d) if sp.get("hard") else d
            elif "factory" in sp:
                if sp["factory"] == ["bad"]:
                    kw["default_factory"] = "not callable"
                else:
                    def fact(v=sp["factory"]):
                        sim.hit("fact", None)
                        return dec(v)
                    kw["default_factory"] = fact
            if sp.get("req"):
                kw["req_assign_before_use"] = True
            if "conv" in sp:
                kw["internal_type"] = wrap("conv", CONV[sp["conv"]])
            if "trans" in sp:
                kw["transform"] = "not callable" if sp["trans"] == "bad" else wrap("trans", TRANS[sp["trans"]])
            if "valid" in sp:
                kw["validator"] = 7 if sp["valid"] == "bad" else wrap("valid", VALID[sp["valid"]])
            ns[n] = tp(n, types, **kw)
        base = type("Base", (), ns)
        return {"base": base, "sub": type("Sub", (base,), {}), "hp": cpe().HandlerParameters.HandlerParameters}

    def spec(self, case, o, n):
        if case["objs"][o] == "hp":
            types, default, conv, valid = HP[n]
            sp = {"types": types, "default": default}
            if conv:
                sp["conv"] = conv
            if valid:
                sp["valid"] = valid
            return sp
        return case["props"][n]

    @staticmethod
    def model_set(sp, v):
        """(True, stored value) or (False, None)"""
        types = tuple(TYPES[t] for t in (sp["types"][:1] if sp.get("single") else sp["types"]))
        if not isinstance(v, types) or sp.get("trans") == "bad" or sp.get("valid") == "bad":
            return False, None
        try:
            if "conv" in sp:
                v = CONV[sp["conv"]](v)
            if "trans" in sp:
                v = TRANS[sp["trans"]](v)
                if "conv" in sp:
                    v = CONV[sp["conv"]](v)
            if "valid" in sp and not VALID[sp["valid"]](v):
                return False, None
        except Exception:
            return False, None
        return True, v

    @staticmethod
    def model_default(sp):
        """(True, value) or (False, None)"""
        if sp.get("req"):
            return False, None
        if "default" in sp:
            return True, dec(sp["default"])
        if "factory" in sp:
            if sp["factory"] == ["bad"]:
                return False, None
            return True, dec(sp["factory"])
        return True, None

    def run(self, case, w):
        sim = Sim(w)
        Hard.sim = sim
        classes = self.build(case["props"], sim)
        objs = [classes[c]() for c in case["objs"]]
        state = {}            # (o, n) -> ("set"|"def", [acceptable frozen values])
        for op in case["ops"]:
            k = op[0]
            if k == "plan":
                sim.plans.append(dict(op[1], seen=0))
                continue
            if k == "disarm":
                sim.plans = []
                continue
            o, n = op[1], op[2]
            if o >= len(objs) or case["objs"][o] != "hp" and n not in case["props"] or case["objs"][o] == "hp" and n not in HP:
                raise Inadmissible()
            sp = self.spec(case, o, n)
            key = (o, n)
            f0 = sim.fired
            sim.peeks = []
            w.note(k, o, n)
            if k == "set":
                v = dec(op[3])
                sim.ctx = (objs[o], n, None)
                out = w.call(setattr, objs[o], n, v)
                sim.ctx = None
                self.peeked(sim, key, state, sp, op)
                if sim.peeks and key not in state:
                    ok, d = self.model_default(sp)
                    if ok:
                        state[key] = ("def", [frozen(d)])
                ok, want = self.model_set(sp, dec(op[3]))
                if sim.fired > f0:
                    if out.ok:
                        raise Violation("failure-hidden", f"{op} succeeded although a callback raised ({sp})")
                    w.probe("failed_assignment")
                elif out.ok != ok:
                    raise Violation("assignment", f"{op} on {sp} gave {out!r}, the rules say "
                                    f"{'store ' + repr(want) if ok else 'reject'}")
                elif ok:
                    state[key] = ("set", [frozen(want)])
                    w.probe("stored")
                else:
                    w.probe("failed_assignment")
                w.note("outcome", out.ok)
            elif k in ("get", "mut"):
                out = w.call(getattr, objs[o], n)
                w.note("outcome", out.ok)
                if sim.fired > f0:
                    if out.ok:
                        raise Violation("failure-hidden", f"{op} succeeded although a callback raised ({sp})")
                    continue
                self.judge_read(out, key, state, sp, op)
                if key not in state and out.ok:
                    state[key] = ("def", [frozen(out.value)])
                if k == "mut" and out.ok:
                    before = frozen(out.value)
                    v = mutable(out.value)
                    if isinstance(v, set):
                        v.add("mutated")
                    elif isinstance(v, list):
                        inner = [x for x in v if isinstance(x, (list, dict))]
                        (inner[0].clear() if inner and len(inner[0]) else v.append("mutated"))
                    elif isinstance(v, dict):
                        v["mutated"] = True
                    else:
                        continue
                    w.probe("mutated")
                    acc = [frozen(out.value)]
                    if state[key][0] == "def":
                        acc.append(before)
                    state[key] = (state[key][0], acc)
            elif k == "del":
                out = w.call(delattr, objs[o], n)
                if not out.ok:
                    raise Violation("delete", f"{op} raised {out!r}")
                state.pop(key, None)
        Hard.sim = None

    def peeked(self, sim, key, state, sp, op):
        for out in sim.peeks:
            self.judge_read(out, key, state, sp, op + ["(read by its callback)"])

    def judge_read(self, out, key, state, sp, op):
        if key in state:
            if not out.ok:
                if state[key][0] == "def" and sp.get("req"):
                    return
                raise Violation("read", f"{op} on {sp} raised {out!r}, the value is {state[key]}")
            if frozen(out.value) not in state[key][1]:
                raise Violation("read", f"{op} on {sp} gave {A.brief(out.value)}, expected {state[key]}")
            return
        ok, want = self.model_default(sp)
        if ok != out.ok or ok and frozen(out.value) != frozen(want):
            raise Violation("default", f"{op} on {sp} gave {out!r} before any assignment, expected "
                            f"{repr(want) if ok else 'an error'}")


CHECK = C12()
