"""
A subclass of the real parser whose handlers are simulated user code.

The handlers only record what they are given, and do what the armed plans say at a chosen
invocation: raise, return a code, query the parser, change the disk.
"""
import types

from . import access as A
from .target import parser_class
from .world import CALLBACK_ERRORS


class Opaque:
    """Data of the user's that cannot be copied, pickled, hashed or ordered (a connection, a lock)."""

    def __repr__(self):
        return "<opaque>"

    def __reduce_ex__(self, protocol):
        raise TypeError("cannot be copied")

    def __bool__(self):
        raise ValueError("has no truth value")

    __hash__ = None


OPAQUE = Opaque()


class Sim:
    """Everything around one simulated parser object."""

    def __init__(self, w, handlers):
        self.w = w
        self.handlers = handlers        # [{"op", "kind": public|private|both, "deco": bool}]
        self.plans = []                 # [{"h", "nth", "span", "act", ...}]
        self.stack = [[]]               # event lists: innermost last (nested queries)
        self.fired = []                 # plans that fired, in order
        self.raised = []                # nesting depth of every injected callback error
        self.active = []                # root sections whose parse a nested query interrupts
        self.tag = 0

    @property
    def events(self):
        return self.stack[-1]

    def take_events(self):
        e = self.stack[0]
        self.stack[0] = []
        return e

    def handled(self):
        return {h["op"] for h in self.handlers}

    def arm(self, plan):
        p = dict(plan)
        p["seen"] = 0
        self.plans.append(p)

    def disarm(self):
        self.plans = []

    def hit(self, name):
        hit = None
        for p in self.plans:
            if p["h"] != name and p["h"] != "*":
                continue
            k = p["seen"]
            p["seen"] = k + 1
            if p.get("nth", 0) <= k < p.get("nth", 0) + p.get("span", 1) and hit is None:
                hit = p
        return hit

    def on_handler(self, parser, name, variant, section_name, hp):
        """Body of every simulated handler. Returns the handler's return value."""
        w = self.w
        w.steps += 1
        self.tag += 1
        rec = {"h": name, "var": variant, "sec": section_name, "tag": self.tag,
               "op": hp.op, "params": list(hp.params), "value": hp.value, "raw": tuple(hp.raw_option),
               "root": hp.section_root, "shared": list(hp.data_shared.get("trail", [])),
               "extra": sorted((k for k in hp.data_shared if k != "trail"), key=str)}
        self.events.append(rec)
        w.note("handler", name, variant, section_name, rec["raw"])
        hp.data_shared.setdefault("trail", []).append(self.tag)
        p = self.hit(name)
        if p is None:
            return 0
        act = p["act"]
        self.fired.append(p)
        rec["fired"] = act
        w.count(f"fault.handler.{act}")
        w.note("PLAN", name, act)
        if act in CALLBACK_ERRORS:
            ex = CALLBACK_ERRORS[act]
            self.raised.append(len(self.stack))
            raise ex("injected by the simulator")
        if act == "ret":
            rec["rc"] = p["rc"]
            return p["rc"]
        if act == "query":
            out = []
            self.stack.append([])
            self.active.append(hp.section_root)
            try:
                for op in p["ops"]:
                    if op[0] == "all" or len(op) > 1 and op[1] in self.active:
                        continue          # asks for a section whose parse is still going on
                    f0, r0, i0 = len(self.fired), len(self.raised), w.fault_count()
                    e0 = len(self.stack[-1])
                    o = w.call(A.perform, parser, op)
                    out.append((op, o, len(self.fired) > f0 or w.fault_count() > i0,
                                len(self.stack) in self.raised[r0:], len(self.stack[-1]) - e0))
                    if not o.ok and not isinstance(o.exc, Exception):
                        rec["nested_raised"] = True
                        raise o.exc
            finally:
                self.active.pop()
                rec["nested"] = out
                rec["nested_events"] = self.stack.pop()
            bad = [x[1] for x in out if not x[1].ok]
            if p.get("pass") and bad:
                rec["nested_raised"] = True
                raise bad[0].exc
            return 0
        if act == "put":
            w.put(p["name"], "\n".join(p["lines"]) + "\n")
            return 0
        if act == "drop":
            w.drop(p["name"])
            return 0
        if act == "poison":
            # a handler that leaves its own data in the shared dictionary
            hp.data_shared["poison"] = self.tag
            return 0
        if act == "share":
            # data of any type, under a key of any type
            for k, v in p["items"]:
                v = OPAQUE if v == "@opaque" else v
                hp.data_shared[tuple(k) if isinstance(k, list) else k] = v
            return 0
        if act == "set":
            parser.configparserenhanceddata.set(*p["args"])
            return 0
        if act == "level":
            rec["level"] = p["level"]
            parser.exception_control_level = p["level"]
            return 0
        raise RuntimeError(f"harness: unknown plan {act}")


def make_class(handlers):
    """Subclass with one method per handler description (before or after decoration)."""
    CPE = parser_class()
    deco = CPE.operation_handler

    def mk(name, variant, decorated):
        def f(self, section_name, handler_parameters):
            return self._sim.on_handler(self, name, variant, section_name, handler_parameters)
        f.__name__ = name
        return deco(f) if decorated else f

    # where the user's class has it: in its body, two classes up, in a mixin, or set on each object
    ns, up, mixin, inst = {}, {}, {}, {}
    for h in handlers:
        to = {"base": up, "mixin": mixin, "inst": inst}.get(h.get("where"), ns)
        if h["kind"] in ("public", "both"):
            to["handler_" + h["op"]] = mk(h["op"], "public", h["deco"])
        if h["kind"] in ("private", "both"):
            to["_handler_" + h["op"]] = mk(h["op"], "private", h["deco"])
    ns["handler_initialize"] = mk("initialize", "public", True)
    ns["handler_finalize"] = mk("finalize", "public", True)
    ns["_generic_option_handler"] = mk("generic", "public", True)
    bases = (CPE,)
    if up:
        bases = (type("SimMiddle", (type("SimBase", bases, up),), {}),)
    if mixin:
        bases = (type("SimMixin", (), mixin),) + bases
    if inst:
        def init(self, *args, **kwargs):
            for k, f in inst.items():
                setattr(self, k, types.MethodType(f, self))
            super(cls, self).__init__(*args, **kwargs)
        ns["__init__"] = init
    cls = type("SimParser", bases, ns)
    return cls


def make_parser(w, handlers, files, cls=None, level=None):
    """A new parser object over the files (names on the simulated disk)."""
    cls = cls or make_class(handlers)
    sim = Sim(w, handlers)
    p = cls()
    p._sim = sim
    p.inifilepath = [w.path(n) for n in files]
    if level is not None:
        p.exception_control_level = level
    return p, sim


def gen_handlers(rng, ambiguous=False, undeco=True):
    out = []
    for op in rng.sample(["op1", "op_two", "op3", "set_it"], rng.randrange(0, 4)):
        kind = rng.choice(["public", "public", "private"] + (["both"] if ambiguous else []))
        h = {"op": op, "kind": kind, "deco": (not undeco) or rng.random() < 0.75}
        if rng.random() < 0.3:
            h["where"] = rng.choice(["base", "mixin", "inst"])
        out.append(h)
    return out
