"""
Method summaries: a public method of a model class evaluated with symbolic
arguments on an arbitrary object of the class; library calls are inlined, so
the events show every effect in program order.
"""
from .terms import T, mk, C, NONE, TRUE, FALSE, sym, attr, conj, neg, disj, walk, subst, show
from .program import ClassInfo
from .interp import Interp, State, HObj, flat_events, Unreachable
from .ctor import CtorPolicy, param, leaves

ME = sym("me")


class MethodPolicy(CtorPolicy):
    def __init__(self, ca):
        self.ca = ca

    def attr_type(self, cls, name):
        return self.ca.attr_type(cls, name)

    def attr_type_first(self, cls, name):
        return self.ca.attr_type_first(cls, name)

    def attr_absent(self, cls, name):
        return self.ca.attr_absent(cls, name)


class MethodRun:
    def __init__(self, cls, f):
        self.cls = cls
        self.f = f
        self.value = None
        self.events = []
        self.heap = {}
        self.failed = None
        self.imprecise = []

    def flat(self):
        m = self.__dict__.get("_flat")
        if m is None:
            m = self._flat = list(flat_events(self.events))
        return m


class MethodAnalysis:
    def __init__(self, prog, ca, policy=MethodPolicy):
        self.prog = prog
        self.ca = ca
        self.policy = policy
        self.cache = {}

    def run(self, cls, f):
        k = (cls, f)
        if k in self.cache:
            return self.cache[k]
        r = self.cache[k] = MethodRun(cls, f)
        ip = Interp(self.prog, self.policy(self.ca))
        ip.next_id = 700000
        st = State()
        args = {}
        ps = list(f.pos)
        if f.cls is not None and ps and not f.is_static:
            if f.is_classmethod:
                args[ps[0]] = mk("cls", cls)
            else:
                args[ps[0]] = ME
                st.heap[ME] = HObj("inst", cls, ME)
                ip.sym_certain[ME] = {cls}
            ps = ps[1:]
        for p in ps + list(f.kwonly):
            t = param(p)
            args[p] = t
            an = f.annotation(p)
            ts = self.prog.ann_types(an, f.module) if an is not None else set()
            if ts and "any" not in ts:
                ip.sym_types[t] = ts
        if f.vararg:
            args[f.vararg] = param("*" + f.vararg)
        if f.kwarg:
            args[f.kwarg] = param("**" + f.kwarg)
        try:
            v, st2, ev = ip.run(f, args, st, args.get(f.pos[0]) if f.cls is not None and f.pos else None)
        except Unreachable:
            v, st2, ev = None, st, ip.events
        except RecursionError as exc:
            r.failed = str(exc)
            return r
        r.value, r.heap, r.events, r.ip, r.state = v, st2.heap if st2 is not None else {}, ev, ip, st2
        r.imprecise = ip.imprecise
        return r
