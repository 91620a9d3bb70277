"""Contracts: registration, path exploration, results."""
import multiprocessing
import os
import sys
import time
import traceback

from . import sym as Y
from .interp import FOLLOW
from .sym import Budget, Ctx, Elsewhere, PathEnd, PyRaise, Unsupported

CONTRACTS = {}


class Contract:
    def __init__(self, prop, name, fn, targets, expects, timeout, only=False, bound=None):
        self.only, self.bound = only, bound
        self.prop, self.name, self.fn, self.targets, self.expects, self.timeout = prop, name, fn, targets, expects, timeout


def contract(prop, name, targets=(), expects=(), timeout=100, only=False, bound=None):
    """targets: the /repo functions this contract specifies; expects: obligations that must be reached; only: the others
    that the same execution generates belong to other properties; bound: what is bounded in it (then it is never counted as a proof)."""
    def deco(f):
        CONTRACTS.setdefault(prop, {})[name] = Contract(prop, name, f, list(targets), list(expects), timeout, only, bound)
        return f
    return deco


def transducer_difference(a, b):
    """-> (decided, input word on which two images of the same symbolic word differ or None)"""
    from . import fst as F
    if not (isinstance(a, Y.Rope) and isinstance(b, Y.Rope)):
        return False, None
    pa, pb = Y.parts_of(a), Y.parts_of(b)
    if len(pa) != 1 or len(pb) != 1:
        return False, None
    from . import nft as NT

    def image(x):
        f = None
        while isinstance(x, Y.Word) and (getattr(x, "derived", None) or ("",))[0] == "strip":
            g = NT.strip(*x.derived[2:])
            f = g if f is None else F.compose(g, f)
            x = x.derived[1]
        if f is not None:
            return Y.Img(x, f)
        return Y.Img(x, F.IDENT) if isinstance(x, Y.Word) else x
    if pa[0] is not pb[0]:
        pa, pb = [image(pa[0])], [image(pb[0])]
    p, q = [Y.Img(x, F.IDENT) if isinstance(x, Y.Word) else x for x in (pa[0], pb[0])]
    if not (isinstance(p, Y.Img) and isinstance(q, Y.Img) and p.word is q.word):
        return False, None
    return True, F.equivalent(p.f, q.f, p.word.lang())


class H:
    """What a contract harness sees."""

    def __init__(self, ctx, it):
        self.ctx, self.it = ctx, it

    # inputs
    def int(self, name, lo=None, hi=None):
        import z3
        t = self.ctx.fresh(z3.IntSort(), name)
        if lo is not None:
            self.ctx.assume(t >= lo)
        if hi is not None:
            self.ctx.assume(t < hi)
        v = Y.S(t, "int")
        self.ctx.inputs[name] = v
        return v

    def real(self, name, lo=None, hi=None):
        import z3
        t = self.ctx.fresh(z3.RealSort(), name)
        if lo is not None:
            self.ctx.assume(t >= lo)
        if hi is not None:
            self.ctx.assume(t < hi)
        v = Y.S(t, "float")
        self.ctx.inputs[name] = v
        return v

    def bool(self, name):
        import z3
        v = Y.S(self.ctx.fresh(z3.BoolSort(), name), "bool")
        self.ctx.inputs[name] = v
        return v

    def word(self, name, lang):
        w = Y.Word(name, lang)
        r = Y.rope(w)
        self.ctx.inputs[name] = r
        return r

    def val(self, name, **kw):
        import z3
        return Y.U(self.ctx.fresh(Y.ValSort, name), name=name, **kw)

    def pick(self, name, options):
        """Demonic choice among concrete options (exhaustive over the list)."""
        options = list(options)
        k = self.ctx.choose(len(options), name) if len(options) > 1 else 0
        self.ctx.inputs[name] = options[k]
        return options[k]

    def obj(self, cls, owner=None, **attrs):
        o = Y.SObj(cls, attrs, owner=owner)
        o.partial = True
        return o

    def assume(self, c):
        self.ctx.assume(c)

    def call(self, f, *args, **kw):
        return self.it.call(f, list(args), kw)

    def list(self, xs):
        return Y.PyList(list(xs))

    def dict(self, pairs):
        return Y.PyDict([list(p) for p in pairs])

    def decided(self, c):
        """the truth of a condition on this path, or None (never forks)"""
        if isinstance(c, bool):
            return c
        t = Y.bterm(c)
        return True if self.ctx.known(t) else False if self.ctx.known(Y.bterm(Y.not_(c))) else None

    def items(self, v):
        """the elements of a list whose length is known"""
        s = v if isinstance(v, Y.PyList) else v.data if isinstance(v, Y.SObj) and isinstance(v.data, Y.PyList) else None
        if s is None or any(isinstance(x, Y.Blob) for x in s.items):
            raise Unsupported("not a list of known length: %r" % (v,))
        return list(s.items)

    def attr(self, o, n):
        return self.it.getattr(o, n)

    def meth(self, o, n, *args, **kw):
        if isinstance(o, Y.SObj) and not hasattr(o.cls, n):
            raise Unsupported("%s has no method %s any more" % (o.cls.__name__, n))
        return self.it.call(self.it.getattr(o, n), list(args), kw)

    def prove(self, name, c, detail=""):
        return self.ctx.prove(name, c, detail)

    def settle(self, name, ok, why=None, backend="effects analysis"):
        """an obligation settled by an analysis of the source, without inputs"""
        return self.ctx.decide(name, ok, witness=why, backend=backend)

    def prove_eq(self, name, a, b, detail=""):
        known, w = transducer_difference(a, b)
        if known:
            if w is not None:
                p = Y.parts_of(a)[0]
                (p.word if isinstance(p, Y.Img) else p).resolved = [w]
            return self.ctx.decide(name, w is None, witness=w, backend="transducers", detail=detail)
        e = self.it.tb(self.it.eq(a, b))
        if e is True or e is False:
            return self.ctx.decide(name, e, witness="%r vs %r" % (a, b), backend="structural", detail=detail)
        return self.ctx.prove(name, e, detail)

    def prove_in(self, name, s, lang, detail=""):
        """the string s belongs to the regular language"""
        if not isinstance(s, (str, Y.Rope)):
            return self.ctx.decide(name, False, witness=repr(s), backend="structural", detail=detail)
        bad = Y.lang_of(s) - lang
        w = bad.word()
        if w is not None and isinstance(s, Y.Rope):
            from . import models as M
            ps = Y.parts_of(s)
            unk = [k for k, p in enumerate(ps) if not isinstance(p, str)]
            if len(unk) == 1 and isinstance(ps[unk[0]], (Y.Word, Y.Img)):
                k, p = unk[0], ps[unk[0]]
                res = M.residual(bad, ps[0] if k else "", ps[k + 1] if k + 1 < len(ps) else "")
                if isinstance(p, Y.Img):
                    res, p = M.preimage(p.f, res), p.word
                x = (res & p.lang()).word()
                if x is None:
                    w = None
                else:
                    p.resolved = [x]                     # the counterexample, for the replay
        return self.ctx.decide(name, w is None, witness=w, backend="automata", detail=detail)

    def eq(self, a, b):
        return Y.mk(Y.bterm(self.it.tb(self.it.eq(a, b))), "bool")

    def truth(self, v):
        return self.it.tb(v)

    def iff(self, a, b):
        return Y.mk(Y.bterm(a) == Y.bterm(b), "bool")

    def text(self, *parts):
        return Y.rope(*parts)

    def starts_with(self, s, prefix, tail):
        """s = prefix + t with t in the regular language tail"""
        ps, qs = Y.parts_of(s), Y.parts_of(prefix)
        while qs:
            if not ps:
                return False
            a, b = ps[0], qs[0]
            if isinstance(a, str) and isinstance(b, str):
                n = min(len(a), len(b))
                if a[:n] != b[:n]:
                    return False
                ps[0], qs[0] = a[n:], b[n:]
                ps, qs = ps[not ps[0]:], qs[not qs[0]:]
            elif a is b:
                ps, qs = ps[1:], qs[1:]
            else:
                raise Unsupported("prefix %r of %r" % (prefix, s))
        return Y.lang_of(Y.rope(*ps)).subset(tail)

    def stub(self, qualname, fn):
        """replace a callee by its contract: fn(it, *args); the replay runs the real callee"""
        self.ctx.contracts[qualname] = fn

    def patch(self, qualname, fn):
        """a stand-in used by the proof (fn(it, *args)) and by the replay (fn(*args)) alike"""
        self.ctx.contracts[qualname] = fn

    def setattr(self, o, n, v):
        if isinstance(o, Y.SObj) and n not in o.attrs and not getattr(o, "partial", False) and not hasattr(o.cls, n):
            raise Unsupported("%s has no attribute %s any more" % (o.cls.__name__, n))
        self.it.setattr(o, n, Y.PyList(v) if isinstance(v, list) else v)

    def contains(self, s, part):
        """the string s has part as one of its pieces"""
        return any(p is q for p in Y.parts_of(s) for q in Y.parts_of(part)) if isinstance(part, Y.Rope) else part in s

    symbolic = True

    def apply(self, f, s):
        """the spec transducer f on the string s"""
        from . import fst as F
        if isinstance(s, str):
            return f.run(s)
        ps = Y.parts_of(s)
        if len(ps) == 1 and isinstance(ps[0], Y.Img):
            return Y.rope(Y.Img(ps[0].word, F.compose(ps[0].f, f)))
        if len(ps) == 1 and isinstance(ps[0], Y.Word):
            return Y.rope(Y.Img(ps[0], f))
        if not ps or all(isinstance(p, str) for p in ps):
            return f.run("".join(ps))
        raise Unsupported("transducer on %r" % s)

    def whole(self, v):
        """v is an int value"""
        return isinstance(v, int) and not isinstance(v, bool) or isinstance(v, Y.S) and v.k == "int"

    def native(self, f, *a):
        """a pure spec helper on concrete values"""
        return f(*a)

    def raises(self, f):
        """-> (exception class, None) or (None, value)"""
        try:
            return None, f(), None
        except PyRaise as e:
            return e.cls, None, e


class NotReplayable(Exception):
    pass


class _Env:
    def __getattr__(self, n):
        raise NotReplayable(n)


class _PathAbort(Exception):
    pass


class ConcreteH:
    """The same harness run on the real code with the values of a counter-model."""

    def __init__(self, model):
        self.m, self.failed, self.log, self.undo = model, [], [], []
        self.ctx = _Env()
        self.it = _Env()

    def _v(self, name):
        if name not in self.m:
            raise NotReplayable("no value for %s" % name)
        return self.m[name]

    def int(self, name, lo=None, hi=None):
        return int(self._v(name))

    def real(self, name, lo=None, hi=None):
        from fractions import Fraction
        v = self._v(name)
        if isinstance(v, dict) and "fraction" in v:
            v = Fraction(*v["fraction"])
        v = Fraction(v)
        return int(v) if v.denominator == 1 and abs(v) < 2 ** 53 else float(v)

    def bool(self, name):
        return bool(self._v(name))

    def word(self, name, lang):
        v = self._v(name)
        if not isinstance(v, str) or not lang.accepts(v):
            raise NotReplayable("value of %s" % name)
        return v

    def val(self, name, **kw):
        raise NotReplayable("uninterpreted value")

    def pick(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        v = self._v(name)
        for o in options:
            if o == v or repr(o)[:300] == v or (isinstance(v, dict) and jsonable(o) == v) or jsonable(o) == v:
                return o
        raise NotReplayable("option %r" % (v,))

    def obj(self, cls, owner=None, **attrs):
        o = cls.__new__(cls)
        for k, v in attrs.items():
            setattr(o, k, v)
        if owner == "input":
            self.log.append((o, dict(attrs)))
        return o

    def assume(self, c):
        if c is not True and not c:
            raise _PathAbort()

    def call(self, f, *a, **kw):
        return f(*a, **kw)

    def list(self, xs):
        return list(xs)

    def dict(self, pairs):
        return dict(pairs)

    def settle(self, name, ok, why=None, backend=""):
        raise NotReplayable("an analysis of the source has no input")

    def decided(self, c):
        return bool(c)

    def items(self, v):
        return list(v)

    def attr(self, o, n):
        return getattr(o, n)

    def meth(self, o, n, *a, **kw):
        return getattr(o, n)(*a, **kw)

    def eq(self, a, b):
        return bool(a == b)

    def truth(self, v):
        return bool(v)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def native(self, f, *a):
        return f(*a)

    def text(self, *parts):
        return "".join(parts)

    def starts_with(self, s, prefix, tail):
        return s.startswith(prefix) and tail.accepts(s[len(prefix):])

    def stub(self, qualname, fn):
        pass

    def patch(self, qualname, fn):
        import importlib
        mod, _, rest = qualname.partition("pycaption.")
        parts = qualname.split(".")
        for k in range(len(parts) - 1, 0, -1):
            try:
                o = importlib.import_module(".".join(parts[:k]))
                break
            except ImportError:
                continue
        for p in parts[k:-1]:
            o = getattr(o, p)
        raw = o.__dict__[parts[-1]]
        self.undo.append((o, parts[-1], raw))

        def stand_in(*a, **k):
            r = fn(*a, **k)
            return (raw.__func__ if isinstance(raw, staticmethod) else raw)(*a, **k) if r is FOLLOW else r
        setattr(o, parts[-1], staticmethod(stand_in) if isinstance(raw, staticmethod) else stand_in)

    def setattr(self, o, n, v):
        if not hasattr(o, n) and hasattr(o, "__dict__"):
            raise NotReplayable("no attribute %s" % n)
        setattr(o, n, v)

    def contains(self, s, part):
        return part in s

    symbolic = False

    def apply(self, f, s):
        return f.run(s)

    def whole(self, v):
        return isinstance(v, int) and not isinstance(v, bool)

    def prove_in(self, name, s, lang, detail=""):
        return self.prove(name, isinstance(s, str) and lang.accepts(s), detail)

    def prove(self, name, c, detail=""):
        if isinstance(c, Y.S):
            raise NotReplayable("symbolic goal")
        if not c:
            self.failed.append(name)
        return bool(c)

    def prove_eq(self, name, a, b, detail=""):
        return self.prove(name, a == b)

    def raises(self, f):
        try:
            return None, f(), None
        except (NotReplayable, _PathAbort):
            raise
        except Exception as e:
            return type(e), None, e


def replay(c, model):
    """Re-run the contract on the real code with the counter-model. -> list of failed obligations, or None."""
    h = ConcreteH(model or {})
    old, Y.CUR = Y.CUR, Ctx([])
    try:
        try:
            c.fn(h)
        except _PathAbort:
            return None
        except NotReplayable:
            return None
        except Unsupported:
            return None
        except Exception as e:
            if "pyvc" in traceback.format_exc().splitlines()[-3]:
                return None
            h.failed.append("no exception escapes: %s: %s" % (type(e).__name__, e))
        for o, attrs in h.log:
            for k, v in attrs.items():
                if getattr(o, k, None) is not v and getattr(o, k, None) != v:
                    h.failed.append("frame: %s.%s modified" % (type(o).__name__, k))
    finally:
        Y.CUR = old
        for o, n, v in reversed(h.undo):
            setattr(o, n, v)
    return h.failed or None


def witness(c, ctx):
    """The verifier could not follow a path: try one input of that path on the real code. Never a proof; a failing
    obligation is a genuine counterexample."""
    import z3
    try:
        ctx.solver.set("timeout", 3000)
        if ctx.solver.check() != z3.sat:
            return
        m = jsonable(ctx.concretize(ctx.solver.model()))
        for name in replay(c, m) or ():
            ctx.obligations.append(Y.Obligation(name, "refuted", "replay of a path outside the verified subset", 0, "",
                                                m, "", tuple(ctx.choices)))
    except Exception:
        return


def run_contract(c, budget_s=None, max_paths=4000):
    """Explore every path of a contract; returns a plain dict. Repeated while an inferred loop invariant grows."""
    t0 = time.time()
    budget = budget_s or c.timeout
    shared = {}
    for rounds in range(1, 60):
        shared.pop("grew", None)
        res = run_round(c, max(1, budget - (time.time() - t0)), max_paths, shared)
        if not shared.get("grew") or any("budget" in u for u in res["undecided"]):
            break
    else:
        res["undecided"].append("the loop invariant still grows after %d rounds" % rounds)
    if rounds > 1:
        res["notes"] = sorted(res["notes"] + ["loop invariants inferred in %d rounds: %s states" % (
            rounds, "+".join(str(len(v["states"])) for v in shared.values() if isinstance(v, dict)))])
    res["wall_s"] = round(time.time() - t0, 2)
    return res


def run_round(c, budget, max_paths, shared):
    from .interp import Interp
    t0 = time.time()
    work, elsewhere = [[]], False
    res = {"name": c.name, "bound": c.bound, "prop": c.prop, "targets": c.targets, "obligations": {}, "paths": 0, "inlined": set(),
           "used_contracts": set(), "undecided": [], "notes": set(), "solver_ms": 0}
    while work:
        if time.time() - t0 > budget or res["paths"] >= max_paths:
            res["undecided"].append("budget: %d paths explored, %d pending" % (res["paths"], len(work)))
            break
        prefix = work.pop()
        ctx = Ctx(prefix)
        ctx.shared = shared
        Y.CUR = ctx
        it = Interp(ctx)
        h = H(ctx, it)
        try:
            c.fn(h)
        except PathEnd:
            pass
        except PyRaise as e:
            try:
                feasible = ctx.check() != __import__("z3").unsat
            except Exception:
                feasible = True
            if feasible:
                ctx.decide("no exception escapes", False, witness=str(e)[:300], backend="path")
        except (Unsupported, Budget) as e:
            res["undecided"].append("%s: %s" % (type(e).__name__, e))
            elsewhere = elsewhere or isinstance(e, Elsewhere)
            witness(c, ctx)
        except L_Delay as e:
            res["undecided"].append("transducer: %s" % e)
        except RecursionError:
            res["undecided"].append("recursion")
        except Exception as e:
            res["undecided"].append("engine error %s: %s @ %s" % (type(e).__name__, e,
                                    traceback.format_exc().strip().splitlines()[-3:]))
        res["paths"] += 1
        work.extend(ctx.pending)
        res["inlined"] |= ctx.inlined
        res["used_contracts"] |= ctx.used_contracts
        res["notes"] |= set(ctx.notes)
        for o in ctx.obligations:
            if c.only and o.name not in c.expects and o.name != "no exception escapes" and not o.name.startswith("frame"):
                continue
            res["solver_ms"] += o.ms
            r = res["obligations"].setdefault(o.name, {"instances": 0, "discharged": 0, "refuted": [], "unknown": 0,
                                                       "backends": set(), "ms": 0})
            r["instances"] += 1
            r["ms"] += o.ms
            r["backends"].add(o.backend)
            if o.status == "discharged":
                r["discharged"] += 1
            elif o.status == "refuted":
                if len(r["refuted"]) < 5:
                    rp = None
                    try:
                        rp = replay(c, jsonable(o.model))
                    except BaseException as e:
                        rp = None
                    r["refuted"].append({"goal": o.goal, "detail": o.detail, "model": jsonable(o.model),
                                         "replayed": rp,
                                         "path": [list(map(str, x)) for x in o.path][:40]})
                else:
                    r["refuted"].append(None)
            else:
                r["unknown"] += 1
    for e in c.expects:
        if e not in res["obligations"]:
            res["undecided"].append("vacuous: obligation %r was never reached" % e)
    if elsewhere:
        for r in res["obligations"].values():
            kept = [x for x in r["refuted"] if x and x["replayed"]]
            r["unknown"] += len(r["refuted"]) - len(kept)
            r["refuted"] = kept
    if not res["obligations"] and not res["undecided"]:
        res["undecided"].append("vacuous: no obligation generated")
    res["wall_s"] = round(time.time() - t0, 2)
    for k in ("inlined", "used_contracts", "notes"):
        res[k] = sorted(res[k])
    for r in res["obligations"].values():
        r["backends"] = sorted(r["backends"])
    res["undecided"] = sorted(set(res["undecided"]))
    return res


from .fst import Delay as L_Delay


def jsonable(x):
    from fractions import Fraction
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, Fraction):
        return {"fraction": [x.numerator, x.denominator], "approx": float(x)}
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    return repr(x)[:300]


def _job(args):
    prop, name, budget = args
    sys.setrecursionlimit(5000)
    try:
        return run_contract(CONTRACTS[prop][name], budget)
    except BaseException as e:                                    # pragma: no cover
        return {"name": name, "prop": prop, "targets": [], "obligations": {}, "paths": 0, "inlined": [],
                "used_contracts": [], "notes": [], "solver_ms": 0, "wall_s": 0,
                "undecided": ["engine error %s: %s" % (type(e).__name__, e)]}


def run_all(prop, names=None, budget=None, procs=8):
    names = list(names or CONTRACTS.get(prop, {}))
    if not names:
        return []
    if procs <= 1 or len(names) == 1:
        return [_job((prop, n, budget)) for n in names]
    with multiprocessing.get_context("fork").Pool(min(procs, len(names)), maxtasksperchild=1) as p:
        out = []
        jobs = [(n, p.apply_async(_job, ((prop, n, budget),))) for n in names]
        for n, j in jobs:
            limit = (budget or CONTRACTS[prop][n].timeout) + 60
            try:
                out.append(j.get(limit))
            except multiprocessing.TimeoutError:
                out.append({"name": n, "prop": prop, "targets": CONTRACTS[prop][n].targets, "obligations": {},
                            "paths": 0, "inlined": [], "used_contracts": [], "notes": [], "solver_ms": 0,
                            "wall_s": limit, "undecided": ["killed after %ss" % limit]})
        p.terminate()
    return out
