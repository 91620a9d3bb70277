"""Shared pieces of contracts: symbolic captions, accumulators, generic loop contracts."""
import z3

from pycaption.base import Caption, CaptionList, CaptionNode, CaptionSet

from pyvc import lang as L
from pyvc import sym as Y
from pyvc.sym import Blob, PyDict, PyList, SObj, U, Unsupported


def at(o, n):
    return o.attrs[n] if hasattr(o, "attrs") else getattr(o, n)


def num(ctx, name, kind="int", lo=None):
    t = ctx.fresh(z3.IntSort() if kind == "int" else z3.RealSort(), name)
    if lo is not None:
        ctx.assume(t >= lo)
    return Y.S(t, kind)


def uval(ctx, name):
    return U(ctx.fresh(Y.ValSort, name), name=name)


def nodes_blob(ctx, name):
    n = ctx.fresh(z3.IntSort(), name + ".count")
    ctx.assume(n >= 1)
    return PyList([Blob(name, n, lambda i: U(ctx.fresh(Y.ValSort, name + "[]"), name=name + "[]"), tag="nodes")])


def caption_obj(ctx, name, kind="float", owner=None, lo=None, nodes=None, **kw):
    a = {"start": num(ctx, name + ".start", kind, lo), "end": num(ctx, name + ".end", kind, lo),
         "nodes": nodes if nodes is not None else nodes_blob(ctx, name + ".nodes"),
         "style": uval(ctx, name + ".style"), "layout_info": uval(ctx, name + ".layout")}
    a.update(kw)
    c = SObj(Caption, a, owner=owner)
    return c


def captions(ctx, name, tag="captions", length=None, make=None, **kw):
    """A caption list of unknown length, elements pairwise distinct objects."""
    n = length
    if n is None:
        n = ctx.fresh(z3.IntSort(), name + ".len")
        ctx.assume(n >= 0)
    made = []

    def elem(i):
        c = (make or caption_obj)(ctx, "%s[%s]" % (name, i), **kw)
        made.append(c)
        return c
    b = Blob(name, n, elem, tag=tag)
    b.made = made
    return b


def caption_list(blobs, layout=None, cls=CaptionList):
    o = SObj(cls, {"layout_info": layout})
    o.data = PyList(blobs)
    return o


def seq_of(v):
    """The PyList behind a list value (plain list or list subclass)."""
    if isinstance(v, PyList):
        return v
    if isinstance(v, SObj) and isinstance(v.data, PyList):
        return v.data
    return None


def accumulators(fr, fresh_only=True, ignore=()):
    """Local variables holding list values (name-independent): (name, PyList)."""
    out, seen = [], set()
    f = fr
    while f is not None:
        for k, v in f.vars.items():
            s = seq_of(v)
            if s is not None and id(s) not in seen and not any(s is x for x in ignore):
                seen.add(id(s))
                out.append((k, s))
        f = f.parent
    return out


def same_items(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


class CopyLoop:
    """for x in xs: acc.append(x)  -- acc = acc0 ++ xs[:i]"""
    name = "copies every element in order"

    def entry(self, it, fr):
        self.accs = [(k, s, list(s.items)) for k, s in accumulators(fr) if k in self.mutated]

    def havoc(self, it, fr, i):
        self.prefix = Blob(self.loop_blob.name + "[:i]", i, self.loop_blob.elem, self.loop_blob.lo,
                           tag=self.loop_blob.tag, memo=self.loop_blob.memo)
        full = i is self.loop_blob.length or z3.eq(z3.simplify(z3.IntVal(0) + i), z3.simplify(z3.IntVal(0) + self.loop_blob.length))
        # which list grows is found by running the body once (the step checks all of them)
        self.guess = getattr(self, "target", None)
        for k, s, old in self.accs:
            if self.guess is None or k in self.guess:
                s.items = old + [self.loop_blob if full else self.prefix]
        self.cur = [(k, s, list(s.items)) for k, s, _ in self.accs]

    def step(self, it, fr, i):
        x = self.loop_blob.get(i)
        for (k, s, cur) in self.cur:
            if self.guess is None or k in self.guess:
                it.ctx.decide(self.name, same_items(s.items, cur + [x]), witness=repr(s), backend="loop rule")
            elif not same_items(s.items, cur):
                raise Unsupported("copy loop changes %s" % k)

    def frame(self, it, fr):
        return [s for _, s, _ in self.accs]
