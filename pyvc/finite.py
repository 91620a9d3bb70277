"""Loop rule with an inferred invariant, for loops over sequences of unknown length whose state between two
iterations ranges over a finite set: flags, None, constants, nodes of a finite number of kinds, lists and strings
that only grow and of which a finite ghost state is remembered.

The invariant is the set of reachable abstract states. It starts with the state at loop entry; an arbitrary iteration
is verified from every member, for every kind of element; the states it ends in join the set; the exploration is
repeated until nothing new appears (runner.run_contract), so that in the last round the set is shown to be inductive.
"""
import z3

from . import lang as L
from . import sym as Y
from .sym import Blob, PyList, SObj, Unsupported, PathEnd

MISSING = object()


class Typed(Blob):
    """A list segment whose elements have kinds; the kinds spell a word the automaton core/step/final accepts.
    step(core, kind) -> next core state, or None where the kind cannot occur."""

    def __init__(self, name, kinds, make, core0, step, final=None, tag=None, last=None):
        ctx = Y.CUR
        n = ctx.fresh(z3.IntSort(), name + ".len")
        ctx.assume(n >= 0)
        self.kinds, self.make, self.core0, self.step, self.final, self.last = kinds, make, core0, step, final, last
        super().__init__(name, n, self._elem, tag=tag)

    def _elem(self, i):
        ctx = Y.CUR
        if self.last is not None and z3.eq(z3.simplify(i), z3.simplify(self.length - 1)):
            return self.make(self.last)
        k = ctx.choose(len(self.kinds), "kind of %s[%s]" % (self.name, i))
        return self.make(self.kinds[k])


    symmetric = False            # any order of the kinds is possible

    def backwards(self):
        if not self.symmetric:
            raise Unsupported("reversed typed sequence")
        return Typed("reversed " + self.name, self.kinds, self.make, self.core0, self.step, None, "reversed " + self.tag)


def root_paths(it, fr):
    f = fr
    while f is not None:
        for k, v in f.vars.items():
            yield (k,), v
        f = f.parent


def find_path(it, fr, o, depth=3):
    todo = list(root_paths(it, fr))
    seen = set()
    for _ in range(depth):
        nxt = []
        for p, v in todo:
            if v is o or (isinstance(v, SObj) and v.data is o):
                return p
            if id(v) in seen:
                continue
            seen.add(id(v))
            if isinstance(v, SObj):
                nxt += [(p + (k,), w) for k, w in v.attrs.items()]
        todo = nxt
    return None


def get_path(fr, p):
    f = fr
    while f is not None and p[0] not in f.vars:
        f = f.parent
    if f is None:
        return MISSING
    v = f.vars[p[0]]
    for k in p[1:]:
        if not isinstance(v, SObj) or k not in v.attrs:
            return MISSING
        v = v.attrs[k]
    return v


def set_path(fr, p, v):
    if len(p) == 1:
        f = fr
        while f is not None and p[0] not in f.vars:
            f = f.parent
        (f or fr).vars[p[0]] = v
        return
    o = get_path(fr, p[:-1])
    if v is MISSING:
        o.attrs.pop(p[-1], None)
    else:
        o.attrs[p[-1]] = v


class FiniteLoop:
    """Subclasses give:
    kind_of(item)          the kind of a list item (element or created by the code)
    ghost0, ghost(g, item) ghost state of a list that grows
    concrete_list(it, g)   -> items standing for any list with ghost state g (normally one Typed segment)
    concrete_node(it, k)   an arbitrary node of a kind
    strings                {path: family} for string accumulators (see StrFamily)
    appended(it, core, kind, x, g, items)   checks on what one iteration appended to a list with ghost state g
    element_write(it, x, name, old, new)    checks on a write to an element
    """
    ghost0 = None
    exact_ints = False              # integers of the loop state range over a small set

    def exact(self, items):
        """lists remembered element by element"""
        return False

    def key(self, fr):
        b = self.loop_blob
        return (fr.fn, getattr(self.node, "lineno", 0), b.tag if b is not None else "while")

    # ---- abstraction
    def abst(self, it, v, p=None):
        if v is MISSING:
            return ("missing",)
        if v is None or isinstance(v, bool):
            return ("const", v)
        if isinstance(v, (int, str)) and not isinstance(v, bool):
            fam = self.family(p)
            if isinstance(v, str) and fam is not None:
                return ("str",) + fam.states(v)
            if isinstance(v, str) and len(v) > 200:
                raise Unsupported("long string in a loop state")
            if isinstance(v, int) and p in self.sh["widen"]:
                return ("int",)
            return ("const", v)
        if isinstance(v, Y.S) and v.k == "bool":
            t = it.tb(v)
            if it.ctx.known(Y.bterm(t)):
                return ("const", True)
            if it.ctx.known(Y.bterm(Y.not_(t))):
                return ("const", False)
            return ("bool",)
        if isinstance(v, Y.S) and v.k == "int":
            return ("int",)
        if isinstance(v, Y.Rope):
            fam = self.family(p)
            if fam is None:
                raise Unsupported("string %s changes in a loop" % (p,))
            return ("str",) + fam.states(v)
        if isinstance(v, PyList) and type(v) is PyList:
            g = self.list_ghost(it, v)
            return ("list", g)
        if isinstance(v, SObj):
            k = self.kind_of(v)
            if k is not None:
                return ("node", k)
        return self.abst_other(it, v, p)

    def abst_other(self, it, v, p):
        raise Unsupported("%s = %r is part of a loop state" % (".".join(p or ("?",)), v))

    def family(self, p):
        return getattr(self, "strings", {}).get(".".join(p)) if p else None

    def list_ghost(self, it, v):
        g = self.ghost0
        for n, x in enumerate(v.items):
            if isinstance(x, Blob):
                if n or getattr(x, "ghost", None) is None:
                    raise Unsupported("list with an unknown segment is part of a loop state")
                g = x.ghost
            else:
                g = self.ghost(g, x)
        return g

    def conc(self, it, a, cur):
        t = a[0]
        if t == "missing":
            return MISSING
        if t == "const":
            return a[1]
        if t == "bool":
            return Y.S(it.ctx.fresh(z3.BoolSort(), "flag"), "bool")
        if t == "int":
            return Y.S(it.ctx.fresh(z3.IntSort(), "counter"), "int")
        if t == "node":
            n = self.concrete_node(it, a[1])
            n.ghost["stale"] = True
            return n
        if t == "list":
            items = self.concrete_list(it, a[1])
            for x in items:
                if isinstance(x, Blob):
                    x.ghost = a[1]
            if isinstance(cur, PyList):
                cur.items = items
                return cur
            return PyList(items)
        if t == "str":
            return self.fam_of[a[1]].concrete(a[2])
        raise Unsupported("loop state %r" % (a,))

    # ---- loop rule
    def entry(self, it, fr):
        self.sh = it.ctx.shared.setdefault(self.key(fr), {"locs": [], "widen": set(), "states": {}})
        self.it = it
        for n in sorted(self.assigned):
            v = get_path(fr, (n,))
            if v is not MISSING and n != getattr(getattr(self.node, "target", None), "id", None):
                self.loc((n,))
        self.src = self.loop_blob if isinstance(self.loop_blob, Typed) else getattr(self.loop_blob, "base", None)
        if not isinstance(self.src, Typed):
            self.src = None
        self.record(it, fr, self.src.core0 if self.src is not None else None)

    def loc(self, p):
        if p not in self.sh["locs"]:
            self.sh["locs"].append(p)
            self.sh["states"].clear()
            self.it.ctx.shared["grew"] = True

    def record(self, it, fr, core):
        st = []
        for p in self.sh["locs"]:
            st.append(self.abst(it, get_path(fr, p), p))
        st = (core, self.extra_state(it, fr)) + tuple(st)
        # counters: a location that takes a second integer value is widened
        for s in list(self.sh["states"]):
            for p, a, b in zip(self.sh["locs"], s[2:], st[2:]):
                if a[0] == "const" and b[0] == "const" and type(a[1]) is int and type(b[1]) is int and a != b \
                        and p not in self.sh["widen"] and not self.exact_ints:
                    self.sh["widen"].add(p)
                    self.sh["states"].clear()
                    it.ctx.shared["grew"] = True
                    raise PathEnd("widened")
        if st not in self.sh["states"]:
            if len(self.sh["states"]) > 400:
                raise Unsupported("more than 400 loop states")
            self.sh["states"][st] = len(self.sh["states"])
            it.ctx.shared["grew"] = True

    def extra_state(self, it, fr):
        return None

    def set_extra(self, it, fr, v):
        pass

    def havoc(self, it, fr, i):
        ctx = it.ctx
        b = self.loop_blob
        typed = self.src is not None
        exit_ = b is not None and (i is b.length)
        b = self.src or b
        states = sorted(self.sh["states"], key=self.sh["states"].get)
        if typed and exit_ and b.final is not None:
            states = [s for s in states if s[0] in b.final]
        if not states:
            raise PathEnd("no such state yet")
        st = states[ctx.choose(len(states), "state of the loop")] if len(states) > 1 else states[0]
        self.core = st[0]
        cur = {p: get_path(fr, p) for p in self.sh["locs"]}
        for p, a in zip(self.sh["locs"], st[2:]):
            v = self.conc(it, a, cur[p])
            if v is MISSING and len(p) == 1:
                continue
            if v is not cur[p] or len(p) == 1:
                set_path(fr, p, v)
        self.set_extra(it, fr, st[1])
        if typed and not exit_:
            ks = [k for k in b.kinds if b.step(self.core, k) is not None]
            if not ks:
                raise PathEnd("no element possible")
            k = ks[ctx.choose(len(ks), "kind of the element")] if len(ks) > 1 else ks[0]
            self.kind = k
            self.x = b.make(k)
            b.memo[z3.simplify(i).sexpr()] = self.x
            self.next_core = b.step(self.core, k)
        elif not exit_ and b is not None:
            self.x, self.kind, self.next_core = b.get(i), None, None
        self.before = {}
        for p in self.sh["locs"]:
            v = get_path(fr, p)
            if isinstance(v, PyList):
                self.before[p] = (v, list(v.items), self.list_ghost(it, v))
            else:
                self.before[p] = (v, None, None)
        self.mark, self.stamp = len(ctx.writes), SObj.n
        self.begin(it, fr)

    def begin(self, it, fr):
        pass

    def step(self, it, fr, i):
        ctx = it.ctx
        self.frame_objs = []
        for (o, name, old, new) in ctx.writes[self.mark:]:
            if (isinstance(o, SObj) and o.uid > self.stamp) or getattr(o, "stamp", 0) > self.stamp:
                continue
            if o is getattr(self, "x", None):
                self.element_write(it, o, name, old, new)
                self.frame_objs.append(o)
                continue
            p = find_path(it, fr, o)
            if p is None:
                raise Unsupported("loop writes %r.%s" % (o, name))
            if isinstance(o, SObj) and not (o.data is not None and name in ("data", "items")):
                p = p + (name,)
            self.loc(p)
            self.frame_objs.append(o)
        for p, (v, items, g) in self.before.items():
            if items is not None and self.exact(items):
                continue
            if items is not None and get_path(fr, p) is v:
                if len(v.items) < len(items) or any(a is not b for a, b in zip(v.items, items)):
                    raise Unsupported("list %s does not only grow" % ".".join(p))
                self.appended(it, self.core, self.kind, self.x, g, v.items[len(items):])
            elif items is None:
                self.changed(it, fr, p, v, get_path(fr, p))
        self.finish(it, fr)
        self.record(it, fr, self.next_core)

    def finish(self, it, fr):
        pass

    def changed(self, it, fr, p, old, new):
        pass

    def appended(self, it, core, kind, x, g, items):
        pass

    def element_write(self, it, x, name, old, new):
        raise Unsupported("loop writes element attribute %s" % name)

    def frame(self, it, fr):
        return self.frame_objs


class StrFamily:
    """Finite family of pairwise disjoint languages; a string accumulator is remembered by its language."""

    def __init__(self, name, langs):
        self.name, self.langs = name, langs

    def states(self, v):
        parts = [p if isinstance(p, str) else p.lang() for p in Y.parts_of(v)]
        for k, x in self.langs.items():
            if L.all_in(parts, x):
                return (self.name, k)
        raise Unsupported("string %r is in no member of the family %s" % (v, self.name))

    def concrete(self, k):
        return Y.rope(Y.Word("acc:" + str(k), self.langs[k]))
