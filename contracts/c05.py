"""C05 SCC pop-on decoding: code tables, positions, italics."""
from pycaption.geometry import HorizontalAlignmentEnum, UnitEnum, VerticalAlignmentEnum
from pycaption.scc import _is_pac_command, constants as K
from pycaption.scc import specialized_collections as SC
from pycaption.scc.specialized_collections import _InstructionNode

from oracles import cea608
from pyvc import lang as L
from pyvc import sym as Y
from pyvc.finite import FiniteLoop, Typed
from pyvc.runner import contract
from pyvc.sym import PyList, SObj, Unsupported

# ------------------------------------------------------------------ italics: the passes of _format_italics
KINDS = ["text", "empty", "break", "on", "off", "move"]
TYPES = {"text": 0, "empty": 0, "break": 1, "on": 2, "off": 3, "move": 4}
NAMES = {v: k for k, v in TYPES.items()}
FLAGS = ("early", "dup", "moved", "empty")     # what a list may still contain


def make(kind):
    text = {"text": Y.rope(Y.Word("chars", L.plus(L.ANY))), "empty": ""}.get(kind)
    return SObj(_InstructionNode, {"text": text, "position": (7, 4), "_type": TYPES[kind]})


def kind_of(x):
    if not isinstance(x, SObj) or x.cls is not _InstructionNode or x.attrs.get("_type") not in NAMES:
        return None
    k = NAMES[x.attrs["_type"]]
    if k == "empty" or k == "text":
        k = "text" if x.attrs.get("text") not in ("", None) else "empty"
    return k


def advance(g, k):
    """(italics state, flags) -> after one more node"""
    ital, flags = g
    f = set(flags)
    if k == "on":
        if ital == "on":
            f.add("dup")
        ital = "on"
    elif k == "off":
        if ital is None:
            f.add("early")
        elif ital == "off":
            f.add("dup")
        ital = "off"
    elif k == "move" and ital == "on":
        f.add("moved")
    elif k == "empty":
        f.add("empty")
    return ital, frozenset(f)


def source(without, closed=False):
    """any list of instruction nodes that contains none of the listed defects"""
    def step(core, k):
        ital, defects = advance((None if core == "start" else core, frozenset()), k)
        return None if defects & set(without) else ital or "start"
    return Typed("nodes", KINDS, make, "start", step, final=("start", "off") if closed else None, tag="inodes")


KEPT = "every text, break and position node is kept, once and in order"
SAME = "every character keeps its italics status"


class Pass(FiniteLoop):
    ghost0 = (None, frozenset())

    def kind_of(self, x):
        return kind_of(x)

    def ghost(self, g, x):
        k = kind_of(x)
        if k is None:
            raise Unsupported("unknown node %r" % (x,))
        return advance(g, k)

    def concrete_node(self, it, k):
        return make(k)

    def concrete_list(self, it, g):
        return [Typed("out", KINDS, make, "start", lambda c, k: "any", tag="out")]

    def appended(self, it, core, kind, x, g, items):
        solid = [y for y in items if kind_of(y) not in ("on", "off")]
        if kind in ("on", "off"):
            it.ctx.decide(KEPT, not solid, witness=repr(solid), backend="loop rule")
        elif kind != "empty":
            it.ctx.decide(KEPT, len(solid) == 1 and solid[0] is x, witness="%s: %r" % (kind, solid), backend="loop rule")
        else:
            it.ctx.decide(KEPT, all(y is x for y in solid), witness=repr(solid), backend="loop rule")
        for y in items:
            g = self.ghost(g, y)
            if kind_of(y) == "text":
                it.ctx.decide(SAME, (g[0] == "on") == (core == "on"), witness="%s, out %s" % (core, g[0]), backend="loop rule")


def final_ghost(loop, r, src):
    g = Pass.ghost0
    for n, x in enumerate(r.items):
        if x is src:
            g = (None if loop.core == "start" else loop.core, frozenset())
        elif isinstance(x, Y.Blob):
            if n or getattr(x, "ghost", None) is None:
                raise Unsupported("result %r" % (r,))
            g = x.ghost
        else:
            g = loop.ghost(g, x)
    return g


PASSES = [  # function, defects already removed, defects removed afterwards, closed before, closed after
    ("_skip_initial_italics_off_nodes", (), ("early",), False, False),
    ("_skip_empty_text_nodes", ("early",), ("early", "empty"), False, False),
    ("_skip_redundant_italics_nodes", ("early", "empty"), ("early", "empty", "dup"), False, False),
    ("_close_italics_before_repositioning", ("early", "empty", "dup"), FLAGS, False, False),
    ("_ensure_final_italics_node_closes", FLAGS, FLAGS, False, True),
    ("_remove_noop_italics", FLAGS, FLAGS, True, True),
]
NOOP = [("_remove_noop_on_off_italics", FLAGS, FLAGS, True, True), ("_remove_noon_off_on_italics", FLAGS, FLAGS, True, True)]
CLEAN = "the result has none of the defects this pass removes"
CLOSED = "no italics span is left open"


def pass_contract(fname, pre, post, closed0, closed1):
    def run(h):
        src = source(pre, closed0)
        lp = Pass()
        h.ctx.loops["inodes"] = lp
        r = h.call(getattr(SC, fname), PyList([src]))
        if not isinstance(r, PyList):
            raise Unsupported("result %r" % (r,))
        g = final_ghost(lp, r, src)
        h.ctx.decide(CLEAN, not (g[1] & set(post)), witness=repr(g), backend="loop rule")
        if closed1:
            h.ctx.decide(CLOSED, g[0] != "on", witness=repr(g), backend="loop rule")
    return run


Q = "pycaption.scc.specialized_collections."
for _f, _pre, _post, _c0, _c1 in PASSES[:5] + NOOP:
    contract("C05", _f, targets=[Q + _f],
             expects=[CLEAN] + ([CLOSED] if _c1 else []) + ([KEPT, SAME] if _f != "_ensure_final_italics_node_closes" else []))(
        pass_contract(_f, _pre, _post, _c0, _c1))


class Kept:
    """What the contracts above leave true of a list."""

    def __init__(self, without, closed):
        self.without, self.closed = set(without), closed


def assume_pass(h, fname, pre, post, closed0, closed1):
    def callee(it, xs):
        k = getattr(xs.items[0], "kept", None) if isinstance(xs, PyList) and len(xs.items) == 1 else None
        if k is None or not set(pre) <= k.without or (closed0 and not k.closed):
            raise Unsupported("precondition of %s" % fname)       # another order of the passes: not decided here
        b = Typed("after " + fname, KINDS, make, "start", lambda c, k: "start", tag="after")
        b.kept = Kept(post, closed1)
        return PyList([b])
    h.stub(Q + fname, callee)


def composed(passes, fname, without, closed):
    def run(h):
        for p in passes:
            assume_pass(h, *p)
        h.stub(Q + "_remove_spaces_at_end_of_the_line", lambda it, xs: xs)
        b = Typed("nodes", KINDS, make, "start", lambda c, k: "start", tag="given")
        b.kept = Kept(without, closed)
        r = h.call(getattr(SC, fname), PyList([b]))
        k = getattr(r.items[0], "kept", None) if isinstance(r, PyList) and len(r.items) == 1 else None
        if k is None:
            raise Unsupported("result %r" % (r,))
        h.ctx.decide("the composition is balanced: spans open, close, and never straddle a repositioning",
                     set(FLAGS) <= k.without and k.closed, witness=repr(vars(k)), backend="contracts")
    return run


BAL = "the composition is balanced: spans open, close, and never straddle a repositioning"
contract("C05", "_remove_noop_italics", targets=[Q + "_remove_noop_italics"], expects=[BAL])(
    composed(NOOP, "_remove_noop_italics", FLAGS, True))
contract("C05", "_format_italics", targets=[Q + "_format_italics"], expects=[BAL])(
    composed(PASSES, "_format_italics", (), False))


# ------------------------------------------------------------------ the code tables, evaluated in full
TABLES = "the code tables are those of CEA-608 (every code of the standard, evaluated)"
CHARS = {"%02x" % cea608.odd(c): v for c, v in cea608.STD.items()}
BLANK = {"\u00a0": " "}                      # the transparent space may be read as a space


@contract("C05", "code tables", targets=["pycaption.scc._is_pac_command"], expects=[TABLES])
def _(h):
    def same(what, got, want):
        bad = [(k, want.get(k), got.get(k)) for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
        h.ctx.decide(TABLES, not bad, witness="%s: (code, standard, table) %s" % (what, bad[:5]), backend="evaluation")
    words = ["%02x%02x" % (cea608.odd(a), cea608.odd(b)) for a in range(0x10, 0x20) for b in range(0x20, 0x80)]
    same("characters", {k: K.CHARACTERS.get(k) for k in CHARS}, CHARS)
    same("special characters", {k: BLANK.get(v, v) for k, v in K.SPECIAL_CHARS.items()},
         {k: BLANK.get(v, v) for k, v in cea608.SPECIALS.items()})
    same("extended characters", dict(K.EXTENDED_CHARS), cea608.EXTENDED)
    same("tab offsets", dict(K.PAC_TAB_OFFSET_COMMANDS), cea608.TAB)
    same("preamble address codes", {w: True for w in words if _is_pac_command(w)}, {w: True for w in cea608.PACS})
    same("rows and columns", {w: K.PAC_BYTES_TO_POSITIONING_MAP[w[:2]].get(w[2:]) for w in cea608.PACS},
         {w: v[:2] for w, v in cea608.PACS.items()})
    same("italic codes", {w: w in K.ITALICS_COMMANDS for w in list(cea608.PACS) + list(cea608.MIDROW)},
         {**{w: v[2] for w, v in cea608.PACS.items()}, **cea608.MIDROW})
    same("style codes", {w: w in K.STYLE_SETTING_COMMANDS for w in list(cea608.PACS) + list(cea608.MIDROW)},
         {w: True for w in list(cea608.PACS) + list(cea608.MIDROW)})
    same("mid-row codes", {w: w in K.MID_ROW_CODES for w in cea608.MIDROW}, {w: True for w in cea608.MIDROW})
    same("commands", {w: w in K.COMMANDS or _is_pac_command(w) for w in words if w not in cea608.SPECIALS
                      and w not in cea608.EXTENDED and (w in cea608.PACS or w in cea608.MIDROW or w in cea608.TAB)},
         {w: True for w in words if w in cea608.PACS or w in cea608.MIDROW or w in cea608.TAB})


# ------------------------------------------------------------------ position
SPOT = "origin is (10 + 80*column/32, 5 + 90*(row-1)/15) percent"


@contract("C05", "_get_layout_from_tuple", targets=[Q + "_get_layout_from_tuple"],
          expects=[SPOT, "text starts at the top left of that point", "no position, no layout"])
def _(h):
    row, col = h.int("row", 1, 16), h.int("column", 0, 32)
    r = h.call(SC._get_layout_from_tuple, (row, col))
    x, y = h.attr(h.attr(r, "origin"), "x"), h.attr(h.attr(r, "origin"), "y")
    h.prove(SPOT, Y.and_(h.truth(h.eq(h.attr(x, "value") * 32, 80 * col + 320)),
                         h.truth(h.eq(h.attr(y, "value") * 15, 90 * (row - 1) + 75)),
                         h.truth(h.eq(h.attr(x, "unit"), UnitEnum.PERCENT)),
                         h.truth(h.eq(h.attr(y, "unit"), UnitEnum.PERCENT))) if h.symbolic else
            abs(x.value - (10 + 80 * col / 32)) < 1e-6 and abs(y.value - (5 + 90 * (row - 1) / 15)) < 1e-6)
    a = h.attr(r, "alignment")
    h.prove("text starts at the top left of that point",
            Y.and_(h.truth(h.eq(h.attr(a, "horizontal"), HorizontalAlignmentEnum.LEFT)),
                   h.truth(h.eq(h.attr(a, "vertical"), VerticalAlignmentEnum.TOP))))
    h.prove("no position, no layout", h.call(SC._get_layout_from_tuple, None) is None)


def tracker(h, kind):
    o, cur = (h.int("first row", 1, 16), h.int("first column", 0, 32)), (h.int("row", 1, 16), h.int("column", 0, 32))
    ps = {"none": [None], "one": [cur], "several": [o, cur]}[kind]
    brk = h.pick("line break pending", [False, True]) if kind == "several" else False
    rep = h.pick("repositioning pending", [False, True])
    last = h.int("column of the pending code", 0, 32) if brk else None
    return ps, brk, rep, last, h.obj(DefaultProvidingPositionTracker, _positions=PyList(ps) if h.symbolic else list(ps),
                                     _break_required=brk, _repositioning_required=rep, _last_column=last)


from pycaption.scc.state_machines import DefaultProvidingPositionTracker      # noqa: E402

NEXT = "a code one row below makes a line break pending and keeps the position of the first row"
TAB = "a tab offset adjusts the pending position without repositioning"
MOVE = "any other code makes a repositioning to its row and column pending"
STAY = "a code for the current row and column changes nothing"


@contract("C05", "_PositioningTracker.update_positioning",
          targets=["pycaption.scc.state_machines._PositioningTracker.update_positioning",
                   "pycaption.scc.state_machines.DefaultProvidingPositionTracker.update_positioning",
                   "pycaption.scc.state_machines._PositioningTracker.get_current_position",
                   "pycaption.scc.state_machines.DefaultProvidingPositionTracker.get_current_position"],
          expects=[NEXT, TAB, MOVE, STAY])
def _(h):
    ps, brk, rep, last, t = tracker(h, h.pick("positions so far", ["none", "one", "several"]))
    new = (h.int("new row", 1, 16), h.int("new column", 0, 32))
    h.meth(t, "update_positioning", new)
    got = h.meth(t, "get_current_position")
    brk2, rep2 = h.meth(t, "is_linebreak_required"), h.meth(t, "is_repositioning_required")
    same = lambda p, q: Y.and_(h.truth(h.eq(p[0], q[0])), h.truth(h.eq(p[1], q[1])))
    eq = lambda a, b: h.truth(h.eq(a, b))
    if ps[-1] is None:
        h.prove(MOVE, Y.and_(same(got, new), eq(brk2, False), eq(rep2, rep)))
        return
    row, col = ps[-1][0], last if brk else ps[-1][1]
    below = eq(new[0], row + 1)
    tab = Y.and_(eq(new[0], row), Y.bterm(new[1] > col), Y.bterm(new[1] <= col + 3)) if h.symbolic else \
        new[0] == row and col < new[1] <= col + 3
    stay = same(new, ps[-1])
    h.prove(NEXT, Y.implies(below, Y.and_(same(got, ps[0]), eq(brk2, True), eq(rep2, rep))))
    if brk:
        h.prove(TAB, Y.implies(tab, Y.and_(same(got, ps[0]), eq(brk2, True), eq(rep2, rep))))
    else:
        h.prove(TAB, Y.implies(tab, Y.and_(same(got, new), eq(brk2, False), eq(rep2, rep))))
    h.prove(STAY, Y.implies(Y.and_(stay, Y.not_(tab)), Y.and_(same(got, ps[0]), eq(brk2, brk), eq(rep2, rep))))
    h.prove(MOVE, Y.implies(Y.not_(Y.or_(below, tab, stay)), Y.and_(same(got, new), eq(rep2, True))))


# ------------------------------------------------------------------ doubled codes
ONCE = "a control or special code sent twice in a row acts once"
AGAIN = "sent a third time it acts again"
TEXTS = "character pairs are never dropped"
CLASSES = {"preamble": sorted(cea608.PACS), "mid-row": sorted(cea608.MIDROW), "special": sorted(cea608.SPECIALS),
           "command": ["9420", "942c", "94ae", "942f", "94ad", "9425", "9426", "94a7", "9429"]}


@contract("C05", "SCCReader._handle_double_command", targets=["pycaption.scc.SCCReader._handle_double_command",
                                                               "pycaption.scc._is_pac_command"],
          expects=[ONCE, AGAIN, TEXTS])
def _(h):
    kind = h.pick("code", sorted(CLASSES) + ["characters"])
    last = h.pick("what came before", ["nothing", "characters", "command", "preamble"])
    # one representative per row of the code table: the function only looks codes up in the tables, which are
    # compared with the standard in full by the contract above
    before = {"nothing": "", "characters": "c1c2", "command": "94ae", "preamble": "9140"}[last]
    doubling = h.pick("doubling seen", [False, True])
    words = CLASSES[kind] if kind != "characters" else ["c1c2", "2080", "e6f2", "8080"]
    for w in words:
        if w == before:
            continue
        r = h.obj(SCCReader, last_command=before, double_starter=doubling)
        a = h.meth(r, "_handle_double_command", w)
        b = h.meth(r, "_handle_double_command", w)
        c = h.meth(r, "_handle_double_command", w)
        if kind == "characters":
            h.prove(TEXTS, not a and not b and not c, w)
        else:
            h.prove(ONCE, not a and bool(b), w)
            h.prove(AGAIN, not c, w)


from pycaption.scc import SCCReader      # noqa: E402


# ------------------------------------------------------------------ one character pair
def buffer(h, kind, t):
    """a buffer that ends with a node of the given kind (or is empty); what precedes it is arbitrary"""
    nodes = []
    if kind != "nothing":
        nodes = [h.obj(_InstructionNode, text={"text": h.word("text so far", L.plus(L.ANY)), "empty": None}.get(kind),
                       position=(h.int("its row", 1, 16), h.int("its column", 0, 32)), _type=TYPES[kind])]
    items = PyList(([Typed("before", KINDS, make, "start", lambda c, k: "start", tag="before")] if nodes else []) + nodes) \
        if h.symbolic else list(nodes)
    return nodes[0] if nodes else None, items, h.obj(SC.InstructionNodeCreator, _collection=items, last_style=None,
                                                    _position_tracer=t)


def tail(h, items, n):
    return (items.items if h.symbolic else items)[-n:] if n else []


APP = "characters continue the current text node, or start one at the current position"
BRK = "a pending line break comes before the characters, in a node of their own, and is consumed"
REP = "a pending repositioning comes before the characters, in a node of their own, and is consumed"
REST = "what was in the buffer stays as it was"


@contract("C05", "InstructionNodeCreator.add_chars",
          targets=[Q + "InstructionNodeCreator.add_chars", Q + "_InstructionNode.add_chars",
                   Q + "_InstructionNode.create_break", Q + "_InstructionNode.create_text",
                   Q + "_InstructionNode.create_repositioning_command"],
          expects=[APP, BRK, REP, REST])
def _(h):
    ps, brk, rep, last, t = tracker(h, h.pick("positions so far", ["one", "several"]))
    kind = h.pick("buffer ends with", ["nothing", "text", "break", "on", "off"])
    node, items, b = buffer(h, kind, t)
    n0 = len(items.items) if h.symbolic else len(items)
    old = h.attr(node, "text") if kind == "text" else None
    c1, c2 = h.word("first character", L.rep(L.ANY, 1, 1)), h.word("second character", L.rep(L.ANY, 0, 1))
    h.meth(b, "add_chars", c1, c2)
    now = items.items if h.symbolic else items
    added = [x for x in now[n0:] if not (h.attr(x, "_type") == 0 and h.attr(x, "text") is None)]   # empty nodes: skipped later
    at = lambda x: Y.and_(h.truth(h.eq(h.attr(x, "position")[0], ps[0][0])), h.truth(h.eq(h.attr(x, "position")[1], ps[0][1])))
    says = lambda x, s: h.truth(h.eq(h.attr(x, "text"), s))
    if h.symbolic:
        h.ctx.decide(REST, now[:n0] is not None and (node is None or now[n0 - 1] is node), backend="structural")
    if brk or rep:
        ok = len(added) == 2 and h.attr(added[0], "_type") == (1 if brk else 4) and h.attr(added[1], "_type") == 0
        h.prove(BRK if brk else REP,
                Y.and_(ok, Y.and_(says(added[1], h.text(c1, c2)), at(added[1]), at(added[0])) if ok else False,
                       h.truth(h.eq(h.meth(t, "is_linebreak_required"), False)),
                       h.truth(h.eq(h.meth(t, "is_repositioning_required"), False))))
        if kind == "text":
            h.prove(REST, says(node, old))
    elif kind == "text":
        h.prove(APP, Y.and_(not added, says(node, h.text(old, c1, c2))))
    else:
        ok = len(added) == 1 and h.attr(added[0], "_type") == 0
        h.prove(APP, Y.and_(ok, Y.and_(says(added[0], h.text(c1, c2)), at(added[0])) if ok else False))


STAND = "an extended character replaces the stand-in before it, and backspace the character before it"
NONE = "with no character before it nothing is removed"


@contract("C05", "InstructionNodeCreator.handle_backspace",
          targets=[Q + "InstructionNodeCreator.handle_backspace", Q + "InstructionNodeCreator.get_previous_text_node"],
          expects=[STAND, NONE])
def _(h):
    word = h.pick("code", ["94a1"] + sorted(cea608.EXTENDED)[:3] + sorted(cea608.EXTENDED)[-3:])
    kind = h.pick("buffer", ["nothing", "style only", "text", "text, then a style", "text, then an empty node"])
    ch = h.pick("last character", sorted(set(cea608.STD.values()) - set(cea608.EXTENDED.values())))
    old = h.word("text so far", L.TOP)
    node = h.obj(_InstructionNode, text=h.text(old, ch), position=(1, 0), _type=0)
    style = h.obj(_InstructionNode, text=None, position=(1, 0), _type=2)
    empty = h.obj(_InstructionNode, text=None, position=(1, 0), _type=0)
    nodes = {"nothing": [], "style only": [style], "text": [node], "text, then a style": [node, style],
             "text, then an empty node": [node, empty]}[kind]
    b = h.obj(SC.InstructionNodeCreator, _collection=PyList(nodes) if h.symbolic else list(nodes), last_style=None,
              _position_tracer=None)
    h.meth(b, "handle_backspace", word)
    if node in nodes:
        h.prove_eq(STAND, h.attr(node, "text"), old)
    else:
        h.prove(NONE, h.attr(style, "text") is None)
