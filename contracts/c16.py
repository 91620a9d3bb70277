"""C16 Roll-up and paint-on SCC text is conserved and ordered."""
from pycaption.scc import SCCReader, _SccTimeTranslator
from pycaption.scc.specialized_collections import (CaptionCreator, InstructionNodeCreator, PreCaption, _InstructionNode)

from pyvc import lang as L
from pyvc import sym as Y
from pyvc.runner import contract
from pyvc.sym import PyList

TEXT = L.rx("[!-~]+")
D2 = L.rx("[0-9][0-9]")
ONCE = "every text transmitted is returned exactly once, in transmission order, one row together"
ORDER = "each caption starts no earlier than the one before it and ends exactly when the next begins"


def at_time(h, r, k):
    t = h.obj(_SccTimeTranslator, _time=h.text(h.word("time %d" % k, D2), ":00:00;00"), _frames=h.int("words before %d" % k, 0),
              offset=0)
    h.setattr(r, "time_translator", t)
    return h.meth(t, "get_time")


def put(h, r, key, text):
    node = h.obj(_InstructionNode, text=text, position=(15, 0), _type=0)
    xs = h.attr(h.meth(h.attr(r, "buffer_dict"), "__getitem__", key), "_collection")
    (xs.items if h.symbolic else xs).append(node)


def stored(h, r):
    xs = h.attr(h.attr(r, "caption_stash"), "_collection")
    return list(xs.data.items) if h.symbolic else list(xs)


def check(h, r, texts, starts, closed):
    cs = stored(h, r)
    h.prove(ONCE, len(cs) == len(texts))
    if len(cs) != len(texts):
        return
    for c, t, s in zip(cs, texts, starts):
        n = h.attr(c, "nodes")
        n = n.items if h.symbolic else n
        h.prove(ONCE, len(n) == 1 and h.truth(h.eq(h.attr(n[0], "content"), t)))
        h.prove(ORDER, h.truth(h.eq(h.attr(c, "start"), s)))
    for c, d in zip(cs, cs[1:]):
        h.prove(ORDER, h.truth(h.eq(h.attr(c, "end"), h.attr(d, "start"))))
    if closed is not None:
        h.prove(ORDER, h.truth(h.eq(h.attr(cs[-1], "end"), closed)))


@contract("C16", "SCCReader: roll-up rows", targets=["pycaption.scc.SCCReader._translate_command", "pycaption.scc.SCCReader._roll_up",
          "pycaption.scc.specialized_collections.CaptionCreator.correct_last_timing",
          "pycaption.scc.SCCReader._flush_implicit_buffers"], expects=[ONCE, ORDER])
def _(h):
    r = h.call(SCCReader)
    mode = h.pick("mode", ["9425", "9426", "94a7"])
    a, b, c = [h.word("row %d" % k, TEXT) for k in range(3)]
    last = h.pick("end of file", ["after a carriage return", "with a row still in the buffer"])
    t0 = at_time(h, r, 0)
    h.meth(r, "_translate_command", mode)
    put(h, r, "roll", a)
    t1 = at_time(h, r, 1)
    h.assume(t1 > t0 + 200000)
    h.meth(r, "_translate_command", "94ad")
    put(h, r, "roll", b)
    t2 = at_time(h, r, 2)
    h.assume(t2 > t1 + 200000)
    h.meth(r, "_translate_command", "94ad")
    if last == "after a carriage return":
        h.meth(r, "_flush_implicit_buffers", "roll")
        check(h, r, [a, b], [t0, t1], t2)
    else:
        put(h, r, "roll", c)
        h.meth(r, "_flush_implicit_buffers", "roll")
        check(h, r, [a, b, c], [t0, t1, t2], None)


@contract("C16", "SCCReader: paint-on", targets=["pycaption.scc.SCCReader._translate_command",
          "pycaption.scc.SCCReader._extend_implicit_captions", "pycaption.scc.SCCReader._flush_implicit_buffers"],
          expects=[ONCE, ORDER])
def _(h):
    r = h.call(SCCReader)
    texts = [h.word("text %d" % k, TEXT) for k in range(3)]
    ts = []
    for k, t in enumerate(texts):
        now = at_time(h, r, k)
        if ts:
            h.assume(now > ts[-1] + 200000)
        ts.append(now)
        h.meth(r, "_translate_command", "9429")
        put(h, r, "paint", t)
    h.meth(r, "_flush_implicit_buffers", "paint")
    check(h, r, texts, ts, None)




@contract("C16", "SCCReader: switching modes", targets=["pycaption.scc.SCCReader._translate_command",
          "pycaption.scc.SCCReader._flush_implicit_buffers", "pycaption.scc.SCCReader._extend_implicit_captions"],
          expects=[ONCE, ORDER])
def _(h):
    r = h.call(SCCReader)
    x, y = h.pick("modes", [("9425", "9429"), ("9429", "9425"), ("9426", "9425"), ("9429", "94a7")])
    key = {"9429": "paint"}
    a, b = h.word("first", TEXT), h.word("second", TEXT)
    t0 = at_time(h, r, 0)
    h.meth(r, "_translate_command", x)
    put(h, r, key.get(x, "roll"), a)
    t1 = at_time(h, r, 1)
    h.assume(t1 > t0 + 200000)
    h.meth(r, "_translate_command", y)
    put(h, r, key.get(y, "roll"), b)
    h.meth(r, "_flush_implicit_buffers", key.get(y, "roll"))
    check(h, r, [a, b], [t0, t1], None)
