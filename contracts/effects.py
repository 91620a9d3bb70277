"""Frame, state, module-data and order conditions of write() and read(), discharged by pyvc/effects.py (C09, C10).

  FRAME   modifies clause of write: nothing reachable from the caption set it was given is assigned, on any path (so also
          when it raises), in any function reachable from it
  STATE   every attribute of the writer or reader that a call may change is assigned by this call before it reads it: the
          outcome does not depend on what the object did before
  MODULE  no module-level or class-level object and no default argument is changed, stored where a later call or a returned
          caption set reaches it, or returned
  ORDER   nothing is iterated in the order of hashes, and no source of randomness or time is used
The analysis is conservative: what it cannot follow is undecided, never refuted; what fails on a path it followed is
reported without an input (the bounded stage looks for one)."""
import pycaption
from pycaption.dfxp import extras
from pyvc import effects as F
from pyvc.sym import Unsupported
from pyvc.runner import contract

from . import probe

WRITERS = [pycaption.SRTWriter, pycaption.WebVTTWriter, pycaption.DFXPWriter, extras.SinglePositioningDFXPWriter,
           extras.LegacyDFXPWriter, pycaption.SAMIWriter, pycaption.MicroDVDWriter, pycaption.SCCWriter]
READERS = [pycaption.SRTReader, pycaption.WebVTTReader, pycaption.DFXPReader, pycaption.SAMIReader, pycaption.MicroDVDReader,
           pycaption.SCCReader]
_P = []


def package():
    if not _P:
        _P.append(F.Package())
    return _P[0]


def settle(h, name, f):
    try:
        why = f()
    except F.Broken as e:
        h.settle(name, False, str(e)[:600])
    else:
        h.settle(name, why is None, why)


def method(p, cls, name):
    fn = p.mro_method(cls, name)
    if fn is None:
        raise Unsupported("%s.%s is not in the package" % (cls.__name__, name))
    ps = [a.arg for a in fn.node.args.args]
    if len(ps) < 2 or fn.kind != "method":
        raise Unsupported("%s.%s has no parameter" % (cls.__name__, name))
    return fn, ps[1]


def dunders(p):
    """what the language may call at any time"""
    return [(f, {}) for f in p.fns if f.node.name.startswith("__") and f.node.name.endswith("__")]


def origins(p, cls, name, taint):
    fn, first = method(p, cls, name)
    o = F.Origins(p, cls)
    result = o.run([(fn, {first: frozenset(taint)})] + dunders(p))[0]
    if name in ("read", "write"):
        probe.check(cls, name, {(f.module.__file__, f.qual) for f in o.visited})
    return o, result


def base_attributes(p):
    import ast
    names = set()
    for f in p.fns:
        if f.cls is not None and f.cls.__module__ == "pycaption.base" and not issubclass(f.cls, (pycaption.base.BaseReader, pycaption.base.BaseWriter)):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    names.add(n.attr)
    return names


def module_data(p, cls, name):
    o, result = origins(p, cls, name, ())
    if o.shared(result):
        return "%s.%s returns module data: %s" % (cls.__name__, name, sorted(k[1] for k in result if k[0] in ("GLOB", "GLOB1")))
    held = {a for a, t in o.heap.items() if o.shared(t)} & base_attributes(p)
    if held:
        raise Unsupported("module data may be stored in a caption set: attributes %s" % sorted(held))
    return None


def state(p, cls, name):
    exposed = F.Fields(p, cls, F.volatile(p, cls, cls)).check(name)
    if exposed:
        return "read before this call assigns it: " + "; ".join("self.%s (%s)" % kv for kv in sorted(exposed.items()))
    return None


def frame(p, cls):
    origins(p, cls, "write", {F.IN})
    return None


def lemmas(h):
    p = package()
    settle(h, "COPY", lambda: F.no_copy_hooks(p))
    settle(h, "GEOMETRY", lambda: F.geometry_immutable(p) and None)


def register(prop):
    def one(cls, name, frames):
        where = "%s.%s" % (cls.__module__.replace(".", "/").replace("pycaption/dfxp/base", "pycaption/dfxp/base"), cls.__name__)
        names = (["FRAME"] if frames else []) + ["STATE", "MODULE and ORDER"]

        @contract(prop, "%s.%s: %s" % (cls.__name__, name, ", ".join(names)), targets=["%s.%s and all it reaches" % (where, name)], expects=names)
        def _(h):
            if not hasattr(h, "it") or not hasattr(h.ctx, "obligations"):
                h.settle("", False)
            p = package()
            if frames:
                settle(h, "FRAME", lambda: frame(p, cls))
            settle(h, "STATE", lambda: state(p, cls, name))
            settle(h, "MODULE and ORDER", lambda: module_data(p, cls, name))
    for cls in WRITERS:
        one(cls, "write", prop == "C09")
    if prop == "C10":
        for cls in READERS:
            one(cls, "read", False)

    @contract(prop, "caption sets are copied by the default protocol; geometry objects never change", expects=["COPY", "GEOMETRY"],
              targets=["pycaption/geometry.py and every assignment in the package"])
    def _(h):
        if not hasattr(h.ctx, "obligations"):
            h.settle("", False)
        lemmas(h)
