"""Independent parsers of the five text formats' grammars (no pycaption code).

Every parser returns cues: dict(start, end (integer microseconds as Fraction-free ints or frame numbers), lines: [[(char, styles)...]...]).
A document outside the grammar raises Malformed."""
import html
import re
from html.parser import HTMLParser

from lxml import etree


class Malformed(Exception):
    pass


def text_of(cue):
    return ["".join(c for c, _ in l) for l in cue["lines"]]


def styled(lines):
    """lists of (char, frozenset) per line"""
    return lines


# ------------------------------------------------------------------------------------------------ SRT

SRT_T = re.compile(r"(\d{2,}):([0-5]\d):([0-5]\d),(\d{3})\Z", re.A)


def _clock(m):
    return ((int(m[1]) * 60 + int(m[2])) * 60 + int(m[3])) * 1000000 + int(m[4]) * 1000


def srt(doc, merged_index=True):
    """Blocks separated by blank lines; a block is index, timing line, one or more text lines."""
    cues, lines, i, n = [], re.split(r"\r\n|\n|\r", doc), 0, 1
    while i < len(lines):
        if lines[i].strip() == "":
            i += 1
            continue
        block = []
        while i < len(lines) and lines[i].strip() != "":
            block.append(lines[i])
            i += 1
        if not re.fullmatch(r"[0-9]+", block[0]) or int(block[0]) != n:
            raise Malformed("block %d does not start with its index: %r" % (n, block[0]))
        if len(block) < 2:
            raise Malformed("no timing line")
        m = re.fullmatch(r"(\S+) --> (\S+)", block[1])
        if not m:
            raise Malformed("timing line %r" % block[1])
        s, e = SRT_T.match(m[1]), SRT_T.match(m[2])
        if not s or not e:
            raise Malformed("timing line %r" % block[1])
        if len(block) < 3:
            raise Malformed("cue %d has no text" % n)
        cues.append({"start": _clock(s), "end": _clock(e), "lines": [[(c, frozenset()) for c in l] for l in block[2:]]})
        n += 1
    return cues


# ------------------------------------------------------------------------------------------------ MicroDVD

def microdvd(doc):
    out, head = [], False
    for l in doc.split("\n"):
        if l == "":
            continue
        m = re.match(r"\{([0-9]+)\}\{([0-9]+)\}", l)
        if not m:
            raise Malformed("line %r" % l)
        if not out and (m[1], m[2]) == ("0", "0") and not head:
            head = True                                       # the first {0}{0} line declares the frame rate
            if not re.fullmatch(r"25(\.0*)?", l[m.end():]):
                raise Malformed("frame rate %r" % l)
            continue
        out.append({"start": int(m[1]), "end": int(m[2]), "lines": [[(c, frozenset()) for c in x] for x in l[m.end():].split("|")]})
    return out


# ------------------------------------------------------------------------------------------------ WebVTT

VTT_T = re.compile(r"(?:(\d{2,}):)?([0-5]\d):([0-5]\d)\.(\d{3})\Z", re.A)


def vtt_time(s):
    m = VTT_T.match(s)
    if not m:
        raise Malformed("timestamp %r" % s)
    return ((int(m[1] or 0) * 60 + int(m[2])) * 60 + int(m[3])) * 1000000 + int(m[4]) * 1000


def vtt_text(s):
    """Cue text -> (lines of (char, styles), balanced?).  The WebVTT cue text tokenizer: tags are dropped, known tags tracked."""
    lines, cur, stack, bad, i = [], [], [], [], 0
    known = {"c", "i", "b", "u", "v", "lang", "ruby", "rt"}

    def put(t):
        nonlocal cur
        st = frozenset(x for x in stack if x in ("i", "b", "u"))
        for ch in t:
            if ch == "\n":
                lines.append(cur)
                cur = []
            else:
                cur.append((ch, st))
    while i < len(s):
        if s[i] == "&":
            m = re.compile(r"&(#[0-9]+|#[xX][0-9a-fA-F]+|[A-Za-z][A-Za-z0-9]*);?").match(s, i)
            if m:
                d = html.unescape(m.group(0))
                put(d)
                i = m.end()
                continue
            put("&")
            i += 1
        elif s[i] == "<":
            j = s.find(">", i)
            tag = s[i + 1:] if j < 0 else s[i + 1:j]
            i = len(s) if j < 0 else j + 1
            if tag.startswith("/"):
                name = tag[1:].strip()
                if stack and stack[-1] == name:
                    stack.pop()
                else:
                    bad.append("</%s> with open %r" % (name, stack))
                    if name in stack:
                        while stack.pop() != name:
                            pass
            else:
                name = re.split(r"[.\s]", tag, maxsplit=1)[0]
                if name in known:
                    stack.append(name)
                elif not re.match(r"\d", name):
                    bad.append("unknown tag <%s>" % tag)
        else:
            put(s[i])
            i += 1
    lines.append(cur)
    if stack:
        bad.append("unclosed %r" % stack)
    return lines, bad


def webvtt(doc, strict=True):
    doc = doc.replace("\0", "\ufffd").replace("\r\n", "\n").replace("\r", "\n")
    lines = doc.split("\n")
    if not re.match(r"\ufeff?WEBVTT(?:[ \t].*)?\Z", lines[0]):
        raise Malformed("header")
    i, cues = 1, []
    while i < len(lines) and lines[i] != "":
        i += 1
    while i < len(lines):
        if lines[i] == "":
            i += 1
            continue
        block, arrow = [], None
        while i < len(lines) and lines[i] != "":
            if "-->" in lines[i]:
                if arrow is None and len(block) <= 1:
                    arrow = len(block)
                elif arrow is not None:
                    break                                     # a new cue starts here
            block.append(lines[i])
            i += 1
        if arrow is None:
            if strict:
                raise Malformed("stray block %r" % block)
            continue
        m = re.fullmatch(r"\s*(\S+?)\s+-->\s+(\S+)((?:[ \t].*)?)", block[arrow])
        if not m:
            raise Malformed("timing line %r" % block[arrow])
        body = block[arrow + 1:]
        ls, bad = vtt_text("\n".join(body))
        sets = m[3].split()
        for s in sets:
            if strict and not re.fullmatch(r"(vertical|line|position|size|align|region):\S+", s):
                raise Malformed("cue setting %r" % s)
        cues.append({"start": vtt_time(m[1]), "end": vtt_time(m[2]), "settings": dict(x.split(":", 1) for x in sets if ":" in x), "raw": m[3].strip(),
                     "lines": ls if body else [], "bad": bad})
    return cues


# ------------------------------------------------------------------------------------------------ DFXP / TTML

TT = "http://www.w3.org/ns/ttml"
TTS = "{http://www.w3.org/ns/ttml#styling}"
XML = "{http://www.w3.org/XML/1998/namespace}"
DFXP_T = re.compile(r"(\d{2,}):([0-5]\d):([0-5]\d)\.(\d{3})\Z", re.A)


def dfxp(doc):
    """-> dict(langs=[(lang, cues)], styles, regions, tree); strict XML parse."""
    try:
        root = etree.fromstring(doc.encode("utf-8"), etree.XMLParser(recover=False, resolve_entities=False, load_dtd=False, no_network=True))
    except etree.XMLSyntaxError as e:
        raise Malformed("XML: %s" % e)
    except UnicodeEncodeError as e:
        raise Malformed("encoding: %s" % e)
    q = "{%s}" % TT
    if root.tag != q + "tt":
        raise Malformed("root %s" % root.tag)
    head, body = root.find(q + "head"), root.find(q + "body")
    if body is None:
        raise Malformed("no body")
    styles, regions = {}, {}
    defs = []
    for s in root.iter(q + "style"):
        defs.append(("style", s.get(XML + "id"), s))
    for r in root.iter(q + "region"):
        defs.append(("region", r.get(XML + "id"), r))
    out = []
    for ch in body:
        if ch.tag != q + "div":
            raise Malformed("body child %s" % ch.tag)
        cues = []
        for p in ch:
            if p.tag != q + "p":
                raise Malformed("div child %s" % p.tag)
            b, e = p.get("begin"), p.get("end")
            if b is None or e is None:
                raise Malformed("p without begin/end")
            mb, me = DFXP_T.match(b), DFXP_T.match(e)
            if not mb or not me:
                raise Malformed("time %r %r" % (b, e))
            lines, cur = [], []

            def walk(el, st):
                nonlocal cur
                cur += [(c, st) for c in (el.text or "")]
                for k in el:
                    if k.tag == q + "br":
                        lines.append(cur)
                        cur = []
                        if (k.text or "").strip() or len(k):
                            raise Malformed("br with content")
                    elif k.tag == q + "span":
                        s2 = set(st)
                        if k.get(TTS + "fontStyle") == "italic":
                            s2.add("i")
                        if k.get(TTS + "fontWeight") == "bold":
                            s2.add("b")
                        if "underline" in (k.get(TTS + "textDecoration") or "").split():
                            s2.add("u")
                        walk(k, frozenset(s2))
                    else:
                        raise Malformed("unexpected element %s in p" % k.tag)
                    cur += [(c, st) for c in (k.tail or "")]
            walk(p, frozenset(["i"]) if p.get(TTS + "fontStyle") == "italic" else frozenset())
            lines.append(cur)
            cues.append({"start": _clock(mb), "end": _clock(me), "lines": lines, "el": p})
        if any((x.tail or "").strip() for x in ch) or (ch.text or "").strip():
            raise Malformed("text between paragraphs")
        out.append((ch.get(XML + "lang"), cues))
    return {"langs": out, "defs": defs, "root": root, "head": head, "body": body}


# ------------------------------------------------------------------------------------------------ SAMI

class _Sami(HTMLParser):
    def __init__(self):
        HTMLParser.__init__(self, convert_charrefs=True)
        self.syncs, self.cur, self.p, self.stack, self.css, self.in_style = [], None, None, [], "", False
        self.bad = []

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == "style":
            self.in_style = True
        elif tag == "sync":
            self.p = None
            if self.stack:
                self.bad.append("unclosed %r" % self.stack)
                self.stack = []
            s = a.get("start") or ""
            if not re.fullmatch(r"[0-9]+", s):
                raise Malformed("sync start %r" % s)
            self.cur = {"start": int(s), "ps": []}
            self.syncs.append(self.cur)
        elif tag == "p":
            if self.cur is None:
                raise Malformed("p outside sync")
            if self.stack:
                self.bad.append("unclosed %r" % self.stack)
                self.stack = []
            self.p = {"class": a.get("class"), "attrs": a, "lines": [[]]}
            self.cur["ps"].append(self.p)
        elif tag == "br":
            if self.p is not None:
                self.p["lines"].append([])
        elif tag in ("span", "i", "b", "u"):
            st = set()
            css = {}
            for d in (a.get("style") or "").split(";"):
                if ":" in d:
                    k, v = d.split(":", 1)
                    css[k.strip().lower()] = v.strip().lower()
            if tag == "i" or css.get("font-style") == "italic":
                st.add("i")
            if tag == "b" or css.get("font-weight") == "bold":
                st.add("b")
            if tag == "u" or css.get("text-decoration") == "underline":
                st.add("u")
            self.stack.append((tag, st))
        elif tag in ("sami", "head", "body"):
            pass
        elif self.p is not None:
            raise Malformed("unexpected <%s> in a paragraph" % tag)

    def handle_endtag(self, tag):
        if tag == "style":
            self.in_style = False
        elif tag == "sync":
            self.cur = self.p = None
        elif tag == "p":
            if self.stack:
                self.bad.append("unclosed %r" % [t for t, _ in self.stack])
            self.stack = []
            self.p = None
        elif tag in ("span", "i", "b", "u"):
            if self.stack and self.stack[-1][0] == tag:
                self.stack.pop()
            else:
                self.bad.append("</%s> without start" % tag)

    def handle_data(self, d):
        if self.in_style:
            self.css += d
        elif self.p is not None:
            st = frozenset().union(*[s for _, s in self.stack])
            self.p["lines"][-1] += [(c, st) for c in d]
        elif d.strip() and self.cur is not None:
            raise Malformed("text outside a paragraph: %r" % d[:60])

    def handle_comment(self, d):
        if self.in_style:
            self.css += d
        elif self.p is not None:
            raise Malformed("comment inside a paragraph: %r" % d[:60])

    def handle_decl(self, d):
        if self.p is not None:
            raise Malformed("declaration inside a paragraph: %r" % d[:60])

    def handle_pi(self, d):
        if self.p is not None:
            raise Malformed("processing instruction inside a paragraph: %r" % d[:60])

    unknown_decl = handle_decl


def sami(doc):
    """-> dict(syncs=[{start, ps:[{class, lines}]}], css={class: {prop: value}})"""
    p = _Sami()
    p.feed(doc)
    p.close()
    css = {}
    for m in re.finditer(r"([.#]?[^{}]+?)\s*\{([^}]*)\}", re.sub(r"<!--|-->", "", p.css)):
        sel = m[1].strip().lstrip(".#")
        css.setdefault(sel, {}).update({k.strip().lower(): v.strip() for k, v in (d.split(":", 1) for d in m[2].split(";") if ":" in d)})
    return {"syncs": p.syncs, "css": css, "bad": p.bad}


def sami_lang(parsed, p):
    c = p["class"]
    css = parsed["css"]
    for k in css:
        if c is not None and k.lower() == c.lower() and "lang" in css[k]:
            return css[k]["lang"]
    return p["attrs"].get("lang") or c


def blank(lines):
    return not "".join(c for l in lines for c, _ in l).replace("\u00a0", " ").strip()


# ------------------------------------------------------------------------------------------------ comparison helpers

def norm(l):
    """trim and collapse whitespace"""
    return " ".join("".join(l).split())


def visible(lines):
    """per-line text up to surrounding whitespace, empty lines dropped"""
    out = []
    for l in lines:
        t = "".join(c for c, _ in l) if l and not isinstance(l, str) else (l or "")
        t = t.strip()
        if t:
            out.append(t)
    return out
