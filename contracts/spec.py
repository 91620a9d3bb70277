"""Specification functions: short, plain Python, executed symbolically next to the code and natively on replay.

They are the oracle of the time contracts (what instant a printed stamp denotes) and are followed by the
verifier exactly like repository code.
"""
import re
from fractions import Fraction


def clock(s, sep):
    """'h..h:mm:ss<sep>fff' (hours optional) -> (hours, minutes, seconds, milliseconds)"""
    a = s.split(':')
    if len(a) == 2:
        a = ['0'] + a
    h, m, rest = a
    sec, f = rest.split(sep)
    return int(h), int(m), int(sec), int(f)


def clock_us(c):
    return (((c[0] * 60 + c[1]) * 60 + c[2]) * 1000 + c[3]) * 1000


def clock_fields(c):
    return 0 <= c[1] < 60 and 0 <= c[2] < 60 and 0 <= c[3] < 1000 and c[0] >= 0


def cue_settings(s):
    """' align:x position:y ...' -> {name: text}"""
    out = {}
    for part in s.split(' '):
        if part:
            name, value = part.split(':')
            out[name] = value
    return out


ILLEGAL = re.compile('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')


def legal(s):
    """without the characters XML 1.0 does not allow"""
    return ILLEGAL.sub('', s)


def xml_decode(s):
    """Character data of text in which every '&' starts one of the references below (checked separately)."""
    for ref, c in (('&lt;', '<'), ('&gt;', '>'), ('&quot;', '"'), ('&apos;', "'"), ('&#9;', '\t'), ('&#10;', '\n'),
                   ('&#13;', '\r')):
        s = s.replace(ref, c)
    return s.replace('&amp;', '&')


def colon_fields(s):
    """the numbers of hh:mm:ss:ff"""
    return [int(x) for x in s.split(":")]


def blocks(s, blank):
    """the runs of lines between empty lines (blank: or lines of blanks)"""
    out, cur = [], []
    for line in s.split('\n'):
        if (line.strip() if blank else line) == '':
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(line)
    if cur:
        out.append(cur)
    return out


def pair(line):
    """'a --> b settings' -> [a, b]"""
    a, b = line.split(' --> ')
    return [a, b.split(' ')[0]]


def pipes(line):
    """'{a}{b}x|y' -> [a, b, [x, y]]"""
    a, b, text = re.match('{([0-9]+)}{([0-9]+)}(.*)$', line).groups()
    return [a, b, text.split('|')]


def fraction(s):
    return Fraction(s)
