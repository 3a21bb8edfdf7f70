"""Known findings: the file, and the inputs that are too long to write out there."""
import os
import re

import corpora
import enc

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt')


def nest(n):
    return corpora.nested(n)


def hugenulls():
    return enc.header() + enc.arr_obj(1, 2**31 - 1) + enc.nulls(2**31 - 1) + enc.end()


def load(prop):
    """[(key, bytes, expected outcome, what)] of a property."""
    out = []
    for line in open(PATH):
        m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) input=(\S+) outcome=(\S+) (.*)', line)
        if m and m.group(1) == prop:
            g = re.match(r'(\w+)\((\d*)\)$', m.group(3))
            if g:
                b = dict(nest=nest, hugenulls=hugenulls)[g.group(1)](*([int(g.group(2))] if g.group(2) else []))
            else:
                b = bytes.fromhex(m.group(3))
            out.append((m.group(2), b, m.group(4), m.group(5)))
    return out
