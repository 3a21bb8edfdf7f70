"""Random messages: mostly well-formed ones in the order nrbf reads them, and mutants of those.

Only an input generator: what an input means is decided by the TLA+ specification.
"""
import struct

import enc
from enc import PRIM

FIXED = {1: 1, 2: 1, 10: 1, 7: 2, 14: 2, 8: 4, 11: 4, 15: 4, 6: 8, 9: 8, 12: 8, 13: 8, 16: 8}
UNTYPED = (1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16)

CHARS = ['a', '\0', '\x7f', '\x0a', '\x0b', '\x0c', '\u0080', '\u00e9', '\u07ff', '\u0800', '\u20ac', '\ud7ff', '\ue000', '\uffff', '\ufeff',
         '\U00010000', '\U0001f600', '\U0010ffff']
DECIMALS = ['0', '1', '-1', '10', '12', '120', '-7', '0.5', '-0.25', '1.10', '1.5', '3.14159', '100', '1000000', '12345678901234567890',
            '79228162514264337593543', '-79228162514264337593543950', '0.0000000001', '0.00', '-12.30', '9999999999999999999999999999',
            '1234567890.123456789']
BAD_DECIMALS = ['', ' ', 'a', '1 ', ' 1', '1,0', '-', '.', '1.2.3', '--', '0x1', '1/2', 'e', '\u0661', '1\0']
INTERESTING = [0, 1, 2, 9, 10, 11, 12, 13, 14, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53, 2**62, 2**62 - 1,
               2**63 - 1, 2**63, 2**64 - 1, 3 << 62, 0x7ff0000000000000, 0x7ff8000000000000, 0x7ff0000000000001, 0xfff8000000000001, 0x8000000000000000,
               0x3ff0000000000000, 0x7f800000, 0x7fc00000, 0x7f800001, 0xffc00001, 0x80000000, 0x3f800000, 0x0102030405060708, 0x2bca2875f4373fff,
               0x0807060504030201, 0xfffefdfcfbfaf9f8]

NAMES = ['A', 'B', 'a', 'b', 'c', 'm_value', '_items', '_size', '_version', 'name', 'N.C', 'x', '', 'System.Int32', 'System.Object', 'n\u00e4me',
         'A`1', 'N.C`1[[System.String, mscorlib]]', 'k' * 127, 'k' * 128, '\u20ac' * 40, '\U0001f600', '\ufeffq', 'inner', 'z', 'n',
         'System.Int', 'system.int32', 'a ', ' a', 'a\0', 'AB', 'Aa', '<a>k__BackingField', 'Base+a', 'e\u0301', 'm' * 64]
LIBS = ['L', 'M', 'mscorlib', 'lib, Version=1.0.0.0', '', '\u00fc', 'l' * 130, 'l', 'L ', 'LM', 'lib', 'lib, Version=1.0.0.1', 'L\0']
TEXTS = ['', 'x', 'hello', 'ab', 'h\u00e9', '\u20ac', '\U0001f600', '\0', '\x0b', 'a\0b', '\ufeff', 'q' * 95, 'q' * 96, 'q' * 97, 'q' * 126, 'q' * 127, 'q' * 128, 'q' * 129,
         'q' * 255, 'q' * 256, 'r' * 300, '12', '\r\n', '\u0416' * 64, 'z' * 1000, '12345678\0', '\0' * 9, ' lead', 'trail ', 'tab\t', 'line\n', 'HELLO', 'e\u0301', '\u00e9',
         '\ufeffwith a mark', '"quoted"\\', 'hello\0\0', 'a`1', '\ufffd', 'x' * 64 + '\u20ac', '\U0010ffff\U00010000']


def prim(rng, pt, bad=False):
    """A payload of an untyped primitive."""
    if pt == 1:
        return bytes([rng.choice([0, 1])]) if not bad else bytes([rng.choice([2, 255, 128])])
    if pt == 3:
        if bad:
            return rng.choice([b'\x80', b'\xc0\x80', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xff', b'\xe2\x82', b'\xc3'])
        return rng.choice(CHARS).encode()
    if pt == 5:
        return enc.lps(rng.choice(BAD_DECIMALS if bad else DECIMALS)) if rng.random() < 0.8 or bad else enc.lps(
            ('-' if rng.random() < .3 else '') + str(rng.randrange(1, 10**rng.randrange(1, 12))) + ('.' + str(rng.randrange(1, 10**6)) if rng.random() < .5 else ''))
    w = FIXED[pt]
    x = rng.random()
    if x < 0.55:
        return (rng.choice(INTERESTING) & ((1 << (8 * w)) - 1)).to_bytes(w, 'little')
    if x < 0.65:
        return (-rng.choice([1, 2, 128, 129, 32768, 2**31, 2**63, 10**9]) & ((1 << (8 * w)) - 1)).to_bytes(w, 'little')
    if x < 0.75 and pt == 13:
        k = rng.choice([0, 0x40, 0x80])
        b = bytearray(rng.randbytes(8))
        b[7] = b[7] & 0x3f | k
        return bytes(b)
    return rng.randbytes(w)


def value_with_code(rng, nulls=True):
    pt = rng.choice(UNTYPED + ((17, 18, 18) if nulls else ()))
    if pt == 17:
        return b'\x11'
    if pt == 18:
        return b'\x12' + enc.lps(rng.choice(TEXTS))
    return bytes([pt]) + prim(rng, pt)


class Gen:
    """One message. opts: depth, size, ids ('seq', 'shuf', 'sparse'), refs, fwd, libs, kinds of members, names."""

    def __init__(self, rng, depth=3, size=40, members=4, ids=None, p_ref=0.5, p_fwd=0.6, p_inline=0.35, p_lib=0.5, p_meta=0.4,
                 types=None, names=None, texts=None, p_odd=0.0, arrays=True, maxlen=5, p_obj=None):
        self.rng = rng
        self.depth = depth
        self.size = size
        self.maxmembers = members
        self.p_ref, self.p_fwd, self.p_inline, self.p_lib, self.p_meta = p_ref, p_fwd, p_inline, p_lib, p_meta
        self.types = types
        self.names = names or (NAMES if rng.random() < .5 else ['A', 'B', 'a', 'b', 'c', 'm', 'n', 'o', 'p'])
        self.texts = texts or TEXTS
        self.p_odd = p_odd
        self.arrays = arrays
        self.maxlen = maxlen
        strat = ids or rng.choice(['seq', 'seq', 'shuf', 'sparse'])
        if strat == 'seq':
            self.pool = list(range(1, 400))
        elif strat == 'shuf':
            self.pool = list(range(1, 400))
            rng.shuffle(self.pool)
        else:
            self.pool = [2**31 - 1, 2**31 - 2, 65536, 256, 65535, 255, 16777216] + rng.sample(range(1, 2**31 - 3), 300)
            self.pool = list(dict.fromkeys(self.pool))
            rng.shuffle(self.pool)
        self.toks = []
        self.classes = {}      # id -> (sys, name, names, types, lib id)
        self.libs = {}         # id -> name
        self.strings = []      # ids of strings
        self.objects = {}      # id -> kind, available for one reference
        self.lasttok = None

    # -- small helpers
    def new_id(self):
        return self.pool.pop(0)

    def put(self, b, kind):
        self.toks.append((kind, b))

    def room(self):
        return len(self.toks) < self.size

    def text(self):
        return self.rng.choice(self.texts)

    def name(self):
        return self.rng.choice(self.names)

    def lib_here(self, force=False):
        """A library record in front of the next record (at most one)."""
        if self.toks and self.toks[-1][0] == 'lib':
            return None
        lid = self.rng.choice([1, 2, 3, 4, 5, 6, 7, 100, 2**31 - 1])
        if lid in self.libs:
            return None
        n = self.rng.choice(LIBS)
        self.libs[lid] = n
        self.put(enc.library(lid, n), 'lib')
        return lid

    def some_lib(self):
        if self.libs and (self.rng.random() < .8 or (self.toks and self.toks[-1][0] == 'lib')):
            return self.rng.choice(list(self.libs))
        lid = self.lib_here()
        return lid if lid is not None else (self.rng.choice(list(self.libs)) if self.libs else None)

    def rtype(self, elem=False):
        r = self.rng
        if self.types:
            t = r.choice(self.types)
        else:
            t = r.choice([0, 0, 0, 1, 1, 2, 2, 2, 3, 4, 5, 6, 7])
        if t in (0, 7):
            return (t, r.choice(UNTYPED))
        if t == 3:
            return (3, r.choice(['S', 'T', 'System.Int32', 'SS', 's', 'S[]', 'System.Int']))
        if t == 4:
            if not self.libs:
                return (2,)
            return (4, r.choice(['C', 'D', 'c', 'CC', 'S', 'C+D']), r.choice(list(self.libs)))
        return (t,)

    # -- classes
    def class_tokens(self, oid, want=None):
        """A class record for object `oid`; want = (sys, name, lib id or None). Returns its metadata."""
        r = self.rng
        if r.random() < self.p_meta and self.classes:
            c = [m for m, d in self.classes.items() if m != oid and (want is None or (d[0] == want[0] and d[1] == want[1] and (d[0] or self.libs[d[4]] == self.libs[want[2]])))]
            if c:
                m = r.choice(c)
                self.put(enc.class_with_id(oid, m), 'cwid')
                self.classes[oid] = self.classes[m]
                return self.classes[m]
        n = r.randrange(0, self.maxmembers + 1)
        names = []
        while len(names) < n:
            x = self.name()
            if x in names:
                x = x + str(len(names))
            names.append(x)
        if want:
            sysc, name, li = want
        else:
            sysc = not (r.random() < self.p_lib)
            name = self.name()
            li = None
        if not sysc and li is None:
            li = self.some_lib()
            if li is None:
                sysc = True
        typed = r.random() < .6
        if typed:
            types = [self.rtype() for _ in names]
        else:
            types = [(2,)] * n
        if sysc:
            b = enc.sys_class_t(oid, name, names, types) if typed else enc.sys_class(oid, name, names)
        else:
            b = enc.cls_t(oid, name, names, types, li) if typed else enc.cls(oid, name, names, li)
        self.put(b, 'class')
        self.classes[oid] = (sysc, name, names, types, li)
        return self.classes[oid]

    # -- values in a place; pend collects forward references, (id, kind of record wanted)
    def ref(self, pend, kinds, inl):
        """A reference to something available or, unless in an inline object, yet to come."""
        r = self.rng
        avail = []
        if 'string' in kinds:
            avail += self.strings[-6:]
        avail += [i for i, k in self.objects.items() if k in kinds and i != self.keep]
        waiting = [i for i, k in pend if k == 'string'] if 'string' in kinds else []
        if waiting and r.random() < .3:
            i = r.choice(waiting)
            self.put(enc.ref(i), 'ref')
            pend.append((i, 'again'))
            return True
        if avail and (inl or r.random() > self.p_fwd):
            i = r.choice(avail)
            self.objects.pop(i, None)
            self.put(enc.ref(i), 'ref')
            return True
        if inl and not r.random() < self.p_odd:
            return False
        i = self.new_id()
        k = r.choice(kinds)
        self.put(enc.ref(i), 'ref')
        pend.append((i, k))
        return True

    def inline_class(self, depth, want=None):
        oid = self.new_id()
        if self.rng.random() < .15:
            self.lib_here()
        d = self.class_tokens(oid, want)
        # The inline object's own references must be to what is there already.
        sub = []
        self.members(d[2], d[3], depth + 1, sub, True)
        for i, k in sub:
            if k != 'again':
                self.wait(i, k, depth + 1)

    def value(self, t, depth, pend, inl):
        r = self.rng
        b = t[0]
        deep = depth >= self.depth or not self.room()
        if b == 0:
            self.put(prim(r, t[1]), 'prim')
            return
        for _ in range(8):
            x = r.random()
            if b == 1:
                if x < .45:
                    i = self.new_id()
                    self.put(enc.string(i, self.text()), 'string')
                    self.strings.append(i)
                    return
                if x < .8 and self.ref(pend, ['string'], inl):
                    return
                if x >= .8:
                    self.put(enc.null(), 'null')
                    return
            elif b in (3, 4):
                want = (True, t[1], None) if b == 3 else (False, t[1], t[2])
                if x < .5 and not deep:
                    self.inline_class(depth, want)
                    return
                if .5 <= x < .8 and not deep and self.ref(pend, ['object'], inl):
                    return
                if x >= .8 or deep:
                    self.put(enc.null(), 'null')
                    return
            elif b in (5, 6, 7):
                if x < .7 and not deep and self.ref(pend, ['array%d%s' % (b, ':%d' % t[1] if b == 7 else '')], inl):
                    return
                if x >= .7 or deep:
                    self.put(enc.null(), 'null')
                    return
            else:
                if x < .25:
                    pt = r.choice(UNTYPED)
                    self.put(enc.prim_typed(pt, prim(r, pt)), 'ptyped')
                    return
                if x < .4:
                    i = self.new_id()
                    self.put(enc.string(i, self.text()), 'string')
                    self.strings.append(i)
                    return
                if x < .5:
                    self.put(enc.null(), 'null')
                    return
                if x < .7 and not deep:
                    if r.random() < self.p_inline * 2:
                        self.inline_class(depth)
                        return
                elif x < .95 and not deep and r.random() < self.p_ref * 1.6:
                    if self.ref(pend, ['string', 'object', 'array5', 'array6', 'array7:8', 'barray'], inl):
                        return
        self.put(enc.null() if b != 0 else prim(r, t[1]), 'null')

    def members(self, names, types, depth, pend, inl):
        for t in types:
            self.value(t, depth, pend, inl)

    def elements(self, t, n, depth, pend):
        r = self.rng
        if t[0] == 0:
            for _ in range(n):
                self.put(prim(r, t[1]), 'prim')
            return
        left = n
        while left > 0:
            if r.random() < .25:
                k = r.randrange(1, left + 1)
                if k == 1 and r.random() < .5:
                    self.put(enc.null(), 'null')
                elif r.random() < .5 and k < 256:
                    self.put(enc.nulls256(k), 'nulls')
                else:
                    self.put(enc.nulls(k), 'nulls')
                left -= k
            else:
                self.value(t, depth, pend, False)
                left -= 1

    def wait(self, i, kind, depth):
        """The record that a forward reference waits for, with what its own references wait for."""
        r = self.rng
        if kind == 'string':
            self.put(enc.string(i, self.text()), 'string')
            self.strings.append(i)
            return
        if r.random() < .1:
            self.lib_here()
        self.record(i, kind, depth + 1)

    def record(self, i, kind, depth):
        r = self.rng
        pend = []
        if kind == 'object':
            d = self.class_tokens(i)
            self.members(d[2], d[3], depth, pend, False)
        elif kind in ('array5', 'array6') or kind.startswith('array7'):
            n = r.choice([0, 1, 1, 2, 2, 3, self.maxlen])
            if kind == 'array5':
                self.put(enc.arr_obj(i, n), 'array')
                self.elements((2,), n, depth, pend)
            elif kind == 'array6':
                self.put(enc.arr_str(i, n), 'array')
                self.elements((1,), n, depth, pend)
            else:
                pt = int(kind.split(':')[1])
                self.put(enc.arr_prim(i, n, pt), 'array')
                self.elements((0, pt), n, depth, pend)
        else:
            at = r.choice([0, 1, 2, 2, 3, 4, 5])
            rank = 1 if at in (0, 1, 3, 4) else r.choice([1, 2, 2, 2, 3, 3, 4])
            lens = [r.choice([1, 2, 2, 3]) for _ in range(rank)]
            if rank == 1:
                lens = [r.choice([0, 1, 2, 3, self.maxlen])]
            n = 1
            for x in lens:
                n *= x
            t = self.rtype()
            lows = [r.choice([0, 0, 1, 5]) for _ in lens] if at >= 3 else None
            self.put(enc.binary_array(i, at, lens, t, lows), 'barray')
            self.elements(t, n, depth, pend)
        for j, k in pend:
            if k != 'again':
                self.wait(j, k, depth)

    keep = 0

    def top(self, i, kind):
        if kind == 'string':
            # no library record may come before a string
            self.put(enc.string(i, self.text()), 'string')
            self.strings.append(i)
            return
        if self.rng.random() < .3:
            self.lib_here()
        self.record(i, kind, 0)
        self.objects[i] = kind if kind != 'barray' else 'barray'

    def message(self, tops=None, root=None):
        """Tokens of a message that is a value."""
        r = self.rng
        n = tops or r.choice([1, 1, 1, 2, 3])
        at = r.randrange(n)
        kinds = ['object', 'object', 'object', 'string', 'array5', 'array6', 'array7:%d' % r.choice(UNTYPED), 'barray']
        rid = 0
        self.put(b'', 'header')
        for k in range(n):
            i = self.new_id()
            kind = r.choice(kinds) if k != at or root is None else root
            if k == at:
                rid = i
                self.keep = i
            self.top(i, kind)
        if r.random() < .03:
            rid = 0
        hid = r.choice([-1, -1, 0, 1, 2, -2**31, 2**31 - 1])
        self.toks[0] = ('header', enc.header(rid, hid))
        self.put(enc.end(), 'end')
        self.root = rid
        return self.toks

    def method(self, ret=None, fl=None):
        """Tokens of a method call or return."""
        r = self.rng
        ret = r.random() < .5 if ret is None else ret
        if fl is None:
            fl = 0
            if r.random() < .05:
                fl |= 0x2000
            else:
                fl |= r.choice([0, 1, 2, 2, 4, 4, 8, 8])
                if ret and r.random() < .8:
                    fl |= r.choice([0x200, 0x400, 0x800, 0x800, 0x1000, 0x1000])
            fl |= r.choice([0, 16, 32, 32, 64])
            fl |= r.choice([0, 0, 0x100]) | r.choice([0, 0, 0x8000]) | r.choice([0, 0, 0x4000])
            if not (fl & 0x2000) and not (fl & 0x1e00) and r.random() < .2:
                fl |= 0x80
        ctx = self.text() if fl & 32 else None
        args = [value_with_code(r) for _ in range(r.choice([0, 1, 2, 3, 5]))] if fl & 2 else None
        need = fl & (4 | 8 | 64 | 128 | 0x100 | 0x1000 | 0x2000)
        self.put(b'', 'header')
        root = self.new_id()
        for _ in range(r.choice([0, 0, 0, 1])):
            i = self.new_id()
            self.top(i, r.choice(['object', 'array5', 'string']))
        if self.toks[-1][0] == 'lib':
            self.toks.pop()
        if ret:
            self.put(enc.method_return(fl, value_with_code(r) if fl & 0x800 else None, ctx, args), 'return')
        else:
            self.put(enc.method_call(fl, self.text(), self.text(), ctx, args), 'call')
        if need or r.random() < .1:
            if r.random() < .15:
                self.lib_here()
            n = r.choice([1, 2, 3]) if not r.random() < .1 else 0
            self.put(enc.arr_obj(root, n), 'callarray')
            pend = []
            left = n
            if fl & 8 and n:
                # the first item is the argument array
                i = self.new_id()
                kind = r.choice(['array5', 'array5', 'array6', 'barray', 'array7:8'])
                self.put(enc.ref(i), 'ref')
                pend.append((i, kind))
                left -= 1
            self.elements((2,), left, 1, pend)
            for j, k in pend:
                if k != 'again':
                    self.wait(j, k, 1)
        for _ in range(r.choice([0, 0, 0, 1])):
            i = self.new_id()
            self.top(i, r.choice(['object', 'array6', 'string']))
        self.toks[0] = ('header', enc.header(root, r.choice([-1, 0, 7])))
        self.put(enc.end(), 'end')
        return self.toks


def join(toks):
    return b''.join(b for _, b in toks)


def mutate_records(rng, toks):
    """One change at the level of records."""
    t = list(toks)
    n = len(t)
    if n < 3:
        return t
    k = rng.randrange(8)
    i = rng.randrange(1, n)
    j = rng.randrange(1, n)
    if k == 0:
        del t[i]
    elif k == 1:
        t.insert(j, t[i])
    elif k == 2:
        t[i], t[j] = t[j], t[i]
    elif k == 3:
        t.insert(i, ('null', rng.choice([enc.null(), enc.nulls256(1), enc.nulls(1), enc.nulls256(2), enc.nulls(0), enc.nulls256(0)])))
    elif k == 4:
        t.insert(i, ('string', enc.string(rng.choice([1, 2, 3, 900, 0, -1]), 's')))
    elif k == 5:
        t.insert(i, ('ref', enc.ref(rng.choice([1, 2, 3, 900, 0, -1]))))
    elif k == 6:
        t[i] = ('x', rng.choice([enc.null(), enc.ref(rng.choice([1, 2, 3])), enc.string(901, 't'), enc.prim_typed(8, b'\1\0\0\0'), enc.sys_class(902, 'Z', []),
                                 enc.arr_obj(903, 0), enc.library(9, 'x'), enc.end(), enc.class_with_id(904, rng.choice([1, 2, 3]))]))
    else:
        t.insert(i, ('x', rng.choice([enc.library(rng.choice([1, 2, 9, 0, -1]), 'x'), enc.sys_class(905, 'Z', []), enc.arr_obj(906, 0), enc.arr_obj(1, 0),
                                      enc.prim_typed(8, b'\1\0\0\0'), enc.class_with_id(907, rng.choice([1, 2, 3])), enc.end()])))
    return t


def mutate_ids(rng, toks):
    """Changes an ID (of a record or a reference) to that of another record, or to an odd one."""
    t = list(toks)
    have = [i for i, (k, b) in enumerate(t) if k in ('class', 'cwid', 'string', 'array', 'barray', 'ref', 'lib', 'callarray')]
    if not have:
        return t
    i = rng.choice(have)
    others = [t[j][1][1:5] for j in have if j != i] + [struct.pack('<i', x) for x in (0, -1, -2**31, 1, 2, 3, 999)]
    k, b = t[i]
    if k == 'cwid' and rng.random() < .5:
        b = b[:5] + rng.choice(others)
    elif k == 'class' and b[0] in (3, 5) and rng.random() < .5:
        b = b[:-4] + rng.choice(others)
    else:
        b = b[:1] + rng.choice(others) + b[5:]
    t[i] = (k, b)
    return t


def mutate_bytes(rng, b):
    """One to three changes at the level of bytes."""
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if not b:
            break
        i = rng.randrange(len(b)) if rng.random() < .85 else min(len(b) - 1, rng.randrange(17))
        k = rng.randrange(7)
        if k == 0:
            b[i] = rng.choice([0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 21, 22, 127, 128, 255])
        elif k == 1:
            b[i] = (b[i] + rng.choice([1, -1])) & 255
        elif k == 2:
            b[i] ^= 1 << rng.randrange(8)
        elif k == 3:
            del b[i]
        elif k == 4:
            b.insert(i, rng.choice([0, 1, 10, 11, 255, rng.randrange(256)]))
        elif k == 5:
            b = b[:i]
        else:
            b[i:i + 4] = struct.pack('<i', rng.choice([0, 1, 2, 3, -1, 2**31 - 1, -2**31, 255, 256, 65536]))
    return bytes(b)


def dotnet(s):
    """Other texts that .NET or somebody who maps names could take for the same."""
    bare = s.lstrip('_').removeprefix('m_')
    out = ['m_' + s, '_' + s, s + '_', '<%s>k__BackingField' % s, bare, bare[:1].upper() + bare[1:], bare[:1].lower() + bare[1:], '_' + bare, 'm_' + bare, s.upper(), s.lower(), s.title(), 'get_' + s, 'this.' + s, '@' + s,
           'Base+' + s, s + 'Field', s.replace('_', '-'), s.replace('_', ''), s.rsplit('.')[-1], s + '[]', s + '&', s + '*', s + '?', s + ', mscorlib', s.split('`')[0], s + '`1', s + '[[System.Int32]]', ' ' + s, s + ' ', s + '\0', 'r#' + s,
           'System.Nullable`1[[%s]]' % s, s.replace('.', '::'), s.replace('.', '+'), s.replace('.', '/'), '\ufeff' + s, s + '\u0301', s.replace('a', '\u0430'), s[:1] + '\u200b' + s[1:], s + '1', s.rstrip('0123456789')]
    return sorted({x for x in out if x != s})


def near(rng, s):
    """Another text, but not by much."""
    k = rng.randrange(13)
    if k > 9:
        return rng.choice(dotnet(s))
    if k == 0:
        return s + rng.choice(['x', ' ', '\0', '`1', s[-1:] or 'y', '[]', '+', ',', '.'])
    if k == 1:
        return rng.choice(['x', ' ', 'System.', s[:1] or 'y', '.']) + s
    if k == 2:
        return s[:-1]
    if k == 3:
        return s[1:]
    if k == 4:
        return s.swapcase()
    if k == 5 and s:
        i = rng.randrange(len(s))
        return s[:i] + chr(ord(s[i]) ^ rng.choice([1, 2, 4, 8, 16])) + s[i + 1:] if ord(s[i]) < 128 else s[:i] + s[i + 1:]
    if k == 6:
        return s[::-1]
    if k == 7 and len(s) > 1:
        i = rng.randrange(len(s) - 1)
        return s[:i] + s[i + 1] + s[i] + s[i + 2:]
    if k == 8:
        return s + s
    return ''


def mutate_names(rng, toks):
    """Changes the name of one class or library a little."""
    t = list(toks)
    have = [i for i, (k, b) in enumerate(t) if k in ('class', 'lib') and len(b) > 5 and b[5] < 128]
    if not have:
        return t
    i = rng.choice(have)
    k, b = t[i]
    n = b[5]
    s = b[6:6 + n].decode()
    t[i] = (k, b[:5] + enc.lps(near(rng, s)) + b[6 + n:])
    return t
