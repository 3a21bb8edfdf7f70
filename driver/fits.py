"""Messages whose values fit a target type of harness/src/targets.rs, or nearly do."""
import struct

import enc
import gen
from enc import i32

ANY, STR, UNIT, BOOL, CHAR, F32, F64 = (('any',), ('str',), ('unit',), ('bool',), ('char',), ('f32',), ('f64',))


def I(n, sg=True):
    return ('int', n, sg)


def opt(e):
    return ('opt', e)


def vec(e):
    return ('vec', e)


def tup(*es):
    return ('tup', es)


def mp(e):
    return ('map', e)


def st(**fs):
    return ('struct', fs)


AB = st(a=I(4), b=STR)
OPTAB = st(a=opt(I(4)), b=opt(ANY))
NEST = st(inner=AB, z=vec(I(8)))
ANYS = st(a=ANY, b=ANY, c=ANY)
OPTNEST = st(a=opt(AB), n=opt(st(a=opt(AB), n=opt(st(a=opt(AB))))))
WIDE = st(bo=BOOL, by=I(1, False), ch=CHAR, da=I(8), de=STR, dou=F64, i1=I(2), i3=I(4), i6=I(8), nu=UNIT, sb=I(1), si=F32, st=STR, ti=I(8), u1=I(2, False), u3=I(4, False), u6=I(8, False))
UNT = ('alt', (I(8), STR, vec(ANY), mp(ANY), UNIT))

SHAPES = dict(
    bool=BOOL, i8=I(1), i16=I(2), i32=I(4), i64=I(8), i128=I(16), u8=I(1, False), u16=I(2, False), u32=I(4, False), u64=I(8, False), u128=I(16, False), f32=F32, f64=F64, char=CHAR, string=STR, str=STR, unit=UNIT, any=ANY,
    ignored=ANY, opt_i32=opt(I(4)), opt_any=opt(ANY), opt_string=opt(STR), opt_opt_any=opt(ANY), opt_bool=opt(BOOL), opt_unit=UNIT, opt_vec_any=opt(vec(ANY)), opt_map_any=opt(mp(ANY)), vec_any=vec(ANY), vec_i32=vec(I(4)),
    vec_u8=vec(I(1, False)), vec_i64=vec(I(8)), vec_str=vec(STR), vec_string=vec(STR), vec_opt_i32=vec(opt(I(4))), vec_opt_string=vec(opt(STR)), vec_opt_any=vec(opt(ANY)), vec_vec_any=vec(vec(ANY)), vec_vec_i32=vec(vec(I(4))),
    vec_ab=vec(AB), vec_optab=vec(OPTAB), vec_ignored=vec(ANY), arr1_any=tup(ANY), arr2_any=tup(ANY, ANY), arr3_any=tup(ANY, ANY, ANY), arr2_i32=tup(I(4), I(4)), arr3_i32=tup(I(4), I(4), I(4)), tup_i32_string=tup(I(4), STR),
    tup_any_opt_any=tup(ANY, opt(ANY)), tup3=tup(ANY, opt(I(4)), ANY), map_any=mp(ANY), map_i32=mp(I(4)), map_opt_i32=mp(opt(I(4))), map_str_any=mp(ANY), map_vec_any=mp(vec(ANY)), map_ignored=mp(ANY), ab=AB, optab=OPTAB, nest=NEST,
    anys=ANYS, optnest=OPTNEST, opt_ab=opt(AB), opt_optab=opt(OPTAB), empty=st(), box_i64=I(8), wide=WIDE, vec_wide=vec(WIDE), unit_struct=UNIT, pair=tup(ANY, ANY), strs=st(a=STR, b=opt(STR)), strict=AB, default=AB, flat=st(a=I(4), q=ANY, b=ANY),
    untagged=UNT, vec_untagged=vec(UNT), seqhead=tup(ANY), maphead=st(x=ANY), seqpast=vec(ANY), vec_seqhead=vec(tup(ANY)), map_maphead=mp(st(x=ANY)), bytes=STR, vec_bytes=vec(STR), cow=STR, arr0_any=tup(), tup1=tup(ANY),
    vec_bool=vec(BOOL), vec_char=vec(CHAR), vec_f64=vec(F64), vec_f32=vec(F32), vec_u64=vec(I(8, False)), vec_unit=vec(UNIT), map_string=mp(STR), map_char=('mapchar', ANY), vec_map_any=vec(mp(ANY)), map_map_any=mp(mp(ANY)),
    opt_vec_opt_i32=opt(vec(opt(I(4)))), vec_opt_ab=vec(opt(AB)), map_untagged=mp(UNT), vec_strict=vec(AB), vec_default=vec(AB), opt_seqpast=opt(vec(ANY)), map_ab=mp(AB))

INTS = {7: (2, True), 8: (4, True), 9: (8, True), 2: (1, False), 10: (1, True), 14: (2, False), 15: (4, False), 16: (8, False), 12: (8, True), 13: (8, True)}
BOXES = {1: 'Boolean', 2: 'Byte', 3: 'Char', 6: 'Double', 7: 'Int16', 8: 'Int32', 9: 'Int64', 10: 'SByte', 11: 'Single', 14: 'UInt16', 15: 'UInt32', 16: 'UInt64'}
LIST = 'System.Collections.Generic.List`1[[System.Int32]]'


class Fit:
    def __init__(self, rng, p=.03):
        self.rng, self.p, self.id = rng, p, 1

    def new(self):
        self.id += 1
        return self.id

    # a primitive type and its bytes
    def prim(self, s):
        r = self.rng
        if s[0] == 'int':
            pt = r.choice([k for k, (w, sg) in INTS.items() if w == s[1] and sg == s[2] and k < 12] or [9, 16]) if r.random() < .6 else r.choice(list(INTS))
            w, sg = INTS[pt]
            lo, hi = (-(1 << 8 * w - 1), (1 << 8 * w - 1) - 1) if sg else (0, (1 << 8 * w) - 1)
            tl, th = (-(1 << 8 * s[1] - 1), (1 << 8 * s[1] - 1) - 1) if s[2] else (0, (1 << 8 * s[1]) - 1)
            v = r.choice([0, 1, 2, 100, -1, tl, th, th, tl, th - 1, tl + 1, tl - 1, th + 1] if r.random() < .3 else [0, 1, 5, 100, th, max(tl, -5)])
            v = min(max(v, lo), hi)
            return pt, (v & ((1 << 8 * w) - 1)).to_bytes(w, 'little')
        pt = {'bool': 1, 'char': 3, 'f32': 11, 'f64': 6}.get(s[0])
        if s[0] == 'str':
            pt = r.choice([3, 5])
        return (pt, gen.prim(r, pt)) if pt else (8, i32(7))

    # in a place for any object: bytes, and the records that it refers to
    def inline(self, s, depth=3):
        r = self.rng
        if r.random() < self.p:
            s = r.choice([ANY, UNIT, STR, I(4), I(8), vec(ANY), mp(ANY), AB, BOOL, CHAR, F64])
        k = s[0]
        if k == 'opt':
            return (enc.null(), []) if r.random() < .35 else self.inline(s[1], depth)
        if k == 'alt':
            return self.inline(r.choice(s[1]), depth)
        if k == 'any':
            s = r.choice([I(4), I(4), STR, UNIT, BOOL, CHAR, F64, F32, I(8, False), STR] + ([vec(ANY), mp(ANY), vec(I(4))] if depth > 0 else []))
            return self.inline(s, depth - 1)
        if k == 'unit':
            return enc.null(), []
        if k == 'str' and r.random() < .9:
            return enc.string(self.new(), r.choice(['', 'x', 'text', 'h\u00e9', 'a' * 130])), []
        if k in ('vec', 'tup'):
            oid = self.new()
            return enc.ref(oid), [self.record(s, oid, depth - 1)]
        if k in ('map', 'struct', 'mapchar'):
            if r.random() < .8:
                return self.record(s, self.new(), depth - 1), []
            oid = self.new()
            return enc.ref(oid), [self.record(s, oid, depth - 1)]
        pt, b = self.prim(s)
        if pt in BOXES and r.random() < .25:
            return self.box(pt, b, self.new()), []
        return enc.prim_typed(pt, b), []

    def box(self, pt, b, oid):
        if self.rng.random() < .7:
            return enc.sys_class_t(oid, 'System.' + BOXES[pt], ['m_value'], [(0, pt)]) + b
        return enc.sys_class(oid, 'System.' + BOXES[pt], ['m_value']) + enc.prim_typed(pt, b)

    # a record of its own, with those that it refers to
    def record(self, s, oid, depth=3):
        r = self.rng
        k = s[0]
        if k in ('opt', 'alt', 'any', 'unit'):
            s = s[1] if k == 'opt' else r.choice(s[1][:4]) if k == 'alt' else r.choice([I(4), STR, vec(ANY), mp(ANY), AB, BOOL]) if k == 'any' else I(4)
            return self.record(s, oid, depth)
        if k in ('vec', 'tup'):
            es = list(s[1]) if k == 'tup' else [s[1]] * r.choice([0, 1, 2, 3, 4] if depth > 0 else [0, 1, 2])
            if r.random() < self.p * 2:
                es = es[:-1] if es and r.random() < .5 else es + [ANY]
            return self.array(es, oid, depth)
        if k in ('map', 'struct', 'mapchar'):
            if k == 'struct':
                fs = list(s[1].items())
                if len(fs) > 6:
                    fs = r.sample(fs, r.randrange(1, len(fs) + 1))
            elif k == 'map':
                fs = [(n, s[1]) for n in r.sample(['a', 'b', 'c', 'd', '\u00e9', 'm_value', '', 'key', '_items'], r.choice([0, 1, 1, 2, 3]))]
            else:
                fs = [(n, s[1]) for n in r.sample(['a', 'b', '\u00e9', '\U0001f600', '\u20ac', 'ab'] if r.random() < .2 else ['a', 'b', '\u00e9', '\U0001f600', '\u20ac'], r.choice([0, 1, 2, 3]))]
            if r.random() < .15:
                fs.append((r.choice(['more', 'x1', 'zz']), ANY))
            fs = [(n, f) for n, f in fs if not (r.random() < (.3 if f[0] == 'opt' else self.p))]
            r.shuffle(fs)
            return self.obj(fs, oid, depth)
        if k == 'str' and r.random() < .85:
            return enc.string(oid, r.choice(['', 'x', 'text', 'h\u00e9', 'c', '\u20ac']))
        pt, b = self.prim(s)
        if pt not in BOXES:
            pt, b = (9, bytes(8)) if k == 'int' else (3, b'c')
        return self.box(pt, b, oid)

    def obj(self, fs, oid, depth):
        r = self.rng
        names, ts, body, pend = [], [], b'', []
        typed = r.random() < .5
        for n, f in fs:
            names.append(n)
            if typed and f[0] in ('int', 'bool', 'char', 'f32', 'f64') and r.random() < .85:
                pt, b = self.prim(f)
                ts.append((0, pt))
                body += b
            else:
                b, p = self.inline(f, depth)
                ts.append((1,) if b[:1] in (b'\x06', b'\x0a') and r.random() < .4 else (2,))
                body += b
                pend += p
        name = r.choice(['A', 'Ns.Type', 'System.Thing', 'T`1'])
        if r.random() < .3:
            lid = self.new()
            rec = enc.library(lid, 'L%d' % lid) + (enc.cls_t(oid, name, names, ts, lid) if typed else enc.cls(oid, name, names, lid))
        else:
            rec = enc.sys_class_t(oid, name, names, ts) if typed else enc.sys_class(oid, name, names)
        return rec + body + b''.join(pend)

    def array(self, es, oid, depth):
        r = self.rng
        kinds = {e[0] for e in es}
        if r.random() < .2:
            # in a list
            aid = self.new()
            n = len(es)
            arr = self.array(es + [UNIT] * r.choice([0, 0, 1, 3]), aid, depth) if r.random() < .6 and not (kinds & {'int', 'bool', 'f32', 'f64', 'char'}) else self.array(es, aid, depth)
            return enc.sys_class_t(oid, LIST, ['_items', '_size', '_version'], [(2,), (0, 8), (0, 8)]) + enc.ref(aid) + i32(n) + i32(3) + arr if b'List`1' not in arr else arr[:1] + i32(oid) + arr[5:]
        if len(kinds) == 1 and kinds <= {'int', 'bool', 'char', 'f32', 'f64'} and len(set(es)) == 1 and r.random() < .7:
            pt, b = self.prim(es[0])
            bs = [b]
            while len(bs) < len(es):
                q, b = self.prim(es[0])
                if q == pt:
                    bs.append(b)
            if r.random() < .8:
                return enc.arr_prim(oid, len(es), pt) + b''.join(bs)
            return enc.binary_array(oid, 0, [len(es)], (0, pt)) + b''.join(bs)
        if len(es) > 1 and all(e[0] == 'vec' and e == es[0] for e in es) and r.random() < .4:
            m = r.choice([1, 2, 3])
            x = [self.inline(es[0][1], depth) for _ in range(len(es) * m)]
            return enc.binary_array(oid, 2, [len(es), m], (2,)) + b''.join(b for b, _ in x) + b''.join(b for _, p in x for b in p)
        x = [self.inline(e, depth) for e in es]
        strs = all(b[:1] in (b'\x06', b'\x0a') for b, _ in x)
        head = enc.arr_str(oid, len(es)) if strs and r.random() < .5 else enc.arr_obj(oid, len(es)) if r.random() < .8 else enc.binary_array(oid, 0, [len(es)], (2,))
        return head + b''.join(b for b, _ in x) + b''.join(b for _, p in x for b in p)


def message(rng, target, p=.03):
    s = SHAPES[target]
    if s[0] in ('opt', 'unit') and rng.random() < .1:
        return enc.header(0) + enc.end()
    return enc.header(1) + Fit(rng, p).record(s, 1) + enc.end()


def items(rng, targets, n, others, k=3):
    """n messages for each target, with it and k others."""
    out = []
    for t in targets:
        if t in SHAPES:
            for _ in range(n):
                b = message(rng, t, rng.choice([0, 0, .03, .1]))
                out.append((b, list(dict.fromkeys([t] + rng.sample(others, min(k, len(others)))))))
    return out
