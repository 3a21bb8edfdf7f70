"""The inputs of each property's check: [(bytes, [modes])].

Inputs only; the specification decides what they mean.
"""
import itertools
import struct

import enc
import fits
import gen
from core import Run
from enc import i32, lps

N = -1  # what a header ID usually is

SCALARS = ['bool', 'i8', 'i16', 'i32', 'i64', 'i128', 'u8', 'u16', 'u32', 'u64', 'u128', 'f32', 'f64', 'char', 'string', 'str', 'unit', 'any', 'ignored', 'box_i64',
           'opt_i32', 'opt_any', 'opt_string', 'opt_bool', 'opt_unit', 'opt_opt_any', 'unit_struct', 'bytes', 'cow', 'untagged']
SEQS = ['vec_any', 'vec_i32', 'vec_u8', 'vec_i64', 'vec_str', 'vec_string', 'vec_opt_i32', 'vec_opt_string', 'vec_opt_any', 'vec_vec_any', 'vec_vec_i32', 'vec_ab', 'vec_optab',
        'vec_ignored', 'arr1_any', 'arr2_any', 'arr3_any', 'arr2_i32', 'arr3_i32', 'tup_i32_string', 'tup_any_opt_any', 'tup3', 'opt_vec_any',
        'pair', 'vec_untagged', 'seqhead', 'seqpast', 'vec_seqhead', 'vec_bytes', 'arr0_any', 'tup1', 'vec_bool', 'vec_char', 'vec_f64', 'vec_f32', 'vec_u64', 'vec_unit', 'vec_map_any',
        'opt_vec_opt_i32', 'vec_opt_ab', 'vec_strict', 'vec_default', 'opt_seqpast', 'vec_wide']
MAPS = ['map_any', 'map_i32', 'map_opt_i32', 'map_str_any', 'map_vec_any', 'map_ignored', 'ab', 'optab', 'nest', 'anys', 'listraw', 'boxraw', 'optnest', 'opt_ab', 'opt_optab', 'empty',
        'opt_map_any', 'wide', 'strs', 'strict', 'default', 'flat', 'untagged', 'maphead', 'map_maphead', 'map_string', 'map_char', 'map_map_any', 'map_untagged', 'map_ab']
TARGETS = SCALARS + SEQS + MAPS


def value_msg(t, member, extra=b'', name='A', libs=b''):
    """An object with one typed member."""
    return enc.header() + libs + enc.sys_class_t(1, name, ['a'], [t]) + member + extra + enc.end()


def prim_positions(pt, payload):
    """The same primitive in every position a primitive can occur."""
    i7 = enc.prim_typed(8, i32(7))
    h = enc.header()
    out = [
        value_msg((0, pt), payload),
        h + enc.library(3, 'L') + enc.cls_t(1, 'A', ['z', 'a', 'b'], [(0, 2), (0, pt), (0, 7)], 3) + b'\x21' + payload + b'\x01\x02' + enc.end(),
        value_msg((2,), enc.prim_typed(pt, payload)),
        h + enc.sys_class(1, 'A', ['x', 'a', 'y']) + i7 + enc.prim_typed(pt, payload) + i7 + enc.end(),
        h + enc.arr_prim(1, 1, pt) + payload + enc.end(),
        h + enc.arr_prim(1, 3, pt) + payload * 3 + enc.end(),
        h + enc.binary_array(1, 0, [2], (0, pt)) + payload * 2 + enc.end(),
        h + enc.binary_array(1, 2, [2, 1], (0, pt)) + payload * 2 + enc.end(),
        h + enc.binary_array(1, 3, [1], (0, pt), [4]) + payload + enc.end(),
        h + enc.binary_array(1, 0, [1], (2,)) + enc.prim_typed(pt, payload) + enc.end(),
        h + enc.arr_obj(1, 2) + enc.prim_typed(pt, payload) + enc.null() + enc.end(),
        h + enc.method_call(2, 'm', 't', args=[enc.vwc(pt, payload), enc.vwc(8, i32(5))]) + enc.end(),
        h + enc.method_return(2 | 0x800, enc.vwc(pt, payload), None, [enc.vwc(2, b'\x07'), enc.vwc(pt, payload)]) + enc.end(),
        h + enc.method_call(4, 'm', 't') + enc.arr_obj(1, 1) + enc.prim_typed(pt, payload) + enc.end(),
        h + enc.method_return(0x1000, None) + enc.arr_obj(1, 1) + enc.prim_typed(pt, payload) + enc.end(),
        # through metadata, nested and referenced
        h + enc.sys_class(1, 'R', ['p', 'q']) + enc.sys_class_t(2, 'A', ['a'], [(0, pt)]) + payload + enc.class_with_id(3, 2) + payload + enc.end(),
        h + enc.sys_class_t(1, 'R', ['p'], [(7, pt)]) + enc.ref(2) + enc.arr_prim(2, 2, pt) + payload * 2 + enc.end(),
    ]
    return out


def prim_payloads(rng, tier):
    """(type, payload) pairs, well-formed and not."""
    ps = []
    for pt in gen.UNTYPED:
        if pt in (1, 2, 10):
            ps += [(pt, bytes([x])) for x in range(256)]
        elif pt == 3:
            ps += [(3, c.encode()) for c in gen.CHARS]
            ps += [(3, bytes([x]) + b'\x80\x80\x80') for x in range(128, 256)]
            ps += [(3, x) for x in (b'\xe0\xa0\x80', b'\xe0\x9f\xbf', b'\xed\x9f\xbf', b'\xed\xa0\x80', b'\xee\x80\x80', b'\xf0\x90\x80\x80', b'\xf0\x8f\xbf\xbf', b'\xf4\x8f\xbf\xbf',
                                    b'\xf4\x90\x80\x80', b'\xc2\x80', b'\xc1\xbf', b'\xdf\xbf', b'\xe2\x28\xa1', b'\xe2\x82\x28', b'\xf0\x9f\x98\x41', b'\xf5\x80\x80\x80')]
            ps += [(3, chr(rng.choice([rng.randrange(0x80), rng.randrange(0x80, 0x800), rng.randrange(0x800, 0xd800), rng.randrange(0xe000, 0x110000)])).encode()) for _ in range(40 * tier)]
        elif pt == 5:
            ps += [(5, lps(d)) for d in gen.DECIMALS + gen.BAD_DECIMALS]
            ps += [(5, lps(b'\xff')), (5, lps(b'1\xc2')), (5, varlong(b'7', 2)), (5, varlong(b'7', 5))]
            for _ in range(30 * tier):
                n = rng.randrange(1, 28)
                s = str(rng.randrange(10**(n - 1), 10**n))
                if rng.random() < .6 and n > 1:
                    k = rng.randrange(1, n)
                    s = s[:k] + '.' + s[k:]
                ps.append((5, lps(('-' if rng.random() < .4 else '') + s)))
        else:
            w = gen.FIXED[pt]
            vals = set(x & ((1 << 8 * w) - 1) for x in gen.INTERESTING)
            vals |= {(1 << k) for k in range(8 * w)} | {((1 << 8 * w) - 1) ^ (1 << k) for k in range(8 * w)} if tier > 1 else set()
            vals |= {rng.getrandbits(8 * w) for _ in range(10 * tier)}
            if pt == 13:
                vals |= {rng.getrandbits(62) | (k << 62) for k in range(4) for _ in range(6 * tier)} | {(k << 62) | x for k in range(4) for x in (0, 1, 2**62 - 1, 2**61, 637000000000000000)}
            ps += [(pt, x.to_bytes(w, 'little')) for x in sorted(vals)]
    return ps


def varlong(s, width):
    return enc.varint(len(s), width) + s


def generic(rng, n, profile=None, method=0.2, mutate=0.35, modes=('parse',)):
    """Random messages and mutants."""
    out = []
    for _ in range(n):
        opts = dict(depth=rng.choice([1, 2, 2, 3, 4]), size=rng.choice([8, 16, 30, 45]))
        if profile:
            opts.update(profile)
        g = gen.Gen(rng, **opts)
        t = g.method() if rng.random() < method else g.message()
        x = rng.random()
        if x >= mutate:
            b = gen.join(t)
        elif x < mutate * .4:
            b = gen.join(gen.mutate_records(rng, t))
        elif x < mutate * .7:
            b = gen.join(gen.mutate_ids(rng, t))
        else:
            b = gen.mutate_bytes(rng, gen.join(t))
        out.append((b, list(modes) if not callable(modes) else modes()))
    return out


def parse(bs):
    return [(b, ['parse']) for b in bs]


# ---------------------------------------------------------------------------------------------------------------------

COUNTS = [-2**31, -1, 0, 1, 127, 128, 255, 256, 65536, 16777216, 2**30, 2**31 - 1]


def extremes(rng):
    """Records that declare extreme lengths, counts and IDs."""
    h = enc.header()
    out = []
    for n in COUNTS:
        out += [h + enc.arr_obj(1, n), h + enc.arr_str(1, n), h + enc.arr_prim(1, n, 8), h + enc.arr_prim(1, n, 2), h + enc.arr_prim(1, n, 5), h + enc.arr_prim(1, n, 1) + b'\x01' * 64]
        out += [h + enc.arr_obj(1, n) + enc.null() * 3 + enc.end(), h + enc.arr_str(1, n) + enc.nulls256(255) + enc.end()]
        out += [h + b'\x02' + i32(1) + lps('A') + i32(n), h + b'\x02' + i32(1) + lps('A') + i32(n) + lps('a') * 8 + enc.null() * 8 + enc.end()]
        out += [h + b'\x04' + i32(1) + lps('A') + i32(n) + lps('a') * 4 + bytes(4)]
        out += [h + b'\x07' + i32(1) + b'\x00' + i32(n) + i32(1) * 4 + b'\x02' + enc.null() * 4 + enc.end()]
        for at in range(6):
            out += [h + enc.binary_array(1, at, [n], (2,), [0] if at > 2 else None) + enc.end(), h + enc.binary_array(1, at, [n, n, n], (0, 9), [n, n, n] if at > 2 else None) + enc.end()]
        out += [h + enc.binary_array(1, 2, [n, 0], (2,)) + enc.end(), h + enc.binary_array(1, 2, [0, n, n], (2,)) + enc.end(), h + enc.binary_array(1, 2, [n, 2, n], (1,)) + enc.null() * 4 + enc.end()]
        out += [h + enc.arr_obj(1, 3) + enc.nulls(n) + enc.end(), h + enc.sys_class(1, 'A', ['a']) + enc.nulls(n) + enc.end()]
        out += [h + enc.method_call(2, 'm', 't') + i32(n) + enc.vwc(8, i32(1)) * 3 + enc.end(), h + enc.method_return(2) + i32(n) + b'\x11' * 3 + enc.end()]
        out += [h + b'\x15' + i32(n) + enc.svwc('m') + enc.svwc('t') + enc.end(), h + b'\x16' + i32(n) + enc.end()]
        out += [enc.header(n, n, n, n), enc.header(n) + enc.string(n, 'x') + enc.end(), h + enc.string(n, 'x') + enc.end(), h + enc.library(n, 'l') + enc.cls(1, 'A', [], n) + enc.end()]
        out += [h + enc.class_with_id(n, n) + enc.end(), h + enc.sys_class(1, 'A', ['a']) + enc.ref(n) + enc.end(), h + enc.sys_class(1, 'A', ['a']) + enc.class_with_id(n, 1)]
        out += [h + enc.sys_class_t(1, 'System.Collections.Generic.List`1', ['_items', '_size', '_version'], [(5,), (0, 8), (0, 8)]) + enc.ref(2) + i32(n) + i32(n) + enc.arr_obj(2, 2) + enc.null() * 2 + enc.end()]
    for v in (b'\xff\xff\xff\xff\x07', b'\xff\xff\xff\xff\x0f', b'\x80\x80\x80\x80\x08', b'\xff\xff\xff\xff\xff', b'\x80\x80\x80\x80\x80\x00', b'\x80', b'\xff\xff', b'\x7f', b'\xff\x7f', b'\x80\x80\x80\x80\x00'):
        out += [h + b'\x06' + i32(1) + v + b'abc' + enc.end(), h + b'\x02' + i32(1) + v, h + b'\x0c' + i32(1) + v, h + b'\x15' + i32(1) + b'\x12' + v,
                h + enc.sys_class_t(1, 'A', ['a'], [(0, 5)]) + v + b'1' + enc.end()]
    # values at the edge of their types, in the text forms
    for d in ('1E10', '1e-10', '1E400', '-1E-400', '1E2147483647', '1E-2147483648', '1E99999999999999999999', '0E10', '1_000', '+5', '.5', '5.', '00', '-0', '1e', 'e1', '9' * 40, '0.' + '0' * 60 + '1', '-' + '1' * 97):
        out += [h + enc.sys_class_t(1, 'A', ['a'], [(0, 5)]) + lps(d) + enc.end(), h + enc.arr_prim(1, 2, 5) + lps(d) * 2 + enc.end()]
    return out


def nested(depth, kind='class'):
    """`depth` objects in one another."""
    if kind == 'class':
        return enc.header() + b''.join(enc.sys_class(i, 'A', ['a']) for i in range(1, depth + 1)) + enc.null() + enc.end()
    if kind == 'array':
        return enc.header() + b''.join(enc.arr_obj(i, 1) + enc.ref(i + 1) for i in range(1, depth + 1)) + enc.string(depth + 1, 'x') + enc.end()
    return enc.header() + b''.join(enc.sys_class(i, 'A', ['a']) + enc.ref(i + 1) for i in range(1, depth + 1)) + enc.string(depth + 1, 'x') + enc.end()


def c01(rng, tier):
    out = parse(extremes(rng))
    out += parse(nested(d, k) for d in (10, 100, 300) for k in ('class', 'array', 'ref'))
    h = enc.header()
    # every record type with nothing, or anything, behind it
    out += parse(h + bytes([t]) + rest for t in range(256) for rest in (b'', bytes(3), bytes(40), b'\xff' * 40, b'\x01' * 40))
    out += parse(bytes([t]) + rest for t in range(256) for rest in (b'', bytes(20)))
    for _ in range(600 * tier):
        out.append((h + rng.randbytes(rng.randrange(1, 60)), ['parse']))
    for _ in range(200 * tier):
        out.append((rng.randbytes(rng.randrange(0, 60)), ['parse']))
    for _ in range(1200 * tier):
        g = gen.Gen(rng, depth=rng.choice([1, 2, 3]), size=20, p_odd=.3)
        b = gen.join(g.method() if rng.random() < .3 else g.message())
        for _ in range(rng.choice([1, 1, 2])):
            b = gen.mutate_bytes(rng, b)
        out.append((b, ['parse']))
    out += generic(rng, 1200 * tier, dict(size=20), mutate=.8, modes=lambda: ['parse'] + rng.sample(TARGETS, 6))
    # deserializing whatever is there into whatever is asked for
    for b in extremes(rng)[::5]:
        out.append((b, rng.sample(TARGETS, 8)))
    return out


def c02(rng, tier):
    out = []
    for _ in range(500 * tier):
        g = gen.Gen(rng, depth=rng.choice([1, 2, 3]), size=rng.choice([6, 12, 20]), texts=gen.TEXTS[:17])
        t = g.method() if rng.random() < .35 else g.message()
        b = gen.join(t)
        if len(b) < 1500:
            out.append((b, ['parse', 'prefixes', 'extensions']))
        # a record more, a record less, a second end
        out.append((gen.join(gen.mutate_records(rng, t)), ['parse']))
        out.append((gen.join(gen.mutate_records(rng, t)), ['parse']))
        k = rng.randrange(1, len(t))
        out.append((gen.join(t[:k] + [('end', enc.end())] + t[k:]), ['parse']))
        out.append((gen.join(t[:k] + [t[0]] + t[k:]), ['parse']))
        # the last records are missing, or all but the last
        for d in rng.sample(range(1, len(t)), min(len(t) - 1, 3)):
            out.append((gen.join(t[:len(t) - 1 - d] + t[-1:]), ['parse']))
        if rng.random() < .4:
            out.append((gen.join(t[1:]), ['parse']))
            n = rng.randrange(len(b))
            out.append((b[:n], ['parse']))
            out.append((b + rng.choice([b'\x0b', b'\0', b, b[17:], enc.null() + enc.end(), enc.string(999, 'x') + enc.end(), rng.randbytes(3)]), ['parse']))
    # every position of every short message cut, judged by the reader itself
    for _ in range(12 * tier):
        g = gen.Gen(rng, depth=2, size=8, texts=['', 'x', 'yz'])
        b = gen.join(g.method() if rng.random() < .35 else g.message())
        out += parse(b[:n] for n in range(len(b)))
    return out


def c03(rng, tier):
    bodies = [enc.string(1, 'x') + enc.end(), enc.sys_class(1, 'A', ['a']) + enc.null() + enc.end(), enc.arr_prim(1, 2, 2) + b'\1\2' + enc.end(),
              enc.method_call(1, 'm', 't') + enc.end(), enc.end()]
    out = []
    ids = [-2**31, -2**31 + 1, -256, -2, -1, 0, 1, 2, 255, 256, 2**24, 2**31 - 2, 2**31 - 1]
    for r, hid in itertools.product(ids, ids):
        out += parse(enc.header(r, hid) + b for b in bodies[:1] + bodies[3:])
        out.append((enc.header(r, hid) + enc.string(r, 'x') + enc.end(), ['parse']))
    vs = [-2**31, -1, 0, 1, 2, 3, 10, 255, 256, 257, 65536, 65537, 2**24, 2**24 + 1, 2**31 - 1]
    for ma, mi in itertools.product(vs, vs):
        out.append((enc.header(1, N, ma, mi) + rng.choice(bodies), ['parse']))
    for _ in range(1500 * tier):
        h = bytearray(enc.header(rng.choice([0, 1, 1, 1, 2, 256, 2**31 - 1]), rng.choice(ids)))
        for _ in range(rng.choice([1, 1, 2])):
            h[rng.randrange(17)] = rng.choice([0, 1, 2, 128, 255, rng.randrange(256)])
        out.append((bytes(h) + rng.choice(bodies), ['parse']))
    for n in range(17):
        out.append((enc.header()[:n], ['parse']))
        out.append((enc.header()[:n] + bodies[0], ['parse']))
    # valid messages under every kind of header
    for _ in range(700 * tier):
        g = gen.Gen(rng, depth=2, size=12)
        t = g.method() if rng.random() < .3 else g.message()
        b = gen.join(t)
        root = struct.unpack('<i', b[1:5])[0]
        out.append((enc.header(root, rng.choice(ids + [rng.getrandbits(31)])) + b[17:], ['parse']))
        out.append((enc.header(rng.choice([-root, -1, -2**31, root]), N, rng.choice([1, 1, 0, 2]), rng.choice([0, 0, 1])) + b[17:], ['parse']))
    return out


def c04(rng, tier):
    out = []
    for pt, p in prim_payloads(rng, tier):
        pos = prim_positions(pt, p)
        bulk = len(p) == 1 and pt in (1, 2, 10)
        k = (3 if bulk else 6) if tier == 1 else len(pos)
        out += parse(rng.sample(pos, k))
    # cut short, in each position
    for pt in gen.UNTYPED:
        for b in prim_positions(pt, gen.prim(rng, pt)):
            out += parse(b[:len(b) - c] for c in (1, 2, 3))
        for bad in range(3):
            if pt in (1, 3, 5):
                out += parse(prim_positions(pt, gen.prim(rng, pt, True)))
    # several primitives of all types in a row
    for _ in range(500 * tier):
        pts = [rng.choice(gen.UNTYPED) for _ in range(rng.randrange(1, 9))]
        vals = [gen.prim(rng, p) for p in pts]
        names = ['m%d' % i for i in range(len(pts))]
        if rng.random() < .5:
            b = enc.sys_class_t(1, 'A', names, [(0, p) for p in pts]) + b''.join(vals)
        else:
            b = enc.sys_class(1, 'A', names) + b''.join(enc.prim_typed(p, v) for p, v in zip(pts, vals))
        out.append((enc.header() + b + enc.end(), ['parse']))
        pt = rng.choice(gen.UNTYPED)
        n = rng.choice([0, 1, 2, 7, 100, 257]) if rng.random() < .3 else rng.randrange(6)
        out.append((enc.header() + enc.arr_prim(1, n, pt) + b''.join(gen.prim(rng, pt) for _ in range(n)) + enc.end(), ['parse']))
    # many values at once: every bit alone, and left out, and in pairs; random ones
    for pt in gen.UNTYPED:
        if pt in gen.FIXED and pt != 1:
            w = 8 * gen.FIXED[pt]
            ones = (1 << w) - 1
            vals = [1 << k for k in range(w)] + [ones ^ (1 << k) for k in range(w)] + [(1 << k) - 1 for k in range(w)] + [ones ^ ((1 << k) - 1) for k in range(w)] + [1 << k | 1 << rng.randrange(w) for k in range(w)] + [rng.getrandbits(w) for _ in range(100)]
            chunks = [vals]
            if w == 16:
                cs = [range(k, k + 1024) for k in range(0, 65536, 1024)]
                chunks += [list(c) for c in (rng.sample(cs, 3) if tier == 1 else cs)]
            out += [(enc.header() + enc.arr_prim(1, len(c), pt) + b''.join(x.to_bytes(w // 8, 'little') for x in c) + enc.end(), ['parse']) for c in chunks]
    # characters: all of them in thorough
    cs = [range(k, k + 1024) for k in range(0, 0x110000, 1024) if k not in (0xd800, 0xdc00)]
    for c in [cs[0], cs[1], cs[0xd800 // 1024 - 1], cs[0xd800 // 1024], cs[-1]] + (rng.sample(cs, 5) if tier == 1 else cs):
        out.append((enc.header() + enc.arr_prim(1, len(c), 3) + ''.join(map(chr, c)).encode() + enc.end(), ['parse']))
    # types that are no primitive types
    for pt in (0, 4, 17, 18, 19, 255):
        out += parse(b[:60] for b in prim_positions(pt, bytes(8)))
        out += parse(prim_positions(pt, lps('x')))
        out += parse(prim_positions(pt, b''))
    return out


def string_positions(raw):
    """`raw` (prefix and bytes) in every position a string can occur."""
    h = enc.header()
    e = enc.end()
    return [
        h + b'\x06' + i32(1) + raw + e,
        h + enc.sys_class(1, 'A', ['a', 'b']) + b'\x06' + i32(2) + raw + enc.ref(2) + e,
        h + enc.arr_str(1, 2) + b'\x06' + i32(2) + raw + enc.ref(3) + b'\x06' + i32(3) + raw + e,
        h + b'\x02' + i32(1) + raw + i32(0) + e,
        h + b'\x02' + i32(1) + lps('A') + i32(2) + raw + lps('\x01') + enc.null() * 2 + e,
        h + b'\x0c' + i32(5) + raw + enc.cls(1, 'A', ['a'], 5) + enc.null() + e,
        h + b'\x04' + i32(1) + lps('A') + i32(1) + lps('a') + b'\x03' + raw + b'\x02' + i32(2) + raw + i32(0) + e,
        h + enc.library(5, 'L') + b'\x05' + i32(1) + raw + i32(1) + raw + b'\x04' + raw + i32(5) + i32(5) + b'\x03' + i32(2) + raw + i32(0) + i32(5) + e,
        h + b'\x15' + i32(1) + b'\x12' + raw + b'\x12' + lps('t') + e,
        h + b'\x15' + i32(1) + b'\x12' + lps('m') + b'\x12' + raw + e,
        h + b'\x15' + i32(1 | 32) + enc.svwc('m') + enc.svwc('t') + b'\x12' + raw + e,
        h + b'\x16' + i32(1 | 32) + b'\x12' + raw + e,
        h + b'\x15' + i32(2) + enc.svwc('m') + enc.svwc('t') + i32(3) + b'\x12' + raw + enc.vwc(8, i32(3)) + b'\x12' + raw + e,
        h + b'\x16' + i32(0x800) + b'\x12' + raw + e,
        h + b'\x07' + i32(1) + b'\0' + i32(1) + i32(1) + b'\x03' + raw + enc.null() + e,
    ]


def run_string(k, n, head=b'', tail=b'', d=0, fill=119):
    """The k-th of string_positions with the text head + fill * n + tail, and a length that is off by d."""
    mark = b'\xfe\xfdMARK\xfd\xfe'
    b = string_positions(enc.varint(n + len(head) + len(tail) + d) + head + mark + tail)[k]
    pre, suf = b.split(mark, 1)
    return Run(pre, fill, n, suf.replace(mark, bytes([fill])))


ONCE = (0, 1, 3, 4, 5, 8, 9, 10, 11, 13, 14)


BAD_UTF8 = [b'\x80', b'\xbf', b'\xc0\x80', b'\xc1\xbf', b'\xc3', b'\xe0\x80\x80', b'\xe2\x82', b'\xed\xa0\x80', b'\xed\xbf\xbf', b'\xf0\x80\x80\x80', b'\xf0\x9f\x98', b'\xf4\x90\x80\x80', b'\xf5\x80\x80\x80',
            b'\xff', b'\xfe', b'\xe2\x28\xa1', b'\xc3\x28']


def c05(rng, tier):
    out = []
    good = ['', 'x', 'ab', '\0', '\u00e9', '\u20ac\u20ac', '\U0001f600', '\ufeff', '\x7f\x80', '\ud7ff\ue000\uffff\U0010ffff'] + ['q' * n for n in (2, 10, 63, 64, 95, 96, 97, 126, 127, 128, 129, 130, 191, 192, 255, 256, 257, 300)]
    good += ['\u20ac' * n for n in (31, 32, 33, 42, 43)] + ['k' * 126 + '\u00e9', 'k' * 127 + '\u00e9', '\u00e9' + 'k' * 126]
    for s in good:
        out += parse(string_positions(lps(s)))
    for s in good[:8]:
        b = s.encode()
        for w in range(2, 7):
            out += parse(rng.sample(string_positions(enc.varint(len(b), w) + b), 15 if tier > 1 else 6))
    for bad in BAD_UTF8:
        for b in (bad, b'abc' + bad, bad + b'abc', b'ab' + bad + b'c'):
            out += parse(rng.sample(string_positions(lps(b)), 15 if tier > 1 else 5))
    # prefixes that say more or less than there is
    for s in (b'hello', b'x' * 130, '\u20ac'.encode() * 3):
        for d in (-2, -1, 1, 2, 100):
            out += parse(string_positions(enc.varint(max(0, len(s) + d)) + s))
    # five groups; the fifth is out of range from 8 on
    for last in range(256):
        out.append((string_positions(b'\x85\x80\x80\x80' + bytes([last]) + b'hello')[rng.randrange(15)], ['parse']))
        out.append((string_positions(b'\x85\x80\x80\x80' + bytes([last]) + b'hello')[0], ['parse']))
    for p in (b'\x80\x80\x80\x80\x80\x00', b'\x81\x80\x80\x80\x80\x00', b'\x80\x80\x80\x80\x80\x80\x00', b'\xff\xff\xff\xff\x07', b'\xff\xff\xff\xff\x08', b'\xff\xff\xff\xff\x0f', b'\x80\x80\x80\x80\x08', b'\x80', b'\x80\x80', b'\x80\x80\x80', b'\x80\x80\x80\x80'):
        out += parse(string_positions(p + b'hello'))
    for n in (16382, 16383, 16384, 16385, 20000, 2097150, 2097151, 2097152, 2097153):
        out += [(run_string(k, n), ['parse']) for k in (ONCE if tier > 1 else rng.sample(ONCE, 5))]
    out += parse(rng.sample(string_positions(lps('w' * 3500)), 15 if tier > 1 else 5))
    # very long ones, with something else at their ends
    for n in [4000, 65535, 65536, 70000, 2**20 - 1, 2**20, 2**21 - 3, 2**24 + 5] * tier:
        for t in BAD_UTF8 + [b'', '\u00e9'.encode(), '\u20ac\u20ac'.encode(), '\U0001f600'.encode(), b'\0']:
            if n < 2**20 or rng.random() < .3:
                out.append((run_string(rng.choice(ONCE), n, tail=t + rng.choice([b'', b'z', b'zz'])), ['parse']))
                out.append((run_string(rng.choice(ONCE), n, head=rng.choice([b'', b'zz']) + t), ['parse']))
    for n in (65536, 2**21, 2**27, 2**28 - 1, 2**28, 2**28 + 5, 2**29, 2**30):
        for d in (0, -1, 1, 5):
            out.append((run_string(rng.choice(ONCE), n, d=d), ['parse']))
        out.append((run_string(0, n, tail=b'\xc3\xa9'), ['parse']))
        out.append((run_string(0, n, tail=b'\xc3'), ['parse']))
    # random texts
    for _ in range(500 * tier):
        s = ''.join(chr(rng.choice([rng.randrange(0x80), rng.randrange(0x80), rng.randrange(0x80, 0x800), rng.randrange(0x800, 0xd800), rng.randrange(0xe000, 0x10000), rng.randrange(0x10000, 0x110000)])) for _ in range(rng.randrange(0, 60)))
        b = s.encode()
        if rng.random() < .35 and b:
            m = bytearray(b)
            m[rng.randrange(len(m))] = rng.randrange(256)
            b = bytes(m)
        out.append((rng.choice(string_positions(lps(b))), ['parse']))
    out += generic(rng, 800 * tier, dict(size=12), mutate=.2)
    return out


def wide(rng, n, typed):
    names = ['m%d' % i for i in range(n)]
    rng.shuffle(names)
    ts = [rng.choice([(0, 8), (0, 2), (0, 1), (1,), (2,), (0, 13)]) for _ in names] if typed else [(2,)] * n
    body = b''
    for k, t in enumerate(ts):
        if t[0] == 0:
            body += gen.prim(rng, t[1])
        elif t[0] == 1:
            body += enc.string(1000 + k, 's%d' % k)
        else:
            body += rng.choice([enc.prim_typed(8, i32(k)), enc.null(), enc.string(1000 + k, 't%d' % k)])
    return enc.header() + (enc.sys_class_t(1, 'W', names, ts) if typed else enc.sys_class(1, 'W', names)) + body + enc.end()


def c06(rng, tier):
    out = parse(wide(rng, n, t) for n in (0, 1, 2, 20, 100, 127, 128, 255, 256, 257, 300) for t in (False, True))
    out += generic(rng, 4500 * tier, dict(members=rng.choice([3, 4, 6])), method=.05, mutate=.15)
    out += generic(rng, 800 * tier, dict(depth=6, size=80, members=6), method=.05, mutate=.1)
    return out


def c07(rng, tier):
    out = generic(rng, 3500 * tier, dict(p_meta=.85, p_ref=.4), method=.1, mutate=.15)
    out += generic(rng, 1000 * tier, dict(p_meta=.9, types=[0, 1, 2, 3, 4], depth=4, size=60), method=.0, mutate=.1)
    for _ in range(900 * tier):
        g = gen.Gen(rng, depth=3, size=25, p_meta=.85)
        t = g.message()
        ks = [i for i, x in enumerate(t) if x[0] == 'cwid']
        ids = [x[1][1:5] for x in t if x[0] in ('class', 'cwid', 'string', 'array', 'barray', 'lib')] + [i32(x) for x in (0, -1, 999)]
        if ks:
            i = rng.choice(ks)
            t[i] = ('cwid', t[i][1][:5] + rng.choice(ids))
        out.append((gen.join(t), ['parse']))
    # an object of the class of an enclosing one, at every depth
    for d in range(1, 6):
        h = enc.header()
        objs = b''.join(enc.sys_class_t(i, 'N%d' % i, ['x', 'n%d' % i], [(0, 8), (2,)]) + i32(i) for i in range(1, d + 1))
        for m in range(0, d + 3):
            out.append((h + objs + enc.class_with_id(50, m) + i32(77) + enc.null() + enc.end(), ['parse']))
            out.append((h + objs + enc.class_with_id(m, m) + i32(77) + enc.null() + enc.end(), ['parse']))
    return out


def c08(rng, tier):
    out = generic(rng, 3000 * tier, dict(p_lib=.95, types=[3, 4, 4, 4, 2, 1], p_meta=.3), method=.1, mutate=.1)
    for _ in range(1500 * tier):
        g = gen.Gen(rng, depth=3, size=25, p_lib=.95, types=[0, 1, 2, 4, 4])
        t = g.message()
        k = rng.random()
        libs = [i for i, x in enumerate(t) if x[0] == 'lib']
        ids = [x[1][1:5] for x in t if x[0] == 'lib'] + [i32(x) for x in (0, -1, 1, 2, 3, 2**31 - 1, -2**31)]
        if libs and k < .3:
            i = rng.choice(libs)
            t[i] = ('lib', t[i][1][:1] + rng.choice(ids) + t[i][1][5:])
        elif libs and k < .5:
            i = rng.choice(libs)
            x = t.pop(i)
            t.insert(rng.randrange(1, len(t)), x)
        elif libs and k < .6:
            t.insert(rng.randrange(1, len(t)), t[rng.choice(libs)])
        elif k < .9:
            cs = [i for i, x in enumerate(t) if x[0] == 'class' and x[1][0] in (3, 5)]
            if cs:
                i = rng.choice(cs)
                t[i] = ('class', t[i][1][:-4] + rng.choice(ids))
        out.append((gen.join(t), ['parse']))
    # many libraries
    for n in (2, 10, 100, 300):
        ids = list(range(1, n + 1))
        rng.shuffle(ids)
        b = enc.header(1) + enc.arr_obj(1, n)
        for k, i in enumerate(ids):
            b += enc.library(i, 'lib%d' % i) + enc.cls(1000 + k, 'C', [], i if rng.random() < .5 else rng.choice(ids[:k + 1]))
        out.append((b + enc.end(), ['parse']))
    return out


def c09(rng, tier):
    out = []
    for _ in range(2500 * tier):
        g = gen.Gen(rng, depth=2, size=18, types=rng.choice([None, [0, 1, 2, 3, 4, 5, 6, 7], [3, 4], [1, 2], [5, 6, 7]]), p_lib=.7)
        t = g.message()
        if rng.random() < .75:
            # a record in the place of another
            i = rng.randrange(1, len(t))
            j = rng.randrange(1, len(t))
            t[i] = rng.choice([t[j], ('null', enc.null()), ('ref', enc.ref(rng.choice([1, 2, 3, 4]))), ('string', enc.string(950, 's')), ('ptyped', enc.prim_typed(8, i32(1))),
                               ('class', enc.sys_class(951, rng.choice(['S', 'T', 'C', 'A']), [])), ('cwid', enc.class_with_id(952, rng.choice([1, 2, 3]))),
                               ('array', enc.arr_obj(953, 0)), ('prim', bytes(rng.choice([1, 2, 4, 8])))])
        out.append((gen.join(t), ['parse']))
    for _ in range(900 * tier):
        # another class or library, by little
        g = gen.Gen(rng, depth=2, size=12, types=rng.choice([[3], [4], [3, 4], [3, 4, 4, 2]]), p_lib=.6, p_meta=.3)
        out.append((gen.join(gen.mutate_names(rng, g.message(tops=1))), ['parse']))
    for decl in ('S', 'System.Int32', 'N.C+D', 'a', '', '\u00e9', 'q' * 127, 'q' * 200, 'A`1[[B, C]]'):
        for k in range(12):
            name = decl if k == 0 else gen.near(rng, decl)
            h = enc.header()
            out += parse([
                h + enc.sys_class_t(1, 'R', ['m'], [(3, decl)]) + enc.sys_class(2, name, []) + enc.end(),
                h + enc.binary_array(1, 0, [2], (3, decl)) + enc.sys_class(2, decl, []) + enc.sys_class(3, name, []) + enc.end(),
                h + enc.library(1, 'L') + enc.cls_t(1, 'R', ['m'], [(4, decl, 1)], 1) + enc.cls(2, name, [], 1) + enc.end(),
                h + enc.library(1, decl) + enc.cls_t(1, 'R', ['m'], [(4, 'C', 1)], 1) + enc.library(2, name) + enc.cls(2, 'C', [], 2) + enc.end(),
                h + enc.library(1, decl) + enc.cls_t(1, 'R', ['m', 'n'], [(4, 'C', 1), (4, 'C', 1)], 1) + enc.cls(2, 'C', [], 1) + enc.library(2, name) + enc.cls(3, 'C', [], 2) + enc.end(),
                h + enc.sys_class_t(1, 'R', ['m', 'n'], [(2,), (3, decl)]) + enc.sys_class(2, name, []) + enc.class_with_id(3, 2) + enc.end(),
                h + enc.library(1, 'L') + enc.cls_t(1, 'R', ['m'], [(4, decl, 1)], 1) + enc.sys_class(2, name, []) + enc.end(),
                h + enc.sys_class_t(1, 'R', ['m'], [(3, decl)]) + enc.library(1, 'L') + enc.cls(2, name, [], 1) + enc.end(),
            ])
    for _ in range(800 * tier):
        # a declared type changed, the values left
        g = gen.Gen(rng, depth=2, size=18, p_lib=.7)
        b = bytearray(gen.join(g.message()))
        for _ in range(1):
            i = rng.randrange(17, len(b))
            b[i] = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9])
        out.append((bytes(b), ['parse']))
    out += generic(rng, 1500 * tier, dict(types=[0, 1, 2, 3, 4, 5, 6, 7], p_lib=.7), method=.05, mutate=.3)
    return out


def c10(rng, tier):
    out = generic(rng, 2500 * tier, dict(p_ref=.95, p_fwd=.5, types=[1, 2, 2, 3, 5, 6, 7], depth=4, size=40), method=.15, mutate=.1)
    for _ in range(1500 * tier):
        g = gen.Gen(rng, depth=3, size=25, p_ref=.95, p_fwd=.6, types=[1, 2, 2, 5], p_odd=.05)
        t = g.message()
        rs = [i for i, x in enumerate(t) if x[0] == 'ref']
        ids = [x[1][1:5] for x in t if x[0] in ('class', 'cwid', 'string', 'array', 'barray')] + [i32(x) for x in (0, -1, 999)]
        if rs:
            i = rng.choice(rs)
            t[i] = ('ref', t[i][1][:1] + rng.choice(ids))
        out.append((gen.join(t), ['parse']))
    # one string many times
    for n in (2, 3, 10, 100, 300):
        h = enc.header()
        out.append((h + enc.arr_obj(1, n + 1) + enc.string(2, 'once') + enc.ref(2) * n + enc.end(), ['parse']))
        out.append((h + enc.arr_str(1, n) + enc.ref(2) * n + enc.string(2, 'once') + enc.end(), ['parse']))
        out.append((h + enc.string(2, 'once') + enc.sys_class(1, 'A', ['m%d' % i for i in range(n)]) + enc.ref(2) * n + enc.end(), ['parse']))
        # a chain of objects, the next by reference, depth first
        out.append((nested(min(n, 100), 'ref'), ['parse']))
        out.append((nested(min(n, 100), 'array'), ['parse']))
        # objects first, then those that refer to them
        ids = list(range(2, n + 2))
        rng.shuffle(ids)
        out.append((h + b''.join(enc.sys_class_t(i, 'O%d' % i, ['v'], [(0, 8)]) + i32(i) for i in sorted(ids)) + enc.arr_obj(1, n) + b''.join(enc.ref(i) for i in ids) + enc.end(), ['parse']))
        out.append((h + enc.arr_obj(1, n) + b''.join(enc.ref(i) for i in ids) + b''.join(enc.sys_class_t(i, 'O%d' % i, ['v'], [(0, 8)]) + i32(i) for i in ids) + enc.end(), ['parse']))
    return out


def null_runs(rng, left):
    b = b''
    n = 0
    while left > 0:
        if rng.random() < .5:
            k = rng.choice([1, 2, 3, 127, 128, 254, 255, 256, 257, left, left])
            k = min(k, left)
            c = [enc.nulls(k)]
            if k < 256:
                c.append(enc.nulls256(k))
            if k == 1:
                c.append(enc.null())
            b += rng.choice(c)
            left -= k
        else:
            n += 1
            b += enc.string(5000 + n, 's%d' % n)
            left -= 1
    return b


def c11(rng, tier):
    out = []
    h = enc.header()
    for n in (0, 1, 2, 3, 126, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513):
        for _ in range(3 * tier):
            mk = [enc.arr_obj(1, n), enc.arr_str(1, n), enc.binary_array(1, 0, [n], (1,)), enc.binary_array(1, 0, [n], (2,)), enc.binary_array(1, 3, [n], (2,), [2])]
            for a in rng.sample(mk, 3):
                out.append((h + a + null_runs(rng, n) + enc.end(), ['parse']))
                # one element too many or too few
                out.append((h + a + null_runs(rng, n + 1) + enc.end(), ['parse']))
                if n:
                    out.append((h + a + null_runs(rng, n - 1) + enc.end(), ['parse']))
        for k in (n - 1, n, n + 1):
            out += parse(h + a + r + enc.end() for a in (enc.arr_obj(1, n), enc.arr_str(1, n), enc.binary_array(1, 0, [n], (3, 'S')))
                         for r in ([enc.nulls(k)] + ([enc.nulls256(k)] if 0 <= k < 256 else [])))
    for n in (1000, 4096, 65535, 65536, 65537):
        out += parse([h + enc.arr_obj(1, n) + enc.nulls(n) + enc.end(), h + enc.arr_obj(1, n) + enc.nulls(n - 1) + enc.string(2, 'x') + enc.end(), h + enc.arr_str(1, n) + enc.nulls(n + 1) + enc.end(),
                      h + enc.arr_prim(1, n, 2) + bytes(n) + enc.end(), h + enc.arr_prim(1, n, 2) + bytes(n - 1) + enc.end()])
    # runs in classes: one null only
    for r in (enc.null(), enc.nulls256(1), enc.nulls(1), enc.nulls256(2), enc.nulls(2), enc.nulls256(0), enc.nulls(0), enc.nulls(-1), enc.nulls(2**31 - 1), enc.nulls256(255)):
        for names in (['a'], ['a', 'b'], ['a', 'b', 'c']):
            for k in range(len(names)):
                m = [enc.null()] * len(names)
                m[k] = r
                out.append((h + enc.sys_class(1, 'A', names) + b''.join(m) + enc.end(), ['parse']))
                out.append((h + enc.sys_class_t(1, 'A', names, [(1,)] * len(names)) + b''.join(m) + enc.end(), ['parse']))
                out.append((h + enc.sys_class_t(1, 'A', names, [(3, 'S')] * len(names)) + b''.join(m[:len(names) - 1] if rng.random() < .3 else m) + enc.end(), ['parse']))
    for n in (-2**31, -2, -1):
        out += parse([h + enc.arr_obj(1, n) + enc.end(), h + enc.arr_str(1, n) + enc.end(), h + enc.arr_prim(1, n, 2) + enc.end(), h + enc.binary_array(1, 0, [n], (2,)) + enc.end(),
                      h + enc.binary_array(1, 2, [2, n], (2,)) + enc.end(), h + enc.binary_array(1, 2, [n, n], (0, 2)) + enc.end()])
    out += generic(rng, 2200 * tier, dict(maxlen=9, types=[1, 2, 5, 6, 7], arrays=True), method=.2, mutate=.25)
    return out


def shaped(rng, big=False):
    """A random BinaryArray; what its references wait for follows it."""
    at = rng.choice([0, 1, 2, 2, 2, 3, 4, 5, 5])
    rank = rng.choice([1, 2, 2, 3, 3, 4, 5, 6]) if at in (2, 5) else 1
    while True:
        lens = [rng.choice([1, 1, 2, 2, 3, 4] + ([7, 16, 40] if big else [])) for _ in range(rank)]
        n = 1
        for x in lens:
            n *= x
        if n <= (3000 if big else 120):
            break
    t = rng.choice([(0, 8), (0, 2), (0, 1), (0, 3), (0, 5), (0, 13), (0, 9), (1,), (2,), (2,), (3, 'S'), (4, 'C', 3), (5,), (6,), (7, 8), (7, 2)])
    lows = [rng.choice([0, 0, 1, 2, 5, 2**31 - 1]) for _ in lens] if at >= 3 else None
    b = enc.library(3, 'L') + enc.binary_array(1, at, lens, t, lows)
    waits = b''
    k = 0
    left = n
    while left > 0:
        k += 1
        if t[0] == 0:
            pt = t[1]
            b += gen.prim(rng, pt) if pt in (3, 5, 1) else (k * 7919 % (1 << (8 * gen.FIXED[pt] - 2))).to_bytes(gen.FIXED[pt], 'little')
        elif rng.random() < .15 and left > 1:
            r = rng.randrange(1, left)
            b += enc.nulls256(r) if r < 256 else enc.nulls(r)
            left -= r
            continue
        elif t[0] == 1:
            b += rng.choice([enc.string(100 + k, 's%d' % k), enc.null()])
        elif t[0] == 2:
            b += rng.choice([enc.prim_typed(8, i32(k)), enc.string(100 + k, 's%d' % k), enc.null(), enc.sys_class(100 + k, 'E%d' % k, [])])
        elif t[0] == 3:
            b += rng.choice([enc.sys_class_t(100 + k, 'S', ['v'], [(0, 8)]) + i32(k), enc.null()])
        elif t[0] == 4:
            b += rng.choice([enc.cls_t(100 + k, 'C', ['v'], [(0, 8)], 3) + i32(k), enc.null()])
        else:
            if rng.random() < .3:
                b += enc.null()
            else:
                b += enc.ref(4000 + k)
                waits += {5: enc.arr_obj(4000 + k, 1) + enc.prim_typed(2, b'\x07'), 6: enc.arr_str(4000 + k, 1) + enc.null(), 7: enc.arr_prim(4000 + k, k % 4, t[1] if t[0] == 7 else 2)}[t[0]]
                if t[0] == 7:
                    waits += (b'\x05' + bytes(gen.FIXED[t[1]] - 1)) * (k % 4)
        left -= 1
    return enc.header() + b + waits + enc.end()


def c12(rng, tier):
    out = parse(shaped(rng) for _ in range(2500 * tier))
    out += parse(shaped(rng, True) for _ in range(60 * tier))
    for _ in range(400 * tier):
        out.append((gen.mutate_bytes(rng, shaped(rng)[:17] + shaped(rng)[17:]), ['parse']))
    h = enc.header()
    for rank in (7, 8, 16, 31, 32, 33, 40):
        for at in (2, 5):
            out.append((h + enc.binary_array(1, at, [1] * rank, (0, 2), [0] * rank if at == 5 else None) + b'\x2a' + enc.end(), ['parse']))
            out.append((h + enc.binary_array(1, at, [1] * (rank - 1) + [2], (0, 2), [3] * rank if at == 5 else None) + b'\x2a\x2b' + enc.end(), ['parse']))
            out.append((h + enc.binary_array(1, at, [2] + [1] * (rank - 1), (2,), [3] * rank if at == 5 else None) + enc.null() * 2 + enc.end(), ['parse']))
    # no dimension at all; with as many lengths or bounds as there would be otherwise
    for at in range(7):
        for t, e in (((0, 2), b'\7'), ((2,), enc.null()), ((1,), enc.string(2, 's')), ((0, 8), i32(3))):
            for k in (0, 1, 2):
                for lens, lows in (([], []), ([1], []), ([], [1]), ([k], [0]), ([k, 1], [0]), ([1, k], [0, 0])):
                    b = b'\x07' + i32(1) + bytes([at]) + i32(0 if k < 2 or not lens else len(lens)) + b''.join(map(i32, lens)) + b''.join(map(i32, lows)) + bytes([t[0]]) + enc.type_extra(t)
                    out.append((h + b + e * k + enc.end(), ['parse']))
    # dimensions whose product fits nowhere, with and without a dimension of no length
    for n in (2**16, 2**20, 2**24, 2**31 - 1):
        for rank in (2, 3, 4, 5, 8):
            for at in (2, 5):
                lows = [1] * rank if at == 5 else None
                for z in [None] + list(range(rank)):
                    lens = [0 if k == z else n for k in range(rank)]
                    out.append((h + enc.binary_array(1, at, lens, (0, 2), lows) + enc.end(), ['parse']))
                    out.append((h + enc.arr_obj(1, 1) + enc.ref(2) + enc.binary_array(2, at, lens, (2,), lows) + enc.end(), ['parse']))
    # as a member, referenced; inside arrays of arrays
    for _ in range(300 * tier):
        b = shaped(rng)[17:-1].replace(i32(1), i32(1))
        out.append((enc.header(900) + enc.sys_class(900, 'R', ['a', 'b']) + enc.ref(1) + enc.null() + b + enc.end(), ['parse']))
        out.append((enc.header(900) + b + enc.arr_obj(900, 2) + enc.null() + enc.ref(1) + enc.end(), ['parse']))
    return out


def c13(rng, tier):
    out = []
    for _ in range(2500 * tier):
        g = gen.Gen(rng, depth=3, size=25, p_meta=.4)
        t = g.method() if rng.random() < .25 else g.message()
        recs = [i for i, x in enumerate(t) if x[0] in ('class', 'cwid', 'string', 'array', 'barray', 'callarray')]
        x = rng.random()
        if recs and x < .75:
            i = rng.choice(recs)
            new = rng.choice([t[rng.choice(recs)][1][1:5]] * 4 + [i32(0), i32(-1), i32(-2**31), i32(2**31 - 1), i32(12345)])
            old = t[i][1][1:5]
            t[i] = (t[i][0], t[i][1][:1] + new + t[i][1][5:])
            if rng.random() < .4:
                # with what refers to it
                t = [(k, b[:1] + new + b[5:]) if k == 'ref' and b[1:5] == old else (k, b) for k, b in t]
        out.append((gen.join(t), ['parse']))
    out += generic(rng, 1500 * tier, dict(ids='sparse'), mutate=.15)
    out += generic(rng, 600 * tier, dict(ids='shuf', p_lib=.9), mutate=.1)
    return out


def methods(rng, n, ret):
    out = []
    for _ in range(n):
        g = gen.Gen(rng, depth=2, size=16)
        t = g.method(ret)
        x = rng.random()
        if x < .7:
            b = gen.join(t)
        elif x < .8:
            # other flags for the same records
            i = next(i for i, y in enumerate(t) if y[0] in ('call', 'return'))
            fl = struct.unpack('<i', t[i][1][1:5])[0] ^ (1 << rng.randrange(16))
            t[i] = (t[i][0], t[i][1][:1] + i32(fl) + t[i][1][5:])
            b = gen.join(t)
        elif x < .9:
            b = gen.join(gen.mutate_records(rng, t))
        elif x < .95:
            b = gen.join(gen.mutate_ids(rng, t))
        else:
            b = gen.mutate_bytes(rng, gen.join(t))
        out.append((b, ['parse']))
    return out


def method_shapes(rng, ret, tier):
    """Every sensible combination of flags with call arrays of every kind."""
    out = []
    h = enc.header(1)
    rets = [0, 512, 1024, 2048, 4096] if ret else [0]
    for a, c, r in itertools.product([0, 1, 2, 4, 8], [0, 16, 32, 64], rets):
        fl = a | c | r
        args = [enc.vwc(8, i32(5)), enc.svwc('arg'), enc.vwc(17)] if a == 2 else None
        ctx = 'ctx' if c == 32 else None
        m = enc.method_return(fl, enc.vwc(9, bytes(range(8))), ctx, args) if ret and r == 2048 else enc.method_return(fl, None, ctx, args) if ret else enc.method_call(fl, 'Name', 'Type', ctx, args)
        i = [enc.prim_typed(8, i32(k)) for k in range(10)]
        arg_arrays = [enc.arr_obj(2, 2) + i[1] + enc.string(3, 'y'), enc.arr_prim(2, 3, 2) + b'\1\2\3', enc.arr_str(2, 1) + enc.null(), enc.arr_obj(2, 0), enc.binary_array(2, 2, [2, 2], (0, 2)) + b'\1\2\3\4']
        arrays = [b'', enc.arr_obj(1, 0), enc.arr_obj(1, 1) + i[1], enc.arr_obj(1, 2) + i[1] + i[2], enc.arr_obj(1, 3) + i[1] + enc.string(7, 'z') + enc.null(), enc.arr_obj(1, 2) + enc.nulls256(2),
                  enc.arr_obj(1, 1) + enc.null(), enc.arr_obj(1, 2) + enc.sys_class_t(8, 'O', ['v'], [(0, 8)]) + i32(3) + i[4], enc.arr_str(1, 1) + enc.null(), enc.arr_obj(5, 1) + i[0]]
        for x in arg_arrays:
            arrays += [enc.arr_obj(1, 1) + enc.ref(2) + x, enc.arr_obj(1, 2) + enc.ref(2) + i[3] + x, enc.arr_obj(1, 3) + enc.ref(2) + enc.string(9, 'q') + i[4] + x, enc.arr_obj(1, 2) + i[3] + enc.ref(2) + x]
        arrays += [enc.arr_obj(1, 2) + enc.ref(2) + enc.ref(4) + arg_arrays[0] + enc.arr_obj(4, 1) + i[6], enc.arr_obj(1, 2) + enc.ref(2) + enc.ref(4) + enc.string(2, 'noarray') + enc.arr_prim(4, 1, 2) + b'\x09']
        for b in arrays:
            out.append((h + m + b + enc.end(), ['parse']))
        out.append((h + enc.sys_class(2, 'B', []) + m + arrays[3] + enc.end(), ['parse']))
        out.append((h + arg_arrays[0] + m + enc.arr_obj(1, 2) + enc.ref(2) + i[1] + enc.end(), ['parse']))
        out.append((h + m + arrays[3] + enc.string(60, 'more') + enc.end(), ['parse']))
        out.append((h + m + enc.library(4, 'L') + arrays[2] + enc.end(), ['parse']))
        out.append((enc.header(0) + m + arrays[2] + enc.end(), ['parse']))
        out.append((enc.header(5) + m + arrays[9] + enc.end(), ['parse']))
    return out


def c14(rng, tier):
    return method_shapes(rng, False, tier) + methods(rng, 3500 * tier, False)


def c15(rng, tier):
    return method_shapes(rng, True, tier) + methods(rng, 2500 * tier, True)


def flag_message(rng, fl, ret):
    """A message with what its flags announce, as far as that is possible."""
    args = [enc.vwc(8, i32(5))] if fl & 2 else None
    ctx = 'ctx' if fl & 32 else None
    m = enc.method_return(fl, enc.vwc(2, b'\x2a') if fl & 0x800 else None, ctx, args) if ret else enc.method_call(fl, 'Name', 'Type', ctx, args)
    b = enc.header(1) + m
    if fl & 8:
        b += enc.arr_obj(1, 3) + enc.ref(2) + enc.prim_typed(8, i32(9)) + enc.null() + enc.arr_prim(2, 2, 2) + b'\1\2'
    elif fl & (4 | 64 | 128 | 256 | 4096 | 8192):
        b += enc.arr_obj(1, 2) + enc.prim_typed(8, i32(9)) + enc.null()
    return b + enc.end()


def c16(rng, tier):
    out = []
    legal = [a | c | r | x for a in (0, 1, 2, 4, 8) for c in (0, 16, 32, 64) for r in (0, 512, 1024, 2048, 4096) for x in (0, 128, 8192, 128 | 8192)]
    for fl in legal:
        for extra in (0, 256, 16384, 32768, 256 | 32768):
            out += parse([flag_message(rng, fl | extra, False), flag_message(rng, fl | extra, True)])
    for fl in legal:
        # one flag more
        for _ in range(3 * tier):
            f = fl | 1 << rng.randrange(16)
            out += parse([flag_message(rng, f, rng.random() < .5)])
    for _ in range(1500 * tier):
        fl = 0
        for _ in range(rng.choice([1, 2, 2, 3, 4, 5])):
            fl |= 1 << rng.randrange(15)
        out.append((flag_message(rng, fl, rng.random() < .5), ['parse']))
    return out


def c17(rng, tier):
    out = []
    for _ in range(700 * tier):
        g = gen.Gen(rng, depth=2, size=24, p_ref=.3)
        t = g.message(tops=rng.choice([1, 2, 3, 4, 5]))
        b = gen.join(t)
        ids = [struct.unpack('<i', x[1][1:5])[0] for x in t if x[0] in ('class', 'cwid', 'string', 'array', 'barray')]
        roots = [0, g.root, 999] + rng.sample(ids, min(len(ids), 4))
        for r in dict.fromkeys(roots):
            if r >= 0:
                out.append((enc.header(r, rng.choice([-1, 0, 5])) + b[17:], ['parse']))
    # the root at every position among n objects
    for n in (2, 3, 5, 10):
        for k in range(n):
            recs = [enc.sys_class_t(i + 1, 'O%d' % (i + 1), ['v'], [(0, 8)]) + i32(i) if (i + k) % 3 else enc.string(i + 1, 's%d' % i) if (i + k) % 2 else enc.arr_prim(i + 1, 1, 2) + bytes([i]) for i in range(n)]
            out.append((enc.header(k + 1) + b''.join(recs) + enc.end(), ['parse']))
            rng.shuffle(recs)
            out.append((enc.header(k + 1) + b''.join(recs) + enc.end(), ['parse']))
    # roots that name something in front of a method record, behind it, in it, or nothing
    for k in range(600 * tier):
        ret = rng.random() < .5
        args = rng.choice([1, 1, 2, 4, 8])
        ctx = rng.choice([16, 16, 32, 64])
        rv = rng.choice([0x200, 0x400, 0x800, 0x1000]) if ret else 0
        body = b''
        if ret and rv == 0x800:
            body += enc.vwc(8, i32(3))
        if ctx == 32:
            body += enc.vwc(18, lps('ctx'))
        if args == 2:
            body += i32(1) + enc.vwc(8, i32(4))
        flags = args | ctx | rv
        rec = b'\x16' + i32(flags) + body if ret else b'\x15' + i32(flags) + enc.vwc(18, lps('M')) + enc.vwc(18, lps('T')) + body
        inner = rng.choice([enc.null(), enc.ref(7) + enc.ref(7), enc.string(8, 's'), enc.prim_typed(8, i32(1)), b''])
        n = 2 if inner == enc.ref(7) * 2 else 1 if inner else 0
        call = enc.arr_obj(5, n) + inner + (enc.string(7, 'late') if enc.ref(7) in inner else b'') if args > 2 or rv == 0x1000 or ctx == 64 or rng.random() < .3 else b''
        some = lambda i: rng.choice([enc.string(i, 'x%d' % i), enc.arr_obj(i, 1) + enc.null(), enc.arr_obj(i, 0), enc.arr_prim(i, 2, 2) + b'\1\2', enc.sys_class(i, 'A', ['a']) + enc.null(), enc.arr_str(i, 1) + enc.null()])
        pre = b''.join(some(i) for i in rng.sample([1, 2, 3], rng.choice([0, 0, 1, 2])))
        post = b''.join(some(i) for i in rng.sample([11, 12], rng.choice([0, 0, 1])))
        for root in rng.sample([0, 1, 2, 3, 5, 5, 7, 8, 11, 12, 99], 4) + [5]:
            out.append((enc.header(root) + pre + rec + call + post + enc.end(), ['parse']))
    out += generic(rng, 1000 * tier, dict(p_ref=.3, ids='shuf'), method=0, mutate=.2)
    return out


BOXES = {1: 'Boolean', 2: 'Byte', 3: 'Char', 6: 'Double', 7: 'Int16', 8: 'Int32', 9: 'Int64', 10: 'SByte', 11: 'Single', 14: 'UInt16', 15: 'UInt32', 16: 'UInt64'}


def edge_ints(rng, tier):
    vs = set()
    for k in (0, 7, 8, 15, 16, 31, 32, 53, 63, 64):
        for d in (-1, 0, 1):
            vs |= {(1 << k) + d, -(1 << k) + d}
    return sorted(vs) + [rng.getrandbits(64) - 2**63 for _ in range(10 * tier)]


def c18(rng, tier):
    out = []
    h = enc.header()
    vals = []
    for pt in gen.UNTYPED:
        if pt in (1, 2, 10):
            vals += [(pt, bytes([x])) for x in ((0, 1) if pt == 1 else (0, 1, 5, 47, 48, 65, 126, 127, 128, 129, 200, 254, 255))]
        elif pt == 3:
            vals += [(3, c.encode()) for c in gen.CHARS]
        elif pt == 5:
            vals += [(5, lps(d)) for d in gen.DECIMALS]
        elif pt in (6, 11):
            w = gen.FIXED[pt]
            vals += [(pt, struct.pack('<d' if w == 8 else '<f', x)) for x in (0.0, -0.0, 1.0, -1.5, 1e10, float('inf'), float('-inf'), float('nan'), 3.0)]
            vals += [(pt, (x & ((1 << 8 * w) - 1)).to_bytes(w, 'little')) for x in (1, 0x7f800001, 0x7ff0000000000001, 0xffffffffffffffff, 0x8000000000000000, 0x80000000)]
        else:
            w = gen.FIXED[pt]
            vals += [(pt, (x & ((1 << 8 * w) - 1)).to_bytes(w, 'little')) for x in edge_ints(rng, tier)]
    some = lambda: ['any'] + rng.sample(SCALARS, 12) + rng.sample(SEQS + MAPS, 3)
    for pt, p in vals:
        kinds = [None]
        # directly: as the single element, as a member
        inner = {2: 'vec_u8', 8: 'vec_i32', 9: 'vec_i64'}.get(pt, 'vec_any')
        out.append((h + enc.arr_prim(1, 2, pt) + p + p + enc.end(), ['vec_any', inner, 'vec_i32', 'vec_i64', 'vec_u8', 'vec_string', 'vec_str', 'arr2_i32', 'vec_opt_i32', 'vec_opt_string']))
        out.append((value_msg((0, pt), p), ['map_any', 'map_i32', 'map_opt_i32', 'anys', 'ab', 'optab']))
        if pt in BOXES:
            name = 'System.' + BOXES[pt]
            out.append((h + enc.sys_class_t(1, name, ['m_value'], [(0, pt)]) + p + enc.end(), SCALARS if tier > 1 or rng.random() < .3 else some()))
            out.append((h + enc.sys_class(1, name, ['m_value']) + enc.prim_typed(pt, p) + enc.end(), some()))
            other = rng.choice(list(BOXES.values()))
            out.append((h + enc.sys_class_t(1, 'System.' + other, ['m_value'], [(0, pt)]) + p + enc.end(), some()))
            out.append((h + enc.sys_class_t(1, name, ['m_value', 'x'], [(0, pt), (0, 2)]) + p + b'\0' + enc.end(), some()))
            out.append((h + enc.library(2, 'L') + enc.cls_t(1, name, ['m_value'], [(0, pt)], 2) + p + enc.end(), ['any', 'map_any', 'boxraw', 'i32', 'i64', 'u8', 'bool']))
            out.append((h + enc.arr_obj(1, 2) + enc.sys_class_t(2, name, ['m_value'], [(0, pt)]) + p + enc.class_with_id(3, 2) + p + enc.end(), ['vec_any', 'vec_i32', 'vec_i64', 'vec_u8', 'vec_string', 'vec_opt_i32', 'arr2_any', 'vec_ignored']))
            out.append((h + enc.sys_class(1, 'R', ['a', 'b']) + enc.sys_class_t(2, name, ['m_value'], [(0, pt)]) + p + enc.string(3, 'bb') + enc.end(), ['ab', 'optab', 'map_any', 'map_i32', 'anys', 'opt_ab']))
        else:
            out.append((h + enc.sys_class(1, 'System.' + enc.PRIM_NAME[pt], ['m_value']) + enc.prim_typed(pt, p) + enc.end(), some()))
    for s in gen.TEXTS:
        out.append((h + enc.string(1, s) + enc.end(), SCALARS))
        out.append((h + enc.sys_class(1, 'System.' + rng.choice(['Char', 'String', 'Int32', 'Boolean']), ['m_value']) + enc.string(2, s) + enc.end(), some()))
    # other names of boxes and of what is in them
    for pt, box in BOXES.items():
        p = gen.prim(rng, pt)
        name = 'System.' + box
        for other in gen.dotnet(name) + [gen.near(rng, name) for _ in range(4 * tier)]:
            out.append((h + enc.sys_class_t(1, other, ['m_value'], [(0, pt)]) + p + enc.end(), ['any', 'map_any', 'boxraw'] + rng.sample(SCALARS, 3)))
        for other in rng.sample(gen.dotnet('m_value'), 12) + ['value', '']:
            out.append((h + enc.sys_class_t(1, name, [other], [(0, pt)]) + p + enc.end(), ['any', 'map_any', 'boxraw'] + rng.sample(SCALARS, 3)))
            out.append((h + enc.sys_class_t(1, name, ['m_value', other] if rng.random() < .5 else [other, 'm_value'], [(0, pt)] * 2) + p + p + enc.end(), ['any', 'boxraw'] + rng.sample(SCALARS, 2)))
    out.append((enc.header(0) + enc.end(), TARGETS))
    out += fits.items(rng, SCALARS, 30 * tier, SCALARS)
    return out


def a_value(rng, k, depth=1):
    """A member or element of any kind, in an Object place."""
    x = rng.random()
    if x < .3:
        return enc.prim_typed(8, i32(rng.choice([0, 1, 5, -1, 2**31 - 1, 300])))
    if x < .5:
        pt = rng.choice(gen.UNTYPED)
        return enc.prim_typed(pt, gen.prim(rng, pt))
    if x < .7:
        return enc.string(k, rng.choice(['x', '', 'hello', '\u00e9', 'c']))
    if x < .8:
        return enc.null()
    if x < .9 or depth == 0:
        pt = rng.choice([8, 9, 2, 1])
        return enc.sys_class_t(k, 'System.' + BOXES[pt], ['m_value'], [(0, pt)]) + gen.prim(rng, pt)
    names = rng.choice([['a', 'b'], ['b', 'a'], ['a'], ['b'], [], ['a', 'b', 'c'], ['inner', 'z'], ['x']])
    return enc.sys_class(k, rng.choice(['A', 'B']), names) + b''.join(a_value(rng, k * 10 + i, depth - 1) for i in range(1, len(names) + 1))


def an_array(rng, oid, n=None, base=100):
    n = rng.choice([0, 1, 2, 3, 3, 5]) if n is None else n
    x = rng.random()
    if x < .35:
        pt = rng.choice([8, 8, 8, 2, 9, 1, 3, 16, 15, 11, 6, 5, 13, 12])
        return enc.arr_prim(oid, n, pt) + b''.join(gen.prim(rng, pt) for _ in range(n))
    if x < .5:
        return enc.arr_str(oid, n) + b''.join(rng.choice([enc.string(base + i, 's%d' % i), enc.null()]) for i in range(n))
    if x < .85:
        return enc.arr_obj(oid, n) + b''.join(a_value(rng, base * (i + 1)) for i in range(n))
    lens = rng.choice([[2, 2], [1, 3], [2, 1, 2]])
    n = 1
    for y in lens:
        n *= y
    return enc.binary_array(oid, 2, lens, (0, 8)) + b''.join(i32(i + 10) for i in range(n))


LIST = 'System.Collections.Generic.List`1'


def c19(rng, tier):
    out = []
    h = enc.header()
    seqs = lambda: ['vec_any'] + rng.sample(SEQS, 14) + rng.sample(SCALARS + MAPS, 2)
    for _ in range(900 * tier):
        out.append((h + an_array(rng, 1) + enc.end(), seqs()))
    for _ in range(900 * tier):
        n = rng.choice([0, 1, 2, 3, 4])
        size = rng.choice([n, n, n, n - 1, n + 1, 0, -1, 1, 2, 2**31 - 1, -2**31, 256])
        name = rng.choice([LIST, LIST, LIST + '[[System.Int32, mscorlib]]', LIST[:-2], LIST + '`2', 'System.Collections.Generic.Lis', LIST[:-2] + '1', 'My.List`1'])
        ms = [('_items', rng.choice([(5,), (6,), (7, 8), (2,)])), ('_size', (0, 8)), ('_version', (0, 8))]
        if rng.random() < .25:
            i = rng.randrange(3)
            k = rng.random()
            if k < .3:
                del ms[i]
            elif k < .5:
                ms.append(('_syncRoot', (2,)))
            elif k < .7:
                ms[i] = (ms[i][0], rng.choice([(0, 9), (0, 15), (0, 2), (2,), (1,), (0, 7)]))
            else:
                ms[i] = (rng.choice(['items', '_Items', '_capacity', '']), ms[i][1])
        if rng.random() < .4:
            rng.shuffle(ms)
        body = b''
        tail = b''
        for m, t in ms:
            if t[0] == 0:
                w = gen.FIXED[t[1]]
                v = size if m == '_size' else 77
                body += (v & ((1 << 8 * w) - 1)).to_bytes(w, 'little')
            elif t[0] == 1:
                body += enc.null()
            elif m == '_items' or rng.random() < .3 and not tail:
                x = rng.random()
                if x < .85 and not tail:
                    body += enc.ref(2)
                    tail = an_array(rng, 2, n)
                elif x < .95 or t[0] != 2:
                    body += enc.null()
                else:
                    body += enc.prim_typed(8, i32(3))
            else:
                body += enc.prim_typed(8, i32(size)) if m == '_size' else enc.null()
        names = [m for m, _ in ms]
        types = [t for _, t in ms]
        if rng.random() < .9:
            rec = enc.sys_class_t(1, name, names, types)
        else:
            rec = enc.library(3, 'L') + enc.cls_t(1, name, names, types, 3)
        out.append((h + rec + body + tail + enc.end(), seqs() + ['listraw', 'map_any']))
    out += fits.items(rng, SEQS, 25 * tier, SEQS)
    # other names of lists and their members
    for k in range(3):
        ms = ['_items', '_size', '_version']
        for other in gen.dotnet(ms[k]) + [gen.near(rng, ms[k]) for _ in range(4 * tier)]:
            for extra in (0, 1):
                names = ms[:k] + [other] + ms[k + 1:] + ms[k:k + 1] * extra
                ts = [{'_items': (7, 8), '_size': (0, 8), '_version': (0, 8)}[m] for m in ms]
                ts = ts + ts[k:k + 1] * extra
                out.append((h + enc.sys_class_t(1, LIST, names, ts) + b''.join(enc.ref(2) if t[0] == 7 and (k or m == '_items' or not extra) else enc.null() if t[0] == 7 else i32(2) for m, t in zip(names, ts)) + enc.arr_prim(2, 2, 8) + bytes(8) + enc.end(), ['vec_any', 'vec_i32', 'map_any', 'listraw', 'arr2_any']))
    for other in gen.dotnet(LIST) + gen.dotnet(LIST[:-2]) + [gen.near(rng, LIST) for _ in range(9 * tier)]:
        out.append((h + enc.sys_class_t(1, other, ['_items', '_size', '_version'], [(7, 8), (0, 8), (0, 8)]) + enc.ref(2) + i32(1) + i32(0) + enc.arr_prim(2, 2, 8) + bytes(8) + enc.end(), ['vec_any', 'vec_i32', 'map_any', 'listraw', 'any']))
    # lists in objects and arrays
    for _ in range(150 * tier):
        lst = lambda i, n, s: enc.sys_class_t(i, LIST, ['_items', '_size', '_version'], [(7, 8), (0, 8), (0, 8)]) + enc.ref(i + 1) + i32(s) + i32(0) + enc.arr_prim(i + 1, n, 8) + b''.join(i32(x) for x in range(n))
        n, s, n2, s2 = (rng.choice([0, 1, 2, 3, 4]) for _ in range(4))
        out.append((h + enc.sys_class(1, 'R', ['a', 'b']) + enc.ref(10) + enc.ref(20) + lst(10, n, s) + lst(20, n2, s2) + enc.end(), ['map_vec_any', 'map_any', 'anys', 'optab', 'map_i32', 'map_ignored']))
        out.append((h + enc.arr_obj(1, 2) + enc.ref(10) + enc.ref(20) + lst(10, n, s) + lst(20, n2, s2) + enc.end(), ['vec_vec_i32', 'vec_vec_any', 'vec_any', 'arr2_any', 'arr3_any', 'vec_ignored', 'tup_any_opt_any']))
    # sizes around the borders
    for n in (10, 127, 128, 255, 256, 257):
        for s in (n - 1, n, n + 1, n // 2):
            out.append((h + enc.sys_class_t(1, LIST, ['_items', '_size', '_version'], [(7, 8), (0, 8), (0, 8)]) + enc.ref(2) + i32(s) + i32(0) + enc.arr_prim(2, n, 8) + b''.join(i32(x) for x in range(n)) + enc.end(), ['vec_i32', 'vec_any', 'vec_i64', 'vec_u8']))
        out.append((h + enc.arr_prim(1, n, 8) + b''.join(i32(x) for x in range(n)) + enc.end(), ['vec_i32', 'vec_any', 'vec_i64', 'vec_u8', 'arr3_i32']))
    return out


def c20(rng, tier):
    out = []
    h = enc.header()
    maps = lambda: ['map_any'] + rng.sample(MAPS, 12) + rng.sample(['any', 'opt_any', 'ignored', 'vec_any', 'unit', 'opt_unit', 'string', 'i32', 'tup3', 'arr2_any'], 3)
    for _ in range(1300 * tier):
        names = rng.choice([['a', 'b'], ['b', 'a'], ['a'], ['b'], [], ['a', 'b', 'c'], ['c', 'b', 'a'], ['x', 'a', 'y', 'b'], ['inner', 'z'], ['z', 'inner'], ['n', 'a'], ['A', 'B'], ['a', 'b', 'zz'], ['_size', '_items', '_version'],
                            ['m_value'], ['a\u00e9', 'b']])
        lib = rng.random() < .3
        typed = rng.random() < .5
        types = []
        body = b''
        for i, m in enumerate(names):
            t = (2,)
            if typed:
                t = rng.choice([(0, 8), (2,)] if m in 'ac' else [(1,), (2,), (1,)] if m == 'b' else [(2,), (0, 9)])
            types.append(t)
            if t == (0, 8):
                body += i32(rng.choice([0, 5, -7, 2**31 - 1]))
            elif t == (0, 9):
                body += bytes(8)
            elif t == (1,):
                body += rng.choice([enc.null(), enc.string(50 + i, 'text%d' % i)])
            elif m == 'a' and rng.random() < .6:
                body += enc.prim_typed(8, i32(i))
            elif m == 'b' and rng.random() < .6:
                body += enc.string(50 + i, 'text%d' % i)
            elif m == 'inner' and rng.random() < .8:
                body += enc.sys_class_t(60, 'In', ['b', 'a'], [(1,), (0, 8)]) + enc.string(61, 'ib') + i32(3)
            elif m == 'z' and rng.random() < .8:
                body += enc.ref(70)
            elif m == 'n' and rng.random() < .8:
                body += enc.sys_class(80, 'Nn', ['n', 'a']) + rng.choice([enc.null(), enc.sys_class(81, 'Nn', ['a']) + enc.null()]) + rng.choice([enc.null(), enc.sys_class(82, 'In', ['a', 'b']) + enc.prim_typed(8, i32(4)) + enc.string(83, 'q')])
            else:
                body += a_value(rng, 100 * (i + 1))
        tail = enc.arr_prim(70, 2, 9) + bytes(16) if enc.ref(70) in body else b''
        cname = rng.choice(['A', 'Ns.Type', 'System.Object', 'System.Thing`1', ''])
        if lib:
            rec = enc.library(9, 'L') + (enc.cls_t(1, cname, names, types, 9) if typed else enc.cls(1, cname, names, 9))
        else:
            rec = enc.sys_class_t(1, cname, names, types) if typed else enc.sys_class(1, cname, names)
        out.append((h + rec + body + tail + enc.end(), maps()))
    # a member of each type, with the value it wants or another
    wide = dict(bo=1, by=2, ch=3, da=13, de=5, dou=6, i1=7, i3=8, i6=9, nu=17, sb=10, si=11, st=18, ti=12, u1=14, u3=15, u6=16)
    for k in range(450 * tier):
        names = list(wide) if k % 9 == 0 else rng.sample(list(wide), rng.randrange(1, 9))
        rng.shuffle(names)
        typed = rng.random() < .6
        ts, body = [], b''
        for i, m in enumerate(names):
            pt = wide[m] if rng.random() < .97 else rng.choice(gen.UNTYPED)
            if pt == 17 or rng.random() < .05:
                ts.append((2,)), (body := body + enc.null())
            elif pt == 18:
                ts.append((1,) if typed else (2,)), (body := body + enc.string(500 + i, rng.choice(['', 'x', 'text'])))
            elif typed:
                ts.append((0, pt)), (body := body + gen.prim(rng, pt))
            else:
                ts.append((2,)), (body := body + enc.prim_typed(pt, gen.prim(rng, pt)))
        out.append((h + enc.sys_class_t(1, 'W', names, ts) + body + enc.end(), ['wide', 'map_any', 'any'] if k % 3 else ['wide', 'vec_wide', 'map_untagged', 'flat', 'opt_any']))
    out += fits.items(rng, MAPS, 30 * tier, MAPS)
    # other names of members
    for fields, ts in ((['a', 'b'], ['ab', 'optab', 'strict', 'default', 'flat', 'anys', 'strs', 'map_any', 'any', 'optnest']), (['inner', 'z'], ['nest', 'map_any']), (['m_value'], ['boxraw', 'map_any']),
                       (['_items', '_size', '_version'], ['listraw', 'map_any']), (['dou', 'st', 'i3'], ['wide', 'map_any'])):
        for f in fields:
            for other in gen.dotnet(f) + [gen.near(rng, f) for _ in range(4 * tier)]:
                for names in (set(fields) - {f} | {other}, set(fields) | {other}):
                    names = sorted(names)
                    rng.shuffle(names)
                    val = lambda i, m: (enc.prim_typed(6, bytes(8)) if 'dou' in m else enc.string(50 + i, 'text') if 'b' in m or 'st' in m else enc.arr_prim(60 + i, 1, 9) + bytes(8) if 'z' in m or 'items' in m else
                                        enc.sys_class(70 + i, 'In', ['a', 'b']) + enc.prim_typed(8, i32(4)) + enc.string(90 + i, 'q') if 'inner' in m else enc.prim_typed(8, i32(i)))
                    vals = [val(i, m) for i, m in enumerate(names)]
                    # arrays behind, by reference
                    late = b''
                    for i, v in enumerate(vals):
                        if v[:1] == b'\x0f':
                            vals[i] = enc.ref(60 + i)
                            late += v
                    out.append((h + enc.sys_class(1, 'A', names) + b''.join(vals) + late + enc.end(), rng.sample(ts, min(len(ts), 6))))
    # names of one character, and of more
    for names in (['a'], ['\u00e9', 'b'], ['ab'], [''], ['a', ''], ['\U0001f600'], ['e\u0301'], ['x', 'y', 'zz'], []):
        out.append((h + enc.sys_class(1, 'A', names) + b''.join(a_value(rng, 10 * (i + 1), 0) for i in range(len(names))) + enc.end(), ['map_char', 'map_any', 'maphead', 'flat', 'default', 'strict']))
    # null and not null, at the root and inside
    for b in [enc.header(0) + enc.end(), h + enc.string(1, 'x') + enc.end(), h + enc.arr_obj(1, 0) + enc.end(), h + enc.sys_class(1, 'A', []) + enc.end(), h + enc.arr_obj(1, 1) + enc.null() + enc.end(),
              h + enc.sys_class_t(1, 'System.Int32', ['m_value'], [(0, 8)]) + i32(5) + enc.end(), h + enc.sys_class(1, 'System.Int32', ['m_value']) + enc.null() + enc.end(),
              h + enc.sys_class_t(1, 'A', ['a', 'b'], [(0, 8), (1,)]) + i32(5) + enc.null() + enc.end(), h + enc.sys_class(1, 'A', ['a', 'b']) + enc.null() * 2 + enc.end(),
              enc.header(0) + enc.string(1, 'x') + enc.end()]:
        out.append((b, TARGETS))
    for _ in range(150 * tier):
        n = rng.choice([1, 2, 3])
        out.append((h + enc.arr_obj(1, n) + b''.join(a_value(rng, 100 * (i + 1)) for i in range(n)) + enc.end(), ['vec_opt_i32', 'vec_opt_string', 'vec_opt_any', 'vec_ab', 'vec_optab', 'tup_any_opt_any', 'tup3', 'opt_vec_any', 'vec_any', 'ab', 'anys']))
    return out


def c21(rng, tier):
    modes = lambda: ['parse', 'any', 'ignored', 'opt_any'] + rng.sample(TARGETS, 4)
    out = generic(rng, 2500 * tier, dict(size=16), method=.25, mutate=.3, modes=modes)
    for b, m in c18(rng, 1)[::12] + c19(rng, 1)[::12] + c20(rng, 1)[::12]:
        out.append((b, list(dict.fromkeys(['parse', 'any'] + m))))
    for b, _ in method_shapes(rng, False, 1)[::20] + method_shapes(rng, True, 1)[::40]:
        out.append((b, ['parse'] + rng.sample(TARGETS, 5)))
    # cut short, and with something behind
    h = enc.header()
    for b in [h + enc.string(1, 'ab') + enc.end(), enc.header(0) + enc.end(), h + enc.arr_prim(1, 3, 8) + bytes(12) + enc.end(), h + enc.sys_class(1, 'A', ['a', 'b']) + enc.prim_typed(8, i32(5)) + enc.string(2, 'x') + enc.end()] + \
            [b for b, _ in rng.sample(generic(rng, 40, dict(size=8), method=.2, mutate=0), 12 * tier) if len(b) < 300]:
        for n in range(len(b)):
            out.append((b[:n], ['parse'] + rng.sample(TARGETS, 2)))
        for k in list(range(1, 18)) + [31, 32, 64, 255, 256, 4096]:
            for tail in (bytes(k), b'\x0b' * k, b' ' * k, b'\n' * k, b'\xff' * k, rng.randbytes(k)):
                out.append((b + tail, ['parse', 'ignored'] + rng.sample(TARGETS, 2)))
        for front in (b'\0', b'\xef\xbb\xbf', b'\n', b' ', b[:17], len(b).to_bytes(4, 'little')):
            out.append((front + b, ['parse', 'ignored'] + rng.sample(TARGETS, 2)))
    out.append((enc.header() + enc.method_call(1, 'm', 't') + enc.end(), TARGETS))
    out.append((enc.header() + enc.method_return(0x800 | 1, enc.vwc(8, i32(3))) + enc.end(), TARGETS))
    out.append((enc.header(0) + enc.end(), TARGETS))
    return out


def others(prop, rng, n):
    """Messages of the other properties' corpora."""
    ms = {}
    for k in range(2, 22):
        if 'C%02d' % k != prop:
            f = globals()['c%02d' % k]
            xs = [b for b, _ in f(rng, 1) if not isinstance(b, Run) and len(b) < 1500]
            ms.update(dict.fromkeys(rng.sample(xs, min(len(xs), n))))
    return list(ms)


def bulk(rng, tier):
    """All corpora and what is near them, to be run without being judged (C01)."""
    ms = []
    for k in range(2, 22):
        ms += [(b, m) for b, m in globals()['c%02d' % k](rng, tier) if not isinstance(b, Run)]
    for b, m in ms:
        yield b, m
        if len(b) < 3000:
            for _ in range(2):
                c = gen.mutate_bytes(rng, b)
                yield c, ['parse'] + (rng.sample(TARGETS, 1) if len(m) > 1 else [])


def c22(rng, tier):
    out = generic(rng, 900 * tier, dict(size=20), method=.25, mutate=.35)
    for f in (c04, c05, c08, c11, c12):
        xs = f(rng, 1)
        out += [(b, ['parse']) for b, _ in rng.sample(xs, 150) if isinstance(b, bytes) and len(b) < 5000]
    # the same IDs with different meanings in different messages
    for i in range(60):
        h = enc.header()
        out.append((h + enc.library(1, 'L%d' % i) + enc.cls(1, 'A%d' % i, ['m%d' % i], 1) + enc.string(2, 's%d' % i) + enc.end(), ['parse']))
        out.append((h + enc.arr_obj(1, 2) + enc.ref(2) + enc.ref(2) + enc.string(2, 't%d' % i) + enc.end(), ['parse']))
        out.append((h + enc.class_with_id(1, 2) + enc.end(), ['parse']))
        out.append((h + enc.cls(1, 'A', [], 1) + enc.end(), ['parse']))
        out.append((h + enc.arr_obj(1, 1) + enc.ref(3) + enc.end(), ['parse']))
    return out


def c23(rng, tier):
    out = [(b, ['cost']) for b in extremes(rng)]
    h = enc.header()
    for n in (10**5, 10**6, 10**7, 2**28, 2**31 - 1):
        for rec in (enc.arr_obj(1, n), enc.arr_str(1, n), enc.arr_prim(1, n, 2), enc.arr_prim(1, n, 8), enc.arr_prim(1, n, 5), enc.binary_array(1, 0, [n], (2,)), enc.binary_array(1, 0, [n], (0, 2)),
                    enc.binary_array(1, 2, [n, 2], (1,)), enc.binary_array(1, 2, [2, n], (0, 8)), enc.binary_array(1, 2, [n, n], (2,)), enc.binary_array(1, 2, [1, 1, n], (2,)), enc.binary_array(1, 5, [n], (2,), [n]),
                    b'\x02' + i32(1) + lps('A') + i32(n), b'\x04' + i32(1) + lps('A') + i32(n), b'\x03' + i32(1) + lps('A') + i32(n), b'\x05' + i32(1) + lps('A') + i32(n),
                    b'\x07' + i32(1) + b'\x02' + i32(n), b'\x07' + i32(1) + b'\x05' + i32(n) + i32(1) * 3,
                    enc.method_call(2, 'm', 't') + i32(n), enc.method_return(2) + i32(n), b'\x06' + i32(1) + enc.varint(n), b'\x0c' + i32(1) + enc.varint(n), b'\x15' + i32(1) + b'\x12' + enc.varint(n)):
            for tail in (b'', enc.end(), enc.null() * 5, b'\1' * 30):
                out.append((h + rec + tail, ['cost']))
        out += [(h + enc.arr_obj(1, 50) + enc.nulls(n) + enc.end(), ['cost']), (h + enc.sys_class(1, 'A', ['a', 'b']) + enc.nulls(n) + enc.null() + enc.end(), ['cost'])]
        # many of them, one behind another or in one another
        out.append((h + b''.join(enc.sys_class(k, 'A', ['a']) for k in range(1, 30)) + enc.arr_obj(99, n), ['cost']))
        out.append((h + b''.join(enc.arr_obj(k, 1) + enc.ref(k + 1) for k in range(1, 30)) + enc.arr_prim(30, n, 8), ['cost']))
        out.append((h + b''.join(enc.arr_prim(k, 1, 2) + b'\1' for k in range(1, 50)) + enc.arr_prim(99, n, 8), ['cost']))
    for n in (1000, 10000, 70000):
        out += [(h + enc.arr_obj(1, n) + enc.nulls(n) + enc.end(), ['cost']), (h + enc.arr_str(1, n + 1) + enc.nulls(n) + enc.end(), ['cost'])]
    for b, _ in generic(rng, 1500 * tier, dict(size=30), mutate=.6):
        out.append((b, ['cost']))
    return out


def c24(rng, tier):
    """Candidates for rejection; those that are rejected are judged."""
    out = {}
    for f in (c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17):
        ms = [b for b, _ in f(rng, 1) if not isinstance(b, Run) and len(b) < 3000]
        out.update(dict.fromkeys(ms))
    out = list(out)
    for b in rng.sample(out, min(len(out), 6000 * tier)):
        out += [gen.mutate_bytes(rng, b) for _ in range(2)]
    return [(b, ['error']) for b in out]


def c25(rng, tier):
    """Candidates for a deserialization that fails, with targets that they may not fit."""
    out = []
    for f in (c18, c19, c20, c21):
        ms = [(b, m) for b, m in f(rng, 1) if not isinstance(b, Run) and len(b) < 2500]
        ms = rng.sample(ms, min(len(ms), 1500 * tier))
        for b, m in ms:
            m = [t for t in m if t in TARGETS]
            out.append((b, list(dict.fromkeys(rng.sample(m, min(len(m), 6)) + rng.sample(TARGETS, 2)))))
    # nearly fitting
    for t in TARGETS:
        if t in fits.SHAPES:
            for _ in range(25 * tier):
                out.append((fits.message(rng, t, rng.choice([.1, .2, .3])), [t] + rng.sample(TARGETS, 1)))
    # lengths: of arrays and lists, at the root and inside, for targets that take another number
    short = ['arr0_any', 'tup1', 'arr1_any', 'arr2_any', 'arr3_any', 'arr2_i32', 'arr3_i32', 'tup_i32_string', 'tup_any_opt_any', 'tup3', 'pair', 'seqhead', 'ab', 'optab', 'anys', 'nest', 'default', 'strict', 'wide', 'empty', 'unit_struct', 'i32', 'map_any', 'vec_any']
    h = enc.header()
    for n in list(range(9)) + [17, 100, 255, 256, 1000]:
        arr = lambda i: enc.arr_prim(i, n, 8) + b''.join(i32(x) for x in range(n))
        out.append((h + arr(1) + enc.end(), short))
        out.append((h + enc.arr_obj(1, n) + enc.null() * n + enc.end(), short))
        out.append((h + enc.arr_obj(1, 2) + enc.ref(2) + enc.ref(3) + arr(2) + enc.arr_prim(3, 1, 2) + b'x' + enc.end(), ['vec_vec_any', 'vec_vec_i32', 'vec_seqhead', 'vec_ab', 'vec_strict', 'vec_default', 'vec_optab', 'arr1_any', 'arr3_any']))
        for size in {0, 1, 2, 3, n - 1, n, n + 1, n // 2, -1, -2, -2**31, 2**31 - 1}:
            lst = lambda i, j: enc.sys_class_t(i, LIST, ['_items', '_size', '_version'], [(7, 8), (0, 8), (0, 8)]) + enc.ref(j) + i32(size) + i32(0) + arr(j)
            out.append((h + lst(1, 2) + enc.end(), rng.sample(short, 7)))
            out.append((h + enc.sys_class(1, 'R', ['a', 'b']) + lst(10, 20) + enc.null() + enc.end(), ['map_any', 'map_vec_any', 'anys', 'optab', 'flat', 'any', 'ignored', 'ab', 'map_maphead']))
    # members: missing, unknown, of lists and boxes that are none
    for names in (['a'], ['b'], [], ['x'], ['a', 'b', 'c'], ['a', 'x'], ['b', 'c'], ['inner'], ['z'], ['m_value'], ['_items', '_size'], ['_items', '_size', '_version', 'x'], ['n'], ["it's", '"q"'], ['\\', '\n'], ['\u00e9'], ['`a`'], ['a`, expected `b']):
        for cname in ('A', 'System.Int32', 'System.Char', 'System.Boolean', LIST, LIST[:-2], LIST + '[[System.String]]', 'System.Collections.Generic.List`2`3', 'System.Double', 'System.UInt64'):
            for v in (enc.prim_typed(8, i32(5)), enc.null(), enc.string(9, 'te"xt`\u00e9')):
                out.append((h + enc.sys_class(1, cname, names) + b''.join(v if i == 0 or v[:1] != b'\x06' else enc.null() for i in range(len(names))) + enc.end(), rng.sample(TARGETS, 5) + ['ab', 'strict', 'any']))
    # texts and characters that are hard to quote
    for s in gen.TEXTS + ['"', "'", '`', '\\', '\0', '\r\n\t', '\u200b', '\u0301', '\U000e0001', 'x", expected y', '`, expected ', '\x7f', '\x1b']:
        out.append((h + enc.string(1, s) + enc.end(), ['i32', 'bool', 'unit', 'vec_any', 'map_any', 'ab', 'char', 'f64', 'opt_i32', 'unit_struct']))
    for c in gen.CHARS + ['"', "'", '`', '\\', '\0', '\n']:
        out.append((h + enc.arr_prim(1, 1, 3) + c.encode() + enc.end(), ['vec_i32', 'vec_bool', 'vec_unit', 'vec_ab', 'vec_vec_any', 'vec_f64', 'arr2_i32', 'vec_bytes', 'vec_str']))
    return [(b, ['why_' + t for t in m]) for b, m in out]
