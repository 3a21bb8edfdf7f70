"""Messages that grow in one dimension: f(n) for the sweeps over all small sizes and the borders of powers of two, and for C23.

SCALES: name -> (properties whose sweep uses it, f, largest n for the sweep, largest n for C23 or 0).
SHAPES: name -> the lengths of the array that it is, where the number of values is not affine in n.
"""
import enc
from enc import i32, lps

H = enc.header()
E = enc.end()
SCALES = {}
SHAPES = dict(shape_square=lambda n: [n, n], shape_cube=lambda n: [n, n + 1, n + 2], shape_rank_twos=lambda n: [2] * n)

SMALL = list(range(0, 71))
BORDERS = [126, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537]
MAGNITUDES = sorted({1, 2, 3, 7, 10, 100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 258, 511, 512, 1000, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538, 2**24 - 1, 2**24, 2**24 + 1, 2**30, 2**31 - 2, 2**31 - 1})


def scale(props, most, work=0):
    def deco(f):
        SCALES[f.__name__] = (props.split(), f, most, work)
        return f
    return deco


def name(k):
    return 'm%d' % k


def digits(n):
    return ''.join(str((7 * k + 3) % 10) for k in range(n))


# -- members

@scale('C06 C20', 1024, 100000)
def members_untyped(n):
    return H + enc.sys_class(1, 'A', [name(k) for k in range(n)]) + b''.join(enc.prim_typed(8, i32(k)) for k in range(n)) + E


@scale('C06 C20', 1024, 100000)
def members_typed(n):
    return H + enc.library(9, 'L') + enc.cls_t(1, 'A', [name(k) for k in range(n)], [(0, 7) if k % 3 else (0, 2) for k in range(n)], 9) + b''.join(bytes([k % 251, 1] if k % 3 else [k % 256]) for k in range(n)) + E


@scale('C06', 1024, 50000)
def members_strings(n):
    return H + enc.sys_class_t(1, 'A', [name(k) for k in range(n)], [(1,) if k % 2 else (2,) for k in range(n)]) + b''.join(enc.string(k + 2, 's%d' % k) for k in range(n)) + E


@scale('C06 C05', 3000, 0)
def member_name(n):
    return H + enc.sys_class(1, 'A', ['a' * n + 'b', 'a' * n + 'c']) + enc.prim_typed(2, b'\1') + enc.prim_typed(2, b'\2') + E


@scale('C06 C05', 3000, 0)
def class_name(n):
    return H + enc.library(2, 'l' * n) + enc.cls(1, 'c' * n, ['a'], 2) + enc.prim_typed(2, b'\1') + E


@scale('C06', 66, 120)
def members_nested(n):
    # an object in an object, each with a member behind the inner one
    return H + b''.join(enc.sys_class(k, 'C%d' % k, ['p', 'q']) for k in range(1, n + 1)) + enc.null() + b''.join(enc.prim_typed(8, i32(k)) for k in range(n)) + (enc.null() * (n == 0)) + E


@scale('C06', 66, 120)
def members_nested_typed(n):
    return H + b''.join(enc.sys_class_t(k, 'C%d' % k, ['p', 'q'], [(3, 'C%d' % (k + 1)), (0, 2)]) for k in range(1, n + 1)) + enc.null() + bytes(range(n)) + E


@scale('C06 C17', 1024, 50000)
def objects_each(n):
    # n classes, the last is the root
    return enc.header(max(n, 1)) + b''.join(enc.sys_class_t(k, 'C%d' % k, ['a%d' % k], [(0, 2)]) + bytes([k % 256]) for k in range(1, n + 1)) + E


# -- metadata

@scale('C07', 1024, 50000)
def metadata_reused(n):
    return enc.header(n + 1) + enc.sys_class_t(1, 'A', ['a', 'b'], [(0, 2), (0, 7)]) + b'\1\2\3' + b''.join(enc.class_with_id(k, 1) + bytes([k % 256, 5, 6]) for k in range(2, n + 2)) + E


@scale('C07', 1024, 60000)
def metadata_many(n):
    # n classes; an array takes one object of each by its metadata
    n = max(n, 1)
    return enc.header(900000) + b''.join(enc.sys_class_t(k, 'C%d' % k, ['a%d' % k], [(0, 2)]) + bytes([k % 256]) for k in range(1, n + 1)) + \
        enc.arr_obj(900000, n) + b''.join(enc.class_with_id(100000 + k, k) + bytes([255 - k % 256]) for k in range(1, n + 1)) + E


@scale('C07', 1024, 60000)
def metadata_wide(n):
    ns = [name(k) for k in range(n)]
    return enc.header(2) + enc.library(9, 'L') + enc.cls_t(1, 'A', ns, [(0, 2)] * n, 9) + bytes(k % 256 for k in range(n)) + enc.class_with_id(2, 1) + bytes(255 - k % 256 for k in range(n)) + E


@scale('C07', 66, 120)
def metadata_nested(n):
    # each object holds one of its own class
    return H + enc.sys_class(1, 'A', ['a', 'b']) + b''.join(enc.class_with_id(k, 1) for k in range(2, n + 2)) + enc.null() + b''.join(enc.prim_typed(2, bytes([k % 256])) for k in range(n + 1)) + (enc.null() if n < 0 else b'') + E


# -- libraries

@scale('C08', 1024, 100000)
def libraries_many(n):
    n = max(n, 1)
    return enc.header(900000) + b''.join(enc.library(k, 'L%d' % k) + enc.cls(100000 + k, 'A', [], k) for k in range(1, n + 1)) + enc.arr_obj(900000, n) + \
        b''.join(enc.cls(200000 + k, 'B', [], n + 1 - k) for k in range(1, n + 1)) + E


@scale('C08', 1024, 0)
def library_again(n):
    # the ID of the first library, n libraries later
    return enc.header(0) + b''.join(enc.library(k, 'L%d' % k) + enc.cls(100000 + k, 'A', [], k) for k in range(1, n + 2)) + enc.library(1, 'L1') + enc.cls(5, 'A', [], 1) + E


@scale('C08', 60, 60)
def library_nested(n):
    return H + b''.join(enc.library(k, 'L%d' % k) + enc.cls(k, 'A', ['a'], k) for k in range(1, n + 2)) + enc.null() + E


# -- declared types

@scale('C09', 3000, 0)
def type_name_longer(n):
    return H + enc.sys_class_t(1, 'A', ['a'], [(3, 'N' * n)]) + enc.sys_class(2, 'N' * (n + 1), []) + E


@scale('C09', 3000, 0)
def type_name_same(n):
    return H + enc.library(3, 'L' * n) + enc.cls_t(1, 'A', ['a'], [(4, 'N' * n, 3)], 3) + enc.cls(2, 'N' * n, [], 3) + E


@scale('C09', 3000, 0)
def type_name_last(n):
    return H + enc.sys_class_t(1, 'A', ['a'], [(3, 'N' * n + 'x')]) + enc.sys_class(2, 'N' * n + 'y', []) + E


@scale('C09', 3000, 0)
def type_library_last(n):
    return H + enc.library(3, 'L' * n + 'x') + enc.library(4, 'L' * n + 'y') * 0 + enc.cls(7, 'Z', [], 3) + enc.library(4, 'L' * n + 'y') + enc.cls_t(1, 'A', ['a'], [(4, 'N', 3)], 3) + enc.cls(2, 'N', [], 4) + E


@scale('C09', 300, 0)
def types_wrong_at(n):
    # the last of n members is not of its type
    return H + enc.sys_class_t(1, 'A', [name(k) for k in range(n + 1)], [(3, 'T')] * (n + 1)) + b''.join(enc.sys_class(k + 2, 'T', []) for k in range(n)) + enc.sys_class(n + 2, 'U', []) + E


@scale('C09', 300, 0)
def elements_wrong_at(n):
    return H + enc.binary_array(1, 0, [n + 1], (1,)) + b''.join(enc.string(k + 2, 's') for k in range(n)) + enc.prim_typed(8, i32(1)) + E


# -- references

@scale('C10 C13', 1024, 100000)
def references_back(n):
    return enc.header(900000) + b''.join(enc.sys_class_t(k, 'C', ['v'], [(0, 7)]) + bytes([k % 256, k // 256 % 256]) for k in range(1, n + 1)) + enc.arr_obj(900000, n) + b''.join(enc.ref(n + 1 - k) for k in range(1, n + 1)) + E


@scale('C10', 1024, 100000)
def references_forward(n):
    return enc.header(900000) + enc.arr_obj(900000, n) + b''.join(enc.ref(k) for k in range(1, n + 1)) + b''.join(enc.sys_class_t(k, 'C', ['v'], [(0, 7)]) + bytes([k % 256, k // 256 % 256]) for k in range(1, n + 1)) + E


@scale('C10', 1024, 100000)
def references_one_string(n):
    return H + enc.arr_str(1, n + 1) + enc.string(5, 'once') + enc.ref(5) * n + E


@scale('C10', 66, 120)
def references_chain(n):
    return H + b''.join(enc.sys_class(k, 'A', ['a']) + enc.ref(k + 1) for k in range(1, n + 1)) + enc.string(n + 1, 'x') + E


@scale('C10', 1024, 20000)
def references_wrong_order(n):
    # the last two records referred to are exchanged
    ids = list(range(2, n + 4))
    rec = {k: enc.arr_prim(k, 1, 2) + bytes([k % 256]) for k in ids}
    order = ids[:-2] + ids[-1:] + ids[-2:-1]
    return H + enc.arr_obj(1, len(ids)) + b''.join(enc.ref(k) for k in ids) + b''.join(rec[k] for k in order) + E


@scale('C10', 1024, 0)
def reference_dangling(n):
    return H + enc.arr_obj(1, n + 1) + b''.join(enc.ref(k + 2) for k in range(n + 1)) + b''.join(enc.string(k + 2, 's') for k in range(n)) + E


# -- nulls and lengths

@scale('C11', 4097, 200000)
def array_of_nulls(n):
    return H + enc.arr_obj(1, n) + enc.null() * n + E


@scale('C11', 4097, 0)
def null_run_exact(n):
    return H + enc.arr_str(1, n) + enc.nulls(n) + E


@scale('C11', 4097, 0)
def null_run_then(n):
    return H + enc.arr_obj(1, n + 2) + enc.string(2, 'a') + enc.nulls(n) + enc.string(3, 'b') + E


@scale('C11', 4097, 0)
def null_run_short(n):
    return H + enc.arr_obj(1, n + 1) + enc.nulls(n) + E


@scale('C11', 4097, 0)
def null_run_long(n):
    return H + enc.arr_obj(1, n) + enc.nulls(n + 1) + E


@scale('C11', 256, 0)
def null_run256_then(n):
    return H + enc.arr_obj(1, n + 1) + (enc.nulls256(n) if n < 256 else enc.nulls(n)) + enc.string(3, 'b') + E


@scale('C11', 300, 0)
def null_runs_sum(n):
    # runs of 1, 2, 1, 2, ... that end with the array
    runs = [1 + k % 2 for k in range(n)]
    return H + enc.binary_array(1, 0, [sum(runs)], (2,)) + b''.join(enc.nulls256(r) if k % 3 else enc.nulls(r) for k, r in enumerate(runs)) + E


@scale('C11', 300, 0)
def null_members(n):
    return H + enc.sys_class(1, 'A', [name(k) for k in range(n + 1)]) + enc.null() * n + enc.nulls256(2) + E


@scale('C11 C19', 300, 50000)
def array_of_strings(n):
    return H + enc.arr_str(1, n) + b''.join(enc.string(k + 2, 's%d' % k) for k in range(n)) + E


@scale('C11 C19', 65537, 200000)
def array_of_bytes(n):
    return H + enc.arr_prim(1, n, 2) + bytes(k % 256 for k in range(n)) + E


@scale('C11 C19', 4097, 200000)
def array_of_ints(n):
    return H + enc.arr_prim(1, n, 8) + b''.join(i32(k * 65537 % 2**31) for k in range(n)) + E


@scale('C11', 4097, 0)
def array_one_short(n):
    return H + enc.arr_prim(1, n + 1, 7) + b'\5\6' * n + E


@scale('C11', 4097, 0)
def array_one_more(n):
    return H + enc.arr_prim(1, n, 2) + b'\5' * (n + 1) + E


# -- shapes

@scale('C12', 2000, 100000)
def shape_rows(n):
    return H + enc.binary_array(1, 2, [n, 1], (0, 2)) + bytes(k % 256 for k in range(n)) + E


@scale('C12', 2000, 100000)
def shape_columns(n):
    return H + enc.binary_array(1, 2, [1, n], (0, 2)) + bytes(k % 256 for k in range(n)) + E


@scale('C12', 70, 300)
def shape_square(n):
    return H + enc.binary_array(1, 2, [n, n], (0, 2)) + bytes(k % 256 for k in range(n * n)) + E


@scale('C12', 14, 40)
def shape_cube(n):
    return H + enc.binary_array(1, 5, [n, n + 1, n + 2], (0, 2), [n, n, n]) + bytes(k % 256 for k in range(n * (n + 1) * (n + 2))) + E


@scale('C12', 60, 60)
def shape_rank(n):
    n = max(n, 1)
    return H + enc.binary_array(1, 2, [1] * (n - 1) + [2], (0, 2)) + b'\7\x08' + E


@scale('C12', 12, 14)
def shape_rank_twos(n):
    n = max(n, 1)
    return H + enc.binary_array(1, 2, [2] * n, (0, 2)) + bytes(k % 256 for k in range(2**n)) + E


@scale('C12', 4097, 0)
def lower_bound(n):
    return H + enc.binary_array(1, 3, [2], (0, 2), [n]) + b'\7\x08' + E


@scale('C12', 1024, 50000)
def array_of_arrays(n):
    return H + enc.binary_array(1, 1, [n], (7, 2)) + b''.join(enc.ref(k + 2) for k in range(n)) + b''.join(enc.arr_prim(k + 2, 1, 2) + bytes([k % 256]) for k in range(n)) + E


# -- IDs

@scale('C13', 1024, 0)
def id_again_first(n):
    return enc.header(0) + b''.join(enc.string(k, 's') for k in range(1, n + 2)) + enc.arr_prim(1, 0, 2) + E


@scale('C13', 1024, 0)
def id_again_last(n):
    return enc.header(0) + b''.join(enc.sys_class(k, 'A', []) for k in range(1, n + 2)) + enc.class_with_id(n + 1, 1) + E


@scale('C13', 1024, 0)
def id_again_middle(n):
    return enc.header(0) + enc.arr_obj(900000, n + 1) + b''.join(enc.string(k, 's') for k in range(1, n + 2)) + enc.string(n // 2 + 1, 't') + E


@scale('C13 C17', 1024, 50000)
def ids_descending(n):
    return enc.header(max(n, 1)) + b''.join(enc.string(n + 1 - k, 's%d' % k) for k in range(1, n + 1)) + E


# -- methods

@scale('C14', 300, 100000)
def call_inline(n):
    return enc.header(0) + enc.method_call(2, 'm', 't', None, [enc.vwc(8, i32(k)) if k % 2 else enc.svwc('s%d' % k) for k in range(n)]) + E


@scale('C14', 300, 50000)
def call_is_array(n):
    return H + enc.method_call(4, 'm', 't') + enc.arr_obj(1, n) + b''.join(enc.prim_typed(8, i32(k)) if k % 2 else enc.string(k + 2, 's%d' % k) for k in range(n)) + E


@scale('C14', 300, 50000)
def call_in_array(n):
    return H + enc.method_call(8, 'm', 't') + enc.arr_obj(1, 2) + enc.ref(5) + enc.null() + enc.arr_obj(5, n) + b''.join(enc.prim_typed(8, i32(k)) for k in range(n)) + E


@scale('C14 C05', 3000, 0)
def call_names(n):
    return enc.header(0) + enc.method_call(1 | 32, 'm' * n, 't' * (n + 1), 'c' * (n + 2)) + E


@scale('C14 C15', 100, 30000)
def call_after_objects(n):
    return enc.header(900000) + b''.join(enc.sys_class(k, 'A', []) for k in range(1, n + 1)) + enc.method_call(4, 'm', 't') + enc.arr_obj(900000, 1) + enc.prim_typed(2, b'\5') + \
        b''.join(enc.string(k + n, 's') for k in range(1, n + 1)) + E


@scale('C15', 300, 50000)
def return_in_array(n):
    # the return value follows the arguments
    return H + enc.method_return(8 | 0x1000) + enc.arr_obj(1, n + 2) + enc.ref(5) + enc.prim_typed(8, i32(n)) + b''.join(enc.prim_typed(8, i32(-k)) for k in range(n)) + enc.arr_obj(5, n) + b''.join(enc.prim_typed(8, i32(k)) for k in range(n)) + E


@scale('C15', 300, 50000)
def return_inline(n):
    return enc.header(0) + enc.method_return(2 | 0x800, enc.svwc('r' * n), None, [enc.vwc(2, bytes([k % 256])) for k in range(n)]) + E


@scale('C15', 300, 0)
def return_first(n):
    return H + enc.method_return(1 | 0x1000) + enc.arr_obj(1, n + 1) + enc.prim_typed(8, i32(n)) + b''.join(enc.string(k + 2, 's%d' % k) for k in range(n)) + E


# -- strings and decimals

@scale('C05', 65537, 200000)
def string_length(n):
    return H + enc.string(1, 's' * n) + E


@scale('C05', 3000, 0)
def string_wide(n):
    return H + enc.string(1, 'a' * (n % 4) + '\u20ac' * (n // 3)) + E


@scale('C05', 3000, 0)
def string_cut(n):
    return (H + enc.string(1, 's' * (n + 1)))[:-1]


@scale('C04', 29, 0)
def decimal_digits(n):
    return H + enc.sys_class_t(1, 'A', ['a', 'b'], [(0, 5), (0, 2)]) + lps('1' + digits(n)) + b'\x07' + E


@scale('C04', 29, 0)
def decimal_fraction(n):
    return H + enc.sys_class_t(1, 'A', ['a', 'b'], [(0, 5), (0, 2)]) + lps('-0.' + digits(n) + '1') + b'\x07' + E


@scale('C04', 300, 50000)
def decimals(n):
    return H + enc.arr_prim(1, n, 5) + b''.join(lps('%d.5' % k) for k in range(n)) + E


@scale('C04', 300, 50000)
def chars(n):
    return H + enc.arr_prim(1, n, 3) + b''.join(chr(0x40 + k * 37 % 0x700).encode() for k in range(n)) + E


# -- roots

@scale('C17', 1024, 0)
def root_middle(n):
    return enc.header(n // 2 + 1) + b''.join(enc.string(k, 's%d' % k) if k % 2 else enc.arr_prim(k, 1, 2) + bytes([k % 256]) for k in range(1, n + 2)) + E


@scale('C17', 1024, 0)
def root_missing(n):
    return enc.header(n + 2) + b''.join(enc.string(k, 's%d' % k) for k in range(1, n + 2)) + E


# -- for serde

LIST = 'System.Collections.Generic.List`1'


@scale('C19', 600, 100000)
def list_full(n):
    return H + enc.sys_class_t(1, LIST, ['_items', '_size', '_version'], [(7, 8), (0, 8), (0, 8)]) + enc.ref(2) + i32(n) + i32(0) + enc.arr_prim(2, n, 8) + b''.join(i32(k) for k in range(n)) + E


@scale('C19', 600, 0)
def list_one_less(n):
    return H + enc.sys_class_t(1, LIST, ['_items', '_size', '_version'], [(7, 8), (0, 8), (0, 8)]) + enc.ref(2) + i32(n) + i32(7) + enc.arr_prim(2, n + 1, 8) + b''.join(i32(k) for k in range(n + 1)) + E


@scale('C19', 600, 0)
def list_one_more(n):
    return H + enc.sys_class_t(1, LIST, ['_items', '_size', '_version'], [(7, 8), (0, 8), (0, 8)]) + enc.ref(2) + i32(n + 1) + i32(0) + enc.arr_prim(2, n, 8) + b''.join(i32(k) for k in range(n)) + E


@scale('C20', 120, 20000)
def struct_among(n):
    # the members a and b among n others
    ms = ['x%d' % k for k in range(n)]
    ms.insert(n // 3, 'b')
    ms.insert(n // 2, 'a')
    return H + enc.sys_class(1, 'A', ms) + b''.join(enc.prim_typed(8, i32(7)) if m == 'a' else enc.string(5, 'bb') if m == 'b' else enc.null() for m in ms) + E


# -- work only

@scale('', 40, 60)
def broken_nested(n):
    # n typed members in one another, the innermost is wrong
    return H + b''.join(enc.sys_class_t(k, 'C%d' % k, ['p'], [(3, 'C%d' % (k + 1))]) for k in range(1, n + 1)) + enc.string(99999, 'x') + E


@scale('', 40, 60)
def broken_nested_libraries(n):
    return H + b''.join(enc.library(k, 'L%d' % k) + enc.cls_t(k, 'C%d' % k, ['p'], [(4, 'C%d' % (k + 1), k)], k) for k in range(1, n + 1)) + enc.library(9999, 'l') + E


@scale('', 40, 60)
def broken_nested_untyped(n):
    return H + b''.join(enc.library(k, 'L%d' % k) + enc.cls(k, 'C', ['p', 'q'], k) for k in range(1, n + 1)) + b'\x0c'


@scale('', 40, 60)
def broken_chain(n):
    return H + b''.join(enc.arr_obj(k, 1) + enc.ref(k + 1) for k in range(1, n + 1)) + enc.prim_typed(8, i32(1)) + E


@scale('', 100, 50000)
def broken_late(n):
    return H + enc.arr_obj(1, n + 1) + b''.join(enc.string(k + 2, 's') for k in range(n)) + b'\xff' + E


# ---------------------------------------------------------------------------------------------------------------------

def sizes(most, tier):
    small = SMALL if most <= 300 else SMALL[:40] + SMALL[60:]
    if tier == 1 and most <= 300:
        small = SMALL[:20] + SMALL[20::3] + [62, 63, 64, 65, 66]
    if tier == 1 and most > 300:
        small = SMALL[:18] + [30, 31, 32, 33, 34, 62, 63, 64, 65, 66]
    return sorted({n for n in small + BORDERS if n <= most and (tier > 1 or n <= 300 or n in (512, 1000, 1024, 4096, 16384, 65535, 65536))})


def sweep(prop, tier, modes=('parse',), cap=10**6):
    out = []
    for props, f, most, _ in SCALES.values():
        if prop in props:
            for n in sizes(min(most, cap), tier):
                out.append((f(n), list(modes(f.__name__, n)) if callable(modes) else list(modes)))
    return out


def magnitudes(prop, rng, tier):
    """The IDs of a small message, of every size."""
    M = MAGNITUDES
    out = []
    pairs = [(a, b) for a in M for b in M if a != b]
    if tier == 1:
        pairs = rng.sample(pairs, 120) + [(a, b) for a, b in zip(M, M[1:])] + [(b, a) for a, b in zip(M, M[1:])]
        near = [(a, a ^ (1 << k)) for a in (1, 2, 1000, 65536 + 7) for k in range(31) if a ^ (1 << k)]
        pairs += near
    for a, b in pairs:
        h = enc.header(a)
        if prop == 'C07':
            out.append(h + enc.sys_class_t(b, 'B', ['b'], [(0, 2)]) + b'\1' + enc.class_with_id(a, b) + b'\2' + E)
            out.append(h + enc.sys_class_t(b, 'B', ['b'], [(0, 2)]) + b'\1' + enc.class_with_id(a, a) + b'\2' + E)
        elif prop == 'C08':
            out.append(enc.header(1) + enc.library(a, 'LA') + enc.cls(2, 'A', [], a) + enc.library(b, 'LB') + enc.cls(1, 'B', ['x'], b) + enc.cls(3, 'C', [], a) + E)
            out.append(enc.header(1) + enc.library(a, 'LA') + enc.cls(1, 'B', [], b) + E)
        elif prop == 'C10':
            out.append(h + enc.sys_class(a, 'A', ['x']) + enc.ref(b) + enc.arr_prim(b, 1, 2) + b'\7' + E)
            out.append(enc.header(77777) + enc.arr_prim(a, 1, 2) + b'\1' + enc.arr_prim(b, 1, 2) + b'\2' + enc.arr_obj(77777, 2) + enc.ref(b) + enc.ref(a) + E)
            out.append(enc.header(77777) + enc.arr_prim(a, 1, 2) + b'\1' + enc.arr_obj(77777, 1) + enc.ref(b) + E)
        elif prop == 'C13':
            out.append(h + enc.string(a, 'a') + enc.string(b, 'b') + E)
            out.append(h + enc.string(a, 'a') + enc.sys_class(b, 'b', []) + enc.arr_prim(a, 0, 2) + E)
            out.append(h + enc.library(a, 'L') + enc.cls(a, 'A', ['m'], a) + enc.string(b, 'b') + E)
        elif prop == 'C14':
            out.append(h + enc.method_call(4, 'm', 't') + enc.arr_obj(b, 1) + enc.null() + E)
            out.append(h + enc.method_call(4, 'm', 't') + enc.arr_obj(a, 1) + enc.ref(b) + enc.string(b, 'x') + E)
        elif prop == 'C17':
            out.append(h + enc.string(b, 'b') + enc.string(a, 'a') + E)
            out.append(h + enc.string(b, 'b') + E)
    return [(b, ['parse']) for b in out]
