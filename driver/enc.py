"""Byte encodings of NRBF records ([MS-NRBF]), used by the random corpus generator and the repro inputs.

This is only an input generator: the oracle is the TLA+ specification.
"""
import struct

PRIM = dict(Boolean=1, Byte=2, Char=3, Decimal=5, Double=6, Int16=7, Int32=8, Int64=9, SByte=10, Single=11,
            TimeSpan=12, DateTime=13, UInt16=14, UInt32=15, UInt64=16, Null=17, String=18)
PRIM_NAME = {v: k for k, v in PRIM.items()}


def i32(n):
    return struct.pack('<i', n)


def varint(n, width=None):
    """7-bit little-endian groups; `width` forces an overlong form."""
    out = []
    while True:
        b = n & 0x7F
        n >>= 7
        if n or (width and len(out) + 1 < width):
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def lps(s, width=None):
    b = s if isinstance(s, bytes) else s.encode('utf-8')
    return varint(len(b), width) + b


def header(root=1, hid=-1, major=1, minor=0):
    return b'\0' + i32(root) + i32(hid) + i32(major) + i32(minor)


def class_with_id(oid, meta):
    return b'\x01' + i32(oid) + i32(meta)


def class_info(oid, name, members):
    return i32(oid) + lps(name) + i32(len(members)) + b''.join(lps(m) for m in members)


def sys_class(oid, name, members):
    return b'\x02' + class_info(oid, name, members)


def cls(oid, name, members, lib):
    return b'\x03' + class_info(oid, name, members) + i32(lib)


def type_extra(t):
    k = t[0]
    if k in (0, 7):
        return bytes([t[1]])
    if k == 3:
        return lps(t[1])
    if k == 4:
        return lps(t[1]) + i32(t[2])
    return b''


def types(ts):
    return bytes(t[0] for t in ts) + b''.join(type_extra(t) for t in ts)


def sys_class_t(oid, name, members, ts):
    return b'\x04' + class_info(oid, name, members) + types(ts)


def cls_t(oid, name, members, ts, lib):
    return b'\x05' + class_info(oid, name, members) + types(ts) + i32(lib)


def string(oid, s):
    return b'\x06' + i32(oid) + lps(s)


def binary_array(oid, at, lens, t, lows=None):
    b = b'\x07' + i32(oid) + bytes([at]) + i32(len(lens)) + b''.join(i32(n) for n in lens)
    if lows is not None:
        b += b''.join(i32(n) for n in lows)
    return b + bytes([t[0]]) + type_extra(t)


def prim_typed(pt, payload):
    return b'\x08' + bytes([pt]) + payload


def ref(oid):
    return b'\x09' + i32(oid)


def null():
    return b'\x0a'


def end():
    return b'\x0b'


def library(lid, name):
    return b'\x0c' + i32(lid) + lps(name)


def nulls256(n):
    return b'\x0d' + bytes([n])


def nulls(n):
    return b'\x0e' + i32(n)


def arr_prim(oid, n, pt):
    return b'\x0f' + i32(oid) + i32(n) + bytes([pt])


def arr_obj(oid, n):
    return b'\x10' + i32(oid) + i32(n)


def arr_str(oid, n):
    return b'\x11' + i32(oid) + i32(n)


def vwc(pt, payload=b''):
    return bytes([pt]) + payload


def svwc(s):
    return b'\x12' + lps(s)


def array_of_values(vs):
    return i32(len(vs)) + b''.join(vs)


def method_call(flags, name, typ, ctx=None, args=None):
    return b'\x15' + i32(flags) + svwc(name) + svwc(typ) + (svwc(ctx) if ctx is not None else b'') + \
        (array_of_values(args) if args is not None else b'')


def method_return(flags, ret=None, ctx=None, args=None):
    return b'\x16' + i32(flags) + (ret or b'') + (svwc(ctx) if ctx is not None else b'') + \
        (array_of_values(args) if args is not None else b'')
