"""
The wire format, restated from the documentation, independent of the code
under test: header (app id u16, frame type u8, timestamp u64 in milliseconds,
element count u32), then the frame's body, then an optional crc-32 of all that
precedes it. Everything is in network byte order.
"""

import binascii
from fractions import Fraction
import math
import struct

HEADER = struct.Struct(">HBQI")
CRC = struct.Struct(">I")
SIZE = struct.Struct(">I")
ID = struct.Struct(">H")
INVALID, DATA, EVENT, MESSAGE, STREAM = range(5)
MESSAGE_FIELDS = struct.Struct(">BHIHH")  # type, number, crc, index, total

# name: (format, size, python type)
TYPES = {
    "boolean": (">?", 1, bool),
    "int8": (">b", 1, int),
    "uint8": (">B", 1, int),
    "int16": (">h", 2, int),
    "uint16": (">H", 2, int),
    "int32": (">i", 4, int),
    "uint32": (">I", 4, int),
    "int64": (">q", 8, int),
    "uint64": (">Q", 8, int),
    "float": (">f", 4, float),
    "double": (">d", 8, float),
}
INTS = [n for n, t in TYPES.items() if t[2] is int]


def bounds(name):
    """Inclusive range of an integer type."""
    bits = TYPES[name][1] * 8
    if name.startswith("u"):
        return 0, (1 << bits) - 1
    return -(1 << (bits - 1)), (1 << (bits - 1)) - 1


def pack(name, value):
    return struct.pack(TYPES[name][0], value)


def unpack(name, raw):
    return struct.unpack(TYPES[name][0], raw)[0]


def same(left, right):
    """Equality that treats NaN as equal to itself."""
    if isinstance(left, float) and isinstance(right, float):
        if math.isnan(left) or math.isnan(right):
            return math.isnan(left) and math.isnan(right)
    return left == right


def on_wire(name, value):
    """What a value reads as after going over the wire."""
    return unpack(name, pack(name, value))


def millis_ok(stamp, seconds):
    """A timestamp must be the floor, in ms, up to float rounding."""
    exact = Fraction(seconds) * 1000
    low = math.floor(exact)
    if stamp == low:
        return True
    # rounding may only matter within a hair of a millisecond boundary
    near = Fraction(1, 1000)
    if stamp == low + 1 and (low + 1) - exact <= near:
        return True
    return stamp == low - 1 and exact - low <= near


class Bad(Exception):
    """Bytes that are not a well-formed frame."""


def parse(raw, types, crc, app_id=None, streams=()):
    """
    Decode a frame; 'types' maps channel id to type name. 'crc' is whether a
    checksum must be there. Raises Bad on anything malformed.
    """
    raw = bytes(raw)
    if len(raw) < HEADER.size:
        raise Bad("short header")
    app, kind, stamp, count = HEADER.unpack_from(raw)
    if app_id is not None and app != app_id:
        raise Bad(f"app id {app}")
    pos = HEADER.size

    def take(fmt, size):
        nonlocal pos
        if pos + size > len(raw):
            raise Bad("truncated")
        val = struct.unpack_from(fmt, raw, pos)[0]
        pos += size
        return val

    out = {"app_id": app, "type": kind, "stamp": stamp, "count": count}
    if kind in (DATA, EVENT):
        if count * 2 > len(raw):
            raise Bad("truncated ids")
        ids = [take(">H", 2) for _ in range(count)]
        elems = []
        for ident in ids:
            if ident not in types:
                raise Bad(f"unknown channel {ident}")
            fmt, size, _ = TYPES[types[ident]]
            if kind == DATA:
                elems.append((ident, take(fmt, size)))
            else:
                prev = take(fmt, size), take(">Q", 8)
                curr = take(fmt, size), take(">Q", 8)
                elems.append((ident, prev, curr))
        out["elems"] = elems
    elif kind == MESSAGE:
        if pos + MESSAGE_FIELDS.size + count > len(raw):
            raise Bad("truncated message")
        out["fields"] = MESSAGE_FIELDS.unpack_from(raw, pos)
        pos += MESSAGE_FIELDS.size
        out["fragment"] = raw[pos : pos + count]
        pos += count
    else:
        raise Bad(f"type {kind}")
    if crc:
        if len(raw) - pos != 4:
            raise Bad(f"{len(raw) - pos} bytes instead of a checksum")
        out["crc"] = CRC.unpack_from(raw, pos)[0]
        if out["crc"] != binascii.crc32(raw[:pos]) & 0xFFFFFFFF:
            raise Bad("checksum")
    elif len(raw) != pos:
        raise Bad("trailing bytes")
    return out


def build(kind, app_id, stamp, count, body, crc=True):
    """Encode a frame."""
    raw = HEADER.pack(app_id, kind, stamp, count) + body
    if crc:
        raw += CRC.pack(binascii.crc32(raw) & 0xFFFFFFFF)
    return raw


def build_data(app_id, stamp, elems, types, crc=True):
    body = b"".join(ID.pack(i) for i, _ in elems)
    body += b"".join(pack(types[i], v) for i, v in elems)
    return build(DATA, app_id, stamp, len(elems), body, crc)


def build_event(app_id, stamp, elems, types, crc=True):
    body = b"".join(ID.pack(e[0]) for e in elems)
    for ident, prev, curr in elems:
        for val, when in (prev, curr):
            body += pack(types[ident], val) + struct.pack(">Q", when)
    return build(EVENT, app_id, stamp, len(elems), body, crc)


def build_message(app_id, stamp, fields, fragment, crc=True):
    body = MESSAGE_FIELDS.pack(*fields) + bytes(fragment)
    return build(MESSAGE, app_id, stamp, len(fragment), body, crc)


def data_cost(name):
    return 2 + TYPES[name][1]


def event_cost(name):
    return 2 + 2 * TYPES[name][1] + 16
