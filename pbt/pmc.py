"""Independent model of PMC configurations (docs/PMC Format.md): writer, reader and value building from JSON specs.

A configuration spec is a list of [name, value]; the value's shape follows from the name:
  numbers -> int, texts -> str, Columns -> [int], ColumnMap -> [column code], fonts -> [13 numbers, face name],
  rules -> [[column, relation, value, action], ...], any other name -> hex of its raw bytes."""
import struct

from . import tables as T
from .prim import u8, u16, u32, w

NUMBERS = ['ColumnCount', 'HighlightFG', 'HighlightBG', 'AdvancedMode', 'Autoscroll', 'HistoryDepth', 'Profiling',
           'DestructiveFilter', 'AlwaysOnTop', 'ResolveAddresses']
BARE_TEXTS = ['DbgHelpPath', 'Logfile']               # stored without a terminator
Z_TEXTS = ['SourcePath', 'SymbolPath']                # stored with a terminating NUL unless empty
FONTS = ['LogFont', 'BoookmarkFont']
RULES = ['FilterRules', 'HighlightRules']
KNOWN = set(NUMBERS + BARE_TEXTS + Z_TEXTS + FONTS + RULES + ['Columns', 'ColumnMap'])
FONT_FIELDS = ['height', 'width', 'escapement', 'orientation', 'weight', 'italic', 'underline', 'strikeout', 'char_set',
               'out_precision', 'clip_precision', 'quality', 'pitch_and_family', 'face_name']
ARCHITECTURE = 40088


def cz(s):
    return w(s) + b'\0\0' if s else b''


def int_value(col, value):
    """The 'value as integer' field; None where the documentation does not settle it."""
    if value and all(c in '0123456789' for c in value):
        return int(value) if len(value) <= 4000 and int(value) < 1 << 32 else None
    if any(c.isdigit() for c in value) and value.isdigit():
        return None
    if col == ARCHITECTURE:
        return 32 if '32' in value else 64
    return 0


def rule_bytes(r, iv=None, reserved=0):
    col, rel, value, action = r
    if iv is None:
        iv = int_value(col, value)
    v = cz(value)
    return u32(col) + u32(rel) + u8(action) + u32(len(v)) + v + u32(iv) + u32(reserved)


def data_bytes(name, v, ivs=None, face_pad=b''):
    if name in NUMBERS:
        return u32(v)
    if name in BARE_TEXTS:
        return w(v)
    if name in Z_TEXTS:
        return cz(v)
    if name == 'Columns':
        return b''.join(u16(x) for x in v)
    if name == 'ColumnMap':
        return b''.join(u32(x) for x in v)
    if name in FONTS:
        return b''.join(u32(x) for x in v[:5]) + b''.join(u8(x) for x in v[5:13]) + w(v[13]).ljust(64, b'\0')
    if name in RULES:
        out = u8(1) + u32(len(v))
        for i, r in enumerate(v):
            out += rule_bytes(r, *(ivs[i % len(ivs)] if ivs else ()))
        return out
    return bytes.fromhex(v)


def record_bytes(name, v, ivs=None):
    n, d = cz(name), data_bytes(name, v, ivs)
    return u32(0x10 + len(n) + len(d)) + u32(0x10) + u32(0x10 + len(n)) + u32(len(d)) + n + d


def config_bytes(spec, ivs=None):
    return b''.join(record_bytes(n, v, ivs) for n, v in spec)


def settled(spec):
    """False when some rule's integer field is not settled by the documentation."""
    return all(int_value(r[0], r[2]) is not None for n, v in spec if n in RULES for r in v)


class Malformed(Exception):
    pass


def parse(raw):
    """Independent reader: bytes -> spec (rules keep only documented fields; raises Malformed if the layout is off)."""
    at = 0
    out = []

    def need(c, msg):
        if not c:
            raise Malformed('%s at offset %d' % (msg, at))

    def cstr(b, what):
        if not b:
            return ''
        need(len(b) % 2 == 0 and b[-2:] == b'\0\0', what + ' not NUL-terminated')
        s = b[:-2].decode('utf-16-le')
        need('\0' not in s, what + ' has an embedded NUL')
        return s
    while at < len(raw):
        need(len(raw) - at >= 16, 'short record header')
        size, hsize, nsize, dsize = struct.unpack_from('<IIII', raw, at)
        need(hsize == 0x10, 'header size %d' % hsize)
        need(size == nsize + dsize, 'record size %d != %d + %d' % (size, nsize, dsize))
        need(nsize >= 0x10 and at + size <= len(raw), 'record runs past the end')
        name = cstr(raw[at + 16:at + nsize], 'name')
        d = raw[at + nsize:at + size]
        if name in NUMBERS:
            need(len(d) == 4, name)
            v = struct.unpack('<I', d)[0]
        elif name in BARE_TEXTS:
            v = d.decode('utf-16-le')
        elif name in Z_TEXTS:
            v = cstr(d, name)
        elif name == 'Columns':
            need(len(d) % 2 == 0, name)
            v = list(struct.unpack('<%dH' % (len(d) // 2), d))
        elif name == 'ColumnMap':
            need(len(d) % 4 == 0, name)
            v = list(struct.unpack('<%dI' % (len(d) // 4), d))
        elif name in FONTS:
            need(len(d) == 92, name)
            v = list(struct.unpack('<5I8B', d[:28])) + [d[28:].decode('utf-16-le').rstrip('\0')]
        elif name in RULES:
            need(d[:1] == b'\1', 'rules marker')
            n = struct.unpack_from('<I', d, 1)[0]
            p = 5
            v = []
            for _ in range(n):
                col, rel, act, ln = struct.unpack_from('<IIBI', d, p)
                v.append([col, rel, cstr(d[p + 13:p + 13 + ln], 'rule value'), act])
                p += 13 + ln + 8
            need(p == len(d), 'rules length')
        else:
            v = d.hex()
        out.append([name, v])
        at += size
    return out


COLUMN_NAME = dict(T.COLUMNS)
RELATION_NAME = dict(T.RELATIONS)
ACTION_NAME = dict(T.ACTIONS)
