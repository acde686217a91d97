"""Byte-level helpers shared by the independent encoders.  Nothing here imports the code under test."""
import struct


def u8(v):
    return struct.pack('<B', v)


def u16(v):
    return struct.pack('<H', v)


def u32(v):
    return struct.pack('<I', v)


def u64(v):
    return struct.pack('<Q', v)


def s64(v):
    return struct.pack('<q', v)


def pv(v, is64):
    return u64(v) if is64 else u32(v)


def units(s):
    """UTF-16 code units of a text (lone surrogates allowed)."""
    raw = s.encode('utf-16-le', 'surrogatepass')
    return struct.unpack('<%dH' % (len(raw) // 2), raw)


def w(s):
    """A text as UTF-16LE bytes (lone surrogates allowed)."""
    return s.encode('utf-16-le', 'surrogatepass')


def nunits(s):
    return len(w(s)) // 2


def scrub(s):
    """What a text reads back as: unpaired surrogates become U+FFFD.  Hand-written, per UTF-16 rules."""
    us = units(s)
    out = []
    i = 0
    while i < len(us):
        c = us[i]
        if 0xD800 <= c < 0xDC00 and i + 1 < len(us) and 0xDC00 <= us[i + 1] < 0xE000:
            out.append(chr(0x10000 + ((c - 0xD800) << 10) + (us[i + 1] - 0xDC00)))
            i += 2
            continue
        out.append('\ufffd' if 0xD800 <= c < 0xE000 else chr(c))
        i += 1
    return ''.join(out)


class Fill(object):
    """Bytes for the fields the format documents as unknown/reserved: a pure function of the case's seed."""

    def __init__(self, seed):
        self.seed = seed
        self.x = (seed * 2654435761 + 12345) & 0xffffffff

    def __call__(self, n):
        if n <= 0:
            return b''
        if self.seed == 0:
            return b'\0' * n
        if self.seed == 1:
            return b'\xff' * n
        out = bytearray()
        x = self.x
        while len(out) < n:
            x = (x * 1664525 + 1013904223) & 0xffffffff
            out += struct.pack('<H', x >> 16)
        self.x = x
        return bytes(out[:n])


def shuffled(items, seed):
    """Deterministic permutation chosen by the case's seed (0 = identity)."""
    items = list(items)
    if not seed:
        return items
    x = seed & 0xffffffff
    for i in range(len(items) - 1, 0, -1):
        x = (x * 1664525 + 1013904223) & 0xffffffff
        j = (x >> 8) % (i + 1)
        items[i], items[j] = items[j], items[i]
    return items


# ---- detail strings: {'s': text, 'a': stored as ascii?} -------------------------------------------------------------
def dinfo(d):
    n = len(d['s']) if d['a'] else nunits(d['s'])
    assert n <= 0x7fff
    return u16((0x8000 if d['a'] else 0) | n)


def dbytes(d):
    return d['s'].encode('ascii') if d['a'] else w(d['s'])


def dtext(d):
    """What the string reads as: ASCII verbatim; UTF-16 up to the first NUL, unpaired surrogates replaced."""
    if d['a']:
        return d['s']
    return scrub(d['s'].split('\0')[0])


def multisz_text(items):
    return [scrub(i) for i in items]
