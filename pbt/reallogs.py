"""Real Procmon captures (the repository's test fixtures), taken apart at the byte level and re-packed."""
import csv
import io
import os
import struct
import zlib

from . import core
from . import view as V
from .core import Violation, expect, same, short, sut
from .prim import Fill

NAMES = ['CompressedLogfileTests32bitUTC', 'CompressedLogfileTests64bitUTC', 'CompressedLogFileUTC32Filesystem', 'CompressedLogFileUTC64Filesystem',
         'CompressedLogFileUTC64Process', 'CompressedLogFileUTC64Registry']
_cache = {}


class Real(object):
    def __init__(self, raw, rows):
        self.raw = raw
        self.rows = rows
        u = struct.unpack_from
        self.is64 = u('<I', raw, 8)[0]
        self.n = u('<I', raw, 0x234)[0]
        self.off = dict(zip(('events', 'array', 'procs', 'strings', 'icons'), u('<5Q', raw, 0x240)))
        self.hosts = u('<Q', raw, 0x3a0)[0]
        self.offsets = [u('<I', raw, self.off['array'] + 5 * i)[0] for i in range(self.n)]

    def event(self, i):
        """(event bytes, extra bytes or None) of one event."""
        at = self.offsets[i]
        depth, _, dsize, xoff = struct.unpack_from('<HHII', self.raw, at + 0x28)
        size = 0x34 + depth * (8 if self.is64 else 4) + dsize
        extra = None
        if xoff:
            n = struct.unpack_from('<H', self.raw, at + xoff)[0]
            extra = self.raw[at + xoff:at + xoff + 2 + n]
        return self.raw[at:at + size], extra


def load(k):
    if k not in _cache:
        base = os.path.join(core.REPO, 'tests', 'resources', NAMES[k])
        try:
            with open(base + 'PML', 'rb') as f:
                raw = zlib.decompress(f.read())
            with open(base + 'CSV', 'rb') as f:
                rows = list(csv.DictReader(io.StringIO(zlib.decompress(f.read()).decode('utf-8-sig'), newline='')))
            _cache[k] = Real(raw, rows)
        except (OSError, zlib.error):
            _cache[k] = None
    return _cache[k]


def repack(real, picks, gaps, move, fill):
    """A log holding the picked events only, in the picked order, with their bytes moved around."""
    u = struct.unpack_from
    f = Fill(fill)
    region = bytearray()
    places = []
    pending = []
    order = list(range(len(picks)))
    if move & 1:
        order.reverse()
    place = {}
    for j in order:
        ev, extra = real.event(picks[j])
        region += f(gaps[j % len(gaps)])
        place[j] = len(region)
        ev = bytearray(ev)
        if extra is not None:
            if move & 2:
                pending.append((j, extra))
            else:
                gap = gaps[(j + 1) % len(gaps)]
                struct.pack_into('<I', ev, 0x30, len(ev) + gap)
                ev += f(gap) + extra
        region += ev
    for j, extra in pending:
        struct.pack_into('<I', region, place[j] + 0x30, len(region) - place[j])
        region += extra
    head = bytearray(real.raw[:0x3a8])
    base = 0x3a8 + gaps[0]
    array = b''.join(struct.pack('<I', base + place[j]) + f(1) for j in range(len(picks)))
    tail = real.raw[real.off['procs']:]
    apos = base + len(region)
    shift = apos + len(array) - real.off['procs']
    struct.pack_into('<I', head, 0x234, len(picks))
    struct.pack_into('<5Q', head, 0x240, base, apos, apos + len(array), real.off['strings'] + shift, real.off['icons'] + shift)
    struct.pack_into('<Q', head, 0x3a0, real.hosts + shift)
    return bytes(head) + f(gaps[0]) + bytes(region) + array + tail


def run_repack(case):
    real = load(case['real'])
    if real is None:
        return False, ['no real captures']
    picks = [p % real.n for p in case['pick']]
    raw = repack(real, picks, case['gaps'], case['move'], case['fill'])
    orig = V.open_reader(real.raw)
    new = V.open_reader(raw, 'opening a re-packed capture')
    same('number of events', len(new), len(picks))
    for j, i in enumerate(picks):
        a = V.read_one(orig, i)
        b = V.read_one(new, j, 'reading re-packed event')
        expect(V.snap(a) == V.snap(b), 'event %d of %s reads differently after re-packing', i, NAMES[case['real']])
        with sut('comparing'):
            expect(a == b and hash(a) == hash(b), 'event %d of %s is not equal after re-packing', i, NAMES[case['real']])
    return True, ['real capture %d' % case['real']]
