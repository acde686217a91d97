"""Independent PML writer: a JSON-able log spec -> the bytes of a Process Monitor log, plus what reading it must give.
Follows docs/PML Format.md; imports nothing from the code under test."""
import io

from . import events as E
from .prim import u8, u16, u32, u64, pv, w, Fill, scrub, shuffled

HEADER = 0x3a8
AWAY = 1 << 22          # extra details at least so far from their event are a segment of their own
STR_KEYS = ['integrity', 'user', 'process_name', 'image_path', 'command_line', 'company', 'version', 'description']
MOD_KEYS = ['path', 'version', 'company', 'description']


class SparseFile(io.RawIOBase):
    """Read-only seekable file made of a few segments; everything else reads as zero bytes."""

    def __init__(self, segments, size):
        super(SparseFile, self).__init__()
        self.segments = segments
        self.size = size
        self.pos = 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        pos = off if whence == 0 else (self.pos if whence == 1 else self.size) + off
        if pos < 0:
            raise ValueError('negative seek position')
        self.pos = pos
        return pos

    def tell(self):
        return self.pos

    def readinto(self, b):
        n = min(len(b), max(0, self.size - self.pos))
        b[:n] = b'\0' * n
        for off, data in self.segments:
            lo, hi = max(off, self.pos), min(off + len(data), self.pos + n)
            if lo < hi:
                b[lo - self.pos:hi - self.pos] = data[lo - off:hi - off]
        self.pos += n
        return n


class Image(object):
    def __init__(self, segments, size, event_offsets, event_spans, sections):
        self.segments = segments
        self.size = size
        self.event_offsets = event_offsets      # by logical event
        self.event_spans = event_spans          # by logical event: list of (start, end) of its own bytes
        self.sections = sections                # name -> (start, end)
        self.entries = []                       # (kind, which, start, end): texts of strings, hosts and ports, records of processes

    def bytes(self):
        assert self.size < 1 << 27
        out = bytearray(self.size)
        for off, data in self.segments:
            out[off:off + len(data)] = data
        return bytes(out)

    def sparse(self):
        return io.BufferedReader(SparseFile(self.segments, self.size), 1 << 13)


class Log(object):
    """A log spec with defaults filled in, its encoder and its expectations."""

    def __init__(self, spec):
        self.spec = spec
        self.is64 = spec['is64']
        self.names = {bytes.fromhex(ip): name for ip, name in spec.get('hosts', [])}
        self.ports = {(p, bool(tcp)): name for p, tcp, name in spec.get('ports', [])}

    # -- what reading must give ---------------------------------------------------------------------------------------
    def host(self, raw, v4):
        name = scrub(self.names.get(raw, ''))
        return name if name else E.host_text(raw, v4)

    def port(self, port, tcp):
        name = self.ports.get((port, tcp))
        return str(port) if name is None else scrub(name)

    def built(self, ev):
        return E.build(ev, self.is64, self)

    def proc(self, i):
        return self.spec['procs'][i]

    # -- encoding -----------------------------------------------------------------------------------------------------
    def header(self, n, off):
        s = self.spec
        f = Fill(s.get('fill', 0) if s.get('fill', 0) < 2 else s['fill'] + 77)

        def fixed(text, size):
            raw = w(text)
            assert len(raw) <= size
            if len(raw) < size:
                raw += b'\0\0' + f(size - len(raw) - 2)
            return raw
        out = s.get('sig', 'PML_').encode('latin-1') + u32(s.get('ver', 9)) + u32(1 if self.is64 else 0)
        out += fixed(s.get('computer', 'PC'), 0x20) + fixed(s.get('root', 'C:\\Windows'), 0x208)
        out += u32(n) + f(8) + u64(off['events']) + u64(off['array']) + u64(off['procs']) + u64(off['strings']) + \
            u64(off['icons']) + f(12)
        for v in s.get('os', [10, 0, 19041, 0]):
            out += u32(v)
        out += fixed(s.get('sp', ''), 0x32) + f(0xd6) + u32(s.get('cpus', 4)) + u64(s.get('ram', 1 << 33))
        out += u64(s.get('hsize', HEADER)) + u64(off['hosts'])
        assert len(out) == HEADER, len(out)
        return out

    def encode(self):
        s = self.spec
        lay = s.get('layout', {})
        fill = Fill(s.get('fill', 0))
        evs = s['events']
        gaps = lay.get('gaps') or [0]
        # strings: interned, optionally duplicated, reordered and mixed with unused ones
        pool = []
        index = {}
        dup = lay.get('dup', 0)

        def intern(text):
            if dup or text not in index:
                index[text] = len(pool)
                pool.append(text)
            return index[text]
        refs = []
        for p in s['procs']:
            refs.append(([intern(p[k]) for k in STR_KEYS], [[intern(m[k]) for k in MOD_KEYS] for m in p['mods']]))
        for t in lay.get('junk', []):
            dup = 1
            intern(t)
        perm = shuffled(range(len(pool)), lay.get('sorder', 0))
        pos = {old: new for new, old in enumerate(perm)}
        records = [None] * len(pool)
        for old, new in pos.items():
            raw = w(pool[old])
            if lay.get('term', 1):
                raw += b'\0\0'
            records[new] = u32(len(raw)) + raw
        # strings table
        head = 4 + 4 * len(records)
        body = bytearray()
        offs = [0] * len(records)
        entries = []
        for i in shuffled(range(len(records)), lay.get('sphys', 0)):
            body += fill(gaps[i % len(gaps)])
            offs[i] = head + len(body)
            body += records[i]
            entries.append(('strings', pool[perm[i]], offs[i] + 4, head + len(body)))
        strings = u32(len(records)) + b''.join(u32(o) for o in offs) + body
        # process table
        n = len(s['procs'])
        head = 4 + 8 * n
        body = bytearray()
        offs = [0] * n
        for i in shuffled(range(n), lay.get('pphys', 0)):
            p = s['procs'][i]
            body += fill(gaps[i % len(gaps)])
            offs[i] = head + len(body)
            body += u32(p['idx']) + u32(p['pid']) + u32(p['ppid']) + fill(4) + u64(p['auth']) + u32(p['session']) + \
                fill(4) + u64(p['start']) + u64(p['end']) + u32(p['virt']) + u32(p['p64'])
            for r in refs[i][0]:
                body += u32(pos[r])
            body += fill(8) + fill(8 if self.is64 else 4) + u32(len(p['mods']))
            for m, mr in zip(p['mods'], refs[i][1]):
                body += fill(8 if self.is64 else 4) + pv(m['base'], self.is64) + u32(m['size'])
                for r in mr:
                    body += u32(pos[r])
                body += u32(m['ts']) + fill(0x18)
            entries.append(('procs', i, offs[i], head + len(body)))
        procs = u32(n) + b''.join(u32(p['idx']) for p in s['procs']) + b''.join(u32(o) for o in offs) + body
        # hosts and ports
        hosts = bytearray(u32(len(s.get('hosts', []))))
        for ip, name in s.get('hosts', []):
            raw = w(name) + (b'\0\0' if lay.get('term', 1) else b'')
            hosts += bytes.fromhex(ip) + u32(len(raw)) + raw
            entries.append(('hosts', ip, len(hosts) - len(raw), len(hosts)))
        hosts += u32(len(s.get('ports', [])))
        for port, tcp, name in s.get('ports', []):
            raw = w(name) + (b'\0\0' if lay.get('term', 1) else b'')
            hosts += u16(port) + u16(tcp) + u32(len(raw)) + raw
            entries.append(('ports', [port, bool(tcp)], len(hosts) - len(raw), len(hosts)))
        hosts = bytes(hosts)
        icons = u32(0) + fill(lay.get('icons', 12))
        # events region
        ptr = 8 if self.is64 else 4
        place = {}
        region = bytearray()
        spans = {}
        pending = []
        distant = []
        for i in shuffled(range(len(evs)), lay.get('eorder', 0)):
            ev = evs[i]
            b = self.built(ev)
            region += fill(gaps[i % len(gaps)])
            start = len(region)
            size = 0x34 + ptr * len(ev['stack']) + len(b.raw)
            xoff = 0
            where = ev.get('place', 0)
            extra = b'' if b.extra is None else u16(len(b.extra)) + b.extra
            if b.extra is not None:
                xoff = size + (where if where >= 0 else 0)
            ef = Fill(ev['fill'] + 3 if ev['fill'] > 1 else ev['fill'])
            common = [u32(s['procs'][ev['proc']]['idx']) + u32(ev['tid']) + u32(E.class_of(ev)) +
                      u16(E.op_code(ev)) + ef(2) + ef(4) + u64(ev['dur']) + u64(ev['date']) + u32(ev['res']) +
                      u16(len(ev['stack'])) + ef(2) + u32(len(b.raw)), xoff]
            stack = b''.join(pv(a, self.is64) for a in ev['stack'])
            place[i] = start
            spans[i] = [(start, start + size)]
            if b.extra is not None and where < 0:
                pending.append((i, start, extra))
            region += common[0] + u32(common[1]) + stack + b.raw
            if b.extra is not None and where >= AWAY:
                distant.append((start + xoff, extra))
            elif b.extra is not None and where >= 0:
                region += fill(where)
                spans[i].append((len(region), len(region) + len(extra)))
                region += extra
        for i, start, extra in pending:      # extra details stored away from their events
            region += fill(gaps[i % len(gaps)])
            off = len(region) - start
            region[start + 0x30:start + 0x34] = u32(off)
            spans[i].append((len(region), len(region) + len(extra)))
            region += extra
        # sections, in file order
        flags = Fill(s.get('fill', 0) + 5 if s.get('fill', 0) > 1 else s.get('fill', 0))
        n_array = 5 * len(evs) + lay.get('agap', 0)
        parts = [('events', bytes(region)), ('array', bytes(n_array)), ('procs', procs), ('strings', strings), ('icons', icons)]
        order = lay.get('sections', 0)
        if order:
            parts = shuffled(parts, order)
        at = HEADER
        off = {}
        segments = []
        sections = {}
        far = lay.get('far', {})
        for name, data in parts + [('hosts', hosts)]:           # the library takes the host table to be the end of the file
            at += lay.get('sgap', 0)
            at = max(at, far.get('tables' if name == 'array' else name, 0))
            off[name] = at
            sections[name] = (at, at + len(data))
            segments.append((at, data))
            at += len(data)
        base = off['events']
        event_offsets = [base + place[i] for i in range(len(evs))]
        array = b''.join(u32(o) + flags(1) for o in event_offsets) + fill(lay.get('agap', 0))
        segments = [(o, array if o == off['array'] and len(d) == n_array else d) for o, d in segments]
        for name, v in s.get('zero', {}).items():
            off[name] = v
        segments += [(off['events'] + a, x) for a, x in distant]      # the tables must be further away
        segments.insert(0, (0, self.header(len(evs), off)))
        sections['header'] = (0, HEADER)
        event_spans = [[(base + a, base + b) for a, b in spans[i]] for i in range(len(evs))]
        img = Image(segments, at, event_offsets, event_spans, sections)
        for kind, which, a, b in entries:
            base = off['hosts' if kind == 'ports' else kind]
            img.entries.append((kind, which, base + a, base + b))
        return img
