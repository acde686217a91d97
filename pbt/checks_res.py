"""Checks C39-C40: memory that is kept; every kind of stream."""
import bz2
import collections
import gc
import gzip
import io
import json
import lzma
import mmap
import os
import socket
import tarfile
import tempfile
import threading
import tracemalloc
import zipfile

from hypothesis import strategies as st

from . import checks_pmc as CP
from . import gens as G
from . import pmc as M
from . import pml
from . import view as V
from .checks_event import CREATE, DIR, NET, VAL
from .checks_log import ALL, EV, P, S, small_log
from .core import Check, Violation, expect, pp, same, short, sut

# ---- memory ---------------------------------------------------------------------------------------------------------
SHAPES = {
    'thread': lambda i: EV('thread_create', 'Thread_Create', {'id': i}, tid=i, date=132390118470000000 + i * 7919),
    'file': lambda i: EV('fs_plain', 'CloseFile', {'sub': 0, 'path': S('C:\\Users\\somebody\\AppData\\Local\\Temp\\directory\\file%06d' % i, i % 4 != 0), 'n': 0, 'xn': None}, tid=i, date=132390118470000000 + i),
    'create': lambda i: EV('fs_create', 'CreateFile', dict(CREATE, path=S('C:\\dir\\file%06d' % i), access=0x120089 + (i % 3)), date=132390118470000000 + i * 12345678),
    'value': lambda i: EV('reg_value', 'RegQueryValue', dict(VAL, path=S('HKLM\\Software\\%d' % i), data={'t': 3, 'k': 'bin', 'v': '%08x' % i * 8}, length=32), stack=[i, i + 1, i + 2, i + 3]),
    'text': lambda i: EV('reg_value', 'RegQueryValue', dict(VAL, path=S('HKLM\\Software\\%d' % i), data={'t': 1, 'k': 'sz', 'v': 'value %d\r\n' % i * 3, 'end': 1}, length=144)),
    'network': lambda i: EV('net', 'Send', dict(NET()['d'], sip='%08x' % (i * 2654435761 % 2 ** 32) + '00' * 12, dport=i & 0xffff, kv=[['seq', str(i)]])),
    'network 6': lambda i: EV('net', 'Receive', dict(NET()['d'], s4=False, sip='%032x' % (i * 2654435761), dport=i & 0xffff)),
    'start': lambda i: EV('process_start', 'Process_Start', {'ppid': i, 'cmd': S('run %d' % i), 'cwd': S('C:\\'), 'env': ['A=%d' % i, 'B=b'], 'end': 2}),
    'listing': lambda i: EV('fs_querydir', 'DirectoryControl', dict(DIR, path=S('C:\\dir%d' % i), list=['a%d' % i, 'b%d' % i])),
}
READS = ['next', 'index', 'backwards', 'slices', 'again', 'bare', 'export', 'text', 'hash', 'compare', 'details', 'damaged', 'processes', 'lengths', 'copies', 'window', 'window of index']


def kept(collect=True):
    if collect:
        gc.collect()
    return tracemalloc.get_traced_memory()[0]


class C39(Check):
    id = 'C39'
    quick, thorough = 3, 3 * 30
    rule = 'logs of 7,000-8,000 events with contents of their own (9 kinds), read in one of %d ways and dropped, the memory kept after 4,500 and after all compared; 36 logs or configurations ' \
           'one after the other, the memory kept after 12 and after all compared; the same with reading that fails; non-trivial = all' % len(READS)

    def strategy(self, tier):
        return st.one_of(
            st.fixed_dictionaries({'what': st.sampled_from(sorted(SHAPES)), 'how': st.sampled_from(READS), 'n': st.integers(7000, 8000), 'is64': G.BOOL}),
            st.fixed_dictionaries({'rounds': st.sampled_from(['logs', 'logs', 'configurations', 'broken logs', 'all', 'half read']), 'is64': G.BOOL, 'scale': st.integers(60, 200)}))

    def fixed(self, tier):
        shapes = sorted(SHAPES)
        for k, how in enumerate(READS):
            yield {'what': shapes[k % len(shapes)], 'how': how, 'n': 7500, 'is64': bool(k & 1)}
        for k, what in enumerate(shapes):
            for how in ('next', 'export'):
                yield {'what': what, 'how': how, 'n': 7500, 'is64': bool(k & 1)}
        for is64 in (True, False):
            for rounds in ('logs', 'configurations', 'broken logs', 'all', 'half read'):
                yield {'rounds': rounds, 'is64': is64, 'scale': 100}

    def run(self, case):
        gc.collect()
        tracemalloc.start(1)
        try:
            return self.rounds(case) if 'rounds' in case else self.events(case)
        finally:
            tracemalloc.stop()

    # one log, its events one after the other
    def events(self, case):
        n, how = case['n'], case['how']
        log = small_log(case['is64'], 0)
        log['events'] = [SHAPES[case['what']](i) for i in range(n)]
        if how == 'damaged':
            for e in log['events'][::2]:
                e['tid'] = 0x5eed
        log['procs'] = [P(idx=0x1234567)]
        log['hosts'] = [['7f000001' + '00' * 12, 'localhost']]
        image = pml.Log(log).encode()
        raw = image.bytes()
        if how == 'damaged':                                    # every other event refers to a process there is not
            mark = (0x1234567).to_bytes(4, 'little') + (0x5eed).to_bytes(4, 'little')
            assert raw.count(mark) >= n // 2
            raw = raw.replace(mark, b'\xff\xff\x00\x00' + mark[4:])
        del log, image
        what = '%s events, %s' % (case['what'], how)
        with sut('opening'):
            r = pp.ProcmonLogsReader(io.BytesIO(raw), *([False, False] if how == 'bare' else []))
            first = None if how == 'damaged' else r[0].date_filetime
        warm = 4500

        def one(i):
            if how in ('next', 'bare', 'details'):
                e = next(r)
                if how == 'details':
                    len(e.details), list(e.details.items()), e.process.modules, e.stacktrace
            elif how.startswith('window'):                      # the caller holds a few
                window.append(next(r) if how == 'window' else r[i])
            elif how == 'index':
                r[i]
            elif how == 'backwards':
                r[-1 - i]
            elif how == 'slices':
                if i % 50 == 0:
                    r[i:i + 50]
            elif how == 'again':
                r[i % 100], r[i]
            elif how == 'export':
                next(r).get_compatible_csv_info(first)
            elif how == 'text':
                e = next(r)
                str(e), repr(e), str(e.process), e.date(), e.date(False)
            elif how == 'hash':
                len({r[i], r[i]})
            elif how == 'compare':
                expect(r[i] == r[i] and r[i] != r[i - 1], '%s: equality of events %d and %d', what, i, i - 1)
            elif how == 'damaged':
                try:
                    r[i]
                except Exception:
                    return 1
            elif how == 'processes':
                r[i].process, r.processes()
            elif how == 'lengths':
                r[i], len(r), r.system_details()
            elif how == 'copies':
                e = r[i]
                e.details['added'] = i
                e.path += 'x'
            return 0
        window = collections.deque(maxlen=3)
        failed = 0
        with sut(what, hang=60):
            for i in range(warm):
                failed += one(i)
            a = kept()
            tracemalloc.reset_peak()
            for i in range(warm, n):
                failed += one(i)
            peak = tracemalloc.get_traced_memory()[1] - a
            b = kept()
        limit = 48 * 1024 + 8 * (n - warm)
        expect(b - a <= limit, '%s: %d bytes more are kept after %d events than after %d, though none of them is', what, b - a, n, warm)
        expect(peak <= 4 << 20, '%s: reading events one by one takes %d bytes at a time', what, peak)
        return True, [case['what'], how]

    # many files
    def rounds(self, case):
        kind = case['rounds']
        made = [0]
        scale = case['scale']

        def text(k, i):
            return 'round %d text %d ' % (k, i) + 'x' * (i % 50)

        def raw_of(k):
            if kind == 'configurations':
                spec = [['FilterRules', [[40052, 0, text(k, i), 1] for i in range(scale)]], ['Foo%d' % k, '5a' * 20000], ['SymbolPath', text(k, 1) * 50]]
                return M.config_bytes(spec)
            log = small_log(case['is64'], 0)
            log['procs'] = [P(idx=i, pid=i, user=text(k, i), command_line=text(k, i + 1000), image_path=text(k, i + 2000), description=text(k, i + 3000)) for i in range(scale)]
            log['events'] = [EV('fs_plain', 'CloseFile', {'sub': 0, 'path': S(text(k, i)), 'n': 0, 'xn': None}, proc=i % scale) for i in range(scale)]
            log['hosts'] = [['%08x' % i + '00' * 12, text(k, i + 4000)] for i in range(scale)]
            return pml.Log(log).encode().bytes()

        def use(raw):
            """The library's objects for one file."""
            made[0] += 1
            if kind == 'configurations':
                c = pp.loads_configuration(raw)
                pp.dumps_configuration(c)
                return c
            f = io.BytesIO(raw)
            if kind == 'all':
                return pp.read_all_events_from_pml(f)
            if kind == 'broken logs':
                try:
                    return pp.ProcmonLogsReader(io.BytesIO(raw[:len(raw) - 40]))
                except Exception:
                    return None
            r = pp.ProcmonLogsReader(f)
            evs = [r[i] for i in range(0, len(r), 2)] if kind == 'half read' else list(r)
            if kind == 'half read':
                next(r), next(r)
            for e in evs[:20]:
                e.get_compatible_csv_info(), str(e), hash(e), e == e
            return r, evs, r.processes()
        sizes = []
        with sut('%s one after the other' % kind, hang=60):
            for k in range(12):
                raw = raw_of(k)
                a = kept()
                keep = use(raw)
                sizes.append(kept() - a)
                del keep
            del raw
            start = kept()
            for k in range(12, 36):
                raw = raw_of(k)
                use(raw)
            del raw
            end = kept()
            # and one of them, after all these: what it took is given back
            raw = raw_of(99)
            a = kept()
            keep = use(raw)
            took = kept() - a
            del keep
            left = kept() - a
        size = sorted(sizes)[len(sizes) // 2]
        if kind == 'broken logs':
            size = 20000
        expect(end - start <= 24 * size // 4 + 65536, '%s: %d bytes are kept of 24 files that nothing refers to any more, each of which takes about %d bytes', kind, end - start, size)
        expect(left <= max(took, size) // 4 + 65536, '%s: %d of the %d bytes a file takes are kept when nothing refers to it any more', kind, left, took)
        return True, [kind]


# ---- streams --------------------------------------------------------------------------------------------------------
class Minimal(object):
    """What can be read and positioned, and nothing else."""
    __slots__ = ('_raw', '_at')

    def __init__(self, raw):
        self._raw, self._at = raw, 0

    def read(self, n=-1):
        a = self._at
        b = len(self._raw) if n is None or n < 0 else min(a + n, len(self._raw))
        self._at = max(a, b)
        return self._raw[a:b]

    def seek(self, off, whence=0):
        if whence == 0:
            if off < 0:
                raise ValueError('negative position')
            self._at = off
        elif whence == 1:
            self._at = max(0, self._at + off)
        else:
            self._at = max(0, len(self._raw) + off)
        return self._at

    def tell(self):
        return self._at


class MinimalNone(Minimal):
    """As Minimal, but seek returns nothing, like that of an old file object."""
    __slots__ = ()

    def seek(self, off, whence=0):
        Minimal.seek(self, off, whence)


class Whole(io.RawIOBase):
    """A raw stream of one's own, which defines readinto."""

    def __init__(self, raw):
        super(Whole, self).__init__()
        self._m = Minimal(raw)

    def readable(self):
        return True

    seekable = readable

    def readinto(self, b):
        d = self._m.read(len(b))
        b[:len(d)] = d
        return len(d)

    def seek(self, off, whence=0):
        return self._m.seek(off, whence)

    def tell(self):
        return self._m.tell()


class Derived(io.BytesIO):
    """A stream that forbids what only looks at it."""

    def getvalue(self):
        raise AssertionError('the whole value was asked for')

    getbuffer = getvalue


class Falsy(io.BytesIO):
    """A stream with a length, which happens to be 0, and without truth."""

    def __len__(self):
        return 0

    def __eq__(self, other):
        raise AssertionError('compared')

    __hash__ = None


LOG_STREAMS = ['bytesio', 'minimal', 'minimal-none', 'whole', 'derived', 'falsy', 'file', 'raw', 'tiny', 'update', 'append', 'mmap', 'mmap-update', 'gzip', 'bz2', 'lzma', 'zip', 'zip-stored', 'tar', 'spooled', 'temporary',
               'named', 'fd', 'buffered-whole', 'random', 'unlinked']
CONF_STREAMS = LOG_STREAMS + ['pipe', 'socket', 'zip-once']
OUT_STREAMS = ['bytesio', 'file', 'raw', 'tiny', 'update', 'append', 'gzip', 'bz2', 'lzma', 'zip', 'pipe', 'socket', 'spooled', 'temporary', 'mmap', 'returns-nothing', 'random']


class NoReturn(object):
    def __init__(self):
        self.parts = []

    def write(self, data):
        self.parts.append(bytes(data))


def opened(kind, raw, tmp, keep):
    """A stream of the kind on the bytes; what has to be closed goes to keep."""
    path = os.path.join(tmp, 'f%d' % len(keep))
    if not raw and kind.startswith('mmap'):                     # nothing to map
        kind = 'file'

    def put(data=raw):
        with open(path, 'wb') as f:
            f.write(data)
        return path
    if kind in ('bytesio', 'minimal', 'minimal-none', 'whole', 'derived', 'falsy', 'buffered-whole'):
        f = {'bytesio': io.BytesIO, 'minimal': Minimal, 'minimal-none': MinimalNone, 'whole': Whole, 'derived': Derived, 'falsy': Falsy, 'buffered-whole': lambda r: io.BufferedReader(Whole(r), 64)}[kind](raw)
    elif kind in ('file', 'named'):
        f = open(put(), 'rb')
    elif kind == 'unlinked':
        f = open(put(), 'rb')
        os.unlink(path)
    elif kind == 'raw':
        f = open(put(), 'rb', buffering=0)
    elif kind == 'tiny':
        f = open(put(), 'rb', buffering=17)
    elif kind == 'update':
        f = open(put(), 'r+b')
    elif kind == 'append':
        f = open(put(), 'a+b')
        f.seek(0)
    elif kind == 'random':
        f = io.BufferedRandom(io.FileIO(put(), 'r+'), 64)
    elif kind == 'fd':
        f = os.fdopen(os.open(put(), os.O_RDONLY), 'rb')
    elif kind in ('mmap', 'mmap-update'):
        with open(put(), 'r+b') as g:
            f = mmap.mmap(g.fileno(), 0, access=mmap.ACCESS_READ if kind == 'mmap' else mmap.ACCESS_WRITE)
    elif kind in ('gzip', 'bz2', 'lzma'):
        m = {'gzip': gzip, 'bz2': bz2, 'lzma': lzma}[kind]
        with m.open(path, 'wb') as g:
            g.write(raw)
        f = m.open(path, 'rb')
    elif kind in ('zip', 'zip-stored', 'zip-once'):
        with zipfile.ZipFile(path, 'w', zipfile.ZIP_STORED if kind == 'zip-stored' else zipfile.ZIP_DEFLATED) as z:
            z.writestr('x', raw)
        z = zipfile.ZipFile(path)
        keep.append(z)
        f = z.open('x')
    elif kind == 'tar':
        with tarfile.open(path, 'w') as t:
            i = tarfile.TarInfo('x')
            i.size = len(raw)
            t.addfile(i, io.BytesIO(raw))
        t = tarfile.open(path)
        keep.append(t)
        f = t.extractfile('x')
    elif kind in ('spooled', 'temporary'):
        f = tempfile.SpooledTemporaryFile(max_size=len(raw) // 2 if len(raw) % 2 else 1 << 20, dir=tmp) if kind == 'spooled' else tempfile.TemporaryFile(dir=tmp)
        f.write(raw)
        f.seek(0)
    elif kind in ('pipe', 'socket'):
        if kind == 'pipe':
            a, b = os.pipe()
            f, g = os.fdopen(a, 'rb'), os.fdopen(b, 'wb')
        else:
            a, b = socket.socketpair()
            f, g = a.makefile('rb'), b.makefile('wb')
            a.close()
            b.close()

        def feed():
            try:
                for i in range(0, len(raw), 7919):
                    g.write(raw[i:i + 7919])
                    g.flush()
                g.close()
            except (OSError, ValueError):
                pass
        t = threading.Thread(target=feed, daemon=True)
        t.start()
    else:
        raise AssertionError(kind)
    if hasattr(f, 'close'):
        keep.append(f)
    return f, (path if os.path.exists(path) and kind in ('file', 'raw', 'tiny', 'update', 'append', 'random', 'fd', 'named', 'mmap', 'mmap-update') else None)


def written(kind, dump, tmp, before=b''):
    """What is in the file after dump(stream)."""
    path = os.path.join(tmp, 'out')
    if kind in ('bytesio', 'spooled', 'temporary'):
        f = io.BytesIO() if kind == 'bytesio' else tempfile.SpooledTemporaryFile(max_size=100, dir=tmp) if kind == 'spooled' else tempfile.TemporaryFile(dir=tmp)
        with f:
            f.write(before)
            dump(f)
            f.seek(0)
            return f.read()
    if kind == 'returns-nothing':
        f = NoReturn()
        f.write(before)
        dump(f)
        return b''.join(f.parts)
    if kind == 'mmap':
        with open(path, 'wb') as f:
            f.write(before + b'\xee' * (1 << 20))
        with open(path, 'r+b') as f:
            with mmap.mmap(f.fileno(), 0) as m:
                m.seek(len(before))
                dump(m)
                return m[:m.tell()]
    if kind in ('pipe', 'socket'):
        if kind == 'pipe':
            a, b = os.pipe()
            f, g = os.fdopen(a, 'rb'), os.fdopen(b, 'wb')
        else:
            a, b = socket.socketpair()
            f, g = a.makefile('rb'), b.makefile('wb')
            a.close()
            b.close()
        got = []
        t = threading.Thread(target=lambda: got.append(f.read()), daemon=True)
        t.start()
        try:
            g.write(before)
            dump(g)
        finally:
            g.close()
            t.join(20)
            f.close()
        return got[0]
    if kind in ('gzip', 'bz2', 'lzma'):
        m = {'gzip': gzip, 'bz2': bz2, 'lzma': lzma}[kind]
        with m.open(path, 'wb') as f:
            f.write(before)
            dump(f)
        with m.open(path, 'rb') as f:
            return f.read()
    if kind == 'zip':
        with zipfile.ZipFile(path, 'w') as z:
            with z.open('x', 'w') as f:
                f.write(before)
                dump(f)
        with zipfile.ZipFile(path) as z:
            return z.read('x')
    with open(path, 'wb') as f:
        f.write(before)
    with (io.BufferedRandom(io.FileIO(path, 'r+'), 64) if kind == 'random' else open(path, {'update': 'r+b', 'append': 'ab'}.get(kind, 'r+b'), **({'buffering': 0} if kind == 'raw' else {'buffering': 17} if kind == 'tiny' else {}))) as f:
        f.seek(0, 2)
        dump(f)
    with open(path, 'rb') as f:
        return f.read()


class C40(Check):
    id = 'C40'
    quick, thorough = 130, 130 * 30
    rule = 'random logs through %d kinds of stream (memory, files of every buffering and mode, mapped, compressed, archived, temporary, objects with nothing but read, seek and tell) and configurations through ' \
           '%d for reading and %d for writing; every kind x both word sizes enumerated; non-trivial = a log with events or a configuration with options' % (len(LOG_STREAMS), len(CONF_STREAMS), len(OUT_STREAMS))

    def strategy(self, tier):
        log = st.fixed_dictionaries({'log': G.log(st.lists(G.event(ALL), max_size=5), G.procs(1, 3, 2), layout=G.LAYOUT, hosts=G.HOSTS, ports=G.PORTNAMES), 'stream': st.sampled_from(LOG_STREAMS),
                                     'options': st.sampled_from([[], [], [True, True], [False, True], [True, False]]), 'how': st.sampled_from(['next', 'index', 'backwards', 'slice', 'all', 'steps'])})
        conf = st.fixed_dictionaries({'pmc': CP.CONFIG, 'in': st.sampled_from(CONF_STREAMS), 'out': st.sampled_from(OUT_STREAMS), 'pre': G.hexb(0, 24)})
        return st.one_of(log, log, conf)

    def fixed(self, tier):
        from .checks_event import text_events
        for is64 in (True, False):
            evs = [EV('reg_value', 'RegQueryValue', dict(VAL, cls=2)), NET(kv=[['k', 'v']]), EV('thread_create', 'Thread_Create', {'id': 5})] + text_events('text', 'more')[:6]
            log = dict(small_log(is64), events=evs * 40, procs=[P(mods=[dict(base=1, size=2, ts=3, path='a', version='b', company='c', description='d')]), P(idx=7, pid=8)],
                       hosts=[['7f000001' + '00' * 12, 'localhost']], ports=[[80, 1, 'http']])
            for k in LOG_STREAMS:
                for how in ('next', 'index', 'all'):
                    yield {'log': log, 'stream': k, 'options': [], 'how': how}
        conf = next(CP.C03().fixed(tier))['cfg']
        for i, k in enumerate(CONF_STREAMS):
            yield {'pmc': conf, 'in': k, 'out': OUT_STREAMS[i % len(OUT_STREAMS)], 'pre': ''}
        for i, k in enumerate(OUT_STREAMS):
            yield {'pmc': conf, 'in': CONF_STREAMS[i], 'out': k, 'pre': 'aabbcc'}
        big = [['FilterRules', [[40052, 0, 'value %d' % i, 1] for i in range(3000)]], ['Foo', '5a' * 70000]]
        for k in ('pipe', 'socket', 'gzip', 'raw', 'tiny', 'zip-once', 'minimal'):
            yield {'pmc': big, 'in': k, 'out': k if k in OUT_STREAMS else 'file', 'pre': ''}

    def run(self, case):
        keep = []
        with tempfile.TemporaryDirectory(prefix='pbt-') as tmp:
            try:
                return (self.conf if 'pmc' in case else self.log)(case, tmp, keep)
            finally:
                for f in reversed(keep):
                    f.close()

    def unharmed(self, f, path, raw, what):
        if hasattr(f, 'closed'):
            expect(not f.closed, '%s: the stream is closed', what)
        if path is not None:
            with open(path, 'rb') as g:
                expect(g.read() == raw, '%s: the file has changed', what)
        if hasattr(f, 'seek') and hasattr(f, 'read'):
            try:
                f.seek(0)
                head = f.read(4)
            except (OSError, ValueError) as e:
                if isinstance(e, io.UnsupportedOperation):
                    return
                raise Violation('%s: the stream cannot be used any more: %r' % (what, e))
            expect(head == raw[:4], '%s: afterwards the stream gives %r', what, head)

    def log(self, case, tmp, keep):
        spec = case['log']
        log = pml.Log(spec)
        raw = log.encode().bytes()
        n = len(spec['events'])
        what = 'a %s stream, %s' % (case['stream'], case['how'])
        opts = dict(zip(('stack', 'details'), case['options'] or [True, True]))
        f, path = opened(case['stream'], raw, tmp, keep)
        with sut(what):
            if case['how'] == 'all' and not case['options']:
                evs, r = pp.read_all_events_from_pml(f), None
            else:
                r = pp.ProcmonLogsReader(f, *case['options'])
                evs = {'next': lambda: list(r), 'index': lambda: [r[i] for i in range(n)], 'backwards': lambda: [r[-1 - i] for i in range(n)][::-1], 'slice': lambda: r[:],
                       'steps': lambda: [e for p in zip(r[::2], r[1::2]) for e in p] + ([r[-1]] if n % 2 else []), 'all': lambda: r[::-1][::-1]}[case['how']]()
        same(what + ': number of events', len(evs), n)
        for i, (e, s) in enumerate(zip(evs, spec['events'])):
            w = '%s: event %d' % (what, i)
            V.cmp_common(w, e, s, log, stack=opts['stack'])
            if opts['details']:
                V.cmp_content(w, e, log.built(s))
        if r is not None:
            with sut(what):
                ps = r.processes()
            expect(sorted(json.dumps(V.proc_key_of(p)) for p in ps) == sorted(json.dumps(V.proc_key(p)) for p in spec['procs']), '%s: processes differ', what)
        del r
        gc.collect()
        self.unharmed(f, path, raw, what)
        return n > 0, ['log:' + case['stream'], case['how']]

    def conf(self, case, tmp, keep):
        spec, pre = case['pmc'], bytes.fromhex(case['pre'])
        raw = M.config_bytes(spec, None if M.settled(spec) else [[0, 0]])
        f, path = opened(case['in'], raw, tmp, keep)
        what = 'a configuration from a %s stream' % case['in']
        with sut(what):
            c = pp.load_configuration(f)
            want = pp.dumps_configuration(c)
        CP.cmp_config(what, c, [[n, v] for n, v in dict(map(tuple, spec)).items()])
        self.unharmed(f, path, raw, what) if case['in'] not in ('pipe', 'socket') else None
        what = 'a configuration to a %s stream' % case['out']

        def dump(g):
            pp.dump_configuration(c, g)
            if hasattr(g, 'closed'):
                expect(not g.closed, '%s: the stream is closed', what)
        with sut(what, passes=(Violation,)):
            got = written(case['out'], dump, tmp, pre)
        expect(got == pre + want, '%s: it has %s, not %s', what, short(got), short(pre + want))
        return bool(spec), ['in:' + case['in'], 'out:' + case['out']]
