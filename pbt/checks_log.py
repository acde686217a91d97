"""Checks C06-C12, C27-C29, C32: the log as a whole."""
import copy
import gzip
import io
import json
import mmap
import os
import pathlib
import pickle
import tempfile
import zipfile

from hypothesis import strategies as st

from . import events as E
from . import gens as G
from . import pml
from . import view as V
from .core import in_order, Check, Violation, expect, outcome, pp, same, short, sut
from .prim import scrub

ALL = list(G.K)
QUICKLIKE = ['thread_create', 'load_image', 'reg_plain', 'reg_setvalue', 'reg_value', 'fs_create', 'fs_rw', 'net', 'fs_querydir', 'fs_plain', 'opaque']


def P(**k):
    return dict(G.PLAIN_PROC, **k)


def EV(kind, op, d, **k):
    return dict({'kind': kind, 'op': op, 'd': d, 'proc': 0, 'tid': 1, 'dur': 2, 'date': 132390118470000000, 'res': 0, 'stack': [1, 2], 'place': 0, 'fill': 0}, **k)


def S(s, a=False):
    return {'s': s, 'a': a}


def small_log(is64=True, n=3, **k):
    evs = [EV('thread_create', 'Thread_Create', {'id': 5 + i}, tid=100 + i) for i in range(n)]
    return dict({'is64': is64, 'fill': 2, 'procs': [P()], 'events': evs}, **k)


def with_header(spec, which):
    """Spec with header faults applied."""
    s = copy.deepcopy(spec)
    for w in which:
        if w[0] == 'sig':
            s['sig'] = w[1]
        elif w[0] == 'ver':
            s['ver'] = w[1]
        elif w[0] == 'zero':
            s.setdefault('zero', {})[w[1]] = 0
        elif w[0] == 'hsize':
            s['hsize'] = w[1]
    return s


FAULT = st.one_of(
    st.tuples(st.just('sig'), st.one_of(st.sampled_from(['PML\0', 'pml_', 'PML-', '\0\0\0\0', '_LMP', 'PMLx', 'XPML', 'PM__']),
                                        st.text(alphabet=[chr(i) for i in range(256)], min_size=4, max_size=4))).filter(lambda t: t[1] != 'PML_'),
    st.tuples(st.just('ver'), G.U32.filter(lambda v: v != 9)),
    st.tuples(st.just('zero'), st.sampled_from(['events', 'array', 'procs', 'strings', 'icons', 'hosts'])),
    st.tuples(st.just('hsize'), G.U64.filter(lambda v: v != pml.HEADER)),
).map(list)


# what a file of a log can be called
NAMES = ['x.pml', 'x', ' x.pml', 'x.pml ', 'x.pml\n', '\tx', 'a b.PML', '\u4e2d\u6587\U0001f600.pml', 'E\u0301.pml', '%41.pml', '~', '*', '?', '[a].pml', '$HOME', '#x', '-', '"x"', "'x'", 'a\\b', 'C:x', 'x.pml.gz',
         'file:x', 'x' * 250, '.pml', '...', 'read', '0', '\x7f', 'x.csv', 'x.zip']


class C06(Check):
    id = 'C06'
    quick, thorough = 1000, 1000 * 30
    rule = 'valid logs (must open) and the same logs with 1-3 header faults (must be rejected with the documented error), through all ' \
           'entry points; every single fault and every version 0..300 enumerated; non-trivial = at least one fault'

    def strategy(self, tier):
        return st.fixed_dictionaries({'log': G.log(st.lists(G.simple_event(['thread_create', 'reg_plain']), max_size=2), layout=G.LAYOUT, system=G.SYSTEM),
                                      'faults': st.lists(FAULT, max_size=3)})

    def fixed(self, tier):
        base = small_log()
        yield {'log': base, 'faults': []}
        yield {'log': small_log(False), 'faults': []}
        yield {'log': small_log(n=0), 'faults': []}
        for v in list(range(0, 9)) + list(range(10, 301)) + [0x109, 0x10009, 0x9000000, 0xfffffff7, 0xffffffff]:
            yield {'log': base, 'faults': [['ver', v]]}
        for i in range(4):
            for c in (0, 1, 0x20, 0x41, 0xff):
                s = list('PML_')
                s[i] = chr(c)
                yield {'log': base, 'faults': [['sig', ''.join(s)]]}
                s[i] = chr(ord('PML_'[i]) ^ 0x20)
            yield {'log': base, 'faults': [['sig', ''.join(s)]]}
        for is64 in (True, False):
            for n in ('events', 'array', 'procs', 'strings', 'icons', 'hosts'):
                for k in (0, 3):
                    yield {'log': small_log(is64, k), 'faults': [['zero', n]]}
            for v in (0, 1, 0x3a7, 0x3a9, 0x3a0, 0xa8, 0x3a80000, pml.HEADER + (1 << 32), 1 << 32, (1 << 64) - 1):
                yield {'log': small_log(is64), 'faults': [['hsize', v]]}
        for n in range(4):
            yield {'empty': n}
        for i in range(len(NAMES)):
            for k in (0, 3):
                yield {'log': small_log(bool(i & 1), k), 'faults': [], 'name': i}
            yield {'log': base, 'faults': [['ver', 8]], 'name': i}

    def run(self, case):
        if 'empty' in case:
            raw, faults = b'PML_'[:case['empty']], [['sig', '']]
        else:
            faults = case['faults']
            raw = pml.Log(with_header(case['log'], faults)).encode().bytes()
        kinds = [f[0] for f in faults]
        with tempfile.TemporaryDirectory(prefix='pbt-') as tmp:
            path = os.path.join(tmp, NAMES[case.get('name', 0)])
            with open(path, 'wb') as f:
                f.write(raw)
            rel = os.path.relpath(path)
            doors = [('ProcmonLogsReader', lambda: len(pp.ProcmonLogsReader(io.BytesIO(raw)))),
                     ('ProcmonLogsReader without stacks and details', lambda: len(pp.ProcmonLogsReader(io.BytesIO(raw), False, False))),
                     ('read_all_events_from_pml(path)', lambda: len(pp.read_all_events_from_pml(path))),
                     ('read_all_events_from_pml(relative path)', lambda: len(pp.read_all_events_from_pml(rel))),
                     ('read_all_events_from_pml(pathlib.Path)', lambda: len(pp.read_all_events_from_pml(pathlib.Path(path)))),
                     ('read_all_events_from_pml(file)', lambda: len(pp.read_all_events_from_pml(io.BytesIO(raw))))]
            for name, fn in doors:
                res, v = outcome(name, fn)
                if not faults:
                    expect(res == 'ok', '%s rejects a valid log: %r', name, v)
                    same(name + ' number of events', v, len(case['log']['events']))
                    continue
                expect(res == 'err', '%s accepts a log with %s', name, short(faults))
                if 'sig' in kinds:
                    expect(isinstance(v, pp.PMLError), '%s on a file that is no log (%s): %r, expected PMLError', name, short(faults), v)
                elif 'ver' in kinds:
                    expect(isinstance(v, NotImplementedError), '%s on another log version (%s): %r, expected NotImplementedError', name, short(faults), v)
                else:
                    expect(isinstance(v, pp.PMLError), '%s on an unclean/corrupt log (%s): %r, expected PMLError', name, short(faults), v)
        return bool(faults), sorted(set(kinds)) or ['valid']


OSNAMES = {(6, 0): 'Windows Vista', (6, 1): 'Windows 7', (6, 2): 'Windows 8', (6, 3): 'Windows 8.1', (10, 0): 'Windows 10'}


SYSTEM_DEFAULT = {'computer': 'PC', 'root': 'C:\\Windows', 'os': [10, 0, 19041, 0], 'sp': '', 'cpus': 4, 'ram': 1 << 33}


def system_expect(s, is64):
    o = s['os']
    sp = V.z(s['sp'])
    hundredths = s['ram'] * 100 // (1 << 30)
    return {'Computer Name': V.z(s['computer']),
            'Operating System': '%s%s (build %d.%d)' % (OSNAMES[(o[0], o[1])], ', ' + sp if sp else '', o[2], o[3]),
            'System Root': V.z(s['root']), 'Logical Processors': s['cpus'],
            'Memory (RAM)': '%r GB' % (hundredths / 100), 'System Type': '64-bit' if is64 else '32-bit'}


class C07(Check):
    id = 'C07'
    quick, thorough = 1000, 1000 * 30
    rule = 'headers with random system fields (every supported Windows version, names filling their whole field, boundary RAM sizes); ' \
           'non-trivial = anything but the default header'

    def strategy(self, tier):
        return G.log(st.just([]), system=G.SYSTEM)

    def fixed(self, tier):
        base = dict(small_log(n=0), computer='PC', root='C:\\Windows', os=[10, 0, 19041, 0], sp='', cpus=4, ram=1 << 33)
        for is64 in (True, False):
            for o in OSNAMES:
                for sp in ('', 'Service Pack 1', 'x' * 25):
                    yield dict(base, is64=is64, os=list(o) + [7601, 17514], sp=sp)
            for n in (1, 15, 16):
                yield dict(base, is64=is64, computer='C' * n, root='D' * (260 if n == 16 else n))
        for q in range(0, 400):     # every hundredth and every sixteenth of a GB near small sizes, and their neighbours
            for d in (-1, 0, 1):
                yield dict(base, ram=max(0, (q << 30) // 100 + d))
            yield dict(base, ram=q << 26)
        for k in range(0, 64):
            yield dict(base, ram=1 << k)
            yield dict(base, ram=(1 << k) - 1)
        for k in range(1, 129):
            yield dict(base, ram=(k << 30) - 0x2f3000)

    def run(self, case):
        s = dict(SYSTEM_DEFAULT, **case)
        r = V.open_reader(pml.Log(s).encode().bytes())
        with sut('system_details'):
            got = r.system_details()
        want = system_expect(s, s['is64'])
        for k in want:
            expect(k in got, 'system details lack %r', k)
            same('system details ' + k, got[k], want[k])
        expect(set(got) == set(want), 'system details keys: %s', sorted(got))
        return True, ['os%d.%d' % tuple(s['os'][:2])] + (['service pack'] if s['sp'] else [])


class C08(Check):
    id = 'C08'
    quick, thorough = 800, 800 * 30
    rule = 'logs of 1-6 events of any supported kind with random common fields (boundary-biased 32/64-bit values, deep stacks), both pointer ' \
           'sizes, several processes with non-contiguous indexes; non-trivial = at least one event'

    def strategy(self, tier):
        return G.log(st.lists(G.event(ALL, date=G.U64, stack=st.one_of(G.STACK, st.builds(lambda a, n: a * n, st.lists(G.U64, min_size=1, max_size=4), st.sampled_from([16, 64, 300])))),
                              min_size=1, max_size=6), G.procs(1, 4, 1), layout=G.LAYOUT)

    def fixed(self, tier):
        for is64 in (True, False):
            for depth in (0, 1, 255, 256, 32767, 32768, 65535):
                m = (1 << 64) - 1 if is64 else (1 << 32) - 1
                yield dict(small_log(is64), events=[EV('thread_create', 'Thread_Create', {'id': 1}, stack=[(m - i * 0x10001) & m for i in range(depth)]),
                                                    EV('reg_plain', 'RegCloseKey', {'path': S('HKLM')}, stack=[])])
            for f in ('tid', 'dur', 'date', 'res'):
                for v in G._bounds(64 if f in ('dur', 'date') else 32):
                    yield dict(small_log(is64), events=[EV('thread_create', 'Thread_Create', {'id': 1}, **{f: v}), EV('fs_plain', 'CloseFile', {'sub': 0, 'path': S('x')}, **{f: v})])

    def run(self, spec):
        log = pml.Log(spec)
        r = V.open_reader(log.encode().bytes())
        same('number of events', len(r), len(spec['events']))
        for i, e in enumerate(spec['events']):
            ev = V.read_one(r, i)
            V.cmp_common('event %d (%s)' % (i, e['kind']), ev, e, log)
            with sut('repr of an event'):
                text = repr(ev)
            in_order('repr(event)', text, [('kind', 'Event'), ('process', str(ev.process)), ('tid', str(ev.tid)), ('class', ev.event_class.name),
                                           ('operation', ev.operation), ('duration', str(ev.duration)), ('time', str(ev.date_filetime)),
                                           ('result', str(ev.result)), ('category', ev.category), ('path', ev.path), ('details', str(ev.details))])
        return bool(spec['events']), ['kind:' + e['kind'] for e in spec['events']] + (['deep stack'] if any(len(e['stack']) > 60 for e in spec['events']) else [])


IDX = st.one_of(st.integers(-12, 12), st.sampled_from([0, -1]))
SL = st.one_of(st.none(), st.integers(-14, 14), st.sampled_from([-1000, 1000, 1 << 40]))
STEP = st.one_of(st.none(), st.sampled_from([1, -1, 2, -2, 3, -3, 7, 100, -100]))
CMD = st.one_of(
    st.tuples(st.just('get'), IDX), st.tuples(st.just('get'), IDX),
    st.tuples(st.just('slice'), SL, SL, STEP),
    st.tuples(st.just('next')), st.tuples(st.just('next')), st.tuples(st.just('nextn'), st.integers(1, 5)), st.tuples(st.just('rest')),
    st.tuples(st.just('len')), st.tuples(st.just('procs'), G.BOOL), st.tuples(st.just('sys'), G.BOOL),
    st.tuples(st.just('bad'), st.sampled_from(['str', 'none', 'float', 'tuple', 'bytes'])),
    st.tuples(st.just('oob'), st.integers(0, 3), G.BOOL), st.tuples(st.just('seek'), st.integers(0, 5000)),
    st.tuples(st.just('mutate'), IDX), st.tuples(st.just('csv'), IDX), st.tuples(st.just('readall'), st.sampled_from(['path', 'file', 'raw', 'bytesio'])),
    st.tuples(st.just('eqhash'), IDX), st.tuples(st.just('spoilproc'), st.integers(0, 3)), st.tuples(st.just('reopen')), st.tuples(st.just('fresh'), G.BOOL, G.BOOL),
)


class C09(Check):
    id = 'C09'
    quick, thorough = 480, 480 * 30
    rule = 'histories of up to 25 operations (index, slice, next, iterate on, len, processes, system_details, invalid indexes, external ' \
           'seeks, mutation of returned events, other readers on the same stream) on 1-3 interleaved readers of a random log, checked step by ' \
           'step against a list model; plus 70,000-event logs; non-trivial = at least 3 operations on a log with events'

    def strategy(self, tier):
        h = st.lists(st.tuples(st.integers(0, 2), CMD).map(lambda t: [t[0]] + list(t[1])), min_size=1, max_size=25)
        return st.fixed_dictionaries({'log': G.log(st.lists(G.simple_event(QUICKLIKE), max_size=9), layout=G.LAYOUT), 'hist': h,
                                      'shared': G.BOOL, 'stream': st.sampled_from(['bytesio', 'file', 'raw', 'sparse', 'tiny', 'mmap', 'gzip', 'zip', 'spooled', 'update']),
                                      'other': st.one_of(st.none(), G.log(st.lists(G.simple_event(QUICKLIKE), min_size=1, max_size=4)))})

    def fixed(self, tier):
        for is64 in (True, False):
            yield {'bulk': 70000, 'is64': is64}
        yield {'bulk': 65536, 'is64': True}
        full = small_log(n=7)
        for a in (None, -9, -8, -7, -1, 0, 1, 3, 6, 7, 8):
            for b in (None, -9, -7, -2, 0, 3, 7, 9):
                yield {'log': full, 'shared': False, 'stream': 'bytesio', 'hist': [[0, 'slice', a, b, s] for s in (None, 1, 2, 3, -1, -2, -3)]}
        yield {'log': full, 'shared': False, 'stream': 'file', 'hist': [[0, 'get', i] for i in range(-8, 9)]}
        yield {'log': small_log(n=0), 'shared': False, 'stream': 'bytesio', 'hist': [[0, 'next'], [0, 'get', 0], [0, 'get', -1], [0, 'rest'], [0, 'len'], [0, 'readall', 'path']]}
        yield {'log': full, 'shared': True, 'stream': 'bytesio', 'hist': [[0, 'next'], [1, 'next'], [0, 'get', 5], [0, 'next'], [1, 'rest'], [0, 'rest'], [0, 'next'], [1, 'next'], [2, 'rest']]}

    def run_bulk(self, case):
        n = case['bulk']
        spec = small_log(case['is64'], n)
        for i, e in enumerate(spec['events']):
            e['d'] = {'id': (i * 7919) & 0xffffffff}
            e['tid'] = i
            e['stack'] = []
        log = pml.Log(spec)
        raw = log.encode().bytes()
        r = V.open_reader(raw)
        same('len', len(r), n)

        def sig(i):
            return (i, (i * 7919) & 0xffffffff)

        def of(e):
            return (e.tid, e.details['Thread ID'])
        with sut('random access'):
            for i in [0, 1, 255, 256, 32767, 32768, 65534, 65535] + ([65536, 65537] if n > 65537 else []) + [n - 2, n - 1]:
                expect(of(r[i]) == sig(i), 'event %d is %s', i, of(r[i]))
                expect(of(r[i - n]) == sig(i), 'event %d (as %d) is %s', i, i - n, of(r[i - n]))
            for s in (slice(65530, 65542), slice(-5, None), slice(None, None, 9973), slice(n - 1, n - 10, -3), slice(32760, 32775)):
                got = [of(e) for e in r[s]]
                expect(got == [sig(i) for i in range(n)[s]], 'slice %s gives %s', s, short(got))
        with sut('iteration'):
            count = 0
            for i, e in enumerate(r):
                if of(e) != sig(i):
                    raise Violation('iteration: event %d is %s' % (i, of(e)))
                count += 1
            same('events iterated', count, n)
        with sut('read_all_events_from_pml'):
            got = pp.read_all_events_from_pml(io.BytesIO(raw))
            expect([of(e) for e in got] == [sig(i) for i in range(n)], 'read_all_events_from_pml gives %d events', len(got))
        return True, ['bulk']

    def run(self, case):
        if 'bulk' in case:
            return self.run_bulk(case)
        spec = case['log']
        log = pml.Log(spec)
        raw = log.encode().bytes()
        n = len(spec['events'])
        built = [log.built(e) for e in spec['events']]
        opened = []
        with tempfile.TemporaryDirectory(prefix='pbt-') as tmp:
            path = os.path.join(tmp, 'x.pml')
            with open(path, 'wb') as f:
                f.write(raw)

            def stream():
                k = case['stream']
                if k == 'bytesio':
                    return io.BytesIO(raw)
                if k == 'sparse':
                    return log.encode().sparse()
                if k == 'mmap':
                    with open(path, 'rb') as f:
                        f = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
                elif k == 'gzip':
                    with gzip.open(path + '.gz', 'wb', compresslevel=1) as f:
                        f.write(raw)
                    f = gzip.open(path + '.gz', 'rb')
                elif k == 'zip':
                    with zipfile.ZipFile(path + '.zip', 'w', zipfile.ZIP_DEFLATED) as z:
                        z.writestr('x.pml', raw)
                    f = zipfile.ZipFile(path + '.zip').open('x.pml')
                elif k == 'spooled':
                    f = tempfile.SpooledTemporaryFile(max_size=len(raw) + 1 if len(raw) % 2 else 10, dir=tmp)
                    f.write(raw)
                    f.seek(0)
                elif k == 'update':
                    f = open(path, 'r+b')
                else:
                    f = open(path, 'rb', **({'buffering': 0} if k == 'raw' else {'buffering': 16} if k == 'tiny' else {}))
                opened.append(f)
                return f
            try:
                return self.history(case, spec, log, built, n, raw, path, stream, opened)
            finally:
                for f in opened:
                    f.close()

    def history(self, case, spec, log, built, n, raw, path, stream, opened):
        shared = stream()
        streams = [shared if case['shared'] else stream() for _ in range(3)]
        logs = [(spec, log, built)] * 3
        if case.get('other'):           # the third reader reads a log of its own, between the others
            o = pml.Log(case['other'])
            streams[2] = io.BytesIO(o.encode().bytes())
            logs[2] = (case['other'], o, [o.built(e) for e in case['other']['events']])
        readers = [None] * 3
        pos = [0] * 3
        labels = set()
        kept = []                       # events the caller still holds: they stay what they were

        def check(what, ev, i, keep=True):
            V.cmp_common(what, ev, spec['events'][i], log)
            V.cmp_content(what, ev, built[i])
            if keep and len(kept) < 24:
                kept.append((what, ev, i, (spec, log, built)))

        def spoil(e):
            e.path, e.category, e.operation, e.tid = 'mutated', 'mutated', 'mutated', -1
            e.details['mutated'] = 1
            e.details.pop(next(iter(e.details)))
            for v in list(e.details.values()) + [e.stacktrace]:
                if isinstance(v, list):
                    v.append(1)
        def recheck():
            for what, ev, i, (s, l, b) in kept:
                V.cmp_common('kept from ' + what, ev, s['events'][i], l)
                V.cmp_content('kept from ' + what, ev, b[i])
        for step, (w, op, *a) in enumerate(case['hist']):
            what = 'step %d (%s %s)' % (step, op, ', '.join(map(repr, a)))
            spec, log, built = logs[w]
            n = len(spec['events'])
            procs = sorted(json.dumps(V.proc_key(p)) for p in spec['procs'])
            if readers[w] is None:
                with sut('opening reader %d' % w):
                    streams[w].seek(0)
                    readers[w] = pp.ProcmonLogsReader(streams[w])
                pos[w] = 0
            r = readers[w]
            labels.add(op)
            if op == 'get':
                i = a[0]
                res, v = outcome(what, lambda: r[i])
                if -n <= i < n:
                    if res == 'err':
                        raise Violation('%s of %d events: raised %r' % (what, n, v))
                    check(what, v, i % n)
                else:
                    expect(res == 'err' and isinstance(v, IndexError), '%s of %d events: %s, expected IndexError', what, n, short(v))
            elif op == 'oob':
                i = n + a[0] if a[1] else -n - 1 - a[0]
                res, v = outcome(what, lambda: r[i])
                expect(res == 'err' and isinstance(v, IndexError), '%s: index %d of %d events: %s, expected IndexError', what, i, n, short(v))
            elif op == 'bad':
                i = {'str': '0', 'none': None, 'float': 0.0, 'tuple': (0, 1), 'bytes': b'0'}[a[0]]
                res, v = outcome(what, lambda: r[i])
                expect(res == 'err' and isinstance(v, TypeError), '%s: index %r: %s, expected TypeError', what, i, short(v))
            elif op == 'slice':
                s = slice(*a)
                with sut(what):
                    got = r[s]
                want = list(range(n))[s]
                expect(isinstance(got, list), '%s: a %s', what, type(got).__name__)
                same(what + ' length', len(got), len(want))
                for k, (g, i) in enumerate(zip(got, want)):
                    check(what, g, i, keep=k > 0)
                if got:                 # whatever the caller does to the list and the events it got
                    spoil(got[0])
                got[1:] = got[:0:-1]
                got.append(None)
                with sut(what + ', again'):
                    got = r[s]
                same(what + ', again: length', len(got), len(want))
                for g, i in zip(got, want):
                    check(what + ', again', g, i)
            elif op in ('next', 'nextn'):
                for _ in range(a[0] if a else 1):
                    res, v = outcome(what, lambda: next(r))
                    if pos[w] < n:
                        if res == 'err':
                            raise Violation('%s at position %d of %d: raised %r' % (what, pos[w], n, v))
                        check('%s at position %d' % (what, pos[w]), v, pos[w])
                        pos[w] += 1
                    else:
                        expect(res == 'err' and isinstance(v, StopIteration), '%s after the end: %s, expected StopIteration', what, short(v))
            elif op == 'rest':
                with sut(what):
                    got = [e for e in r]
                same(what + ' events iterated', len(got), n - pos[w])
                for k, g in enumerate(got):
                    check(what, g, pos[w] + k)
                pos[w] = n
            elif op == 'len':
                with sut(what):
                    same(what, len(r), n)
                    same(what + ' truth value', bool(r), n > 0)
            elif op == 'procs':
                with sut(what):
                    got = r.processes()
                expect(sorted(json.dumps(V.proc_key_of(p)) for p in got) == procs, '%s: processes differ', what)
                if a[0]:
                    got.reverse()
                    del got[:1]
                    got.append(None)
            elif op == 'spoilproc':
                with sut(what):
                    got = r.processes()
                    p = got[a[0] % len(got)]
                    saved, mods = {k: getattr(p, k) for k in ATTR_P}, list(p.modules)
                    p.modules.append(None)
                    p.pid, p.user, p.process_name = -1, 'spoiled', 'spoiled'
                    others = [q for q in got if q is not p]
                    for q in (x for x in readers if x is not None and x is not r):
                        others += q.processes()
                    new = pp.ProcmonLogsReader(io.BytesIO(logs[w][1].encode().bytes())).processes()
                    others += new
                    for q in others:
                        expect(q.modules[-1:] != [None] and q.pid != -1 and q.user != 'spoiled', '%s: changing one process changed another one', what)
                    for k, v in saved.items():
                        setattr(p, k, v)
                    p.modules[:] = mods
            elif op == 'sys':
                with sut(what):
                    got = r.system_details()
                same(what, got['System Type'], '64-bit' if spec['is64'] else '32-bit')
                same(what, got['Logical Processors'], spec.get('cpus', 4))
                if a[0]:
                    got.clear()
            elif op == 'seek':
                streams[w].seek(min(a[0], len(raw)))
                streams[w].read(3)
            elif op == 'mutate' and n:
                with sut(what):
                    spoil(r[a[0] % n])
                    e = r[a[0] % n]
                check(what + ', then read again', e, a[0] % n)
            elif op == 'csv' and n:
                with sut(what):
                    e = r[a[0] % n]
                    str(e), repr(e), e.date()
                    e.get_compatible_csv_info()
                check(what + ' after being exported', e, a[0] % n, keep=False)
            elif op == 'eqhash' and n:
                with sut(what):
                    e, f = r[a[0] % n], r[a[0] % n]
                    expect(e == f and hash(e) == hash(f) and not e != f, '%s: the same event read twice is not equal', what)
            elif op == 'readall':
                spec, log, built = logs[0]
                n = len(spec['events'])
                with sut(what):
                    if a[0] == 'path':
                        got = pp.read_all_events_from_pml(path)
                    elif a[0] == 'bytesio':
                        got = pp.read_all_events_from_pml(io.BytesIO(raw))
                    else:
                        with open(path, 'rb', **({'buffering': 0} if a[0] == 'raw' else {})) as f:
                            got = pp.read_all_events_from_pml(f)
                            expect(not f.closed, '%s: closed the file it was given', what)
                expect(isinstance(got, list), '%s: a %s', what, type(got).__name__)
                same(what + ' events', len(got), n)
                for i, g in enumerate(got):
                    check('%s event %d' % (what, i), g, i)
            elif op == 'reopen':
                readers[w] = None
            elif op == 'fresh':
                with sut(what):
                    streams[w].seek(0)
                    o = pp.ProcmonLogsReader(streams[w], a[0], a[1])
                    for e in o:
                        pass
        recheck()
        for f in opened:                # what was read does not need the file any more
            f.close()
        recheck()
        with open(path, 'rb') as f:
            expect(f.read() == raw, 'reading changed the log file')
        return len(case['hist']) >= 3 and n > 0, ['op:' + l for l in labels] + ['stream:' + case['stream']] + \
            (['shared stream'] if case['shared'] else []) + (['second log'] if case.get('other') else [])


class C10(Check):
    id = 'C10'
    quick, thorough = 480, 480 * 30
    rule = 'process tables with 1-6 processes and up to 8 modules each (shared and duplicated strings, any index numbering, any physical ' \
           'order), both pointer sizes; non-trivial = at least one module or two processes'

    def strategy(self, tier):
        return G.log(st.lists(G.simple_event(['thread_create', 'reg_plain', 'fs_plain']), max_size=5), G.procs(1, 6, 8), layout=G.LAYOUT)

    def fixed(self, tier):
        for what in ('processes', 'modules'):
            for n in (70000, 65536):
                yield {'bulk': n, 'what': what, 'is64': n != 65536}
        for is64 in (True, False):
            yield dict(small_log(is64), procs=[P(idx=i * 3, pid=i, process_name='p%d' % i, p64=i & 1, virt=i % 3, session=i % 5, image_path='C:\\p%d.exe' % (i % 7),
                                               command_line='', mods=[]) for i in range(300)],
                       events=[EV('thread_create', 'Thread_Create', {'id': 1}, proc=i) for i in (0, 1, 255, 256, 299)])
            yield dict(small_log(is64), procs=[P(mods=[dict(base=i * 0x1000, size=i, ts=i, path='m%d' % i, version='v%d' % (i % 3), company='c', description='') for i in range(400)])])
            for t in ('', 'a' * 1, 'a' * 32767, '\u4e2d' * 70000):
                yield dict(small_log(is64), procs=[P(command_line=t, mods=[dict(base=1, size=2, ts=3, path=t, version='', company=t[:5], description='')])])

    def run_bulk(self, case):
        """Very many processes, modules and strings."""
        n, at = case['bulk'], (0, 1, 255, 256, 32767, 32768, 65534, 65535, case['bulk'] - 2, case['bulk'] - 1)
        mods = [dict(base=i * 0x1000, size=i, ts=i, path='m%d' % i, version='v%d' % (i % 3), company='c', description='') for i in range(n if case['what'] == 'modules' else 1)]
        procs = [P(idx=i, pid=i * 4, user='u%d' % i, mods=mods if i == 0 else []) for i in range(n if case['what'] == 'processes' else 1)]
        spec = dict(small_log(case['is64']), procs=procs, events=[EV('thread_create', 'Thread_Create', {'id': i}, proc=i % len(procs)) for i in at])
        r = V.open_reader(pml.Log(spec).encode().bytes())
        with sut('processes'):
            got = sorted(r.processes(), key=lambda p: p.pid)
            events = r[:]
        same('number of processes', len(got), len(procs))
        for p, q in zip(got, procs):
            if V.proc_key_of(p) != V.proc_key(q):
                V.cmp_process('process %d' % q['idx'], p, q)
                raise Violation('process %d is another one' % q['idx'])
        for e, i in zip(events, at):
            expect(e.process.pid == i % len(procs) * 4, 'the event of process %d has that with the id %d', i % len(procs), e.process.pid)
        return True, ['bulk ' + case['what']]

    def run(self, spec):
        if 'bulk' in spec:
            return self.run_bulk(spec)
        log = pml.Log(spec)
        r = V.open_reader(log.encode().bytes())
        with sut('processes'):
            got = r.processes()
        expect(isinstance(got, list), 'processes() is a %s', type(got).__name__)
        same('number of processes', len(got), len(spec['procs']))
        for p in spec['procs']:
            if not any(V.proc_key_of(g) == V.proc_key(p) for g in got):
                twin = [g for g in got if g.pid == p['pid']] or got
                V.cmp_process('process %d' % p['idx'], twin[0], p)
                raise Violation('process %s is missing' % short(p))
        want = sorted(json.dumps(V.proc_key(p)) for p in spec['procs'])
        expect(sorted(json.dumps(V.proc_key_of(g)) for g in got) == want, 'processes() is not the process table')
        for i, e in enumerate(spec['events']):
            ev = V.read_one(r, i)
            V.cmp_process('event %d process' % i, ev.process, log.proc(e['proc']))
        with sut('str of processes and modules'):
            for p in got:
                same('str(process)', str(p), '"%s", %d' % (p.image_path, p.pid))
                in_order('repr(process)', repr(p), [('kind', 'Process')] + [(k, str(getattr(p, k))) for k in ATTR_P[:14]])
                for m in p.modules[:3]:
                    same('str(module)', str(m), '"%s", address=0x%x, size=0x%x' % (m.path, m.base_address, m.size))
                    in_order('repr(module)', repr(m), [('kind', 'Module')] + [(k, str(getattr(m, k))) for k in ATTR_M[:2]] +
                             [(k, getattr(m, k)) for k in ('path', 'version', 'company', 'description')] + [('timestamp', str(m.timestamp))])
        # what a caller does to one process changes no other process, and no later reader's
        with sut('changing a process'):
            other = V.open_reader(log.encode().bytes()).processes()
            for k in {0, len(got) // 2, len(got) - 1}:
                p, before = got[k], [V.proc_key_of(q) for q in got]
                p.modules.append(pp.Module(path='spoiled'))
                p.modules.reverse()
                p.user = p.process_name = 'spoiled'
                p.pid = -1
                for q, key in zip(got, before):
                    expect(q is p or V.proc_key_of(q) == key, 'changing process %s changed process %s', key[0], key[0])
            later = V.open_reader(log.encode().bytes()).processes()
        for name, ps in (('an earlier', other), ('a later', later)):
            expect(sorted(json.dumps(V.proc_key_of(q)) for q in ps) == want, 'changing the processes of a reader changed those of %s reader', name)
        return len(got) > 1 or any(p['mods'] for p in spec['procs']), ['procs:%d' % min(len(got), 9), 'modules' if any(p['mods'] for p in spec['procs']) else 'no modules']


class C11(Check):
    id = 'C11'
    quick, thorough = 260, 260 * 30
    rule = 'one logical log written in two different physical layouts (section order, gaps, unknown-field bytes, event order, extra details near ' \
           'or far, string table order/duplication, file offsets up to and beyond 4 GiB) and, from real Procmon captures, random selections ' \
           'of events re-packed; all readings must agree with each other and the model; non-trivial = layouts differ'

    def strategy(self, tier):
        two = st.tuples(G.LAYOUT, G.LAYOUT)
        far = st.one_of(st.none(), st.none(), st.sampled_from([0x7fffff00, 0x80000000, 0x80000001, 0xfff00000, 0xfffe0000]))
        tab = st.one_of(st.none(), st.sampled_from([0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100000001, 0x1fffffffe, 0x200000000, 1 << 40]))
        synth = st.builds(lambda lg, t, f, tb, fills: {'log': lg, 'a': t[0], 'b': t[1], 'far': f, 'tab': tb, 'fills': fills},
                          G.log(st.lists(G.event(ALL), min_size=1, max_size=5), G.procs(1, 3, 2), hosts=G.HOSTS, ports=G.PORTNAMES, system=G.SYSTEM), two, far, tab,
                          st.tuples(G.FILL, G.FILL).map(list))
        real = st.fixed_dictionaries({'real': st.integers(0, 5), 'pick': st.lists(st.integers(0, 1 << 20), min_size=1, max_size=25),
                                      'gaps': st.lists(st.integers(0, 40), min_size=1, max_size=3), 'move': st.integers(0, 3), 'fill': G.FILL})
        return st.one_of(synth, synth, synth, real)

    def fixed(self, tier):
        from .checks_event import VAL                           # extra details any distance from their event
        for is64 in (True, False):
            for place in [0, 1, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, 0x1ffff, 0xfffff, 0x400000, 0x1000000, 0x7fff0000, 0x80000000, 0x80000001, 0xc0000000, 0xffff0000]:
                evs = [EV('reg_value', 'RegQueryValue', dict(VAL, cls=2), place=place, stack=[1, 2, 3] * (place & 1)), EV('thread_create', 'Thread_Create', {'id': 5})]
                lay = {'far': {'tables': 0x140000000 if place >= 0x400000 else 0}}
                yield {'log': dict(small_log(is64), events=evs), 'a': lay, 'b': {'gaps': [3]}, 'far': None, 'tab': None, 'fills': [0, 1]}

    def run(self, case):
        if 'real' in case:
            from . import reallogs
            return reallogs.run_repack(case)
        log = case['log']
        seen = []
        for lay, fill in ((case['a'], case['fills'][0]), (dict(case['b'], far={}), case['fills'][1])):
            spec = copy.deepcopy(log)
            spec['fill'] = fill
            lay = dict(lay)
            if lay is not case['a'] and 'far' in lay:
                lay['sections'] = 0
                if case['far']:
                    lay['far']['events'] = case['far']
                if case['tab']:
                    lay['far']['tables'] = max(case['tab'], 0x100000 + (case['far'] or 0))
            spec['layout'] = lay
            for k, e in enumerate(spec['events']):
                if e['place'] >= pml.AWAY and not lay.get('far', {}).get('tables'):
                    e['place'] = 7
                if lay.get('far', {}).get('events'):
                    e['place'] = min(e['place'], 300)           # what is near 4 GiB stays below
                e['fill'] = [fill, e['fill']][k % 2] if fill > 1 else fill
            lg = pml.Log(spec)
            img = lg.encode()
            src = img.sparse() if img.size > 1 << 24 else io.BytesIO(img.bytes())
            r = V.open_reader(src)
            with sut('reading'):
                evs = list(r)
            same('number of events', len(evs), len(spec['events']))
            for i, (ev, e) in enumerate(zip(evs, spec['events'])):
                V.cmp_event('event %d (%s)' % (i, e['kind']), ev, e, lg)
            with sut('processes'):
                ps = sorted(json.dumps(V.proc_key_of(p)) for p in r.processes())
            expect(ps == sorted(json.dumps(V.proc_key(p)) for p in spec['procs']), 'processes differ from the table')
            with sut('system_details'):
                sd = r.system_details()
            want = system_expect(dict(SYSTEM_DEFAULT, **spec), spec['is64'])
            expect(sd == want, 'system details: %s, expected %s', short(sd), short(want))
            seen.append((ps, sd))
        expect(seen[0] == seen[1], 'the two layouts read differently')
        return True, (['beyond 4 GiB'] if (case['tab'] or 0) > 0xfffffff0 else []) + (['events beyond 2 GiB'] if case['far'] else []) + ['synthetic']


TRUTHS = [(True, False), (1, 0), ('yes', ''), ([1], None)]


class C12(Check):
    id = 'C12'
    quick, thorough = 720, 720 * 30
    rule = 'the same random log read with all four option combinations; non-trivial = the log has an event with details or a stack'

    def strategy(self, tier):
        return G.log(st.lists(G.event(ALL), min_size=1, max_size=5), G.SMALL_PROCS, layout=G.LAYOUT, hosts=G.HOSTS, ports=G.PORTNAMES)

    def fixed(self, tier):
        for is64 in (True, False):
            for code in range(0, 256):
                yield dict(small_log(is64), events=[EV('fs_plain', op, {'sub': code, 'path': S('C:\\x'), 'n': 8, 'xn': 8}) for op in E.T.SUB_OPS if G._plain_ok(op, code)])
            yield dict(small_log(is64), events=[EV('fs_querydir', 'DirectoryControl', {'sub': 1, 'path': S(path), 'filter': S(f), 'cls': 37, 'list': l, 'align': 8, 'cut': None})
                                                for path in ('C:\\', 'C:\\a', 'C:\\a\\', 'C:\\\\', '\\\\', '', '\\\\s\\d\\', ' ', '/', 'a/')
                                                for f in ('', '*', '\\', 'x\\') for l in (None, ['.', 'a'])])

            from .checks_event import OPCODES, any_event
            for say in range(1, len(TRUTHS)):                   # other things that are true or false
                yield dict(small_log(is64), events=[any_event(c, o) for c, o in OPCODES], say=say)

    def run(self, spec):
        log = pml.Log(spec)
        raw = log.encode().bytes()
        full = V.open_reader(raw)
        with sut('reading with everything'):
            base = list(full)
        for stacks in (True, False):
            for details in (True, False):
                a, b = TRUTHS[spec.get('say', 0)]
                how = dict(should_get_stacktrace=a if stacks else b, should_get_details=a if details else b)
                what = 'stack traces %r, details %r' % tuple(how.values())
                r = V.open_reader(raw, **how)
                with sut('reading with ' + what):
                    evs = list(r)
                same(what + ': number of events', len(evs), len(base))
                for i, (ev, b, e) in enumerate(zip(evs, base, spec['events'])):
                    w = '%s: event %d (%s)' % (what, i, e['kind'])
                    V.cmp_common(w, ev, e, log, stack=False)
                    if stacks:
                        expect(list(ev.stacktrace) == e['stack'], '%s stack trace: %s', w, short(ev.stacktrace))
                    else:
                        expect(not ev.stacktrace, '%s still has a stack trace', w)
                    bu = log.built(e)
                    same(w + ' operation', ev.operation, bu.operation)
                    if details:
                        same(w + ' path', ev.path, bu.path)
                        same(w + ' category', ev.category, b.category)
                        expect(list(ev.details.items()) == list(b.details.items()), '%s: details change with the stack trace option', w)
                        if bu.know_details:
                            V.cmp_content(w, ev, bu)
                    else:
                        same(w + ' path', ev.path, bu.base_path)
                        if e['kind'][:3] in ('reg', 'fs_'):
                            expect(not ev.details, '%s: details %s although they were not asked for', w, short(dict(ev.details)))
                        expect(ev.category in ('', b.category), '%s: category %r, with details %r', w, ev.category, b.category)
                        for k, v in ev.details.items():
                            expect(k in b.details and b.details[k] == v, '%s: detail %s=%s is not there when details are read', w, k, short(v))
                with sut('export with ' + what):
                    for ev in evs[:2]:
                        if G.EPOCH <= ev.date_filetime < G.FT_MAX:
                            str(ev)
        return any(e['stack'] or log.built(e).details for e in spec['events']), ['kind:' + e['kind'] for e in spec['events']]


EMPTY_PROC = dict(idx=2, pid=0, ppid=0, auth=0, session=0, start=0, end=0, virt=0, p64=0, integrity='', user='', process_name='', image_path='', command_line='', company='', version='', description='', mods=[])


class C27(Check):
    id = 'C27'
    quick, thorough = 880, 880 * 30
    rule = 'a random log in which the bytes of one event (common part, stack, details or its extra details) are damaged (overwritten with drawn ' \
           'bytes, zeros, 0xff, or bit flips); non-trivial = the damage changes a byte and there are other events'

    def strategy(self, tier):
        dmg = st.lists(st.tuples(st.integers(0, 1 << 16), st.one_of(G.hexb(1, 8), st.sampled_from(['00000000', 'ffffffff', 'ff', '00', '7fffffff', '0000ff7f', '01', '80']))).map(list), min_size=1, max_size=5)
        return st.fixed_dictionaries({'log': G.log(st.lists(G.event(ALL), min_size=2, max_size=6), st.one_of(G.SMALL_PROCS, G.procs(1, 2, 1), st.just([EMPTY_PROC])), layout=G.LAYOUT, hosts=G.HOSTS), 'victim': st.integers(0, 5), 'dmg': dmg,
                                      'part': st.sampled_from(['any', 'any', 'common', 'details', 'extra']), 'all': st.sampled_from([None, None, None, 0, 255, 0x41])})

    def fixed(self, tier):
        # every byte of the common part of one event, several values
        for is64 in (True, False):
            spec = small_log(is64)
            for off in range(0x34):
                for v in ('00', 'ff', '80', '7f', '09'):
                    yield {'log': spec, 'victim': 1, 'dmg': [[off, v]], 'part': 'common', 'all': None}
            # every operation, the details of one event all alike, its process without a value
            from .checks_event import OPCODES, any_event
            for c, o in OPCODES:
                e = any_event(c, o)
                for v in (0, 255):
                    yield {'log': dict(small_log(is64), procs=[EMPTY_PROC], events=[e, copy.deepcopy(e), dict(copy.deepcopy(e), tid=9)]), 'victim': 1, 'dmg': [], 'part': 'details', 'all': v}
            # longer logs, the damage anywhere
            for n in (17, 66, 130, 258, 1026):
                for vi in sorted({0, 1, 2, 15, 16, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, n - 2, n - 1, n // 2}):
                    if vi < n:
                        yield {'log': small_log(is64, n), 'victim': vi, 'dmg': [[0, 'ff'], [8, '63ff']], 'part': 'common', 'all': 255 if vi & 1 else None}

    def run(self, case):
        spec = case['log']
        log = pml.Log(spec)
        img = log.encode()
        raw = bytearray(img.bytes())
        n = len(spec['events'])
        vi = case['victim'] % n
        spans = img.event_spans[vi]
        ptr = 8 if spec['is64'] else 4
        a, b = spans[0]
        d0 = a + 0x34 + ptr * len(spec['events'][vi]['stack'])
        area = {'any': spans, 'common': [(a, a + 0x34)], 'details': [(d0, b)], 'extra': spans[1:]}[case['part']] or spans
        cells = [i for lo, hi in area for i in range(lo, hi)] or list(range(a, b))
        before = bytes(raw)
        if case['all'] is not None:
            for i in cells:
                raw[i] = case['all']
        else:
            for off, hx in case['dmg']:
                for k, v in enumerate(bytes.fromhex(hx)):
                    raw[cells[(off + k) % len(cells)]] = v
        raw = bytes(raw)
        r = V.open_reader(raw, 'opening a log with one damaged event')
        same('number of events', len(r), n)
        res, v = outcome('reading the damaged event', lambda: r[vi])
        failed = res == 'err'
        if not failed:
            expect(isinstance(v, pp.Event), 'the damaged event reads as a %s', type(v).__name__)
        for i in range(n):
            if i != vi:
                V.cmp_event('event %d next to damaged event %d' % (i, vi), V.read_one(r, i), spec['events'][i], log)
        # iteration: every event is visited, a failing one does not end it
        it = iter(r)
        for i in range(n):
            res, v = outcome('next()', lambda: next(it))
            if i == vi:
                expect(not (res == 'err' and isinstance(v, StopIteration)), 'iteration ends at the damaged event')
                continue
            if res == 'err':
                raise Violation('iteration past damaged event %d: event %d raised %r' % (vi, i, v))
            V.cmp_event('iterated event %d next to damaged event %d' % (i, vi), v, spec['events'][i], log)
        res, v = outcome('next() at the end', lambda: next(it))
        expect(res == 'err' and isinstance(v, StopIteration), 'iteration does not end after the last event')
        for lo, hi in ((0, vi), (vi + 1, n)):
            with sut('slice %d:%d next to damaged event %d' % (lo, hi, vi)):
                got = r[lo:hi]
            same('length of slice %d:%d' % (lo, hi), len(got), hi - lo)
            for i, ev in enumerate(got):
                V.cmp_event('event %d of a slice next to damaged event %d' % (lo + i, vi), ev, spec['events'][lo + i], log)
        with sut('processes'):
            ps = sorted(json.dumps(V.proc_key_of(p)) for p in r.processes())
        expect(ps == sorted(json.dumps(V.proc_key(p)) for p in spec['procs']), 'processes differ after damage to event %d', vi)
        with sut('system_details'):
            sd = r.system_details()
        expect(sd == system_expect(dict(SYSTEM_DEFAULT, **spec), spec['is64']), 'system details differ after damage to event %d: %s', vi, short(sd))
        return raw != before and n > 1, ['raises' if failed else 'reads', 'part:' + case['part']]


class C28(Check):
    id = 'C28'
    quick, thorough = 800, 800 * 30
    rule = 'random logs cut off at a byte (every byte of small logs in both pointer sizes enumerated): opening or reading must fail, or everything ' \
           'read must equal the full log; non-trivial = a cut inside the file'

    def strategy(self, tier):
        return st.fixed_dictionaries({'log': G.log(st.lists(G.simple_event(ALL), min_size=1, max_size=3), hosts=G.HOSTS, ports=G.PORTNAMES, layout=G.LAYOUT),
                                      'cut': st.one_of(st.integers(1, 60).map(lambda n: -n), st.integers(0, 1 << 20))})

    def small(self, is64):
        lg = small_log(is64, 2)
        lg['events'].append(EV('net', 'Send', {'s4': True, 'sip': '7f000001' + '00' * 12, 'd4': True, 'dip': '0a000001' + '00' * 12, 'tcp': True, 'len': 5,
                                               'sport': 80, 'dport': 65535, 'kv': [['k', 'v']], 'end': 2, 'hi': 0}))
        lg['hosts'] = [['7f000001' + '00' * 12, 'localhost'], ['0a000001' + '00' * 12, 'other']]
        lg['ports'] = [[80, 1, 'http'], [65535, 1, 'last\u4e2d']]
        return lg

    def fixed(self, tier):
        for is64 in (True, False):
            for lg in (self.small(is64), dict(self.small(is64), layout={'term': 0}), dict(self.small(is64), hosts=[], ports=[])):
                size = pml.Log(lg).encode().size
                for cut in range(size + 1):
                    yield {'log': lg, 'cut': cut}

    def run(self, case):
        spec = case['log']
        log = pml.Log(spec)
        raw = log.encode().bytes()
        cut = case['cut']
        cut = len(raw) + cut if cut < 0 else cut % (len(raw) + 1)
        cut = max(0, cut)
        part = raw[:cut]
        res, r = outcome('opening the first %d of %d bytes' % (cut, len(raw)), lambda: pp.ProcmonLogsReader(io.BytesIO(part)))
        if res == 'err':
            expect(cut < len(raw), 'the complete log is rejected: %r', r)
            return True, ['open fails']
        same('number of events in the first %d of %d bytes' % (cut, len(raw)), len(r), len(spec['events']))
        for i, e in enumerate(spec['events']):
            res, ev = outcome('reading event %d of the first %d of %d bytes' % (i, cut, len(raw)), lambda: r[i])
            if res == 'ok':
                V.cmp_event('event %d in the first %d of %d bytes' % (i, cut, len(raw)), ev, e, log)
            else:
                expect(cut < len(raw), 'event %d of the complete log: %r', i, ev)
        res, ps = outcome('processes', r.processes)
        if res == 'ok':
            expect(sorted(json.dumps(V.proc_key_of(p)) for p in ps) == sorted(json.dumps(V.proc_key(p)) for p in spec['procs']),
                   'processes differ in the first %d of %d bytes', cut, len(raw))
        res, sd = outcome('system_details', r.system_details)
        if res == 'ok':
            expect(sd == system_expect(dict(SYSTEM_DEFAULT, **spec), spec['is64']), 'system details differ in the first %d of %d bytes: %s', cut, len(raw), short(sd))
        return cut < len(raw), ['reads']


ATTR_P = ['pid', 'parent_pid', 'authentication_id', 'session', 'virtualized', 'is_process_64bit', 'integrity', 'user', 'process_name', 'image_path',
          'command_line', 'company', 'version', 'description', 'start_time', 'end_time', 'modules']
ATTR_M = ['base_address', 'size', 'path', 'version', 'company', 'description', 'timestamp']
ATTR_E = ['process', 'tid', 'event_class', 'operation', 'duration', 'date_filetime', 'result', 'stacktrace', 'category', 'path', 'details']


class C29(Check):
    id = 'C29'
    quick, thorough = 720, 720 * 30
    rule = 'a random log read twice (and pairs of its events/processes/modules): equality must match equality of every observable field, hashes ' \
           'must agree for equal objects; each single field is then changed on a copy and must break equality; non-trivial = at least one event'

    def strategy(self, tier):
        return st.fixed_dictionaries({'log': G.log(st.lists(G.event(ALL), min_size=1, max_size=4), G.procs(1, 3, 2), layout=G.LAYOUT), 'dup': st.integers(0, 3),
                                      'attr': st.integers(0, 1000)})

    def fixed(self, tier):
        for a in range(120):
            yield {'log': dict(small_log(), procs=[P(mods=[dict(base=1, size=2, ts=3, path='a', version='b', company='c', description='d')])]), 'dup': 0, 'attr': a}
        yield {'bare': True}

    @staticmethod
    def bump(v, how):
        """A value that differs from v, in one of several ways."""
        if isinstance(v, bool):
            return not v
        if isinstance(v, int):
            return [v + 1, v ^ 1 << 31, v ^ 1 << 32, v ^ 1 << 63, v ^ 0x100, v ^ 1][how] if not hasattr(v, 'name') else type(v)(1 if int(v) != 1 else 2)
        if isinstance(v, str):
            tries = [v + 'x', v.swapcase(), v[:-1], v[1:], v[::-1], v + ' ', '\0' + v]
            return next(x for x in tries[how:] if x != v)
        if isinstance(v, list):
            new = copy.copy(v[0]) if v and not isinstance(v[0], (int, str)) else 'x' if v and isinstance(v[0], str) else None
            if new is not None and not isinstance(new, str):
                new.size = v[0].size + 1
            elif new is None:
                new = 1
            tries = [v[:-1], v[::-1], v[1:], v + v[:1], [new] + v[1:], v + [new]]
            return next(x for x in tries[how:] if x != v)
        if isinstance(v, dict):
            d = copy.copy(v)
            k = list(d)[-1] if d else None
            if how == 0 or k is None:
                d['zz'] = 1
            elif how == 1:
                del d[k]
            elif how == 2:
                d[k + ' '] = d.pop(k)
            else:
                x = d[k]
                d[k] = None if isinstance(x, (bytes, type(None))) else C29.bump(x, how)
                if d[k] is x:
                    d['zz'] = 1
            return d
        return ('changed', v)

    @staticmethod
    def bare():
        """Objects built with only some of their values: every two with the same arguments are equal, others are not."""
        given = {'Event': {'process': None, 'tid': 7, 'event_class': 3, 'operation': 'CreateFile', 'duration': 5, 'date_filetime': 132390118470000000, 'result': 9, 'stacktrace': [1],
                           'category': 'Read', 'path': 'C:\\x', 'details': {'a': 1}},
                 'Process': {'pid': 5, 'parent_pid': 6, 'authentication_id': 7, 'session': 8, 'virtualized': 1, 'is_process_64bit': False, 'integrity': 'Low', 'user': 'u', 'process_name': 'n',
                             'image_path': 'i', 'command_line': 'c', 'company': 'o', 'version': 'v', 'description': 'd', 'start_time': 9, 'end_time': 10, 'modules': []},
                 'Module': {'base_address': 5, 'size': 6, 'path': 'p', 'version': 'v', 'company': 'c', 'description': 'd', 'timestamp': 7}}
        for name, kw in given.items():
            cls = getattr(pp.logs, name)
            attrs = list(kw)
            sets = [()] + [(a,) for a in attrs] + [tuple(attrs)] + [tuple(b for b in attrs if b != a) for a in attrs]
            with sut('building %ss of some values' % name):
                objs = [cls(**dict({'event_class': 2} if name == 'Event' else {}, **{a: copy.deepcopy(kw[a]) for a in s})) for s in sets for _ in range(2)]
            with sut('comparing %ss built of some values' % name):
                for x in objs:
                    for y in objs:
                        eq = all(type(getattr(x, a)) is type(getattr(y, a)) and getattr(x, a) == getattr(y, a) for a in attrs)
                        expect((x == y) is eq and (x != y) is (not eq), '%ss with %s: == is %s, != is %s', name, 'the same values' if eq else 'other values', x == y, x != y)
                for x in objs[:4]:
                    for other in (None, 0, 'x', (), object(), [x], x.__dict__):
                        expect(x != other and not x == other and other != x, 'a %s is equal to %r', name, other)

    def run(self, case):
        if case.get('bare'):
            self.bare()
            return True, ['bare']
        spec = copy.deepcopy(case['log'])
        if case['dup']:
            spec['events'].append(copy.deepcopy(spec['events'][case['dup'] % len(spec['events'])]))     # two identical events in one log
            spec['procs'].append(dict(spec['procs'][0], idx=max(p['idx'] for p in spec['procs']) % 1000003 + 77 + (1 << 20)))
        raw = pml.Log(spec).encode().bytes()
        a, b = V.open_reader(raw), V.open_reader(raw)
        with sut('comparing'):
            evs = list(a) + list(b)
            objs = [(e, V.snap(e)) for e in evs]
            pobjs = [(p, V.proc_key_of(p)) for p in a.processes() + b.processes()]
            mobjs = [(m, [m.base_address, m.size, m.timestamp, m.path, m.version, m.company, m.description]) for p, _ in pobjs for m in p.modules]
            for group in (objs, pobjs, mobjs[:12]):
                for x, kx in group:
                    for y, ky in group:
                        eq = kx == ky
                        expect((x == y) is eq and (x != y) is (not eq), '%s objects with %s content: == is %s, != is %s', type(x).__name__,
                               'the same' if eq else 'different', x == y, x != y)
                        if eq:
                            expect(hash(x) == hash(y), 'equal %s objects hash differently', type(x).__name__)
                    for other in (None, 0, '', 'x', (), 1.5, object()):
                        expect(not x == other and x != other, '%s equals %r', type(x).__name__, other)
                expect(len({x for x, _ in group}) == len({json.dumps(k, default=repr) for _, k in group}), 'a set of %ss has a wrong size', type(group[0][0]).__name__ if group else '')
            for group, attrs in ((objs, ATTR_E), (pobjs, ATTR_P), (mobjs, ATTR_M)):
                if not group:
                    continue
                x = group[0][0]
                attr, how = attrs[case['attr'] % len(attrs)], case['attr'] // len(attrs) % 6
                y = copy.copy(x)
                expect(x == y and hash(x) == hash(y), 'a copy of a %s is not equal to it', type(x).__name__)
                if attr == 'process':
                    y.process = copy.copy(x.process)
                    expect(x == y and hash(x) == hash(y), 'an event with an equal process is not equal')
                    sub = ATTR_P[case['attr'] // len(attrs) % len(ATTR_P)]
                    v = getattr(x.process, sub)
                    setattr(y.process, sub, [pp.Module()] if v == [] else self.bump(v, how))
                else:
                    v = getattr(x, attr)
                    setattr(y, attr, [pp.Module()] if attr == 'modules' and not v else self.bump(v, how))
                expect(not x == y and x != y, '%s objects that differ in %s compare equal', type(x).__name__, attr)
                expect(not y == x and y != x, '%s objects that differ in %s compare equal', type(x).__name__, attr)
            for group, attrs in ((objs, ATTR_E), (pobjs, ATTR_P), (mobjs, ATTR_M)):
                for x, _ in group[-1:]:
                    kw = {k: copy.copy(getattr(x, k)) for k in attrs}
                    if 'event_class' in kw:
                        kw['event_class'] = [kw['event_class'], int(kw['event_class']), kw['event_class'].name][case['attr'] % 3]
                    y = type(x)(**kw)
                    expect(x == y and y == x and hash(x) == hash(y), 'a %s built with the same values is not equal', type(x).__name__)
                    for y in (copy.deepcopy(x), pickle.loads(pickle.dumps(x))):
                        expect(x == y and y == x and hash(x) == hash(y), 'a copy of a %s is not equal to it', type(x).__name__)
            expect(not objs or not objs[0][0] == pobjs[0][0] and objs[0][0] != pobjs[0][0], 'an event equals a process')
        return True, ['duplicates' if case['dup'] else 'distinct', 'modules' if mobjs else 'no modules']
