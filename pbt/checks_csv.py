"""Checks C23-C25: the CSV-compatible view of events and their dates."""
import copy
import os
import time

from hypothesis import strategies as st

from . import csvmodel as M
from . import events as E
from . import gens as G
from . import pml
from . import tables as T
from . import view as V
from .checks_event import (CREATE, DIR, LEGAL_KEY, NET, OPCODES, VAL, any_event, both, fs_event)
from .checks_log import EV, P, S, small_log
from .core import Check, expect, same, short, sut

ZONES = [('UTC0', 0), ('XST-5:30', 19800), ('YST8', -28800), ('ZST-14', 50400), ('WST12', -43200), ('VST3:30', -12600)]
DUR = st.one_of(G.ints(40), st.sampled_from([0, 1, 9999999, 10000000, 10000001, 599999999, 600000000, 35999999999, 36000000000, G.DAY - 1, G.DAY]))
NORESULT = 0x103


def time_case(date, dur, res=0, delta=0, zone=0):
    if M.result(res):       # an event ends before the year 10000
        dur = min(dur, G.FT_MAX - date)
    return {'date': date, 'dur': dur, 'res': res, 'delta': delta, 'zone': zone}


class C23(Check):
    id = 'C23'
    quick, thorough = 1600, 1600 * 30
    rule = 'events at random FILETIMEs from 1970 to 9999 (biased to midnights, noon, leap days, month and year ends, tick boundaries) with random durations, results, ' \
           'first-event times and process time zones; every day of 1970-2100 and every minute of a day enumerated; non-trivial = every case'

    def strategy(self, tier):
        one = st.builds(time_case, G.FILETIME, st.one_of(DUR, DUR, G.ints(61)), st.sampled_from([0, 0, NORESULT, 0xc0000034, 0x12345678]),
                        st.one_of(st.just(0), G.ints(45), G.ints(62), st.sampled_from([G.DAY - 1, G.DAY, G.DAY * 4 + 1, 36000000000 * 100, 36000000000 * 99 + 35999999999, 36000000000 * 999 + 35999999999, 36000000000 * 1000, 36000000000 * 100000 + 1])),
                        st.integers(0, len(ZONES) - 1))
        wide = st.builds(lambda c, d: dict(c, dur=d, res=NORESULT), one, G.U64)
        return st.lists(st.one_of(one, one, one, wide), min_size=1, max_size=3).map(lambda l: {'times': l})

    def fixed(self, tier):
        day = [time_case(G.EPOCH + i * G.DAY + (i * 7919 % 86400) * M.TICK + i * 31, i * 1000003, zone=i % len(ZONES)) for i in range(0, 47847)]
        minute = [time_case(G.EPOCH + 18322 * G.DAY + m * 600000000 + (m % 60) * M.TICK + m, m, delta=m * 600000000) for m in range(1440)]
        tick = [time_case(G.EPOCH + 18321 * G.DAY + 45296 * M.TICK + v, v, delta=v) for v in
                [10 ** k for k in range(8)] + [10 ** k - 1 for k in range(1, 8)] + list(range(0, 120)) + [9999990 + i for i in range(12)]]
        years = [time_case(G._ft(d + k, G.DAY - 1 - k), 1) for d in range(0, 2932890, 365) for k in (-1, 0, 1) if d + k >= 0]
        for k in range(40, 62):
            for i in (-1, 0, 1, 9999999, 12345):
                tick.append(time_case(G._ft(100000, 5), (1 << k) + i, delta=(1 << k) + i))
        allc = day + minute + tick + years
        for i in range(0, len(allc), 256):
            yield {'times': allc[i:i + 256]}

    def run(self, case):
        times = case['times']
        evs = [EV('reg_plain', 'RegCloseKey', {'path': S('HKLM\\k')}, date=t['date'], dur=t['dur'], res=t['res'], stack=[]) for t in times]
        spec = dict(small_log(len(times) % 2 == 0), events=evs)
        r = V.open_reader(pml.Log(spec).encode().bytes())
        old = os.environ.get('TZ')
        try:
            for i, t in enumerate(times):
                zone, offset = ZONES[t['zone']]
                os.environ['TZ'] = zone
                time.tzset()
                ev = V.read_one(r, i)
                date, dur = t['date'], t['dur']
                what = 'event at FILETIME %d, duration %d, time zone %s' % (date, dur, zone)
                first = max(1, date - t['delta'])
                with sut(what + ': get_compatible_csv_info'):
                    csv = ev.get_compatible_csv_info(first)
                    own = ev.get_compatible_csv_info()
                same(what + ': Date & Time', csv['Date & Time'], M.date_time(date))
                same(what + ': Time of Day', csv['Time of Day'], M.clock(date, True))
                same('%s: Relative Time since %d' % (what, first), csv['Relative Time'], M.relative(date - first))
                same(what + ': Relative Time of the first event', own['Relative Time'], '00:00:00.0000000')
                shown = M.result(t['res']) != ''
                same(what + ': Duration (result 0x%x)' % t['res'], csv['Duration'], M.seconds(dur) if shown else '')
                same(what + ': Completion Time (result 0x%x)' % t['res'], csv['Completion Time'], M.clock(date + dur, True) if shown else '')
                with sut(what + ': str'):
                    text = str(ev)
                same(what + ': str', text, 'Process Name=app.exe, Pid=1234, Operation=RegCloseKey, Path="HKLM\\k", Time=' + M.date_time(date, True))
                for utc in (True, False):
                    with sut(what + ': date(%s)' % utc):
                        d = ev.date(utc)
                    y, mo, da, h, mi, s, ticks = M.parts(date if utc else date + offset * M.TICK)
                    got = (d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)
                    expect(got == (y, mo, da, h, mi, s, ticks // 10), '%s: date(%s) is %s, expected %s', what, utc, got, (y, mo, da, h, mi, s, ticks // 10))
                with sut(what + ': date()'):
                    expect(ev.date() == ev.date(True), '%s: date() is not UTC', what)
        finally:
            if old is None:
                os.environ.pop('TZ', None)
            else:
                os.environ['TZ'] = old
            time.tzset()
        return True, ['zone:' + ZONES[t['zone']][0] for t in times[:3]] + ['with result' if M.result(t['res']) else 'without result' for t in times[:1]]


DETAIL_KINDS = list(G.DETAIL_KINDS)


def fit_csv(spec):
    """Keep to what the export is specified for."""
    for e in spec['events']:
        d = e['d']
        if e['kind'] == 'reg_setinfo' and d['cls'] == 0:
            d['v'] = G.EPOCH + d['v'] % (G.FT_MAX - G.EPOCH)
        if e['op'] == 'Process_Statistics':
            e['op'] = 'Process_Exit'
        if e['kind'] == 'process_start' and not d['env']:
            d['env'], d['end'] = ['A=b'], 2
    return spec


class C24(Check):
    id = 'C24'
    quick, thorough = 1200, 1200 * 30
    rule = 'logs with 1-4 events of every kind with documented details; the exported Detail must be the model\'s text, stay the same when asked again and leave ' \
           'the event as it was; every value type, information class and boundary number enumerated; non-trivial = a value that is not printed verbatim'

    def strategy(self, tier):
        return G.log(st.lists(G.simple_event(DETAIL_KINDS + ['reg_value', 'reg_setvalue', 'reg_key', 'reg_setinfo', 'proc_exit', 'fs_rw', 'fs_create']), min_size=1, max_size=4)).map(fit_csv)

    def fixed(self, tier):
        evs = [any_event(c, o) for c, o in OPCODES if c in (1, 2, 3, 5) and o not in ('Process_Statistics', 'Thread_Profile', 'System_Statistics')]
        nums = sorted({10 ** k + i for k in range(20) for i in (-1, 0, 1)} | {1234567, 999999999} | set(G._bounds(64)[20:-1]))
        for v in nums:
            u = v & 0xffffffff
            evs.append(EV('proc_exit', 'Process_Exit', {'status': u, 'kernel': v, 'user': v + 1, 'ws': v, 'pws': v + 2, 'priv': v + 3, 'ppriv': v + 4}))
            evs.append(EV('thread_exit', 'Thread_Exit', {'kernel': v, 'user': v * 3 & (1 << 64) - 1}))
            evs.append(EV('load_image', 'Load_Image', {'base': u, 'size': u ^ 1, 'path': S('x')}))
            for op in ('RegQueryKey', 'RegEnumKey'):
                for cls in range(10):
                    for ext in (True, False):
                        evs.append(EV('reg_key', op, dict(LEGAL_KEY, cls=cls, ext=ext, length=u, index=u, vals=[v & (1 << 62) - 1] + [u + i & 0xffffffff for i in range(9)])))
            for cls in (1, 5, 2):
                evs.append(EV('reg_setinfo', 'RegSetInfoKey', {'path': S('k'), 'cls': cls, 'has': True, 'v': u}))
            for data in ({'t': 4, 'k': 'dword', 'v': u}, {'t': 11, 'k': 'qword', 'v': v}):
                for cls in (0, 1, 2):
                    for op in ('RegQueryValue', 'RegEnumValue'):
                        evs.append(EV('reg_value', op, dict(VAL, cls=cls, data=data, index=u, more=u % 5000)))
                evs.append(EV('reg_setvalue', 'RegSetValue', {'path': S('k'), 'data': data, 'more': u % 5000}))
            for off in (v, -v):
                if -(1 << 63) <= off < 1 << 63:
                    evs.append(EV('fs_rw', 'ReadFile', {'sub': 0, 'path': S('f'), 'flags': 0x60043, 'length': u, 'offset': off, 'real': None}))
            evs.append(EV('fs_create', 'CreateFile', dict(CREATE, disp=2, alloc=u)))
            for code in (0x94264, 0x98268, 0x11c017, 0x119ff8, 0x116000):
                evs.append(EV('fs_ioctl', 'FileSystemControl', {'sub': 0, 'path': S('f'), 'code': code, 'wlen': u, 'rlen': u ^ 3, 'off': v & (1 << 62) - 1, 'clen': v & (1 << 63) - 1, 'xn': None}))
            evs.append(NET(len=u, kv=[['seqnum', str(v)]]))
        for t in range(0, 86400, 997):
            evs.append(EV('reg_setinfo', 'RegSetInfoKey', {'path': S('k'), 'cls': 0, 'has': True, 'v': G.EPOCH + (t * 37 % 20000) * G.DAY + t * M.TICK + t}))
        texts = ['', 'a', 'a\r\nb', '\r\n', 'a\r\n\r\nb\r\n', 'a\nb', 'a\rb', 'a, b: c', '\u4e2d', '1,234', '0x10']
        for v in texts:
            for t in (1, 2):
                data = {'t': t, 'k': 'sz', 'v': v, 'end': 1}
                evs.append(EV('reg_value', 'RegQueryValue', dict(VAL, data=data)))
                evs.append(EV('reg_value', 'RegEnumValue', dict(VAL, cls=1, data=data)))
                evs.append(EV('reg_setvalue', 'RegSetValue', {'path': S('k'), 'data': data, 'more': 0}))
            if v:
                evs.append(EV('reg_setvalue', 'RegSetValue', {'path': S('k'), 'data': {'t': 7, 'k': 'multi', 'v': [v, 'z', v], 'end': 2}, 'more': 0}))
            evs.append(EV('reg_key', 'RegQueryKey', dict(LEGAL_KEY, cls=3, name=v)))
            evs.append(EV('reg_key', 'RegEnumKey', dict(LEGAL_KEY, cls=3, name=v)))
            evs.append(EV('reg_key', 'RegQueryKey', dict(LEGAL_KEY, cls=0, name=v)))
        for n in (0, 1, 2, 3, 16, 17, 255):
            for op, kind in (('RegQueryValue', 'reg_value'), ('RegEnumValue', 'reg_value'), ('RegSetValue', 'reg_setvalue')):
                data = {'t': 3, 'k': 'bin', 'v': bytes((i * 37 + n) & 255 for i in range(n)).hex()}
                evs.append(EV(kind, op, dict(VAL, data=data, more=0)))
        for t in list(range(0, 14)) + [255]:
            for hexa in ('01', '010203', '01020304'):
                if t not in (3, 7, 1, 2) and not (t == 4 and len(hexa) == 8):
                    evs.append(EV('reg_setvalue', 'RegSetValue', {'path': S('k'), 'data': {'t': t, 'k': 'raw', 'v': hexa}, 'more': 0}))
        yield from both(evs)

    def run(self, spec):
        log = pml.Log(spec)
        r = V.open_reader(log.encode().bytes())
        hit = False
        labels = set()
        for i, e in enumerate(spec['events']):
            b = log.built(e)
            if not b.know_details or b.loose is not None:
                continue
            ev = V.read_one(r, i, 'reading %s event' % e['op'])
            with sut('copying'):
                before = V.snap(copy.deepcopy(ev))
            with sut('get_compatible_csv_info of %s with details %s' % (b.operation, short(b.details))):
                got = ev.get_compatible_csv_info()['Detail']
                again = ev.get_compatible_csv_info(1)['Detail']
            want = M.detail(e, b)
            same('Detail of %s with details %s' % (b.operation, short(b.details)), got, want)
            same('Detail of %s asked again' % b.operation, again, want)
            expect(V.snap(ev) == before, 'exporting a %s event changed it', b.operation)
            hit = hit or want != ', '.join('%s: %s' % kv for kv in b.details)
            labels.add(e['op'])
        return hit, sorted(labels)


PLAIN = [('Process Name', 'process_name'), ('Company', 'company'), ('Description', 'description'), ('Command Line', 'command_line'), ('User', 'user'),
         ('Image Path', 'image_path'), ('Version', 'version'), ('Integrity', 'integrity')]


class C25(Check):
    id = 'C25'
    quick, thorough = 1000, 1000 * 30
    rule = 'logs with 1-5 events of every kind over random processes (boundary identifiers, sessions, authentication ids, virtualization values, texts), results and ' \
           'threads; every exported column compared with the model and the set of columns fixed; non-trivial = every event'

    def strategy(self, tier):
        ks = [k for k in G.K]
        return G.log(st.lists(G.event(ks, date=st.just(132390118470000000)), min_size=1, max_size=5), G.procs(1, 3, 0)).map(fit_csv)

    def fixed(self, tier):
        evs = [any_event(c, o) for c, o in OPCODES]
        yield from both(evs, 30)
        for virt in (0, 1, 2, 3, 255, 256, 0xffffffff):
            for p64 in (0, 1):
                for auth in (0, 0x3e7, 0x12345678, 1 << 32, 0xabcdef0123456789, (1 << 64) - 1, 0xf << 28):
                    for is64 in (True, False):
                        yield dict(small_log(is64, 1), procs=[P(virt=virt, p64=p64, auth=auth, session=virt, pid=auth & 0xffffffff, ppid=virt)])

    def run(self, spec):
        for e in spec['events']:
            if M.result(e['res']) != '':
                e['dur'] %= 1 << 40
        log = pml.Log(spec)
        r = V.open_reader(log.encode().bytes())
        titles = {t for _, t in T.COLUMN_TITLES}
        labels = set()
        for i, e in enumerate(spec['events']):
            b = log.built(e)
            ev = V.read_one(r, i, 'reading %s event' % e['op'])
            what = 'exported %s event' % b.operation
            with sut(what):
                csv = ev.get_compatible_csv_info()
            expect(set(csv) == titles, '%s: columns are off by %s', what, sorted(set(csv) ^ titles))
            p = log.proc(e['proc'])
            for col, key in PLAIN:
                same('%s: %s' % (what, col), csv[col], V.z(p[key]))
            same(what + ': PID', csv['PID'], str(p['pid']))
            same(what + ': Parent PID', csv['Parent PID'], str(p['ppid']))
            same(what + ': Session', csv['Session'], str(p['session']))
            same(what + ': TID', csv['TID'], str(e['tid']))
            same(what + ': Sequence', csv['Sequence'], 'n/a')
            same(what + ': Path', csv['Path'], b.path)
            same(what + ': Result', csv['Result'], M.result(e['res']))
            same(what + ': Event Class', csv['Event Class'], {1: 'Process', 2: 'Registry', 3: 'File System', 4: 'Profiling', 5: 'Network'}[E.class_of(e)])
            same(what + ': Authentication ID', csv['Authentication ID'], '%08x:%08x' % (p['auth'] >> 32, p['auth'] & 0xffffffff))
            same(what + ': Virtualized', csv['Virtualized'], {0: 'False', 1: 'True'}.get(p['virt'], 'n/a'))
            same(what + ': Architecture', csv['Architecture'], '64-bit' if p['p64'] else '32-bit')
            if E.class_of(e) != 4:
                same(what + ': Operation', csv['Operation'], M.operation(e, b))
            if b.know_details:
                same(what + ': Category', csv['Category'], b.category)
            labels.add(E.CLASS_NAMES[E.class_of(e)])
        return True, sorted(labels)
