"""Checks C32-C34: several threads, any bytes at all, damaged tables."""
import copy
import io
import itertools
import json
import os
import resource
import sys
import threading

from hypothesis import strategies as st

from . import checks_pmc as CP
from . import cold
from . import core
from . import gens as G
from . import pmc as M
from . import pml
from . import view as V
from .checks_log import ALL, EV, P, QUICKLIKE, S, SYSTEM_DEFAULT, small_log, system_expect
from .core import Check, Violation, expect, outcome, pp, same, short, sut

LIB = os.path.realpath(os.path.join(core.REPO, 'procmon_parser')) + os.sep


class Turns(object):
    """Runs jobs in threads of which one at a time makes progress; the schedule says after how many steps (lines, or
    byte-code instructions, of library code) another one continues."""

    def __init__(self, jobs, schedule, fine):
        self.jobs, self.schedule, self.fine = jobs, schedule, fine
        self.at = 0
        self.switches = self.steps = 0
        self.free = False
        self.left = schedule[0][0] if schedule else 1
        self.turn = [threading.Semaphore(0) for _ in jobs]
        self.alive = [True] * len(jobs)
        self.results = [None] * len(jobs)
        self.over = threading.Event()
        self.known = {}

    def next_thread(self, me):
        _, k = self.schedule[self.at % len(self.schedule)]
        self.at += 1
        self.left = self.schedule[self.at % len(self.schedule)][0]
        ready = [i for i in range(len(self.jobs)) if self.alive[i] and i != me]
        return ready[k % len(ready)] if ready else None

    def wait(self, me):
        """Until it is this thread's turn.  When the one whose turn it is makes no progress (it waits for a lock of the
        library's own), scheduling ends and all threads run on freely."""
        seen, still = -1, 0
        while not self.free and not self.turn[me].acquire(timeout=0.25):
            still = still + 1 if self.steps == seen else 0
            seen = self.steps
            if still > 5:
                self.free = True

    def step(self, me):
        self.steps += 1
        if self.free:
            return
        self.left -= 1
        if self.left <= 0:
            other = self.next_thread(me)
            if other is not None:
                self.switches += 1
                self.turn[other].release()
                self.wait(me)

    def ours(self, code):
        name = code.co_filename
        if name not in self.known:
            self.known[name] = os.path.realpath(name).startswith(LIB)
        return self.known[name]

    def main(self, me):
        self.wait(me)

        def local(frame, event, arg):
            if event == ('opcode' if self.fine else 'line'):
                self.step(me)
            return local

        def tracer(frame, event, arg):
            if not self.ours(frame.f_code):
                return None
            if self.fine:
                frame.f_trace_opcodes = True
            return local
        try:
            sys.settrace(tracer)
            try:
                self.results[me] = ('ok', self.jobs[me]())
            finally:
                sys.settrace(None)
        except Exception as e:
            self.results[me] = ('err', e)
        finally:
            self.alive[me] = False
            other = self.next_thread(me)
            if other is None:
                self.over.set()
            else:
                self.turn[other].release()

    def run(self):
        threads = [threading.Thread(target=self.main, args=(i,), daemon=True) for i in range(len(self.jobs))]
        for t in threads:
            t.start()
        self.turn[0].release()
        expect(self.over.wait(200), 'the threads do not finish')
        for t in threads:
            t.join()
        return self.results


SCHED = st.lists(st.tuples(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(1, 120)), st.integers(0, 3)).map(list), min_size=1, max_size=14)
JOB_LOG = st.fixed_dictionaries({'log': G.log(st.lists(G.simple_event(QUICKLIKE), min_size=1, max_size=4), G.SMALL_PROCS, hosts=G.HOSTS, ports=G.PORTNAMES, layout=G.LAYOUT),
                                 'how': st.sampled_from(['iterate', 'index', 'all', 'export'])})
JOB_PMC = st.fixed_dictionaries({'pmc': st.lists(CP.record(), min_size=1, max_size=3, unique_by=lambda r: r[0]).filter(M.settled)})


class C32(Check):
    id = 'C32'
    quick, thorough = 110, 110 * 30
    rule = '2-4 threads, each reading a log of its own (by iterating, indexing, at once, with exports) or loading and dumping a configuration of its own, under a ' \
           'generated schedule that switches threads between given lines or byte-code instructions of library code, also in the lines that only the first use after the import takes; non-trivial = at least 3 switches'

    def strategy(self, tier):
        return st.fixed_dictionaries({'jobs': st.lists(st.one_of(JOB_LOG, JOB_LOG, JOB_LOG, JOB_PMC), min_size=2, max_size=4), 'sched': SCHED,
                                      'fine': st.sampled_from([False, False, True])})

    def fixed(self, tier):
        def mk(i, is64):
            t = 'name%d' % i
            return dict(small_log(is64, 1), procs=[P(idx=i, pid=i + 10, user=t, process_name=t)], hosts=[['0a00000%d' % i + '00' * 12, t]], ports=[[80, 1, t]], events=[
                EV('reg_plain', 'RegCloseKey', {'path': S('HKLM\\' + t * 3)}, tid=i, stack=[i] * 3),
                EV('net', 'Send', {'s4': True, 'sip': '0a00000%d' % i + '00' * 12, 'd4': True, 'dip': '01020304' + '00' * 12, 'tcp': True, 'len': i, 'sport': 80, 'dport': 8,
                                   'kv': [[t, t]], 'end': 2, 'hi': 0}),
                EV('fs_querydir', 'DirectoryControl', {'sub': 1, 'path': S('C:\\' + t), 'filter': S(t), 'cls': 37, 'list': [t, t + 'x'], 'align': 8, 'cut': None})])
        pm = [['HighlightFG', 7], ['FilterRules', [[40053, 0, 'a\\b', 1], [M.ARCHITECTURE, 0, '32-bit', 0]]], ['LogFont', [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 'Arial']],
              ['SourcePath', 'C:\\src'], ['Columns', [1, 2, 3]]]
        pn = [['HighlightFG', 9], ['FilterRules', [[40052, 3, 'another', 0]]], ['LogFont', [9, 8, 7, 6, 5, 4, 3, 2, 1, 0, 1, 2, 3, 'Courier']], ['SourcePath', ''], ['Columns', [9]]]
        for k in self.cold_positions(tier) + list(range(1, 30000, 2500)):
            yield {'cold': k, 'back': 1 << 40}
            if k % 3 == 0:
                yield {'cold': k, 'back': k + 3}
        for fine in (False, True):
            for n in (1, 2, 3, 5, 7, 11, 16, 23, 50, 111):
                for how in ('iterate', 'index', 'all', 'export'):
                    if n == 1 and fine and how != 'index':
                        continue
                    yield {'jobs': [{'log': mk(1, True), 'how': how}, {'log': mk(2, False), 'how': 'iterate'}], 'sched': [[n, 0]], 'fine': fine}
                yield {'jobs': [{'pmc': pm}, {'pmc': pn}, {'log': mk(3, True), 'how': 'export'}], 'sched': [[n, 0], [n + 1, 1]], 'fine': fine}

    def cold_positions(self, tier):
        files = cold.tour_files()
        lib = cold.fresh()

        def trace(fn):
            log = []

            def job():
                def local(frame, event, arg):
                    if event == 'line':
                        log.append((frame.f_code.co_filename, frame.f_lineno))
                    return local
                known = {}

                def tracer(frame, event, arg):
                    name = frame.f_code.co_filename
                    if name not in known:
                        known[name] = os.path.realpath(name).startswith(LIB)
                    return local if known[name] else None
                sys.settrace(tracer)
                try:
                    fn()
                finally:
                    sys.settrace(None)
            t = threading.Thread(target=job)
            t.start()
            t.join()
            return log
        return cold.only_first(trace, lambda: cold.tour(lib, files), 200 if tier == 'quick' else 3000)

    def run_cold(self, case):
        """The first use after the import in one thread, while another thread does the same."""
        files = [cold.tour_files(True), cold.tour_files(False)]
        with sut('the tour'):
            want = [cold.tour(pp, f) for f in files]
        lib = cold.fresh()
        turns = Turns([lambda f=f: cold.tour(lib, f) for f in files], [[case['cold'], 0], [case['back'], 0]] + [[1 << 40, 0]] * 8, False)
        for k, ((res, got), w) in enumerate(zip(turns.run(), want)):
            if res == 'err':
                raise Violation('thread %d of 2 that use the library for the first time: raised %r' % (k, got))
            expect(got == w, 'thread %d of 2 that use the library for the first time: %s', k, cold.differs(got, w))
        with sut('the tour again'):
            got = cold.tour(lib, files[0])
        expect(got == want[0], 'after two threads used the library for the first time: %s', cold.differs(got, want[0]))
        return turns.switches >= 1, ['first use'] + (['unscheduled'] if turns.free else [])

    def run(self, case):
        if 'cold' in case:
            return self.run_cold(case)
        jobs = []
        models = []
        for j in case['jobs']:
            if 'pmc' in j:
                raw = M.config_bytes(j['pmc'], None if M.settled(j['pmc']) else [[0, 0]])
                cfg = CP.make_config(j['pmc'])

                def job(raw=raw, cfg=cfg):
                    return pp.loads_configuration(raw), pp.dumps_configuration(cfg)
                models.append((j, raw))
            else:
                lg = pml.Log(j['log'])
                raw = lg.encode().bytes()

                def job(raw=raw, how=j['how']):
                    if how == 'all':
                        r = pp.ProcmonLogsReader(io.BytesIO(raw))
                        evs = pp.read_all_events_from_pml(io.BytesIO(raw))
                    else:
                        r = pp.ProcmonLogsReader(io.BytesIO(raw))
                        evs = [r[i] for i in range(len(r))][::-1][::-1] if how == 'index' else list(r)
                    out = []
                    if how == 'export':
                        out = [(e.get_compatible_csv_info(), str(e)) for e in evs]
                    return evs, r.processes(), out, r.system_details()
                models.append((j, lg))
            with sut('job %d on its own' % len(jobs)):
                alone = job()
            jobs.append(job)
            models[-1] += (alone,)
        turns = Turns(jobs, case['sched'], case['fine'])
        results = turns.run()
        for k, ((j, model, alone), (res, got)) in enumerate(zip(models, results)):
            what = 'thread %d' % k
            if res == 'err':
                raise Violation('%s of %d: raised %r' % (what, len(jobs), got))
            if 'pmc' in j:
                cfg, dumped = got
                same(what + ' options', list(cfg), [n for n, _ in j['pmc']])
                for n, v in j['pmc']:
                    CP.cmp_value('%s option %s' % (what, n), n, cfg[n], v)
                expect(dumped == alone[1], '%s: dumped other bytes than on its own', what)
                expect(dumped == model, '%s: dumped other bytes than documented', what)
                continue
            evs, procs, out, sd = got
            same(what + ' number of events', len(evs), len(j['log']['events']))
            for i, (ev, e) in enumerate(zip(evs, j['log']['events'])):
                V.cmp_event('%s event %d (%s)' % (what, i, e['kind']), ev, e, model)
            expect(sorted(json.dumps(V.proc_key_of(p)) for p in procs) == sorted(json.dumps(V.proc_key(p)) for p in j['log']['procs']), '%s: processes differ', what)
            expect(sd == system_expect(dict(SYSTEM_DEFAULT, **j['log']), j['log']['is64']), '%s: system details differ', what)
            for i, (a, b) in enumerate(zip(out, alone[2])):
                expect(a == b, '%s: event %d is exported as %s, on its own as %s', what, i, short(a), short(b))
        return turns.switches >= 3, ['threads:%d' % len(jobs), 'instructions' if case['fine'] else 'lines'] + (['unscheduled'] if turns.free else []) + sorted({'configuration' if 'pmc' in j else 'log:' + j['how'] for j in case['jobs']})


MEMORY = 700 << 20
CPU_S = 30


def limited(what, fn):
    """Run fn within limits on memory and processor time; ordinary errors are fine."""
    with open('/proc/self/statm') as f:
        used = int(f.read().split()[0]) * resource.getpagesize()
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    old = core.HANG_CPU_S
    core.HANG_CPU_S = CPU_S
    limit = used + MEMORY if hard == resource.RLIM_INFINITY else min(used + MEMORY, hard)
    resource.setrlimit(resource.RLIMIT_AS, (limit, hard))
    try:
        res, v = outcome(what, fn)
    finally:
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
        core.HANG_CPU_S = old
    if res == 'err':
        v.__traceback__ = None
        if isinstance(v, (MemoryError, RecursionError)):
            raise Violation('%s: %s' % (what, type(v).__name__))
    return res, v


def read_everything(raw):
    r = pp.ProcmonLogsReader(io.BytesIO(raw))
    n = len(r)
    left = 200
    out = []
    while left:
        left -= 1
        try:
            e = next(r)
        except StopIteration:
            break
        except (MemoryError, RecursionError):
            raise
        except Exception:
            continue
        out.append(e)
        try:
            str(e)
            e.get_compatible_csv_info()
        except (MemoryError, RecursionError):
            raise
        except Exception:
            pass
    try:
        r.system_details()
    except (MemoryError, RecursionError):
        raise
    except Exception:
        pass
    return n, len(out), len(r.processes())


NASTY = st.one_of(st.sampled_from(['ffffffff', '00000000', '01000000', '00000001', 'ffffff7f', '00000080', 'ffff', '0000', 'ff', '00', '7f', '80', '00000000ffffffff', '0000ffff', 'feffffff', '000001']), G.hexb(1, 8))
WHERE = st.sampled_from(['header', 'array', 'procs', 'strings', 'hosts', 'events', 'any', 'counts', 'counts', 'offsets', 'lengths'])


BIG = ['command', 'module path', 'user', 'host', 'port', 'pairs', 'pair value', 'env', 'env entry', 'modules', 'processes', 'events', 'stacks', 'strings',
       'c text', 'c path', 'c columns', 'c map', 'c raw', 'c rule', 'c rules', 'c records', 'c name']


def big_case(kind, n):
    """A valid log or configuration that holds a lot of one thing: (bytes, whether a log)."""
    text = 'ab\u20ac ' * (n // 4)
    if kind.startswith('c '):
        pm = {'c text': [['Logfile', text]], 'c path': [['SourcePath', text]], 'c columns': [['Columns', [i % 65536 for i in range(n // 20)]]],
              'c map': [['ColumnMap', [40052 + i % 40 for i in range(n // 20)]]], 'c raw': [['x', '01' * n]], 'c rule': [['FilterRules', [[40053, 0, text, 1]]]],
              'c rules': [['FilterRules', [[40053, 0, 'a%d' % i, 1] for i in range(n // 300)]]], 'c records': [['x%d' % i, '0102'] for i in range(n // 300)],
              'c name': [[text, '01']]}[kind]
        return M.config_bytes(pm), False
    log = {'is64': True, 'fill': 2, 'procs': [P()], 'events': [EV('thread_create', 'Thread_Create', {'id': 5})]}
    net = {'s4': True, 'sip': '7f000001' + '00' * 12, 'd4': True, 'dip': '7f000001' + '00' * 12, 'tcp': True, 'len': 5, 'sport': 80, 'dport': 8, 'kv': [], 'end': 2, 'hi': 0}
    if kind in ('command', 'user'):
        log['procs'] = [P(**{'command_line' if kind == 'command' else kind: text})]
    elif kind == 'module path':
        log['procs'] = [P(mods=[dict(base=1, size=2, ts=3, path=text, version='b', company='c', description='d')])]
    elif kind == 'modules':
        log['procs'] = [P(mods=[dict(base=i, size=2, ts=3, path='a%d' % (i % 100), version='b', company='c', description='d') for i in range(n // 60)])]
    elif kind == 'processes':
        log['procs'] = [P(idx=i, pid=i) for i in range(n // 100)]
    elif kind == 'strings':
        log['procs'] = [P(idx=i, command_line='c%d' % i, user='u%d' % i) for i in range(n // 200)]
    elif kind in ('host', 'port'):
        log['events'].append(EV('net', 'Send', net))
        log['hosts'] = [['7f000001' + '00' * 12, text if kind == 'host' else 'localhost']]
        log['ports'] = [[80, 1, text if kind == 'port' else 'http']]
    elif kind == 'pairs':
        log['events'].append(EV('net', 'Send', dict(net, kv=[['k%d' % i, 'v%d' % i] for i in range(n // 10)])))
    elif kind == 'pair value':
        log['events'].append(EV('net', 'Send', dict(net, kv=[['k', text]])))
    elif kind in ('env', 'env entry'):
        log['events'].append(EV('process_start', 'Process_Start', {'ppid': 1, 'cmd': S('c'), 'cwd': S('d'), 'env': [text] if kind == 'env entry' else ['A%d=b' % i for i in range(n // 10)], 'end': 2}))
    elif kind == 'events':
        log['events'] = [EV('thread_create', 'Thread_Create', {'id': i}, tid=i) for i in range(n // 100)]
    else:
        log['events'] = [EV('thread_create', 'Thread_Create', {'id': i}, stack=list(range(65535))) for i in range(2)]
    return pml.Log(log).encode().bytes(), True


class C33(Check):
    id = 'C33'
    quick, thorough = 700, 700 * 30
    rule = 'logs and configurations of which counts, offsets, lengths or any bytes are overwritten (each count, offset and length of a small log with boundary values enumerated), cut or ' \
           'continued, and arbitrary bytes behind a valid signature, valid files with up to a million of one thing (thorough: 3 million): opening and reading all of it must end within 30 s of processor time and 700 MB, with a result or an ' \
           'ordinary error; non-trivial = the bytes differ from a valid file'

    def strategy(self, tier):
        dmg = st.lists(st.tuples(WHERE, st.integers(0, 1 << 16), NASTY).map(list), min_size=1, max_size=5)
        log = st.fixed_dictionaries({'log': G.log(st.lists(G.event(ALL), max_size=4), G.procs(1, 3, 2), layout=G.LAYOUT, hosts=G.HOSTS, ports=G.PORTNAMES), 'dmg': dmg,
                                     'cut': G.mostly(st.none(), st.integers(0, 1 << 16), 3), 'more': st.one_of(st.just(''), st.just(''), G.hexb(0, 40))})
        conf = st.fixed_dictionaries({'pmc': CP.CONFIG, 'dmg': st.lists(st.tuples(st.sampled_from(['any', 'records', 'records']), st.integers(0, 1 << 16), NASTY).map(list), min_size=1, max_size=5),
                                      'cut': G.mostly(st.none(), st.integers(0, 1 << 16), 3), 'more': st.one_of(st.just(''), G.hexb(0, 40))})
        junk = st.fixed_dictionaries({'bytes': st.one_of(G.hexb(0, 200), st.builds(lambda a, n: a * n, G.hexb(1, 8), st.integers(1, 500))), 'sig': G.BOOL})
        return st.one_of(log, log, log, log, conf, conf, junk)

    def fixed(self, tier):
        for kind in BIG:
            for n in (2000, 60000, 1000000) + ((3000000,) if tier == 'thorough' else ()):
                yield {'big': kind, 'n': n}
        values = ['00000000', '01000000', '02000000', '10000000', 'ff000000', '00010000', 'ffff0000', '00000100', '00000001', 'ffffff07', 'ffffff0f', 'ffffff7f', '00000080', 'feffffff', 'ffffffff']
        for is64 in (True, False):
            log = dict(small_log(is64, 2), procs=[P(mods=[dict(base=1, size=2, ts=3, path='a', version='b', company='c', description='d')])],
                       hosts=[['7f000001' + '00' * 12, 'localhost']], ports=[[80, 1, 'http']])
            log['events'] += [EV('fs_querydir', 'DirectoryControl', {'sub': 1, 'path': S('C:\\x'), 'filter': S('f'), 'cls': 37, 'list': ['abc', 'd', 'e'], 'align': 8, 'cut': None}),
                              EV('fs_querydir', 'DirectoryControl', {'sub': 1, 'path': S('C:\\x'), 'filter': S('f'), 'cls': 12, 'list': ['abc', 'd', 'e'], 'align': 4, 'cut': None}),
                              EV('net', 'Send', {'s4': True, 'sip': '7f000001' + '00' * 12, 'd4': True, 'dip': '7f000001' + '00' * 12, 'tcp': True, 'len': 5, 'sport': 80, 'dport': 8, 'kv': [['a', 'b']],
                                                 'end': 2, 'hi': 0}),
                              EV('reg_value', 'RegQueryValue', {'path': S('HKLM'), 'length': 4, 'index': 0, 'cls': 1, 'ext': True, 'name': 'n', 'gap': 0,
                                                                'data': {'t': 7, 'k': 'multi', 'v': ['a', 'b'], 'end': 2}, 'more': 0}),
                              EV('process_start', 'Process_Start', {'ppid': 1, 'cmd': S('c'), 'cwd': S('d'), 'env': ['A=b', 'C=d'], 'end': 2})]
            for where, n in (('counts', 6), ('offsets', 40), ('lengths', 40)):
                for k in range(n):
                    for v in values:
                        yield {'log': log, 'dmg': [[where, k, v]], 'cut': None, 'more': ''}
            size = len(pml.Log(log).encode().bytes())
            for at in range(size):
                for v in ('ffffffff', '00000000', '01', '80'):
                    yield {'log': log, 'dmg': [['any', at, v]], 'cut': None, 'more': ''}
            for spans in pml.Log(log).encode().event_spans:
                for a, b in spans[1:]:                          # what leads back, in what is chained
                    for at in range(a, b, 2):
                        for back in range(0, b - a + 1, 2 if b - a < 99 else 8):
                            yield {'log': log, 'dmg': [['any', at, (-back & 0xffffffff).to_bytes(4, 'little').hex()]], 'cut': None, 'more': ''}
        pm = [['HighlightFG', 7], ['FilterRules', [[40053, 0, 'a\\b', 1], [M.ARCHITECTURE, 0, '32-bit', 0]]], ['LogFont', [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 'Arial']],
              ['SourcePath', 'C:\\src'], ['Columns', [1, 2, 3]], ['x', '0102']]
        for at in range(len(M.config_bytes(pm))):
            for v in ('ffffffff', '00000000', '01', '80', 'ffffff7f'):
                yield {'pmc': pm, 'dmg': [['any', at, v]], 'cut': None, 'more': ''}

    @staticmethod
    def cells(img, where, raw):
        """Offsets of the bytes that a kind of damage starts at."""
        sec = img.sections
        if where == 'counts':
            out = [0x234, sec['procs'][0], sec['strings'][0], sec['hosts'][0], 0x8, 0x4]
            for kind, _, a, b in img.entries:
                if kind == 'procs':
                    out.append(a + 100)
        elif where == 'offsets':
            out = [0x240 + 8 * i for i in range(5)] + [0x244 + 8 * i for i in range(5)] + [0x3a0, 0x3a4, 0x398]
            out += list(range(sec['array'][0], sec['array'][1], 5))
            out += list(range(sec['procs'][0] + 4, min(sec['procs'][0] + 44, len(raw)), 4)) + list(range(sec['strings'][0] + 4, sec['strings'][0] + 44, 4))
            for spans in img.event_spans:
                out.append(spans[0][0] + 0x30)
        elif where == 'lengths':
            out = [a - 4 for kind, _, a, b in img.entries if kind != 'procs']
            for spans in img.event_spans:
                out += [spans[0][0] + 0x28, spans[0][0] + 0x2c, spans[0][0] + 0x34] + [s[0] for s in spans[1:]]
        elif where == 'any':
            out = range(len(raw))
        else:
            out = range(*sec[where])
        return out or range(len(raw))

    def run(self, case):
        labels = []
        if 'big' in case:
            raw, log = big_case(case['big'], case['n'])
            what = '%d valid bytes with a lot of one thing (%s)' % (len(raw), case['big'])
            if log:
                res, v = limited('reading ' + what, lambda: read_everything(raw))
                expect(res == 'ok' and v[0] >= 1, 'reading %s: %r', what, v)
            else:
                res, v = limited('loading and dumping ' + what, lambda: pp.dumps_configuration(pp.loads_configuration(raw)))
                expect(res == 'ok' and v == raw, 'loading and dumping %s: not the same', what)
            return True, ['big:' + case['big']]
        if 'bytes' in case:
            raw = bytes.fromhex(case['bytes'])
            if case['sig']:
                raw = b'PML_\x09\0\0\0' + raw
            limited('reading %d arbitrary bytes as a log' % len(raw), lambda: read_everything(raw))
            limited('loading %d arbitrary bytes as a configuration' % len(raw), lambda: pp.loads_configuration(raw))
            return True, ['arbitrary bytes']
        if 'log' in case:
            img = pml.Log(case['log']).encode()
            raw = bytearray(img.bytes())
        else:
            img = None
            raw = bytearray(M.config_bytes(case['pmc'], None if M.settled(case['pmc']) else [[0, 0]]))
        before = bytes(raw)
        for where, k, hx in case['dmg']:
            if not raw:
                break
            if img is not None:
                cells = self.cells(img, where, raw)
                at = cells[k % len(cells)]
            elif where == 'records':
                starts, at = [], 0
                while at + 16 <= len(before):
                    starts.append(at)
                    at += int.from_bytes(before[at:at + 4], 'little')
                at = starts[k % len(starts)] + k // len(starts) % 16 if starts else 0
            else:
                at = k % len(raw)
            for i, v in enumerate(bytes.fromhex(hx)):
                if at + i < len(raw):
                    raw[at + i] = v
        raw = bytes(raw)
        if case['cut'] is not None:
            raw = raw[:case['cut'] % (len(raw) + 1)]
        raw += bytes.fromhex(case['more'])
        if img is None:
            res, v = limited('loading a damaged configuration', lambda: pp.loads_configuration(raw))
            labels.append('configuration ' + res)
        else:
            res, v = limited('reading a damaged log', lambda: read_everything(raw))
            labels.append('log ' + res)
            if res == 'ok':
                labels += ['reads in part' if v[1] < v[0] else 'reads']
        return raw != before, labels + ['damage:' + d[0] for d in case['dmg']]


class C34(Check):
    id = 'C34'
    quick, thorough = 700, 700 * 30
    rule = 'a random log in which bytes of one table entry (the text of one string, host or port name, or the record of one process) are overwritten; the log is refused or everything ' \
           'that does not use the entry reads as before; non-trivial = the damage changes a byte and the log opens'

    def strategy(self, tier):
        return st.fixed_dictionaries({'log': G.log(st.lists(G.event(QUICKLIKE + ['net', 'net']), min_size=1, max_size=5), G.procs(1, 3, 2), hosts=G.HOSTS, ports=G.PORTNAMES, layout=G.LAYOUT),
                                      'entry': st.integers(0, 1000), 'dmg': st.lists(st.tuples(st.integers(0, 1 << 12), NASTY).map(list), min_size=1, max_size=4)})

    def fixed(self, tier):
        mod = dict(base=1, size=2, ts=3, path='mod', version='v', company='c', description='md')
        ip = ['0a00000%d' % i + '00' * 12 for i in range(4)]
        for is64 in (True, False):
            log = dict(small_log(is64, 2), procs=[P(idx=5, pid=5, user='u5', mods=[mod]), P(idx=6, pid=6, user='u6', mods=[mod, dict(mod, path='m2')]), P(idx=70, pid=7, user='u7')],
                       hosts=[[ip[0], 'host0'], [ip[1], 'host1'], [ip[2], 'host2']], ports=[[80, 1, 'http'], [443, 1, 'https'], [80, 0, 'udp80']])
            log['events'] = [EV('thread_create', 'Thread_Create', {'id': i}, proc=i % 3) for i in range(3)] + [
                EV('net', 'Send', {'s4': True, 'sip': ip[i], 'd4': True, 'dip': ip[(i + 1) % 4], 'tcp': i != 2, 'len': 5, 'sport': 80, 'dport': 443, 'kv': [], 'end': 2, 'hi': 0}, proc=i % 3) for i in range(4)]
            entries = pml.Log(log).encode().entries
            for k, (_, _, a, b) in enumerate(entries):
                for off in range(b - a):
                    for v in ('ff', '00', '01', 'dc'):
                        yield {'log': log, 'entry': k, 'dmg': [[off, v]]}

    def run(self, case):
        spec = case['log']
        log = pml.Log(spec)
        img = log.encode()
        entries = [e for e in img.entries if e[3] > e[2]]
        if not entries:
            return False, []
        kind, which, a, b = entries[case['entry'] % len(entries)]
        raw = bytearray(img.bytes())
        before = bytes(raw)
        for off, hx in case['dmg']:
            for i, v in enumerate(bytes.fromhex(hx)):
                raw[a + (off + i) % (b - a)] = v
        raw = bytes(raw)
        if kind == 'procs':
            idx = int.from_bytes(raw[a:a + 4], 'little')
            if idx != spec['procs'][which]['idx'] and idx in [p['idx'] for p in spec['procs']]:
                return False, ['takes the number of another process']
        what = 'after damage to the %s' % {'procs': 'record of process %s' % short(which), 'strings': 'string %s' % short(which), 'hosts': 'name of host %s' % which,
                                           'ports': 'name of port %s' % which}[kind]
        res, r = outcome('opening ' + what, lambda: pp.ProcmonLogsReader(io.BytesIO(raw)))
        if res == 'err':
            return False, ['refused', 'entry:' + kind]
        same('number of events ' + what, len(r), len(spec['events']))
        with sut('system_details ' + what):
            sd = r.system_details()
        expect(sd == system_expect(dict(SYSTEM_DEFAULT, **spec), spec['is64']), 'system details %s: %s', what, short(sd))
        with sut('processes ' + what):
            got = [V.proc_key_of(p) for p in r.processes()]
        want = [V.proc_key(p) for p in spec['procs']]
        text = V.z(which) if kind == 'strings' else None

        def fits(g, w):
            if isinstance(w, list):
                return isinstance(g, list) and len(g) == len(w) and all(fits(x, y) for x, y in zip(g, w))
            return g == w or text is not None and isinstance(w, str) and isinstance(g, str) and w == text
        if kind == 'procs':
            same('number of processes ' + what, len(got), len(want))
            rest = list(got)
            for i, w in enumerate(want):
                if i != which:
                    expect(w in rest, 'process %s %s: not there, or altered', short(w), what)
                    rest.remove(w)
        else:
            same('number of processes ' + what, len(got), len(want))
            expect(any(all(fits(g, w) for g, w in zip(perm, want)) for perm in itertools.permutations(got)), 'processes %s: %s, recorded are %s', what, short(got), short(want))
        for i, e in enumerate(spec['events']):
            w = 'event %d (%s) %s' % (i, e['kind'], what)
            mine = kind == 'procs' and e['proc'] == which
            res, ev = outcome('reading ' + w, lambda: r[i])
            if res == 'err':
                if mine:
                    continue
                raise Violation('%s: raised %r' % (w, ev))
            V.cmp_common(w, ev, e, log, process=False)
            if not mine:
                expect(any(fits(V.proc_key_of(ev.process), w2) for w2 in [V.proc_key(spec['procs'][e['proc']])]), '%s: process %s', w, short(V.proc_key_of(ev.process)))
            if kind in ('hosts', 'ports') and e['kind'] == 'net':
                d = e['d']
                uses = which in (d['sip'], d['dip']) if kind == 'hosts' else which in ([d['sport'], d['tcp']], [d['dport'], d['tcp']])
                if uses:
                    bu = log.built(e)
                    same(w + ' operation', ev.operation, bu.operation)
                    V.cmp_details(w, ev, bu)
                    continue
            V.cmp_content(w, ev, log.built(e))
        return raw != before, ['reads', 'entry:' + kind]
