"""Checks C37-C38: errors of the stream; how the time to read grows."""
import gc
import io
import json
import time
import zlib

from hypothesis import strategies as st

from . import checks_pmc as CP
from . import gens as G
from . import pmc as M
from . import pml
from . import view as V
from .checks_log import ALL, EV, P, S, small_log
from .core import Check, Violation, expect, pp, same, short, sut


class Custom(Exception):
    pass


# what a stream raises: a disk, a socket, a closed file, a damaged archive, an interrupting user, a class of the stream's own
ERRORS = [OSError, EOFError, ValueError, RuntimeError, NotImplementedError, MemoryError, InterruptedError, BlockingIOError, TimeoutError, FileNotFoundError, PermissionError, ConnectionResetError,
          io.UnsupportedOperation, zlib.error, Custom, KeyboardInterrupt, SystemExit]


def make_error(k):
    return ERRORS[k % len(ERRORS)]('injected')


class Faulty(object):
    """A seekable binary stream that counts the calls it gets and raises an error at one of them."""

    def __init__(self, raw=b'', drop=False):
        self.io = io.BytesIO(raw)
        self.calls = 0
        self.at = None
        self.error = None
        self.raised = False
        self.drop = drop            # the failing call has moved the stream, as an interrupted read may

    def arm(self, at, error):
        self.calls, self.at, self.error, self.raised = 0, at, error, False

    def disarm(self):
        self.at = None

    def hit(self, name, *a):
        k = self.calls
        self.calls += 1
        if self.at is not None and k == self.at:
            self.raised = True
            if self.drop:
                getattr(self.io, name)(*(a if name != 'write' else (a[0][:len(a[0]) // 2],)))
            raise self.error
        return getattr(self.io, name)(*a)

    def read(self, n=-1):
        return self.hit('read', n)

    def seek(self, off, whence=0):
        return self.hit('seek', off, whence)

    def tell(self):
        return self.hit('tell')

    def write(self, data):
        return self.hit('write', data)

    def flush(self):
        pass

    def readable(self):
        return True

    writable = seekable = readable
    closed = False


def reached(err, injected):
    """The injected error is what was raised, or what it was raised from."""
    seen = []
    while err is not None and err not in seen:
        if err is injected:
            return True
        seen.append(err)
        err = err.__cause__ or err.__context__
    return False


class C37(Check):
    id = 'C37'
    quick, thorough = 260, 260 * 30
    rule = 'a reader of a random log (or a configuration being loaded or dumped) whose stream raises one of %d kinds of error at the k-th of its calls (every k of small files enumerated); the error ' \
           'must reach the caller or the result be right, and everything asked for afterwards must be right; non-trivial = the error was raised' % len(ERRORS)

    OP = st.one_of(st.tuples(st.just('get'), st.integers(-6, 6)), st.tuples(st.just('slice'), st.one_of(st.none(), st.integers(-6, 6)), st.one_of(st.none(), st.integers(-6, 6)), st.sampled_from([None, 1, 2, -1])),
                   st.tuples(st.just('next')), st.tuples(st.just('rest')), st.tuples(st.sampled_from(['procs', 'sys', 'len', 'readall', 'open']))).map(list)

    def strategy(self, tier):
        fault = G.mostly(st.tuples(st.integers(0, 40), st.integers(0, len(ERRORS) - 1)).map(list), st.none(), 2)
        log = st.fixed_dictionaries({'log': G.log(st.lists(G.event(ALL), max_size=5), G.procs(1, 3, 2), layout=G.LAYOUT, hosts=G.HOSTS, ports=G.PORTNAMES), 'drop': G.BOOL,
                                     'options': st.sampled_from([[], [], [True, True]]),
                                     'open': st.one_of(st.none(), st.tuples(st.integers(0, 300), st.integers(0, len(ERRORS) - 1)).map(list)),
                                     'ops': st.lists(st.tuples(self.OP, fault).map(list), min_size=1, max_size=10)})
        conf = st.fixed_dictionaries({'pmc': CP.CONFIG, 'drop': G.BOOL, 'faults': st.lists(st.tuples(st.integers(0, 60), st.integers(0, len(ERRORS) - 1)).map(list), min_size=1, max_size=3)})
        return st.one_of(log, log, log, conf)

    def fixed(self, tier):
        from .checks_event import text_events, NET, VAL
        for is64 in (True, False):
            evs = [EV('reg_value', 'RegQueryValue', dict(VAL, cls=2)), NET(kv=[['k', 'v']]), EV('thread_create', 'Thread_Create', {'id': 5})] + text_events('text', 'more')[:6]
            log = dict(small_log(is64), events=evs, procs=[P(mods=[dict(base=1, size=2, ts=3, path='a', version='b', company='c', description='d')]), P(idx=7, pid=8)],
                       hosts=[['7f000001' + '00' * 12, 'localhost']], ports=[[80, 1, 'http']])
            n = len(evs)
            for drop in (False, True):
                for k in range(0, 400):                         # every call while opening; more than there are does no harm
                    yield {'log': log, 'drop': drop, 'options': [], 'open': [k, k], 'ops': [[['rest'], None]]}
                    if k >= 120 and k % 10 == 0:
                        yield {'log': log, 'drop': drop, 'options': [], 'open': None, 'ops': [[['readall'], [k, k]], [['rest'], None]]}
                for i in range(n):
                    for k in range(0, 8):
                        for e in (0, k + 1):
                            yield {'log': log, 'drop': drop, 'options': [], 'open': None, 'ops': [[['get', i], [k, e]], [['get', i], None], [['rest'], None]]}
                for k in range(0, 40):
                    yield {'log': log, 'drop': drop, 'options': [], 'open': None, 'ops': [[['next'], None], [['rest'], [k, k]], [['next'], None], [['slice', None, None, -1], [k, 0]], [['slice', None, None, None], None], [['rest'], None]]}
        for c in CP.C01().fixed(tier):
            yield {'pmc': c['cfg'], 'drop': False, 'faults': [[k, k] for k in range(0, 5)]}
            yield {'pmc': c['cfg'], 'drop': True, 'faults': [[k, 0] for k in range(0, 5)]}

    @staticmethod
    def attempt(what, f, fault, fn):
        """('ok', result) or ('err', None) where the error that the stream raised has reached the caller."""
        injected = make_error(fault[1]) if fault else None
        f.arm(fault[0] if fault else None, injected)
        box = []

        def go():
            try:
                box.append(('ok', fn()))
            except (KeyboardInterrupt, SystemExit) as e:
                box.append(('err', e))
            except Exception as e:
                if not f.raised:
                    raise
                box.append(('err', e))
        with sut(what):
            go()
        f.disarm()
        res, v = box[0]
        if res == 'err':
            expect(f.raised and reached(v, injected), '%s: the stream raised %r, the caller gets %r', what, injected, v)
        return res, v

    def run(self, case):
        if 'pmc' in case:
            return self.run_pmc(case)
        spec = case['log']
        log = pml.Log(spec)
        raw = log.encode().bytes()
        n = len(spec['events'])
        built = [log.built(e) for e in spec['events']]
        procs = sorted(json.dumps(V.proc_key(p)) for p in spec['procs'])
        f = Faulty(raw, case['drop'])
        labels, hit = set(), 0

        def check(what, ev, i):
            expect(isinstance(ev, pp.logs.Event), '%s: a %s', what, type(ev).__name__)
            V.cmp_common(what, ev, spec['events'][i], log)
            V.cmp_content(what, ev, built[i])

        def listed(what, got, want):
            same(what + ': events', len(got), len(want))
            for g, i in zip(got, want):
                check(what, g, i)

        def start():
            f.io.seek(0)
            return pp.ProcmonLogsReader(f, *case['options'])
        res, r = self.attempt('opening', f, case['open'], start)
        hit += f.raised
        if res == 'err':
            labels.add('opening fails')
            res, r = self.attempt('opening again', f, None, start)
        pos = {0}                                               # where the iteration can be
        for step, (op, fault) in enumerate(case['ops']):
            what = 'step %d, %s' % (step, ' '.join(map(str, op)))
            kind = op[0]
            labels.add(kind)
            if kind == 'get':
                if not -n <= op[1] < n:
                    continue
                res, v = self.attempt(what, f, fault, lambda: r[op[1]])
                if res == 'ok':
                    check(what, v, op[1] % n)
            elif kind == 'slice':
                s = slice(*op[1:])
                res, v = self.attempt(what, f, fault, lambda: r[s])
                if res == 'ok':
                    listed(what, v, list(range(n))[s])
            elif kind == 'next' or kind == 'rest':
                done = False
                while not done:
                    res, v = self.attempt(what, f, fault, lambda: next(r, None))
                    if res == 'err':                            # the iteration stays at the event or goes past it
                        hit += 1
                        fault = None
                        pos |= {x + 1 for x in pos if x < n}
                        done = kind == 'next'
                        continue
                    if f.raised:
                        fault = None
                    elif fault:
                        fault = [fault[0] - f.calls, fault[1]]
                    if v is None:
                        expect(n in pos, '%s: the iteration ends at event %s of %d', what, sorted(pos), n)
                        pos = {n}
                        break
                    follow, wrong = set(), Violation('%s: an event after the last one' % what)
                    for at in sorted(x for x in pos if x < n):
                        try:
                            check('%s at %s' % (what, sorted(pos)), v, at)
                            follow.add(at + 1)
                        except Violation as e:
                            wrong = e
                    if not follow:
                        raise wrong
                    pos = follow
                    done = kind == 'next'
                continue
            elif kind == 'readall':
                def all_events():
                    f.io.seek(0)
                    return pp.read_all_events_from_pml(f)
                res, v = self.attempt(what, f, fault, all_events)
                if res == 'ok':
                    listed(what, v, range(n))
            elif kind == 'open':
                res, v = self.attempt(what, f, fault, start)
                if res == 'ok':
                    same(what + ': length', len(v), n)
            else:
                res, v = self.attempt(what, f, fault, {'procs': r.processes, 'sys': r.system_details, 'len': lambda: len(r)}[kind])
                if res == 'ok' and kind == 'procs':
                    expect(sorted(json.dumps(V.proc_key_of(p)) for p in v) == procs, '%s: processes differ', what)
                elif res == 'ok' and kind == 'sys':
                    same(what, v['System Type'], '64-bit' if spec['is64'] else '32-bit')
                elif res == 'ok':
                    same(what, v, n)
            hit += f.raised
        f.disarm()
        with sut('reading everything in the end'):
            got, ps = r[:], r.processes()
        listed('in the end', got, range(n))
        expect(sorted(json.dumps(V.proc_key_of(p)) for p in ps) == procs, 'in the end the processes differ')
        return hit > 0, sorted(labels)

    def run_pmc(self, case):
        from .checks_obj import options_of
        spec = case['pmc']
        raw = M.config_bytes(spec, None if M.settled(spec) else [[0, 0]])
        with sut('loading'):
            want = pp.dumps_configuration(pp.loads_configuration(raw))
        hit = 0
        f = Faulty(raw, case['drop'])

        def load():
            f.io.seek(0)
            return pp.load_configuration(f)
        config = None
        for fault in case['faults'] + [None]:
            res, c = self.attempt('load_configuration', f, fault, load)
            hit += f.raised
            if res == 'ok':
                config = c
                with sut('dumps_configuration'):
                    same('what was loaded', pp.dumps_configuration(c), want)
        holds = options_of(config)
        for fault in case['faults'] + [None]:
            out = Faulty(b'', case['drop'])
            res, _ = self.attempt('dump_configuration', out, fault, lambda: pp.dump_configuration(config, out))
            hit += out.raised
            if res == 'ok':
                same('what was dumped', out.io.getvalue(), want)
            elif not case['drop'] or out.io.getvalue():
                expect(want.startswith(out.io.getvalue()), 'after an error the stream has other bytes: %s', short(out.io.getvalue()))
            with sut('dumps_configuration'):
                same('the configuration after an attempt to dump it', pp.dumps_configuration(config), want)
                same('its options', options_of(config), holds)
        return hit > 0, ['configuration']


# ---- how the time grows ---------------------------------------------------------------------------------------------
TIMES = 32          # how much larger the larger one is
FACTOR = 5          # how much worse than in proportion it may do
FLOOR = 0.1        # seconds of processor time that do not count

# what grows -> (size of the smaller one, what is asked of it)
GROWS = {
    'events of one thread': (600, ['iterate', 'all', 'export', 'set']),
    'events': (2000, ['open', 'iterate', 'index', 'slices', 'backwards', 'all', 'export', 'lengths', 'set']),
    'paths': (300, ['iterate', 'all', 'export', 'set']),
    'processes': (150, ['open', 'processes', 'iterate', 'processes set']),
    'modules': (300, ['open', 'processes', 'modules set']),
    'shared modules': (40, ['open', 'processes']),
    'hosts': (400, ['open', 'iterate']),
    'ports': (400, ['open', 'iterate']),
    'strings': (1000, ['open']),
    'string length': (20000, ['open', 'processes']),
    'host length': (20000, ['open', 'iterate']),
    'environment': (1000, ['iterate', 'export']),
    'environment length': (20000, ['iterate', 'export']),
    'command line': (1000, ['iterate', 'export']),
    'stack': (2000, ['iterate', 'all']),
    'network values': (600, ['iterate', 'export']),
    'listing': (130, ['iterate', 'export']),
    'multi-sz': (500, ['iterate', 'export']),
    'text value': (900, ['iterate', 'export']),
    'lines of a value': (450, ['iterate', 'export']),
    'binary value': (2000, ['iterate', 'export']),
    'rules': (200, ['load', 'dump', 'rules set']),
    'rule value': (20000, ['load', 'dump']),
    'path value': (20000, ['load', 'dump']),
    'map': (2000, ['load', 'dump']),
    'unknown value': (200000, ['load', 'dump']),
    'options': (50, ['load', 'dump']),
}
UNITS = ['a', 'C:\\Windows\\', '\u4e2d', '\U0001f600', 'A=b;', ' ', '\u0130', '0', '\\', '=']


def grown(what, n, is64, unit):
    """A log, or the options of a configuration, of which one thing has the size n."""
    from .checks_event import NET, VAL
    log = small_log(is64, 2)
    long_ = (unit * n)[:n]
    if what == 'events':
        log['events'] = [EV('thread_create', 'Thread_Create', {'id': i}, tid=i, date=132390118470000000 + i) for i in range(n)]
    elif what == 'events of one thread':
        log['events'] = [EV('thread_create', 'Thread_Create', {'id': i}, tid=7, date=132390118470000000 + i) for i in range(n)]
    elif what == 'paths':
        log['events'] = [EV('fs_plain', 'CloseFile', {'sub': 0, 'path': S('%s%d' % (unit, i)), 'n': 0, 'xn': None}, tid=i) for i in range(n)]
    elif what == 'processes':
        log['procs'] = [P(idx=i, pid=i, user='%s%d' % (unit, i), command_line='c%d' % i) for i in range(n)]
        log['events'] = [EV('thread_create', 'Thread_Create', {'id': i}, proc=i * 7 % n) for i in range(n)]
    elif what == 'modules':
        log['procs'] = [P(mods=[dict(base=i, size=2, ts=3, path='%s%d' % (unit, i), version='b', company='c', description='d') for i in range(n)])]
    elif what == 'shared modules':
        log['procs'] = [P(idx=i, mods=[dict(base=1, size=2, ts=3, path=unit, version='b', company='c', description='d')] * 10) for i in range(n)]
    elif what == 'hosts':
        ips = ['%08x' % (i * 2654435761 % 2 ** 32) + '00' * 12 for i in range(n)]
        log['hosts'] = [[ip, '%s%d' % (unit, i)] for i, ip in enumerate(ips)]
        log['events'] = [NET(sip=ip) for ip in ips]
    elif what == 'ports':
        log['ports'] = [[i, i & 1, '%s%d' % (unit, i)] for i in range(n)]
        log['events'] = [NET(dport=i) for i in range(n)]
    elif what == 'strings':
        log['layout'] = {'junk': ['%s%d' % (unit, i) for i in range(n)]}
    elif what == 'string length':
        log['procs'] = [P(command_line=long_)]
    elif what == 'host length':
        log['hosts'] = [['7f000001' + '00' * 12, long_]]
        log['events'] = [NET()]
    elif what.startswith('environment'):
        log['events'] = [EV('process_start', 'Process_Start', {'ppid': 1, 'cmd': S('c'), 'cwd': S('d'), 'env': ['A=' + long_] if what != 'environment' else ['%s%d=%d' % (unit, i, i) for i in range(n)], 'end': 2})]
    elif what == 'command line':
        log['events'] = [EV('process_start', 'Process_Start', {'ppid': 1, 'cmd': S(long_[:0x7fff // (1 + (ord(unit[0]) > 0xffff))]), 'cwd': S('d'), 'env': ['a'], 'end': 2})]
    elif what == 'stack':
        log['events'] = [EV('thread_create', 'Thread_Create', {'id': 1}, stack=list(range(n)))]
    elif what == 'network values':
        log['events'] = [NET(kv=[['%s%d' % (unit, i), 'v'] for i in range(n)])]
    elif what == 'listing':
        log['events'] = [EV('fs_querydir', 'DirectoryControl', {'sub': 1, 'path': S('C:\\d'), 'filter': S('*'), 'cls': 12, 'list': ['x'] * n, 'align': 2, 'cut': None})]
    elif what in ('multi-sz', 'text value', 'lines of a value', 'binary value'):
        data = {'multi-sz': {'t': 7, 'k': 'multi', 'v': ['x'] * n, 'end': 2}, 'text value': {'t': 1, 'k': 'sz', 'v': long_[:n // 2 if ord(unit[0]) > 0xffff else n], 'end': 1},
                'lines of a value': {'t': 1, 'k': 'sz', 'v': '\r\n' * n, 'end': 1}, 'binary value': {'t': 3, 'k': 'bin', 'v': '5a' * n}}[what]
        log['events'] = [EV('reg_value', 'RegQueryValue', dict(VAL, cls=2, data=data, length=65535))]
    elif what == 'rules':
        return [['FilterRules', [[40052, 0, '%s%d' % (unit, i), i & 1] for i in range(n)]]]
    elif what == 'rule value':
        return [['FilterRules', [[40052, 0, long_, 1]]]]
    elif what == 'path value':
        return [['SymbolPath', long_]]
    elif what == 'map':
        return [['ColumnMap', [i % 256 for i in range(n)]]]
    elif what == 'unknown value':
        return [['Foo', '5a' * n]]
    elif what == 'options':
        return [['Option%d' % i, '01000000'] for i in range(n)]
    else:
        raise AssertionError(what)
    return log


def work(how, raw):
    """(prepare, work) of what is measured."""
    if how == 'load':
        return lambda: None, lambda _: pp.loads_configuration(raw)
    if how == 'dump':
        config = pp.loads_configuration(raw)
        return lambda: None, lambda _: pp.dumps_configuration(config)
    if how == 'rules set':
        rules = pp.loads_configuration(raw)['FilterRules']
        return lambda: None, lambda _: (len(set(rules)), dict.fromkeys(rules))
    if how in ('processes set', 'modules set'):
        things = pp.ProcmonLogsReader(io.BytesIO(raw)).processes()
        if how == 'modules set':
            things = [m for p in things for m in p.modules]
        return lambda: None, lambda _: (len(set(things)), dict.fromkeys(things))
    if how == 'open':
        return lambda: io.BytesIO(raw), pp.ProcmonLogsReader
    if how == 'all':
        return lambda: io.BytesIO(raw), pp.read_all_events_from_pml
    if how in ('export', 'set'):
        evs = list(pp.ProcmonLogsReader(io.BytesIO(raw)))
        first = evs[0].date_filetime
        if how == 'set':
            return lambda: None, lambda _: (len(set(evs)), [e == e for e in evs])
        return lambda: None, lambda _: [(e.get_compatible_csv_info(first), str(e), repr(e)) for e in evs]
    return lambda: pp.ProcmonLogsReader(io.BytesIO(raw)), {
        'iterate': list,
        'index': lambda r: [r[i] for i in range(len(r))],
        'backwards': lambda r: [r[-i] for i in range(1, len(r) + 1)],
        'slices': lambda r: [r[i:i + 4] for i in range(0, len(r), 4)],
        'lengths': lambda r: [(len(r), next(r), r.system_details()) for _ in range(len(r))],
        'processes': lambda r: [r.processes() for _ in range(8)],
    }[how]


def spent(prepare, fn, runs):
    """Processor time of a few runs of fn, each with what prepare gives."""
    out = []
    for _ in range(runs):
        arg = prepare()
        gc.collect()
        gc.disable()
        try:
            t = time.thread_time()
            keep = fn(arg)
            out.append(time.thread_time() - t)
            del keep
        finally:
            gc.enable()
    return out


class C38(Check):
    id = 'C38'
    quick, thorough = 14, 14 * 30
    rule = 'logs and configurations of which one thing (number of events, processes, modules, names, rules; length of a text, stack, list, value...) is n and %d n: the processor time ' \
           'of what a user does with the larger (the least of up to 4 runs) is at most %d times that of the smaller (the greatest of 3), and %.2f s; non-trivial = the larger takes 3 ms' % (TIMES, TIMES * FACTOR, FLOOR)

    def strategy(self, tier):
        return st.fixed_dictionaries({'what': st.sampled_from(sorted(GROWS)), 'how': st.integers(0, 8), 'is64': G.BOOL, 'unit': st.sampled_from(UNITS), 'size': st.integers(60, 100)})

    def fixed(self, tier):
        for k, what in enumerate(sorted(GROWS)):
            for how in range(len(GROWS[what][1])):
                yield {'what': what, 'how': how, 'is64': bool((k + how) & 1), 'unit': UNITS[(k * 3 + how) % len(UNITS)], 'size': 100}

    def run(self, case):
        n, hows = GROWS[case['what']]
        how = hows[case['how'] % len(hows)]
        n = max(2, n * case['size'] // 100)
        raws = []
        for k in (n, n * TIMES):
            g = grown(case['what'], k, case['is64'], case['unit'])
            raws.append(M.config_bytes(g, None if M.settled(g) else [[0, 0]]) if isinstance(g, list) else pml.Log(g).encode().bytes())
        what = '%s, %d and %d of them (%s)' % (how, n, n * TIMES, case['what'])
        with sut(what):
            small = max(spent(*work(how, raws[0]), runs=3))
        limit = min(small * TIMES * FACTOR + FLOOR, 15)
        large = None
        with sut(what):
            w = work(how, raws[1])
        for _ in range(4):
            with sut('%s, where the smaller takes %.4f s' % (what, small), hang=1.5 * limit + 3):
                t = spent(*w, runs=1)[0]
            large = t if large is None else min(large, t)
            if large <= limit:
                break
        expect(large <= limit, '%s take %.4f s and %.2f s: %d times as long', what, small, large, large / small)
        return large > 0.003, [case['what'], how]
