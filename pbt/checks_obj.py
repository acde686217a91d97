"""Checks C41-C42: objects are what their fields are now; an interruption does no lasting harm."""
import ast
import copy
import gc
import io
import json
import os
import pickle
import signal
import sys
import tempfile

from hypothesis import strategies as st

from . import checks_pmc as CP
from . import cold
from . import gens as G
from . import pmc as M
from . import pml
from . import view as V
from .checks_log import ALL, ATTR_E, ATTR_M, ATTR_P, C29, EV, P, S, small_log
from .core import REPO, Check, Violation, expect, pp, same, short, sut

DATES = st.integers(G.EPOCH, G.EPOCH + (1 << 60))
LOOKS = ['export', 'relative', 'str', 'repr', 'hash', 'date', 'local date', 'process str', 'process repr', 'process hash', 'module']


def attempt(fn):
    try:
        return fn()
    except (MemoryError, RecursionError):
        raise
    except Exception:
        return 'refused'


def look(e, first, only=None):
    """What an event says of itself."""
    p = e.process
    return {name: attempt(fn) for name, fn in (
        ('export', lambda: list(e.get_compatible_csv_info().items())), ('relative', lambda: list(e.get_compatible_csv_info(first).items())), ('str', lambda: str(e)),
        ('repr', lambda: repr(e)), ('hash', lambda: hash(e)), ('date', e.date), ('local date', lambda: e.date(False)), ('process str', lambda: str(p)),
        ('process repr', lambda: repr(p)), ('process hash', lambda: hash(p)), ('module', lambda: [(str(m), repr(m), hash(m)) for m in p.modules])) if only is None or name == only}


def anew(e):
    """An event made by the constructors, of the values that the fields of e have."""
    p = e.process
    mods = [pp.logs.Module(**{k: getattr(m, k) for k in ATTR_M}) for m in p.modules]
    q = pp.logs.Process(**dict({k: getattr(p, k) for k in ATTR_P if k != 'modules'}, modules=mods))
    return pp.logs.Event(**dict({k: copy.deepcopy(getattr(e, k)) for k in ATTR_E if k != 'process'}, process=q))


class C41(Check):
    id = 'C41'
    quick, thorough = 600, 600 * 30
    rule = 'the events of a random log, then up to 24 steps on them: assigning a field of the event, its process or a module, editing its details or stack in place, copying and pickling it, giving it ' \
           'all fields of another event, exporting and printing it in between; after every step it must export, print, compare and hash as one newly made of the values it has now; ' \
           'non-trivial = something was changed after it had been looked at'

    def strategy(self, tier):
        n = st.integers(0, 5)
        op = st.one_of(st.tuples(st.just('set'), n, n, st.integers(0, len(ATTR_E) - 1), st.integers(-1, 5)), st.tuples(st.just('set'), n, n, st.integers(0, len(ATTR_E) - 1), st.just(-1)),
                       st.tuples(st.just('setp'), n, n, st.integers(0, len(ATTR_P) - 1), st.integers(-1, 5)),
                       st.tuples(st.just('setm'), n, n, st.integers(0, len(ATTR_M) - 1), st.integers(0, 5)), st.tuples(st.just('detail'), n, st.integers(0, 9), st.integers(0, 7)), st.tuples(st.just('mods'), n, st.integers(0, 2)),
                       st.tuples(st.just('stack'), n, st.integers(0, 3)), st.tuples(st.just('look'), n, st.sampled_from(LOOKS)), st.tuples(st.just('look'), n, st.none()),
                       st.tuples(st.just('copy'), n, st.sampled_from(['copy', 'deepcopy', 'pickle', 'pickle0', 'anew'])), st.tuples(st.just('become'), n, n, st.integers(0, 1000))).map(list)
        return st.fixed_dictionaries({'log': G.log(st.lists(G.event(ALL, date=DATES), min_size=1, max_size=4), G.procs(1, 3, 2), hosts=G.HOSTS), 'ops': st.lists(op, min_size=2, max_size=24)})

    def fixed(self, tier):
        from .checks_event import OPCODES, any_event
        evs = [any_event(c, o) for c, o in OPCODES]
        mod = dict(base=1, size=2, ts=3, path='a', version='b', company='c', description='d')
        procs = [P(mods=[mod]), P(idx=9, pid=77, ppid=5, auth=1 << 40, session=3, start=5, end=6, virt=1, p64=0, integrity='Low', user='u', process_name='q', image_path='r', command_line='s',
                                 company='t', version='v', description='w', mods=[dict(mod, base=77), dict(mod, path='z')])]
        for at in range(0, len(evs), 3):
            some = evs[at:at + 3]
            some = [dict(e, tid=100 + at + k, dur=k * 12345 + 7, res=[0, 0x103, 0xc0000034][k], date=e['date'] + k * 10 ** 9, proc=k % 2) for k, e in enumerate(some)]
            log = {'is64': at % 2 == 0, 'fill': 2, 'procs': procs, 'events': some}
            for i in range(len(some)):
                j = (i + 1) % len(some)
                yield {'log': log, 'ops': [['look', i, None], ['become', i, j, at]]}
                for k in range(len(ATTR_E)):
                    for how in (-1, 0):
                        yield {'log': log, 'ops': [['look', i, None], ['set', i, j, k, how], ['copy', i, 'pickle'], ['set', i, i, k, -1]]}
                for k in range(len(ATTR_P)):
                    yield {'log': log, 'ops': [['look', i, None], ['setp', i, j, k, -1], ['look', i, None], ['setp', i, j, k, 0]]}
                for k in range(len(ATTR_M)):
                    yield {'log': log, 'ops': [['look', i, None], ['setm', i, j, k, 0]]}
                for k in range(3):
                    yield {'log': log, 'ops': [['copy', i, 'anew'], ['mods', i, k], ['copy', i, 'anew'], ['mods', j, k], ['mods', i, 2]]}
                for k in range(8):
                    for at_ in range(3):
                        yield {'log': log, 'ops': [['look', i, None], ['detail', i, at_, k], ['look', i, None], ['detail', i, at_ + 1, k]]}

    @staticmethod
    def check(what, e, first):
        with sut(what + ', building an event of the same values'):
            f = anew(e)
        expect(V.snap(e) == V.snap(f), '%s: an event built of its values has others: %s, not %s', what, short(V.snap(f)), short(V.snap(e)))
        expect(e == f and f == e and not e != f, '%s: it is not equal to one with the same values', what)
        before = V.snap(e)
        with sut(what):
            a, b = look(e, first), look(f, first)
        expect(V.snap(e) == before, '%s: exporting and printing changed it to %s from %s', what, short(V.snap(e)), short(before))
        for k in a:
            expect(a[k] == b[k] and type(a[k]) is type(b[k]), '%s: its %s is %s, that of one with the same values %s', what, k, short(a[k]), short(b[k]))

    def run(self, case):
        spec = case['log']
        raw = pml.Log(spec).encode().bytes()
        with sut('reading'):
            mine, fresh = list(V.open_reader(raw)), list(V.open_reader(raw))
        n = len(mine)
        first = fresh[0].date_filetime
        looked, changed, labels = set(), 0, set()
        apart = []
        for step, op in enumerate(case['ops']):
            i = op[1] % n
            e = mine[i]
            kind = op[0]
            what = 'step %d, %s, of a %s event' % (step, ' '.join(map(str, op)), e.operation)
            labels.add(kind)
            if kind == 'look':
                with sut(what):
                    look(e, first, op[2])
                looked.add(i)
                continue
            if kind in ('set', 'setp', 'setm'):
                src = fresh[op[2] % n]
                attrs = {'set': ATTR_E, 'setp': ATTR_P, 'setm': ATTR_M}[kind]
                attr = attrs[op[3]]
                target, source = {'set': (e, src), 'setp': (e.process, src.process), 'setm': (e.process.modules and e.process.modules[-1], src.process.modules and src.process.modules[-1])}[kind]
                if not target or not source:
                    continue
                v = copy.deepcopy(getattr(source, attr))
                if op[4] >= 0 and attr not in ('process', 'modules', 'event_class'):
                    v = C29.bump(v, op[4])
                if attr in ('date_filetime', 'duration', 'start_time', 'end_time') and not 0 <= v < 1 << 64:
                    continue
                with sut(what):
                    setattr(target, attr, v)
                what += ' (%s)' % attr
            elif kind == 'detail':
                keys = list(e.details)
                k = keys[op[2] % len(keys)] if keys else 'x'
                v = e.details.get(k)
                if op[3] == 0:
                    e.details['new'] = 'value'
                elif op[3] == 1:
                    e.details.pop(k, None)
                elif op[3] == 2:
                    e.details[k] = 'text' if not isinstance(v, str) else v + '\r\nmore'
                elif op[3] == 3:
                    e.details[k] = 4096
                elif op[3] == 4 and isinstance(v, list):
                    v.append('more')
                elif op[3] == 4:
                    e.details[k] = b'\x01\x02'
                elif op[3] == 5:
                    e.details.clear()
                elif op[3] == 6:
                    e.details = type(e.details)(reversed(list(e.details.items())))
                else:
                    e.details = dict(e.details)
            elif kind == 'mods':                                # in place: processes that are not this one keep theirs
                others = [q for q in {id(x.process): x.process for x in mine + fresh}.values() if q is not e.process]
                others.append(pp.logs.Process())
                before = [V.proc_key_of(q) for q in others]
                if op[2] == 0:
                    e.process.modules.append(pp.logs.Module(5, 6, 'new'))
                elif op[2] == 1:
                    e.process.modules.insert(0, pp.logs.Module())
                else:
                    del e.process.modules[:]
                others.append(pp.logs.Process())
                before.append(before[-1])
                for q, was in zip(others, before):
                    expect(V.proc_key_of(q) == was, '%s: another process has changed with it: %s, not %s', what, short(V.proc_key_of(q)), short(was))
            elif kind == 'stack':
                if op[2] == 0:
                    e.stacktrace.append(77)
                elif op[2] == 1:
                    del e.stacktrace[:1]
                elif op[2] == 2:
                    e.stacktrace.reverse()
                else:
                    e.stacktrace = [1, 2, 3]
            elif kind == 'copy':
                with sut(what):
                    new = {'copy': copy.copy, 'deepcopy': copy.deepcopy, 'pickle': lambda x: pickle.loads(pickle.dumps(x)), 'pickle0': lambda x: pickle.loads(pickle.dumps(x, 2)), 'anew': anew}[op[2]](e)
                expect(V.snap(new) == V.snap(e), '%s: the copy has other values: %s, not %s', what, short(V.snap(new)), short(V.snap(e)))
                self.check(what, new, first)
                if op[2] in ('deepcopy', 'pickle', 'pickle0'):
                    apart.append((what, new, V.snap(new)))      # this one stays as it is
                    new = {'deepcopy': copy.deepcopy}.get(op[2], lambda x: pickle.loads(pickle.dumps(x)))(e)
                mine[i] = new
                continue
            elif kind == 'become':
                src = fresh[op[2] % n]
                attrs = list(ATTR_E)
                for k in range(len(attrs)):                     # in any order
                    x = (op[3] * 7 + k * k) % len(attrs)
                    attrs[k], attrs[x] = attrs[x], attrs[k]
                for attr in attrs:
                    setattr(e, attr, copy.deepcopy(getattr(src, attr)))
                with sut(what):
                    a, b = look(e, first), look(src, first)
                for k in a:
                    expect(a[k] == b[k], '%s: its %s is %s, that of the event whose values it has %s', what, k, short(a[k]), short(b[k]))
                expect(e == src and src == e, '%s: it is not equal to the event whose values it has', what)
            changed += i in looked
            self.check(what, mine[i], first)
        for i, e in enumerate(mine):
            self.check('event %d in the end' % i, e, first)
        for what, e, snap in apart:
            expect(V.snap(e) == snap, '%s: the copy has changed with what it is a copy of', what)
            self.check('the copy of ' + what, e, first)
        return changed > 0, sorted(labels)


FONT = ('height', 'width', 'escapement', 'orientation', 'weight', 'italic', 'underline', 'strikeout', 'char_set', 'out_precision', 'clip_precision', 'quality', 'pitch_and_family', 'face_name')


def options_of(config):
    """The options of a configuration as plain data."""
    return [(k, type(v).__name__, [repr(getattr(v, f)) for f in FONT] if hasattr(v, FONT[0]) else repr(v)) for k, v in config.items()]


# ---- interruptions --------------------------------------------------------------------------------------------------
class Stop(BaseException):
    """An interruption that is nobody's ordinary error."""


STOPS = [KeyboardInterrupt, SystemExit, Stop]
HERE = os.path.join(os.path.realpath(REPO), 'procmon_parser') + os.sep
WALL = 25


def tidying(name):
    """The lines of a file at which no Python program can be interrupted safely: where `with` and `try` are entered, and what `finally` and `except` do."""
    out = set()
    try:
        with open(name, 'rb') as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError, ValueError):
        return out
    for node in ast.walk(tree):
        if isinstance(node, ast.With):
            out |= set(range(node.lineno, node.body[0].lineno))
        elif isinstance(node, ast.Try):
            out.add(node.lineno)
            for part in [h.body for h in node.handlers] + [node.finalbody]:
                for x in part:
                    out |= set(range(x.lineno, x.end_lineno + 1))
    return out


TIDYING = {}


def interrupted(fn, k, stop, log=None):
    """fn with an interruption before the k-th line that the library executes -> (lines, raised, ('ok', value) | ('stopped', None) | ('err', error))"""
    state = [0, False]
    names = {}
    exc = stop('interrupted') if stop else None

    def mine(frame):
        name = frame.f_code.co_filename
        if name not in names:
            names[name] = os.path.realpath(name).startswith(HERE)
        return names[name]

    def trace(frame, event, arg):
        if event == 'call':
            return trace if mine(frame) else None
        if event == 'line':
            name = frame.f_code.co_filename
            if name not in TIDYING:
                TIDYING[name] = tidying(name)
            if frame.f_lineno in TIDYING[name]:
                return trace
            state[0] += 1
            if log is not None:
                log.append((name, frame.f_lineno))
            if exc is not None and state[0] == k + 1:
                state[1] = True
                raise exc
        return trace
    old = sys.gettrace()
    sys.settrace(trace)
    try:
        v = fn()
        sys.settrace(None)
        out = 'ok', v
    except (Exception, KeyboardInterrupt, SystemExit, Stop) as e:
        sys.settrace(None)
        out = ('stopped' if reached(e, exc) else 'err'), e
    finally:
        sys.settrace(old)
    return state[0], state[1], out


def reached(err, injected):
    seen = []
    while err is not None and err not in seen:
        if err is injected:
            return True
        seen.append(err)
        err = err.__cause__ or err.__context__
    return False


class Wall(BaseException):
    pass


def _wall(signum, frame):
    raise Wall()


def open_files():
    return sorted(os.listdir('/proc/self/fd'))


class C42(Check):
    id = 'C42'
    quick, thorough = 130, 130 * 30
    rule = 'opening, indexing, slicing, iterating, exporting and printing a random log, loading and dumping a configuration, interrupted (KeyboardInterrupt, SystemExit, another one) before any line ' \
           'that the library executes (every line of small files enumerated, and the lines that only the first use after the import takes); the interruption must reach the caller or the result be right, what the caller had stays as it was, and ' \
           'everything asked for afterwards must be right; non-trivial = an interruption happened'

    OPS = ['open', 'get', 'slice', 'next', 'rest', 'readall', 'path', 'procs', 'sys', 'export', 'str', 'repr', 'hash', 'eq', 'load', 'dump', 'dumps']

    def strategy(self, tier):
        op = st.tuples(st.sampled_from(self.OPS), st.integers(0, 5), st.one_of(st.integers(0, 60), st.integers(0, 100000)), st.integers(0, 2)).map(list)
        return st.fixed_dictionaries({'log': G.log(st.lists(G.event(ALL, date=DATES), min_size=1, max_size=4), G.procs(1, 3, 2), hosts=G.HOSTS, ports=G.PORTNAMES), 'pmc': CP.CONFIG,
                                      'options': st.sampled_from([[], [True, True], [False, True], [True, False]]), 'ops': st.lists(op, min_size=1, max_size=8)})

    def fixed(self, tier):
        from .checks_event import OPCODES, any_event
        pm = [['HighlightFG', 7], ['FilterRules', [[40053, 0, '123', 1], [M.ARCHITECTURE, 0, '32-bit', 0]]], ['LogFont', [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 'Arial']],
              ['SourcePath', 'C:\\src'], ['Columns', [1, 2, 3]], ['x', '0102']]
        mod = dict(base=1, size=2, ts=3, path='a', version='b', company='c', description='d')
        for k in self.cold_positions(tier) + list(range(0, 30000, 1500)):
            yield {'cold': k, 'stop': k % 3}
        for is64 in (True, False):
            log = dict(small_log(is64, 2), procs=[P(mods=[mod])], hosts=[['7f000001' + '00' * 12, 'localhost']], ports=[[80, 1, 'http']])
            for op in ('open', 'load', 'dump', 'rest', 'procs', 'sys', 'readall', 'path'):
                many = {'open': 3600, 'readall': 3600, 'path': 3600, 'load': 700, 'dump': 700}.get(op, 150)
                for k in range(0, many, 1 if tier == 'thorough' or many < 1000 else 7):
                    yield {'log': log, 'pmc': pm, 'options': [], 'ops': [[op, 0, k, k % 3]]}
        for c, o in OPCODES:
            e = any_event(c, o)
            for op in ('get', 'next', 'export', 'str'):
                for k in list(range(0, 24 if op != 'get' else 60)) + list(range(60, 400, 9)) * (op in ('get', 'next')):
                    yield {'log': {'is64': k % 2 == 0, 'fill': 2, 'procs': [P()], 'events': [e, EV('thread_create', 'Thread_Create', {'id': 5})]}, 'pmc': [], 'options': [], 'ops': [[op, 0, k, k % 3]]}

    def cold_positions(self, tier):
        files = cold.tour_files()
        lib = cold.fresh()

        def trace(fn):
            log = []
            interrupted(fn, 0, None, log)
            return log
        return cold.only_first(trace, lambda: cold.tour(lib, files), 400 if tier == 'quick' else 4000)

    def run_cold(self, case):
        """An interruption of the first use after the import."""
        files = cold.tour_files()
        with sut('the tour'):
            want = cold.tour(pp, files)
        lib = cold.fresh()
        what = 'the first use interrupted before line %d' % case['cold']
        old = signal.signal(signal.SIGALRM, _wall)
        signal.setitimer(signal.ITIMER_REAL, WALL)
        try:
            _, raised, (res, v) = interrupted(lambda: cold.tour(lib, files), case['cold'], STOPS[case['stop']])
            if res == 'err':
                raise Violation('%s: %r instead of the interruption' % (what, v))
            if res == 'ok':
                expect(v == want, '%s: %s', what, cold.differs(v, want))
            with sut('the tour again'):
                got = cold.tour(lib, files)
        except Wall:
            raise Violation('%s: still waiting after %d s' % (what, WALL))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        expect(got == want, 'after %s: %s', what, cold.differs(got, want))
        return raised, ['first use']

    def run(self, case):
        if 'cold' in case:
            return self.run_cold(case)
        spec = case['log']
        log = pml.Log(spec)
        raw = log.encode().bytes()
        n = len(spec['events'])
        built = [log.built(e) for e in spec['events']]
        procs = sorted(json.dumps(V.proc_key(p)) for p in spec['procs'])
        conf = M.config_bytes(case['pmc'], None if M.settled(case['pmc']) else [[0, 0]])
        options = case['options']
        full = options in ([], [True, True])
        with sut('reading it all first'):
            ref = list(pp.ProcmonLogsReader(io.BytesIO(raw), *options))
            snaps = [V.snap(e) for e in ref]
            whole = snaps if full else [V.snap(e) for e in pp.ProcmonLogsReader(io.BytesIO(raw))]
            want = pp.dumps_configuration(pp.loads_configuration(conf))
            config = pp.loads_configuration(conf)
            holds = options_of(config)
            first = ref[0].date_filetime
            says = [look(e, first) for e in ref]
            r = pp.ProcmonLogsReader(io.BytesIO(raw), *options)
            other = pp.ProcmonLogsReader(io.BytesIO(raw), *options)
            held = list(pp.ProcmonLogsReader(io.BytesIO(raw), *options))
        if full:
            for i, e in enumerate(ref):
                V.cmp_common('event %d' % i, e, spec['events'][i], log)
                V.cmp_content('event %d' % i, e, built[i])
        stream = io.BytesIO()
        pos = {0}
        hit, labels = 0, set()
        seen = open_files()

        def listed(what, got, want):
            expect(len(got) == len(want) and all(V.snap(g) == w for g, w in zip(got, want)), '%s: got %s, expected %s', what, short([V.snap(g) for g in got]), short(want))

        old = signal.signal(signal.SIGALRM, _wall)
        signal.setitimer(signal.ITIMER_REAL, WALL)
        folder = None
        try:
            if any(op[0] == 'path' for op in case['ops']):
                folder = tempfile.TemporaryDirectory()
                with open(os.path.join(folder.name, 'log'), 'wb') as f:
                    f.write(raw)
                seen = open_files()
            for step, (kind, i, k, stop) in enumerate(case['ops']):
                what = 'step %d, %s %d interrupted before line %d' % (step, kind, i, k)
                i %= n
                labels.add(kind)

                def go(fn):
                    nonlocal hit
                    lines, raised, (res, v) = interrupted(fn, k, STOPS[stop])
                    if not raised and lines and k >= lines and k > 60:       # a line that there is
                        lines, raised, (res, v) = interrupted(fn, k % lines, STOPS[stop])
                    if res == 'err':
                        if not raised:
                            with sut(what):
                                raise v
                        raise Violation('%s: %r instead of the interruption' % (what, v))
                    hit += raised
                    return res == 'ok', v, raised
                e = held[i]
                if kind == 'next' or kind == 'rest':
                    got = []

                    def some():
                        del got[:]
                        got.append(next(r, None))
                        while kind == 'rest' and got[-1] is not None:
                            got.append(next(r, None))
                    lines, raised, (res, v) = interrupted(some, k, STOPS[stop])
                    if res == 'err':
                        raise Violation('%s: %r instead of the interruption' % (what, v))
                    hit += raised
                    for g in got:
                        if g is None:
                            expect(n in pos, '%s: the iteration ends at event %s of %d', what, sorted(pos), n)
                            pos = {n}
                        else:
                            s = V.snap(g)
                            follow = {x + 1 for x in pos if x < n and snaps[x] == s}
                            expect(follow, '%s: the iteration gives %s at event %s', what, short(s), sorted(pos))
                            pos = follow
                    if res == 'stopped':
                        pos |= {x + 1 for x in pos if x < n}
                    continue
                if kind == 'open':
                    ok, v, _ = go(lambda: pp.ProcmonLogsReader(io.BytesIO(raw), *options))
                    if ok:
                        listed(what, v[:], snaps)
                elif kind == 'get':
                    ok, v, _ = go(lambda: r[i])
                    if ok:
                        listed(what, [v], [snaps[i]])
                elif kind == 'slice':
                    ok, v, _ = go(lambda: r[i::-1])
                    if ok:
                        listed(what, v, snaps[i::-1])
                elif kind == 'readall':
                    ok, v, _ = go(lambda: pp.read_all_events_from_pml(io.BytesIO(raw)))
                    if ok:
                        listed(what, v, whole)
                elif kind == 'path':
                    ok, v, _ = go(lambda: pp.read_all_events_from_pml(os.path.join(folder.name, 'log')))
                    if ok:
                        listed(what, v, whole)
                    v = None
                    gc.collect()
                    same(what + ': open files', open_files(), seen)
                elif kind == 'procs':
                    ok, v, _ = go(r.processes)
                    expect(not ok or sorted(json.dumps(V.proc_key_of(p)) for p in v) == procs, '%s: processes differ', what)
                elif kind == 'sys':
                    ok, v, _ = go(r.system_details)
                    if ok:
                        same(what, v['System Type'], '64-bit' if spec['is64'] else '32-bit')
                elif kind in ('export', 'str', 'repr', 'hash', 'eq'):
                    ok, v, raised = go({'export': lambda: attempt(lambda: list(e.get_compatible_csv_info().items())), 'str': lambda: attempt(lambda: str(e)), 'repr': lambda: repr(e), 'hash': lambda: hash(e),
                                        'eq': lambda: e == ref[i]}[kind])
                    if ok:
                        expect(v == (True if kind == 'eq' else says[i][kind]), '%s: got %s, expected %s', what, short(v), short(says[i].get(kind)))
                    expect(V.snap(e) == snaps[i], '%s: the event is another one now', what)
                elif kind == 'load':
                    ok, v, _ = go(lambda: pp.loads_configuration(conf))
                    if ok:
                        same(what, pp.dumps_configuration(v), want)
                elif kind == 'dumps':
                    ok, v, _ = go(lambda: pp.dumps_configuration(config))
                    if ok:
                        same(what, v, want)
                else:
                    def dump():
                        stream.seek(0)
                        stream.truncate()
                        pp.dump_configuration(config, stream)
                    ok, v, _ = go(dump)
                    expect(stream.getvalue() == want if ok else want.startswith(stream.getvalue()), '%s: wrote %s', what, short(stream.getvalue()))
                v = None
            with sut('reading everything in the end'):
                ends = [('the reader', list(r[:]), r.processes()), ('another reader', list(other), other.processes())]
                new = pp.ProcmonLogsReader(io.BytesIO(raw), *options)
                ends.append(('a new reader', list(new), new.processes()))
                rest = list(r)
                after = [look(e, first) for e in held]
                dumped, again = pp.dumps_configuration(config), pp.dumps_configuration(pp.loads_configuration(conf))
            for what, evs, ps in ends:
                listed('in the end, %s' % what, evs, snaps)
                expect(sorted(json.dumps(V.proc_key_of(p)) for p in ps) == procs, 'in the end the processes of %s differ', what)
            expect(any([V.snap(e) for e in rest] == snaps[x:] for x in pos), 'in the end the iteration gives %d events where it is at %s of %d', len(rest), sorted(pos), n)
            listed('in the end, the events held', held, snaps)
            expect(after == says, 'in the end the events held say something else of themselves')
            same('in the end, a configuration', dumped, want)
            same('in the end, the options of a configuration', options_of(config), holds)
            same('in the end, a configuration loaded again', again, want)
        except Wall:
            raise Violation('%s: still waiting after %d s' % (what, WALL))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            if folder:
                folder.cleanup()
        return hit > 0, sorted(labels)
