"""Checks C35-C36: whatever the environment of the process; what reading one event costs."""
import atexit
import hashlib
import io
import itertools
import json
import os
import select
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from . import checks_pmc as CP
from . import core
from . import envworker as W
from . import gens as G
from . import pmc as M
from . import pml
from . import view as V
from .checks_log import ALL, EV, P, QUICKLIKE, S, small_log
from .checks_more import NASTY
from .core import Check, Violation, expect, pp, same, short, sut

SITE = '/opt/venv/lib/python3.12/site-packages'
# name, interpreter options, environment, modes of the worker
ENVIRONMENTS = [
    ('optimised, docstrings dropped, New York', ['-OO'], {'PYTHONHASHSEED': '1', 'TZ': 'EST5EDT,M3.2.0,M11.1.0'}, []),
    ('ASCII locale, India', ['-X', 'utf8=0'], {'LC_ALL': 'C', 'LANG': 'C', 'PYTHONCOERCECLOCALE': '0', 'PYTHONIOENCODING': 'ascii', 'PYTHONHASHSEED': '2', 'TZ': 'IST-5:30'}, []),
    ('development mode', ['-X', 'dev', '-bb', '-W', 'ignore::DeprecationWarning'], {'PYTHONHASHSEED': '3', 'TZ': '<+14>-14'}, []),
    ('in a thread, with a decimal context and limits', [], {'PYTHONHASHSEED': '4', 'TZ': '<-12>12'}, ['thread', 'tight']),
    ('without standard streams', ['-O'], {'PYTHONHASHSEED': '5', 'TZ': 'NZST-12NZDT,M9.5.0,M4.1.0/3'}, ['nostdio']),
]

DMG = st.lists(st.tuples(st.one_of(st.integers(0, 12), st.integers(0, 0x3a8), st.integers(0, 1 << 16)), NASTY).map(list), min_size=1, max_size=3)


# how a log is read: through a reader of an open file or of bytes; by read_all_events_from_pml of a path, a path object, an open file, bytes
HOWS = ['open', 'bytes', 'path', 'pathlib', 'all-open', 'all-bytes']


class Worker(object):
    def __init__(self, how, scratch):
        self.name, opts, env, modes = how
        self.err = tempfile.TemporaryFile(dir=scratch)
        cwd = tempfile.mkdtemp(dir=scratch)
        a, b = os.pipe()
        c, d = os.pipe()
        base = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'LC_', 'LANG', 'VERIF'))}
        base.update({'LC_ALL': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1'}, **env)
        args = [sys.executable, '-B'] + opts + [os.path.abspath(W.__file__), core.REPO, SITE, str(a), str(d)] + modes
        if 'nostdio' in modes:
            args = ['/bin/sh', '-c', 'exec "$@" <&- >&- 2>&-', 'sh'] + args
        self.proc = subprocess.Popen(args, stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err, cwd=cwd, env=base, pass_fds=(a, d), close_fds=True)
        os.close(a)
        os.close(d)
        self.to, self.back = os.fdopen(b, 'wb'), os.fdopen(c, 'rb')

    def send(self, msg):
        try:
            self.to.write(json.dumps(msg).encode() + b'\n')
            self.to.flush()
        except BrokenPipeError:
            pass

    def answer(self):
        line = b''
        if select.select([self.back], [], [], 120)[0]:
            line = self.back.readline()
        if not line:
            self.err.seek(0)
            said = self.err.read()[-600:].decode('utf-8', 'replace')
            raise Violation('environment "%s": the process that reads ended or hangs: %s' % (self.name, said))
        return json.loads(line)

    def close(self):
        self.proc.kill()
        self.proc.wait()
        self.to.close()
        self.back.close()
        self.err.close()


def orders(n, k):
    """The order in which environment k reads n files (a file may be read twice)."""
    o = list(range(n))
    o = [o, o[::-1], o[1:] + o[:1], o + o[:1], o[::2] + o[1::2]][k % 5]
    return o


class C35(Check):
    id = 'C35'
    quick, thorough = 90, 90 * 30
    rule = '1-4 generated logs (whole, cut, all options), configurations and rules read by five processes that differ in time zone, locale and encodings, hash seed, optimisation, thread, ' \
           'numeric context, standard streams, working directory and order of the files; every result must be that of the check\'s own process, and the process-wide state must be the ' \
           'same after each; non-trivial = a file is read, not refused'

    workers = None

    def strategy(self, tier):
        log = st.fixed_dictionaries({'log': G.log(st.lists(G.event(ALL), max_size=4), G.procs(1, 3, 2), layout=G.LAYOUT, hosts=G.HOSTS, ports=G.PORTNAMES, system=G.SYSTEM),
                                     'how': st.sampled_from(HOWS), 'cut': G.mostly(st.none(), st.integers(0, 1 << 16)), 'dmg': G.mostly(st.just([]), DMG, 3),
                                     'options': st.sampled_from([[], [], [True, True], [False], [True, False], [False, False]])})
        conf = st.fixed_dictionaries({'pmc': CP.CONFIG, 'how': st.sampled_from(['open', 'bytes']), 'cut': G.mostly(st.none(), st.integers(0, 1 << 16)), 'dmg': G.mostly(st.just([]), DMG, 3)})
        rule = st.fixed_dictionaries({'rule': CP.RULE, 'spell': st.integers(0, 2)})
        return st.fixed_dictionaries({'jobs': st.lists(st.one_of(log, log, log, conf, rule), min_size=1, max_size=4)})

    def fixed(self, tier):
        from .checks_event import text_events
        t = '\u00e9\u0416\u4e2d\U0001f600 text'
        for is64 in (True, False):
            evs = text_events(t, t) + [EV('fs_notify', 'DirectoryControl', {'sub': 2, 'path': S('C:\\dir'), 'mask': 0xfff}), EV('reg_open', 'RegCreateKey', {'path': S('HKLM'), 'access': 0xf003f, 'ext': [0x20019, 1]}),
                                       EV('proc_exit', 'Process_Exit', {'status': 0xc0000005, 'kernel': 123456789, 'user': 1, 'ws': 123456789, 'pws': 1234, 'priv': 10 ** 10, 'ppriv': 999})]
            log = dict(small_log(is64), events=evs, hosts=[['7f000001' + '00' * 12, t]], ports=[[80, 1, t]], computer=t[:16], procs=[P(user=t, process_name=t, mods=[
                dict(base=1, size=2, ts=3, path=t, version=t, company=t, description=t)])])
            for how in HOWS:
                for months in range(0, 14):                         # summer and winter time, midnight, noon
                    for e in log['events']:
                        e['date'] = 132540192000000000 + months * 26298000000000 + (months % 4) * 216000000000 + 7
                    yield {'jobs': [{'log': json.loads(json.dumps(log)), 'how': how, 'cut': None, 'options': []}]}
        log = small_log(True, 3)
        for at in range(0, 0x3a8):
            yield {'jobs': [{'log': log, 'how': 'bytes', 'cut': None, 'options': [], 'dmg': [[at, v]]} for v in ('00', '01', 'ff')]}
        for spans in pml.Log(log).encode().event_spans:
            for at in range(spans[0][0], spans[0][1], 2):
                yield {'jobs': [{'log': log, 'how': 'bytes', 'cut': None, 'options': [], 'dmg': [[at, v]]} for v in ('01', 'ff')]}
        for c in CP.C01().fixed(tier):
            yield {'jobs': [{'pmc': c['cfg'], 'how': 'open', 'cut': None}, {'pmc': c['cfg'], 'how': 'bytes', 'cut': None}]}

    def start(self):
        scratch = tempfile.mkdtemp(prefix='pbt-env-')
        C35.scratch = scratch
        C35.names = itertools.count()
        C35.workers = [Worker(how, scratch) for how in ENVIRONMENTS]

        def stop():
            import shutil
            for w in C35.workers:
                w.close()
            shutil.rmtree(scratch, ignore_errors=True)
        atexit.register(stop)

    def run(self, case):
        if self.workers is None:
            self.start()
        jobs, files = [], []
        for j in case['jobs']:
            if 'rule' in j:
                col, rel, value, act = j['rule']
                parts = [CP.spell('c', col, 2), CP.spell('r', rel, 2), value, CP.spell('a', act, 2)]
                jobs.append({'what': 'rule', 'rule': parts, 'raw': ''})
                continue
            if 'pmc' in j:
                raw = M.config_bytes(j['pmc'], None if M.settled(j['pmc']) else [[0, 0]])
            else:
                raw = pml.Log(j['log']).encode().bytes()
            for at, hx in j.get('dmg', []):
                b = bytes.fromhex(hx)
                at %= len(raw) + 1
                raw = (raw[:at] + b + raw[at + len(b):])[:len(raw)]
            if j['cut'] is not None:
                raw = raw[:j['cut'] % (len(raw) + 1)]
            job = {'what': 'pmc' if 'pmc' in j else 'log', 'how': j['how'], 'raw': raw.hex(), 'options': j.get('options', []) if j['how'] in ('open', 'bytes') else []}
            if j['how'] not in ('bytes', 'all-bytes'):
                job['file'] = os.path.join(self.scratch, 'file%d' % len(jobs))
                with open(job['file'], 'wb') as f:
                    f.write(raw)
                files.append(job['file'])
                if j['how'] in ('open', 'all-open'):
                    job['raw'] = ''
            jobs.append(job)
        with sut('reading'):
            own = [json.dumps(W.read(j, pp, [])) for j in jobs]
        sums = [hashlib.blake2b(o.encode(), digest_size=16).hexdigest() for o in own]
        for k, w in enumerate(self.workers):
            w.send({'jobs': [jobs[i] for i in orders(len(jobs), k)]})
        try:
            problems = []
            for k, w in enumerate(self.workers):
                order = orders(len(jobs), k)
                got = w.answer()
                if got['changed']:
                    problems.append('environment "%s": reading changed the process: %s' % (w.name, '; '.join(got['changed'])[:600]))
                for i, g in zip(order, got['results']):
                    if g != sums[i] and not problems:
                        w.send({'jobs': [jobs[x] for x in order], 'full': True})
                        full = dict(zip(order, w.answer()['results']))
                        problems.append('environment "%s": %s' % (w.name, self.differ(jobs[i], own[i], full[i])))
        except Violation:
            for w in self.workers:
                w.close()
            C35.workers = [Worker(how, self.scratch) for how in ENVIRONMENTS]
            raise
        if problems:
            for w in self.workers:                              # what was changed stays changed in them
                w.close()
            C35.workers = [Worker(how, self.scratch) for how in ENVIRONMENTS]
            raise Violation(problems[0])
        for f in files:
            expect(os.path.exists(f), 'reading removed %s', f)
        refused = [o.startswith('["refused"') for o in own]
        return not all(refused), sorted({j['what'] + (':refused' if r else '') for j, r in zip(jobs, refused)}) + ['files:%d' % len(jobs)]

    @staticmethod
    def differ(job, a, b):
        x, y = json.loads(a), json.loads(b)
        where = job['what']
        while isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
            for i, (p, q) in enumerate(zip(x, y)):
                if p != q:
                    where += '[%d]' % i
                    x, y = p, q
                    break
            else:
                break
        return '%s is %s, here %s' % (where, short(y), short(x))


class Counting(io.RawIOBase):
    """A seekable binary stream that counts what is taken out of it, in all and by where."""

    def __init__(self, raw, marks=()):
        self.raw, self.pos, self.taken, self.calls, self.marks = raw, 0, 0, 0, list(marks)
        self.hits = 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self.pos = max(0, off + (0, self.pos, len(self.raw))[whence])
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        data = self.raw[self.pos:] if n is None or n < 0 else self.raw[self.pos:self.pos + n]
        self.calls += 1
        self.taken += len(data)
        for a, b in self.marks:
            self.hits += max(0, min(b, self.pos + len(data)) - max(a, self.pos))
        self.pos += len(data)
        return data

    readall = read

    def readinto(self, buf):
        data = self.read(len(buf))
        buf[:len(data)] = data
        return len(data)


SLACK = 64 << 10


class C36(Check):
    id = 'C36'
    quick, thorough = 60, 60 * 30
    rule = 'random events scattered among filler events of half a megabyte each (or tens of thousands of small ones); a stream counts the bytes taken while the log is opened, while each event ' \
           'is read by index, slice or iteration, and while the tables are asked for; non-trivial = a random event with fillers around it'

    def strategy(self, tier):
        return st.fixed_dictionaries({'log': G.log(st.lists(G.event(ALL), min_size=1, max_size=4), G.procs(1, 3, 2), layout=G.LAYOUT, hosts=G.HOSTS, ports=G.PORTNAMES),
                                      'fillers': st.lists(st.tuples(st.integers(0, 4), st.integers(20000, 65535)).map(list), min_size=1, max_size=5),
                                      'ops': st.lists(st.one_of(st.tuples(st.just('get'), st.integers(-9, 9)), st.tuples(st.just('slice'), st.integers(-9, 9), st.one_of(st.none(), st.integers(-9, 9)), st.sampled_from([None, 1, 2, 3, 5, -1, -2, -4])), st.tuples(st.just('next')),
                                                                st.tuples(st.sampled_from(['procs', 'sys', 'len']))).map(list), min_size=1, max_size=12),
                                      'options': st.sampled_from([[], [], [], [False], [True, False], [False, False]])})

    def fixed(self, tier):
        for is64 in (True, False):
            for n in (2000, 20000):
                yield {'many': n, 'is64': is64}
            yield {'many': 300, 'is64': is64, 'tables': 3000}

    def run(self, case):
        if 'many' in case:
            spec = dict(small_log(case['is64']), events=[EV('thread_create', 'Thread_Create', {'id': i}, tid=i, stack=[1] * (i % 40)) for i in range(case['many'])])
            ops = [['get', 0], ['get', case['many'] - 1], ['get', case['many'] // 2], ['get', -2], ['slice', case['many'] // 3, case['many'] // 3 + 3, 1], ['slice', None, None, case['many'] // 4], ['slice', -1, 0, -case['many'] // 3], ['next'], ['next'], ['len'], ['procs'], ['sys'], ['get', 77]]
            options = []
            if 'tables' in case:
                spec['procs'] = [P(idx=i, pid=i, user='user %d' % i, command_line='c' * 50) for i in range(case['tables'])]
                spec['hosts'] = [['%08x' % i + '00' * 12, 'host%d' % i] for i in range(case['tables'])]
                for i, e in enumerate(spec['events']):
                    e['proc'] = i * 7 % case['tables']
        else:
            spec = json.loads(json.dumps(case['log']))
            for at, size in case['fillers']:
                spec['events'].insert(min(at, len(spec['events'])), EV('thread_create', 'Thread_Create', {'id': size}, stack=list(range(size))))
            ops, options = case['ops'], case['options']
        img = pml.Log(spec).encode()
        raw = img.bytes()
        n = len(spec['events'])
        spans = [sum(b - a for a, b in s) for s in img.event_spans]
        first = min((a for s in img.event_spans for a, b in s))
        last = max((b for s in img.event_spans for a, b in s))
        rest = len(raw) - sum(spans)
        f = Counting(raw, [x for s in img.event_spans for x in s])
        with sut('opening'):
            r = pp.ProcmonLogsReader(f, *options)
        expect(f.hits <= SLACK and f.taken <= 4 * rest + SLACK, 'opening a log of %d bytes, %d of them events, takes %d bytes, %d of them from events', len(raw), len(raw) - rest, f.taken, f.hits)
        at = 0
        for op in ops:
            f.taken = f.calls = f.hits = 0
            kind = op[0]
            if kind == 'get':
                i = op[1]
                if not -n <= i < n:
                    continue
                what, allowed = 'reading event %d' % i, spans[i]
                with sut(what):
                    e = [r[i]]
                want = [i]
            elif kind == 'slice':
                s = slice(*op[1:])
                want = list(range(n))[s]
                what, allowed = 'reading events %s' % s, sum(spans[i] for i in want)
                with sut(what):
                    e = r[s]
            elif kind == 'next':
                if at >= n:
                    continue
                what, allowed, want = 'the next event (%d)' % at, spans[at], [at]
                with sut(what):
                    e = [next(r)]
                at += 1
            else:
                what, allowed, want, e = kind, rest, [], []
                with sut(kind):
                    {'procs': r.processes, 'sys': r.system_details, 'len': r.__len__}[kind]()
                expect(f.hits == 0, '%s takes %d bytes of the events from the stream', what, f.hits)
            if f.taken > 4 * allowed + SLACK + 4096 * len(want):
                raise Violation('%s takes %d bytes of a log of %d (%d events); the events asked for have %d' % (what, f.taken, len(raw), n, allowed))
            for x, i in zip(e, want):
                same('%s: thread id' % what, x.tid, spec['events'][i]['tid'])
        return n > 1, ['op:' + o[0] for o in ops]
