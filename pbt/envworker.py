"""Reads logs and configurations and describes what comes out, in whatever environment it was started; used by C35.

Started as: python envworker.py REPO SITE IN OUT [mode...]; jobs come as JSON lines on descriptor IN, answers go to OUT."""
import sys

MODES = sys.argv[5:]

import atexit                                                   # noqa: E402
import codecs                                                   # noqa: E402
import decimal                                                  # noqa: E402
import gc                                                       # noqa: E402
import hashlib                                                  # noqa: E402
import io                                                       # noqa: E402
import json                                                     # noqa: E402
import locale                                                   # noqa: E402
import logging                                                  # noqa: E402
import os                                                       # noqa: E402
import pathlib                                                  # noqa: E402
import random                                                   # noqa: E402
import signal                                                   # noqa: E402
import socket                                                   # noqa: E402
import threading                                                # noqa: E402
import time                                                     # noqa: E402
import warnings                                                 # noqa: E402

FONT = ('height', 'width', 'escapement', 'orientation', 'weight', 'italic', 'underline', 'strikeout', 'char_set', 'out_precision', 'clip_precision', 'quality', 'pitch_and_family', 'face_name')
ERRORS = ('strict', 'ignore', 'replace', 'backslashreplace', 'xmlcharrefreplace', 'namereplace', 'surrogateescape', 'surrogatepass')
EPOCH, LAST = 116444736000000000, 2650467743999999999 - (1 << 40)


def state():
    """The parts of the process that reading a file has no business with."""
    mask = os.umask(0o22)
    os.umask(mask)
    return {
        'working directory': os.getcwd(), 'environment': sorted(os.environ.items()), 'umask': mask, 'locale': locale.setlocale(locale.LC_ALL),
        'decimal context': repr([decimal.getcontext().prec, decimal.getcontext().rounding, sorted(map(str, [k for k, v in decimal.getcontext().traps.items() if v]))]),
        'warning filters': repr(warnings.filters), 'showwarning': repr(warnings.showwarning), 'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(), 'garbage collection': [gc.isenabled(), gc.get_threshold(), gc.get_debug()],
        'random numbers': hashlib.md5(repr(random.getstate()).encode()).hexdigest(), 'signals': [repr(signal.getsignal(s)) for s in (1, 2, 10, 13, 14, 15, 17, 26)],
        'timers': [signal.getitimer(k)[0] > 0 for k in (0, 1, 2)], 'threads': threading.active_count(), 'open files': sorted(os.listdir('/proc/self/fd')), 'path': list(sys.path),
        'streams': repr([sys.stdin, sys.stdout, sys.stderr, sys.__stdout__]), 'hooks': repr([sys.excepthook, sys.displayhook, sys.unraisablehook, sys.gettrace(), sys.getprofile()]),
        'socket timeout': socket.getdefaulttimeout(), 'loggers': [repr(logging.root.handlers), logging.root.level, logging.root.manager.disable], 'zone': time.tzname,
        'codec errors': repr([codecs.lookup_error(n) for n in ERRORS]), 'tracing': repr([threading.excepthook, threading.stack_size(), gc.callbacks, sys.meta_path, sys.path_hooks]),
        'exit handlers': atexit._ncallbacks(), 'digits': sys.get_int_max_str_digits(), 'files': sorted(os.listdir('.')),
    }


def printed():
    return 0 if 'nostdio' in MODES else os.fstat(1).st_size


def text(v):
    """A value of a configuration; fonts have no repr of their own."""
    return [repr(getattr(v, k)) for k in FONT] if hasattr(v, FONT[0]) else repr(v)


def proc(p):
    return [repr(getattr(p, k)) for k in ('pid', 'parent_pid', 'authentication_id', 'session', 'virtualized', 'is_process_64bit', 'integrity', 'user', 'process_name', 'image_path',
                                          'command_line', 'company', 'version', 'description', 'start_time', 'end_time')] + [str(p), repr(p)] + \
        [[repr(getattr(m, k)) for k in ('base_address', 'size', 'path', 'version', 'company', 'description', 'timestamp')] + [str(m), repr(m)] for m in p.modules]


def attempt(fn):
    """What fn gives, None if it refuses."""
    try:
        return fn()
    except Exception:
        return None


def event(e, first):
    if e is None:
        return None
    out = [proc(e.process)[:16], e.tid, repr(e.event_class), e.operation, e.duration, e.date_filetime, e.result, list(e.stacktrace), e.category, e.path,
           [[k, repr(v)] for k, v in e.details.items()], repr(e)]
    if EPOCH <= e.date_filetime < LAST and e.duration < 1 << 39:
        out += [attempt(lambda: str(e)), attempt(lambda: repr(e.date())), attempt(lambda: list(e.get_compatible_csv_info().items())), attempt(lambda: list(e.get_compatible_csv_info(min(first, e.date_filetime)).items()))]
    return out


def read(job, pp, alive):
    """What a job gives, as plain data; what it made is kept in alive."""
    raw = bytes.fromhex(job['raw'])
    if job['what'] == 'rule':
        r = pp.Rule(*job['rule'])
        alive.append(r)
        return [repr(r), str(r), repr(r.column), repr(r.relation), repr(r.value), repr(r.action)]
    try:
        if job['what'] == 'log':
            f = open(job['file'], 'rb') if job['how'] in ('open', 'all-open') else io.BytesIO(raw)
            with f:
                r = pp.ProcmonLogsReader(f, *job['options'])
                alive.append(r)
                if job['how'] in ('path', 'pathlib', 'all-open', 'all-bytes'):
                    f.seek(0)
                    evs = pp.read_all_events_from_pml({'path': str, 'pathlib': pathlib.Path}[job['how']](job['file']) if 'path' in job['how'] else f)
                else:
                    evs = [attempt(lambda: r[i]) for i in range(min(len(r), 300))]
                alive.append(evs)
                back = attempt(lambda: r[:300][::-2])
            first = evs[0].date_filetime if evs and evs[0] is not None else 0
            return [[event(e, first) for e in evs], [proc(p) for p in r.processes()], attempt(lambda: [[k, repr(v)] for k, v in r.system_details().items()]), len(r),
                    back and [event(e, first)[:8] for e in back]]
        if job['how'] == 'open':
            with open(job['file'], 'rb') as f:
                c = pp.load_configuration(f)
        else:
            c = pp.loads_configuration(raw)
        alive.append(c)
        out = io.BytesIO()
        pp.dump_configuration(c, out)
        return [[[k, text(v)] for k, v in c.items()], pp.dumps_configuration(c).hex(), out.getvalue().hex()]
    except Exception as e:
        alive.append(e)                                         # with all that its traceback refers to
        return ['refused', isinstance(e, pp.PMLError)]


def run(job, pp):
    before, said = state(), printed()
    alive = []
    out = read(job, pp, alive)
    after = state()
    changed = ['%s: %s, before %s' % (k, str(after[k])[:300], str(before[k])[:300]) for k in before if before[k] != after[k]]
    if printed() != said:
        with open('/dev/fd/1', 'rb') as f:
            f.seek(said)
            changed.append('printed %r' % f.read(300))
    return out, changed


def settings():
    if 'tight' in MODES:
        decimal.getcontext().prec = 2
        decimal.getcontext().rounding = decimal.ROUND_UP
        decimal.setcontext(decimal.getcontext())
        decimal.DefaultContext.prec = 2
        locale.setlocale(locale.LC_ALL, '')
        gc.disable()
        sys.set_int_max_str_digits(640)
        random.seed(1)
        socket.setdefaulttimeout(0.01)
        signal.signal(signal.SIGPIPE, signal.SIG_DFL)


def main():
    repo, site, fd_in, fd_out = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    sys.path.insert(0, repo)
    sys.path.append(site)
    settings()
    import enum                                                 # noqa: F401
    import construct                                            # noqa: F401
    import six                                                  # noqa: F401
    before, said = state(), printed()
    import procmon_parser as pp
    after = state()
    changed = ['importing: %s: %s, before %s' % (k, after[k], before[k]) for k in before if before[k] != after[k]] + (['importing printed something'] if printed() != said else [])
    src = os.fdopen(fd_in, 'r', encoding='utf-8', newline='\n')
    dst = os.fdopen(fd_out, 'w', encoding='ascii', newline='\n')
    for line in src:
        msg = json.loads(line)
        answer = {'results': [], 'changed': list(changed)}
        for job in msg['jobs']:
            box = []

            def go():
                try:
                    box.append(run(job, pp))
                except Exception as e:
                    box.append((['failed', type(e).__name__, str(e)[:300]], []))
            if 'thread' in MODES:
                t = threading.Thread(target=go)
                t.start()
                t.join()
            else:
                go()
            out, diff = box[0]
            doc = json.dumps(out)
            answer['results'].append(doc if msg.get('full') else hashlib.blake2b(doc.encode(), digest_size=16).hexdigest())
            answer['changed'] += diff
        dst.write(json.dumps(answer) + '\n')
        dst.flush()


if __name__ == '__main__':
    main()
