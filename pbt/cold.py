"""The library as it is just after it has been imported: a tour through all of it, and which lines only the first tour takes."""
import collections
import importlib
import io
import os
import sys

from . import pmc as M
from . import pml
from . import tables as T
from .checks_log import EV, P, S, small_log
from .core import REPO, pp

LIB = os.path.realpath(os.path.join(REPO, 'procmon_parser')) + os.sep
PMC = [['HighlightFG', 7], ['FilterRules', [[40053, 0, '123', 1], [M.ARCHITECTURE, 0, '32-bit', 0]]], ['LogFont', [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 'Arial']],
       ['SourcePath', 'C:\\src'], ['Columns', [1, 2, 3]], ['ColumnMap', [40052, 40053, 7]], ['Logfile', 'x'], ['Other', '0102']]


def ours(name):
    return name == 'procmon_parser' or name.startswith('procmon_parser.')


def fresh():
    """Another copy of the library, which nobody has used."""
    old = {k: v for k, v in sys.modules.items() if ours(k)}
    for k in old:
        del sys.modules[k]
    try:
        return importlib.import_module('procmon_parser')
    finally:
        for k in [k for k in sys.modules if ours(k)]:
            del sys.modules[k]
        sys.modules.update(old)


def tour_files(is64=True):
    from .checks_event import CREATE, DIR, NET, OPCODES, VAL, any_event, fs_event
    mod = dict(base=1, size=2, ts=3, path='a', version='b', company='c', description='d')
    events = [any_event(c, o) for c, o in OPCODES]
    events += [EV('fs_create', 'CreateFile', dict(CREATE, sid='010100000000000512000000', path=S('p'), result=1)),
               EV('fs_querydir', 'DirectoryControl', dict(DIR, path=S('C:\\d'), filter=S('*'), list=['x', 'y'])),
               EV('reg_value', 'RegQueryValue', dict(VAL, cls=2, data={'t': 4, 'k': 'bin', 'v': '01020304'})),
               EV('reg_value', 'RegQueryValue', dict(VAL, cls=2, data={'t': 7, 'k': 'multi', 'v': ['x', 'y'], 'end': 2})), NET()]
    controls = [c for c, _ in T.IOCTL_NAMES]
    events += [any_event(3, 'FileSystemControl') for c in controls[::8] + controls[-1:]]
    for e, c in zip(events[::-1], controls[-1:] + controls[::-8]):
        e['d'] = dict(e['d'], code=c)
    bits = 0xffffffff
    events += [EV('fs_create', 'CreateFile', dict(CREATE, access=a, opts=bits & 0xffffff, attr=0xffff, share=7)) for a in (bits, 0x01ffffff, 0x80, 1 << 31, 1 << 30, 1 << 29, 1 << 28, 0)]
    events += [EV('fs_querydir', 'DirectoryControl', dict(DIR, cls=c, list=['x', 'y'])) for c, _ in T.FILE_INFO_CLASS[1:]]
    events += [EV('reg_value', 'RegQueryValue', dict(VAL, cls=2, data={'t': t, 'k': 'bin', 'v': '01020304'})) for t in range(1, 13)]
    events += [fs_event(op, sub) for op in sorted(T.SUB_OPS) for sub in (max(T.SUB_OPS[op]), 250)]
    results = [c for c, _ in T.RESULT_NAMES]
    for i, e in enumerate(events):
        e['res'] = results[-1 - i % len(results)]
    log = dict(small_log(is64, 1), procs=[P(mods=[mod])], hosts=[['7f000001' + '00' * 12, 'localhost']], ports=[[80, 1, 'http']], events=events)
    return pml.Log(log).encode().bytes(), M.config_bytes(PMC)


def plain_rule(r):
    return [int(r.column), int(r.relation), r.value, int(r.action), str(r), repr(r), hash(r)]


def plain_option(v):
    if isinstance(v, list):
        return [plain_rule(x) if hasattr(x, 'relation') else x for x in v]
    return sorted(vars(v).items()) if hasattr(v, 'face_name') else v


def said(e):
    from . import view as V
    from .checks_obj import look
    return V.snap(e), look(e, 132390118470000000)


def tour(lib, files):
    """What the library says of these files, as plain data."""
    raw, conf = files
    r = lib.ProcmonLogsReader(io.BytesIO(raw))
    out = [[said(e) for e in r], [repr(p) for p in r.processes()], r.system_details(), [said(e) for e in lib.read_all_events_from_pml(io.BytesIO(raw))][:3]]
    c = lib.loads_configuration(conf)
    out += [[(k, plain_option(v)) for k, v in c.items()], lib.dumps_configuration(c)]
    out.append([plain_rule(lib.Rule(*a)) for a in (('Path', 'contains', 'x', 'exclude'), (40052, 0, '7', 1), ())])
    for bad in (b'', b'PML_' + b'\0' * 0x3a4, raw[:-3]):
        try:
            out.append(len(lib.ProcmonLogsReader(io.BytesIO(bad))))
        except Exception as e:
            out.append([type(e).__name__, str(e)])
    return out


def only_first(trace, tour_once, most):
    """Up to most positions among the lines that trace(fn) says the first tour takes and later ones do not."""
    first = trace(tour_once)
    trace(tour_once)
    later = collections.Counter(trace(tour_once))
    count = collections.Counter(first)
    at = [i for i, line in enumerate(first) if count[line] > later[line]]
    at = sorted(set(at) | {i + 1 for i in at})
    return at if len(at) <= most else [at[i * len(at) // most] for i in range(most)]


def differs(got, want, path=''):
    if isinstance(got, (list, tuple, dict)) and type(got) is type(want) and len(got) == len(want):
        for k in (sorted(got, key=str) if isinstance(got, dict) else range(len(got))):
            if isinstance(got, dict) and k not in want:
                return '%s: %r is new' % (path, k)
            d = differs(got[k], want[k], '%s[%r]' % (path, k))
            if d:
                return d
        return None
    return None if got == want else '%s: got %s, expected %s' % (path or 'result', repr(got)[:200], repr(want)[:200])
