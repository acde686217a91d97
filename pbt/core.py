"""Shared machinery: the code under test, violations, and the case-driving loop."""
import contextlib
import os
import signal
import sys
import traceback
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)
for _p in ('/opt/venv/lib/python3.12/site-packages',):
    if _p not in sys.path:
        sys.path.append(_p)

import procmon_parser as pp                                   # noqa: E402
import procmon_parser.logs as pp_logs                         # noqa: E402

assert os.path.realpath(pp.__file__).startswith(os.path.realpath(REPO) + os.sep), pp.__file__


class Violation(Exception):
    """The property does not hold on this case."""


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


HANG_CPU_S = 60


@contextlib.contextmanager
def sut(what, passes=(), hang=HANG_CPU_S):
    """Run library code that must succeed: an exception or endless loop in it is a violation."""
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, hang)
    try:
        yield
    except Violation:
        raise
    except passes:
        raise
    except Hang:
        raise Violation('%s: still running after %d s of processor time' % (what, hang))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
        v = Violation('%s: raised %s: %s (%s)' % (what, type(e).__name__, str(e)[:200], where))
        v.in_check = os.path.dirname(os.path.abspath(tb[-1].filename)) == os.path.dirname(os.path.abspath(__file__))
        raise v
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def outcome(what, fn, *a, **k):
    """('ok', value) or ('err', exception) of library code that is allowed to raise an ordinary exception."""
    box = []

    def go():
        try:
            box.append(('ok', fn(*a, **k)))
        except Exception as e:
            box.append(('err', e))
    with sut(what):
        go()
    return box[0]


def expect(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


def same(what, got, want):
    """Equal, and of the same basic type (True is not 1, bytes are not text, an enum member is not its number)."""
    if type(got) is not type(want) and not (isinstance(want, str) and isinstance(got, str)) or got != want:
        raise Violation('%s: got %s, expected %s' % (what, short(got), short(want)))


def short(v, n=300):
    r = repr(v)
    return r if len(r) <= n else r[:n // 2] + '...(%d chars)...' % len(r) + r[-n // 4:]


class Check(object):
    id = None
    rule = ''
    quick = 200           # generated cases per shard
    thorough = 4000
    shards = 8
    assumptions = []

    def strategy(self, tier):
        return None

    def fixed(self, tier):
        """Deterministic cases (exhaustive sweeps of finite domains, boundary and regression cases)."""
        return []

    def run(self, case):
        """-> (non-trivial?, [labels]); raises Violation."""
        raise NotImplementedError


def in_order(what, text, parts):
    """The parts occur in the text one after the other."""
    at = 0
    for name, part in parts:
        i = text.find(part, at)
        expect(i >= 0, '%s: %s %s is not where it belongs in %s', what, name, short(part), short(text))
        at = i + len(part)
