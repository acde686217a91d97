"""Entry point.  run.py <ID>: the check.  run.py <ID> --replay FILE: one saved case, without Hypothesis."""
import argparse
import collections
import hashlib
import json
import os
import resource
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

ROUND = 2500            # cases per Hypothesis run
HISTORY = 400           # cases kept for failures that only occur after other cases
CAP = {'quick': 300, 'thorough': 780}


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def clip(v, n=60, depth=0):
    if isinstance(v, str):
        return v if len(v) <= n else v[:n] + '...(%d)' % len(v)
    if isinstance(v, list):
        return [clip(i, n, depth + 1) for i in v[:6]] + (['...(%d items)' % len(v)] if len(v) > 6 else [])
    if isinstance(v, dict):
        return {k: clip(i, n, depth + 1) for k, i in v.items()}
    return v


def run_case(chk, case):
    """chk.run, where a result the check cannot even interpret (a missing attribute, a wrong type) is a violation.

    Failures of the harness itself (assertions, its own encoders, memory, files) stay what they are: errors."""
    from pbt.core import Violation, short
    try:
        return chk.run(case)
    except (AttributeError, LookupError, TypeError, UnicodeError, ArithmeticError, ValueError) as e:
        tb = traceback.extract_tb(e.__traceback__)
        v = Violation('what the library returned cannot be interpreted: %s: %s (%s)' % (
            type(e).__name__, short(str(e)), ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                                                          for f in reversed(tb[-4:]))))
        v.in_check = True
        raise v from e


def fails(chk, case):
    """The message with which the case fails, or None."""
    from pbt.core import Violation
    try:
        run_case(chk, case)
    except Violation as v:
        return str(v)
    return None


def reduce_case(chk, case, message, in_check=False, seconds=45):
    """Shrink an enumerated case that fails: drop list items while it still fails."""
    from pbt.core import Violation
    end = time.monotonic() + seconds
    for key in ('events', 'hist', 'res', 'ctl', 'hosts', 'ports', 'procs'):
        for path in ((key,), ('log', key)):
            inner = case if len(path) == 1 else case.get('log')
            if not isinstance(inner, dict) or not isinstance(inner.get(key), list):
                continue
            size = max(1, len(inner[key]) // 2)
            while time.monotonic() < end:
                done = True
                i = 0
                while i < len(inner[key]) and time.monotonic() < end:
                    cut = dict(inner, **{key: inner[key][:i] + inner[key][i + size:]})
                    new = cut if len(path) == 1 else dict(case, log=cut)
                    try:
                        run_case(chk, new)
                    except Violation as v:
                        if getattr(v, 'in_check', False) and not in_check:
                            i += size       # the check itself could not handle the smaller case
                            continue
                        inner, case, message, done = cut, new, str(v), False
                        continue
                    except Exception:
                        pass                # not a well-formed case any more
                    i += size
                if size == 1 and done:
                    break
                size = max(1, size // 2)
    return {'case': case, 'message': message}


def shard_main(args):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from pbt import registry
    from pbt.core import Violation
    chk = registry.get(args.id)
    tier, seed = args.tier, args.seed
    t0 = time.monotonic()
    st = {'evals': 0, 'fixed': 0, 'generated': 0, 'hashes': set(), 'labels': {}, 'samples': [], 'capped': False,
          'violation': None, 'error': None}

    past = collections.deque(maxlen=HISTORY)      # the cases before the current one, in case a failure depends on them

    def one(case, origin):
        st['evals'] += 1
        st[origin] += 1
        try:
            nontrivial, labels = run_case(chk, case)
        except Violation as v:
            if not st.get('first'):
                st['first'] = {'case': case, 'message': str(v), 'history': list(past)}
            raise
        past.append(case)
        for lab in labels:
            st['labels'][lab] = st['labels'].get(lab, 0) + 1
        if nontrivial:
            h = hashlib.blake2b(canon(case).encode(), digest_size=8).hexdigest()
            if h not in st['hashes']:
                st['hashes'].add(h)
                k = len(st['hashes'])
                if k in (1, 5, 60):
                    st['samples'].append(clip(case))

    def late():
        if time.monotonic() - t0 > CAP[tier]:
            st['capped'] = True
            return True
        return False

    def search(strat, n, hseed):
        import hypothesis
        from hypothesis import HealthCheck, Phase, Verbosity, given, settings
        last = {}

        @hypothesis.seed(hseed)
        @settings(max_examples=n, database=None, deadline=None, verbosity=Verbosity.quiet,
                  phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False,
                  suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                         HealthCheck.large_base_example])
        @given(strat)
        def prop(case):
            if 'case' not in last and late():
                return
            case = json.loads(json.dumps(case))
            try:
                one(case, 'generated')
            except Violation as v:
                last['case'], last['message'] = case, str(v)
                raise
        try:
            prop()
        except Violation:
            st['violation'] = last
        except BaseException as e:
            # Hypothesis gives up on failures that do not repeat (they depend on the cases before them)
            if not last or isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            st['violation'] = last

    try:
        for i, case in enumerate(chk.fixed(tier)):
            if i % args.n != args.shard:
                continue
            if late():
                break
            try:
                one(case, 'fixed')
            except Violation as v:
                st['violation'] = reduce_case(chk, case, str(v), getattr(v, 'in_check', False))
                raise
        strat = chk.strategy(tier)
        count = chk.quick * 2 if tier == 'quick' else chk.thorough
        if strat is not None and count:
            import hypothesis.internal.conjecture.engine as eng
            eng.MAX_SHRINKING_SECONDS = 60
            todo, rnd = count, 0
            while todo > 0 and not st['violation'] and not late():      # separate rounds, so that memory stays bounded
                search(strat, min(todo, ROUND), seed * 1000003 + args.shard + 1009 * rnd)
                todo, rnd = todo - ROUND, rnd + 1
    except Violation:
        pass
    except BaseException:
        st['error'] = traceback.format_exc()
    if st['violation'] is None:
        st['first'] = None
    st['hashes'] = sorted(st['hashes'])
    with open(args.out, 'w') as f:
        json.dump(st, f)
    return 0


def save_replay(args, evdir, found, firsts):
    """Write the smallest failing case that fails in a process of its own; if none does, one with its history."""
    def write(v, history=()):
        path = os.path.join(evdir, 'replays', '%s-%s.json' % (
            args.id, hashlib.blake2b(canon(v['case']).encode(), digest_size=5).hexdigest()))
        doc = {'property': args.id, 'seed': args.seed, 'message': v['message'], 'case': v['case']}
        if history:
            doc['history'] = list(history)
        with open(path, 'w') as f:
            json.dump(doc, f, indent=1)
        return path

    def repeats(path):
        try:
            return subprocess.run([sys.executable, '-B', os.path.abspath(__file__), args.id, '--replay', path],
                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60,
                                  env=dict(os.environ, PYTHONHASHSEED='0', TZ='UTC')).returncode == 1
        except subprocess.TimeoutExpired:
            return False

    end = time.monotonic() + 180
    for v in found[:3]:
        path = write(v)
        if repeats(path):
            return path, v
        os.unlink(path)
    for v in firsts:
        history = v['history']
        path = write(v, history)
        if time.monotonic() > end:
            break
        if not repeats(path):
            os.unlink(path)
            continue
        size = (len(history) + 1) // 2
        while size and time.monotonic() < end:          # fewer and fewer of the cases before it
            i = 0
            while i < len(history) and time.monotonic() < end:
                cut = history[:i] + history[i + size:]
                write(v, cut)
                if repeats(path):
                    history = cut
                else:
                    i += size
            size //= 2
        write(v, history)
        return path, v
    return write(found[0]), found[0]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--selftest', action='store_true', help='what the setup command runs')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--shard', type=int)
    ap.add_argument('--n', type=int)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    args = ap.parse_args()
    if args.tier not in CAP:
        args.tier = 'quick'
    if args.selftest:
        import hypothesis
        from pbt import registry
        with open(os.path.join(ROOT, 'properties.jsonl')) as f:
            ids = [json.loads(line)['id'] for line in f]
        for i in ids:
            registry.get(i)
        print('hypothesis %s, %d checks' % (hypothesis.__version__, len(ids)))
        return 0
    if not args.id:
        ap.error('which property?')
    if args.shard is not None:
        return shard_main(args)
    if args.replay:
        from pbt import registry
        from pbt.core import Violation
        with open(args.replay) as f:
            saved = json.load(f)
        chk = registry.get(args.id)
        for before in saved.get('history', []):
            fails(chk, before)
        try:
            run_case(chk, saved['case'])
        except Violation as v:
            print(v)
            print('VIOLATION property=%s replay=%s' % (args.id, args.replay))
            return 1
        print('ok: the property holds on %s' % args.replay)
        return 0
    t0 = time.monotonic()
    from pbt import registry
    chk = registry.get(args.id)
    evdir = os.path.join(ROOT, 'evidence')
    os.makedirs(os.path.join(evdir, 'replays'), exist_ok=True)
    with tempfile.TemporaryDirectory(prefix='pbt-') as tmp:
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
                   PYTHONPYCACHEPREFIX=os.path.join(tmp, 'pyc'), TZ='UTC', TMPDIR=tmp)
        procs = []
        for i in range(chk.shards):
            out = os.path.join(tmp, 'shard%d.json' % i)
            procs.append((out, subprocess.Popen(
                [sys.executable, '-B', os.path.abspath(__file__), args.id, '--tier', args.tier, '--seed',
                 str(args.seed), '--shard', str(i), '--n', str(chk.shards), '--out', out], env=env, cwd=tmp)))
        states, errors = [], []
        for out, p in procs:
            rc = p.wait()
            if rc != 0 or not os.path.exists(out):
                errors.append('shard ended with status %s' % rc)
                continue
            with open(out) as f:
                states.append(json.load(f))
    errors += [s['error'] for s in states if s['error']]
    hashes = set()
    labels = {}
    for s in states:
        hashes.update(s['hashes'])
        for k, v in s['labels'].items():
            labels[k] = labels.get(k, 0) + v
    found = sorted((s['violation'] for s in states if s['violation']), key=lambda v: len(canon(v['case'])))
    samples = [x for s in states for x in s['samples'][:2]][:6]
    coverage = {
        'evaluations': sum(s['evals'] for s in states), 'distinct_nontrivial': len(hashes), 'rule': chk.rule,
        'samples': samples, 'classes': dict(sorted(labels.items())),
        'enumerated_cases': sum(s['fixed'] for s in states),
        'generated_cases': sum(s['generated'] for s in states), 'time_capped': any(s['capped'] for s in states),
    }
    with open(os.path.join(evdir, args.id + '.json'), 'w') as f:
        json.dump({'property': args.id, 'tier': args.tier, 'seed': args.seed, 'level': 'exploration',
                   'coverage': coverage, 'assumptions': chk.assumptions,
                   'wall_s': round(time.monotonic() - t0, 2), 'violations': len(found)}, f, indent=1)
        f.write('\n')
    print('%s %s seed=%d: %d cases (%d enumerated), %d distinct non-trivial, %.1f s' % (
        args.id, args.tier, args.seed, coverage['evaluations'], coverage['enumerated_cases'], len(hashes),
        time.monotonic() - t0))
    if found:
        path, v = save_replay(args, evdir, found, [s['first'] for s in states if s.get('first')])
        print(v['message'])
        print('VIOLATION property=%s replay=%s' % (args.id, os.path.relpath(path, ROOT)))
        return 1
    if errors:
        for e in errors[:2]:
            sys.stderr.write('%s\n' % e)
        return 3
    return 0


if __name__ == '__main__':
    sys.exit(main())
