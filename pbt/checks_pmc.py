"""Checks C01-C05: Procmon configurations (PMC)."""
import collections
import copy
import io
import os
import pickle
import struct
import tempfile
import types

from hypothesis import strategies as st

from . import gens as G
from . import pmc as M
from . import tables as T
from .core import Check, Violation, expect, outcome, pp, same, short, sut

Rule, Column, RuleRelation, RuleAction = pp.Rule, pp.Column, pp.RuleRelation, pp.RuleAction
Font = pp.configuration.Font
COLS = [c for c, _ in T.COLUMNS]

# ---- generators -----------------------------------------------------------------------------------------------------
VALUE = st.one_of(G.WINPATH, G.PRINT, G.UNI, G.EDGY, st.text('0123456789', min_size=1, max_size=9), st.sampled_from(
    ['', '0', '00', '007', '32-bit', '64-bit', '0x10', '-5', '4294967295', '1e5', '12 ', '32', '64', 'x32', 'x3', '2-bit', '3-bit', '3 2', '1332x', '6-4', '1337', '1.5', '\u0663', '9' * 9]),
    G.long_text(4097))
RULE = st.tuples(st.one_of(st.sampled_from(COLS), st.just(M.ARCHITECTURE)), st.integers(0, 7), VALUE, st.integers(0, 1)).map(list)
RULELIST = st.one_of(st.lists(RULE, max_size=5), st.builds(lambda r, n: r * n, st.lists(RULE, min_size=1, max_size=3), st.sampled_from([50, 86, 100])))
U8L = st.one_of(st.sampled_from([0, 1, 127, 128, 255]), st.integers(0, 255))
FACE = G.text(32, 32)
FONT = st.tuples(G.U32, G.U32, G.U32, G.U32, G.U32, U8L, U8L, U8L, U8L, U8L, U8L, U8L, U8L, FACE).map(list)
OTHER = st.one_of(st.sampled_from(['FilterRules2', 'columns', 'Filterrules', 'Theme', 'x', 'BookmarkFont', 'ColumnCount2', 'name']),
                  G.NONEMPTY).filter(lambda n: n not in M.KNOWN)


def record():
    return st.one_of(
        st.tuples(st.sampled_from(M.NUMBERS), G.U32).map(list),
        st.tuples(st.sampled_from(M.BARE_TEXTS + M.Z_TEXTS), G.text(longs=4097)).map(list),
        st.tuples(st.just('Columns'), st.one_of(st.lists(G.U16, max_size=70), st.lists(G.U16, min_size=1, max_size=3).map(lambda l: l * 80))).map(list),
        st.tuples(st.just('ColumnMap'), st.lists(st.sampled_from(COLS), max_size=70)).map(list),
        st.tuples(st.sampled_from(M.FONTS), FONT).map(list),
        st.tuples(st.sampled_from(M.RULES), RULELIST).map(list),
        st.tuples(st.sampled_from(M.RULES), RULELIST).map(list),
        st.tuples(OTHER, st.one_of(G.hexb(0, 40), st.builds(lambda b, n: b * n, G.hexb(1, 3), st.sampled_from([100, 300, 30000])))).map(list),
    )


CONFIG = st.lists(record(), max_size=9, unique_by=lambda r: r[0])


# ---- building and comparing real values -----------------------------------------------------------------------------
def spell(kind, code, how):
    enum, names = {'c': (Column, M.COLUMN_NAME), 'r': (RuleRelation, M.RELATION_NAME), 'a': (RuleAction, M.ACTION_NAME)}[kind]
    if how == 0:
        return enum(code)
    if how == 1:
        return code
    n = names[code]
    if how == 2:
        return n
    if how == 3:
        return n.lower()
    if how == 4:
        return n.capitalize()
    if how == 5:
        return ''.join(c.upper() if i % 2 else c.lower() for i, c in enumerate(n))
    return bool(code) if kind == 'a' else enum(code)


def make_rule(r, how=(0, 0, 0)):
    # the value is a string object of its own: rules are equal by content, not by identity
    return Rule(spell('c', r[0], how[0]), spell('r', r[1], how[1]), r[2][:1] + r[2][1:] if len(r[2]) > 1 else r[2], spell('a', r[3], how[2]))


def near(v):
    """Texts which are close to v but are other texts."""
    out = [v + 'x', v + ' ', ' ' + v, v + '\\', v[:-1], v[1:], v.swapcase(), v.upper(), v.lower(), v.title(), v[::-1], '0' + v, v + v,
           v.replace('\\', '/'), '', v.strip(), v + '\u0301', v.casefold(), v.replace(' ', '')]
    return sorted(set(out) - {v})


def make_value(name, v):
    if name in M.RULES:
        return [make_rule(r) for r in v]
    if name in M.FONTS:
        return Font(**dict(zip(M.FONT_FIELDS, v)))
    if name == 'ColumnMap':
        return [Column(c) for c in v]
    if name in M.KNOWN:
        return list(v) if isinstance(v, list) else v
    return bytes.fromhex(v)


def make_config(spec, plain=False):
    return (dict if plain else collections.OrderedDict)((n, make_value(n, v)) for n, v in spec)


def cmp_value(what, name, got, v):
    if name in M.RULES:
        expect(isinstance(got, list), '%s: rules are a %s', what, type(got).__name__)
        same(what + ' number of rules', len(got), len(v))
        for i, (g, r) in enumerate(zip(got, v)):
            cmp_rule('%s rule %d' % (what, i), g, r)
    elif name in M.FONTS:
        for f, x in zip(M.FONT_FIELDS, v):
            same('%s font %s' % (what, f), getattr(got, f), x)
    elif name in ('Columns', 'ColumnMap'):
        expect(isinstance(got, list), '%s: a %s', what, type(got).__name__)
        expect([int(x) for x in got] == v, '%s: got %s, expected %s', what, short(got), short(v))
        if name == 'ColumnMap':
            expect(all(isinstance(x, Column) for x in got), '%s: not all columns: %s', what, short(got))
    elif name in M.KNOWN:
        same(what, got, v)
    else:
        same(what, got, bytes.fromhex(v))


def cmp_rule(what, g, r):
    expect(isinstance(g, Rule), '%s: a %s', what, type(g).__name__)
    expect(isinstance(g.column, Column) and isinstance(g.relation, RuleRelation) and isinstance(g.action, RuleAction),
           '%s: fields are not the documented enumerations: %s', what, short(g))
    got = [int(g.column), int(g.relation), g.value, int(g.action)]
    expect(got == r, '%s: got %s, expected %s', what, short(got), short(r))
    want = [M.COLUMN_NAME[r[0]], M.RELATION_NAME[r[1]], M.ACTION_NAME[r[3]]]
    expect([g.column.name, g.relation.name, g.action.name] == want, '%s: names %s, expected %s', what,
           [g.column.name, g.relation.name, g.action.name], want)


def cmp_config(what, got, spec):
    expect(isinstance(got, dict), '%s: a %s', what, type(got).__name__)
    expect(list(got.keys()) == [n for n, _ in spec], '%s: options %s, expected %s', what, short(list(got.keys())), short([n for n, _ in spec]))
    for n, v in spec:
        cmp_value('%s: %r' % (what, n[:40]), n, got[n], v)


def labels_of(spec):
    out = []
    for n, v in spec:
        out.append('opt:' + (n if n in M.KNOWN else 'other'))
        if n in M.RULES:
            out.append('rules>=255' if len(v) >= 255 else 'rules')
    return out


def snapshot(cfg):
    out = []
    for n, v in cfg.items():
        if n in M.RULES:
            v = [(r.column, r.relation, r.value, r.action) for r in v]
        elif n in M.FONTS:
            v = [getattr(v, f) for f in M.FONT_FIELDS]
        out.append((n, copy.copy(v)))
    return out


def edit(name, v, cfg):
    """Edit one option of the loaded configuration in place; what it should be then."""
    x = cfg[name]
    if name in M.RULES:
        x.insert(0, make_rule([40054, 6, 'edited', 0]))
        out = [[40054, 6, 'edited', 0]] + [list(r) for r in v]
        if v:
            x[1].value, x[1].relation, out[1][2], out[1][1] = 'a new value', RuleRelation.ENDS_WITH, 'a new value', int(RuleRelation.ENDS_WITH)
            x.pop()
            out.pop()
        return out
    if name in M.FONTS:
        x.height, x.face_name = 77, 'Edited'
        return [77] + v[1:13] + ['Edited']
    if name == 'ColumnMap':
        x.append(Column(40052))
        return v + [40052]
    if name == 'Columns':
        x.append(99)
        return v + [99]
    cfg[name] = {int: lambda: (x + 1) & 0xffffffff, str: lambda: x + '\u4e2dz', bytes: lambda: x + b'\x01\0'}[type(x)]()
    return cfg[name].hex() if isinstance(x, bytes) else cfg[name]


class C01(Check):
    id = 'C01'
    quick, thorough = 600, 600 * 30
    rule = 'random configurations (all 20 known options, unknown raw options, rules, fonts, long and non-BMP texts, boundary ' \
           'numbers); non-trivial = at least two options or one with rules, array or font content'

    def strategy(self, tier):
        return st.fixed_dictionaries({'cfg': CONFIG, 'plain': G.BOOL})

    def fixed(self, tier):
        yield {'cfg': [], 'plain': False}
        for n in M.NUMBERS:
            for v in (0, 1, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff):
                yield {'cfg': [[n, v]], 'plain': True}
        for n in M.RULES:
            for c in COLS:
                yield {'cfg': [[n, [[c, r, 'v%d' % c, a] for r in range(8) for a in (0, 1)]]], 'plain': False}
            for k in (254, 255, 256, 257, 1000, 4000):
                yield {'cfg': [[n, [[COLS[i % len(COLS)], i % 8, str(i), i & 1] for i in range(k)]]], 'plain': False}
        for n in M.BARE_TEXTS + M.Z_TEXTS:
            for k in (1, 31, 32, 33, 127, 128, 255, 256, 4096, 32767, 32768, 70000):
                yield {'cfg': [[n, '\u4e2d' * k], ['Autoscroll', 1]], 'plain': False}
        for k in (1, 64, 255, 256, 1024, 40000):
            yield {'cfg': [['Columns', [i & 0xffff for i in range(k)]], ['ColumnMap', [COLS[i % len(COLS)] for i in range(k)]]], 'plain': False}
        for v in ('4294967295', '4294967296', '9' * 20, '9' * 400, '18446744073709551616', '\u00b2', '\u0663', '1\u00b2', '\u2460'):
            yield {'cfg': [['FilterRules', [[40054, 0, v, 1]]], ['Profiling', 1]], 'plain': False}
        for k in (31, 127, 128, 255, 256, 4095, 4096, 32767, 32768, 33000, 65535, 65536, 70000):
            yield {'cfg': [['HighlightRules', [[40054, 6, 'x' * k, 1], [40052, 0, '\u4e2d' * k, 0]]], ['Option' + 'n' * k, 'ab' * k], ['Autoscroll', 1]],
                   'plain': False}
        for k in range(31, 33):
            yield {'cfg': [['LogFont', [1] * 13 + ['F' * k]], ['BoookmarkFont', [2] * 13 + ['\u4e2d' * k]]], 'plain': False}

    def run(self, case):
        spec = case['cfg']
        cfg = make_config(spec, case['plain'])
        before = snapshot(cfg)
        with sut('dumps_configuration'):
            raw = pp.dumps_configuration(cfg)
        with sut('loads_configuration of dumped bytes'):
            got = pp.loads_configuration(raw)
        cmp_config('loaded after dump', got, spec)
        expect(snapshot(cfg) == before, 'dumping changed the configuration: %s', short(snapshot(cfg)))
        with sut('second dumps_configuration'):
            again = pp.dumps_configuration(cfg)
            reraw = pp.dumps_configuration(got)
            kinds = [collections.OrderedDict(cfg), types.MappingProxyType(cfg), collections.UserDict(cfg), type('Mine', (dict,), {})(cfg)]
            for kind in kinds:
                expect(pp.dumps_configuration(kind) == raw, 'dumping the same configuration in a %s gives different bytes', type(kind).__name__)
        expect(again == raw, 'dumping the same configuration twice gives different bytes')
        expect(reraw == raw, 'dumping the loaded configuration gives different bytes')
        for n, v in spec:
            if n not in M.FONTS:
                expect(got[n] == cfg[n], 'loaded %r != original: %s vs %s', n, short(got[n]), short(cfg[n]))
        with sut('loads_configuration, second time'):
            two = pp.loads_configuration(raw)
        edited = [[n, edit(n, v, two)] for n, v in spec]
        cmp_config('edited', two, edited)
        cmp_config('first loaded configuration, after editing the second', got, spec)
        with sut('dumps_configuration of the edited configuration'):
            cmp_config('edited, dumped and loaded', pp.loads_configuration(pp.dumps_configuration(two)), edited)
            expect(pp.dumps_configuration(got) == raw, 'editing one loaded configuration changed another one')
        return len(spec) > 1 or any(isinstance(v, list) for _, v in spec), labels_of(spec)


class C02(Check):
    id = 'C02'
    quick, thorough = 600, 600 * 30
    rule = 'random configurations encoded by an independent writer/reader of the documented layout, compared in both directions ' \
           '(library bytes decoded here, bytes written here loaded by the library); non-trivial = as C01'

    def strategy(self, tier):
        iv = st.lists(st.tuples(G.U32, G.U32).map(list), min_size=1, max_size=3)
        return st.fixed_dictionaries({'cfg': CONFIG, 'iv': st.one_of(st.none(), iv)})

    def fixed(self, tier):
        for c in C01().fixed(tier):
            yield {'cfg': c['cfg'], 'iv': None}
            if any(n in M.RULES for n, _ in c['cfg']):
                yield {'cfg': c['cfg'], 'iv': [[0xffffffff, 0xffffffff], [0, 1], [7, 0]]}
        for v in ['0', '1', '9', '10', '255', '65536', '4294967295', '000123', '', 'abc', '32', '64', '32-bit', '64-bit', 'a32b', '-1', '+1', ' 1', '3-bit', '2-bit', '3 2', '23-bit', '1322']:
            for col in (40054, M.ARCHITECTURE, 0, 40164):
                yield {'cfg': [['FilterRules', [[col, 0, v, 1]]]], 'iv': None}
        yield {'font': [None] * 14}
        for i in range(13):
            yield {'font': [None] * i + [9 + i] + [None] * (13 - i)}
        yield {'font': [None] * 13 + ['Lucida Console']}
        yield {'bulk': 66000}
        yield {'real': True}
        yield {'map': [40052, 7, 0, 12345, 40164, 0xffffffff]}

    def run(self, case):
        if 'bulk' in case:
            n = case['bulk']        # that many rules, columns and bytes
            case = {'cfg': [['FilterRules', [[40052 + i % 3, i % 4, 'v%d' % i, i & 1] for i in range(n)]], ['Columns', [i & 0xffff for i in range(n)]], ['Other', '5a' * n], ['Logfile', 'x' * n], ['Autoscroll', 1]], 'iv': None}
        if case.get('real'):
            raw = real_pmc()
            if raw is None:
                return False, ['no real sample']
            with sut('loads_configuration of a Procmon-written file'):
                cfg = pp.loads_configuration(raw)
            spec = M.parse(raw)
            cmp_config('Procmon-written configuration', cfg, spec)
            with sut('dumps_configuration'):
                expect(pp.dumps_configuration(cfg) == raw, 'a configuration written by Procmon does not dump back to its bytes')
            return True, ['real']
        if 'font' in case:
            kw = {f: v for f, v in zip(M.FONT_FIELDS, case['font']) if v is not None}
            spec = [['LogFont', [v if v is not None else d for v, d in zip(case['font'], [8] + [0] * 12 + ['MS Shell Dlg'])]]]
            with sut('dumps_configuration of a font with %s' % (sorted(kw) or 'no arguments')):
                raw = pp.dumps_configuration({'LogFont': Font(**kw)})
            expect(raw == M.config_bytes(spec), 'Font(%s) is dumped as %s, expected %s', kw, raw.hex(), M.config_bytes(spec).hex())
            return True, ['font defaults']
        if 'map' in case:
            raw = M.record_bytes('ColumnMap', case['map']) + M.record_bytes('Autoscroll', 1)
            with sut('loads_configuration with columns this version does not know'):
                cfg = pp.loads_configuration(raw)
            expect([int(c) for c in cfg['ColumnMap']] == case['map'], 'ColumnMap with unknown columns loads as %s', short(cfg['ColumnMap']))
            with sut('dumps_configuration'):
                expect(pp.dumps_configuration(cfg) == raw, 'ColumnMap with unknown columns does not dump back to its bytes')
            return True, ['unknown columns']
        spec = case['cfg']
        with sut('dumps_configuration'):
            raw = pp.dumps_configuration(make_config(spec))
        try:
            back = M.parse(raw)
        except (M.Malformed, UnicodeError, IndexError) as e:
            raise Violation('dumped bytes are not in the documented layout: %s' % e)
        except Exception as e:
            if type(e).__name__ != 'error':
                raise
            raise Violation('dumped bytes are not in the documented layout: %s' % e)
        expect(back == spec, 'dumped bytes decode to %s, expected %s', short(back), short(spec))
        if M.settled(spec):
            want = M.config_bytes(spec)
            if raw != want:
                at = next((i for i, (a, b) in enumerate(zip(raw, want)) if a != b), min(len(raw), len(want)))
                raise Violation('dumped bytes differ from the documented layout at offset %d (of %d/%d)' % (at, len(raw), len(want)))
        iv = case['iv'] or ([[0, 0]] if not M.settled(spec) else None)
        with sut('loads_configuration of documented bytes'):
            got = pp.loads_configuration(M.config_bytes(spec, iv))
        cmp_config('loaded', got, spec)
        return len(spec) > 1 or any(isinstance(v, list) for _, v in spec), labels_of(spec) + (['odd int fields'] if iv else [])


def real_pmc():
    """The Procmon-written PMC bytes kept in the repository's test fixtures, when they are there."""
    import ast
    from .core import REPO
    try:
        with open(os.path.join(REPO, 'tests', 'conftest.py'), encoding='utf-8') as f:
            tree = ast.parse(f.read())
    except OSError:
        return None
    best = None
    for node in ast.walk(tree):
        if isinstance(node, ast.Call) and getattr(node.func, 'attr', getattr(node.func, 'id', '')) in ('unhexlify', 'fromhex', 'a2b_hex', 'b64decode'):
            try:
                arg = ast.literal_eval(node.args[0])
            except (ValueError, IndexError):
                continue
            import base64
            try:
                raw = base64.b64decode(arg) if getattr(node.func, 'attr', '') == 'b64decode' else bytes.fromhex(arg.decode() if isinstance(arg, bytes) else arg)
            except ValueError:
                continue
            if best is None or len(raw) > len(best):
                best = raw
        elif isinstance(node, ast.Constant) and isinstance(node.value, bytes) and len(node.value) > 1000 and node.value[4:8] == b'\x10\0\0\0':
            best = node.value
    if best is not None:
        try:
            if M.config_bytes(M.parse(best)) != best:
                return None
        except Exception:
            return None
    return best


class OnlyRead(object):
    """Nothing but .read(), like a pipe wrapper."""

    def __init__(self, raw):
        self._b = io.BytesIO(raw)

    def read(self, n=-1):
        return self._b.read(n)


class OnlyWrite(object):
    def __init__(self):
        self.parts = []

    def write(self, b):
        self.parts.append(bytes(b))
        return len(b)


class C03(Check):
    id = 'C03'
    quick, thorough = 600, 600 * 30
    rule = 'random configurations through streams: started at an offset, real files, append-mode files, read-only/write-only objects, ' \
           'concatenations, and truncation at every byte (fixed cases) or a drawn byte; non-trivial = at least one option'

    def strategy(self, tier):
        return st.fixed_dictionaries({'cfg': CONFIG, 'more': st.lists(record(), max_size=2, unique_by=lambda r: r[0]),
                                      'pre': G.hexb(0, 24), 'how': st.sampled_from(['bytesio', 'file', 'rawfile', 'readonly', 'append', 'rw']),
                                      'cut': st.one_of(st.none(), st.integers(0, 1 << 20)),
                                      'harm': st.one_of(st.none(), st.tuples(st.integers(0, 3), st.one_of(
                                          st.integers(-40, 40), st.integers(0, 0xffffffff), st.sampled_from([0x10000, -0x10000])).filter(bool),
                                          st.integers(0, 8)).map(list))})

    def fixed(self, tier):
        cfg = [['Autoscroll', 1], ['SymbolPath', 'srv'], ['FilterRules', [[40071, 6, 'ab', 0], [40054, 0, '12', 1]]], ['Columns', [1, 2, 300]],
               ['DbgHelpPath', 'C:\\x'], ['Foo', '00ff'], ['ColumnMap', [40052, 0, 40164]], ['HighlightRules', []], ['LogFont', [3] * 13 + ['Arial']],
               ['SourcePath', ''], ['Profiling', 0]]
        raw = M.config_bytes(cfg)
        for cut in range(len(raw) + 1):
            yield {'cfg': cfg, 'more': [], 'pre': '', 'how': 'bytesio', 'cut': cut}
        for k in range(len(cfg)):
            for which in range(4):
                for d in (-16, -8, -4, -2, -1, 1, 2, 4, 8, 16, 0x100, 0x10000):
                    yield {'cfg': cfg, 'more': [], 'pre': '', 'how': 'bytesio', 'cut': None, 'harm': [which, d, k]}
        for how in ['bytesio', 'file', 'rawfile', 'readonly', 'append', 'rw']:
            yield {'cfg': cfg, 'more': [['Logfile', 'x.pml'], ['Autoscroll', 0]], 'pre': 'aabbcc', 'how': how, 'cut': None}

    def run(self, case):
        spec, pre = case['cfg'], bytes.fromhex(case['pre'])
        cfg = make_config(spec)
        with sut('dumps_configuration'):
            raw = pp.dumps_configuration(cfg)
        how = case['how']
        # writing: the same bytes land at the stream's position, whatever the stream
        with tempfile.TemporaryDirectory(prefix='pbt-') as tmp:
            path = os.path.join(tmp, 'c.pmc')
            with sut('dump_configuration to a %s stream' % how):
                if how in ('bytesio', 'rw'):
                    s = io.BytesIO()
                    s.write(pre)
                    pp.dump_configuration(cfg, s)
                    same('position after dumping', s.tell(), len(pre) + len(raw))
                    out = s.getvalue()
                elif how == 'readonly':
                    s = OnlyWrite()
                    s.write(pre)
                    pp.dump_configuration(cfg, s)
                    out = b''.join(s.parts)
                else:
                    with open(path, 'wb') as f:
                        f.write(pre)
                        if how != 'append':
                            pp.dump_configuration(cfg, f)
                    if how == 'append':
                        with open(path, 'ab') as f:
                            pp.dump_configuration(cfg, f)
                    with open(path, 'rb') as f:
                        out = f.read()
            expect(out == pre + raw, 'dumping to a %s stream at offset %d gives other bytes than dumps_configuration', how, len(pre))
            # reading: from the stream's position to its end
            more = case['more']
            mraw = M.config_bytes(more, None if M.settled(more) else [[0, 0]])
            full = pre + raw + mraw
            with sut('load_configuration from a %s stream' % how):
                if how in ('file', 'rawfile', 'append', 'rw'):
                    with open(path, 'wb') as f:
                        f.write(full)
                    with open(path, 'rb' if how != 'rw' else 'r+b', **({'buffering': 0} if how == 'rawfile' else {})) as f:
                        f.seek(len(pre))
                        got = pp.load_configuration(f)
                    with open(path, 'rb') as f:
                        expect(f.read() == full, 'loading changed the file')
                else:
                    s = OnlyRead(full) if how == 'readonly' else io.BytesIO(full)
                    s.read(len(pre))
                    got = pp.load_configuration(s)
        merged = collections.OrderedDict((n, v) for n, v in spec)
        for n, v in more:
            merged[n] = v
        want = [[n, v] for n, v in merged.items()]
        cmp_config('loaded from stream', got, want)
        lab = ['stream:' + how] + (['offset'] if pre else [])
        # the bytes themselves, whatever holds them
        for hold in (bytes, bytearray, memoryview):
            with sut('loads_configuration of a ' + hold.__name__):
                cmp_config('loaded from a ' + hold.__name__, pp.loads_configuration(hold(raw + mraw)), want)
        # truncation: exactly the complete records
        if case['cut'] is not None:
            cut = case['cut'] % (len(raw) + 1)
            n = end = 0
            for name, v in spec:
                size = len(M.record_bytes(name, v, None if M.settled([[name, v]]) else [[0, 0]]))
                if end + size > cut:
                    break
                end += size
                n += 1
            res, got = outcome('loads_configuration of the first %d of %d bytes' % (cut, len(raw)), pp.loads_configuration, raw[:cut])
            if res == 'err':
                expect(end != cut, 'the first %d of %d bytes, which are complete options, are refused: %r', cut, len(raw), got)
                return len(spec) > 0, lab + ['cut refused']
            cmp_config('first %d of %d bytes' % (cut, len(raw)), got, spec[:n])
            lab.append('cut mid-record' if end != cut else 'cut at boundary')
        # record sizes which contradict each other: refused, or nothing is made of that record
        if case.get('harm') and spec:
            which, val, k = case['harm']
            k %= len(spec)
            at = sum(len(M.record_bytes(n, v, None if M.settled([[n, v]]) else [[0, 0]])) for n, v in spec[:k])
            sizes = list(struct.unpack_from('<IIII', raw, at))
            sizes[which] = (sizes[which] + val) & 0xffffffff
            if sizes[1] != 16 or sizes[0] != sizes[2] + sizes[3]:
                bad = raw[:at] + struct.pack('<IIII', *sizes) + raw[at + 16:]
                what = 'configuration with record sizes %s in option %r' % (sizes, spec[k][0][:40])
                res, got = outcome(what, pp.loads_configuration, bad)
                lab.append('sizes ' + ('refused' if res == 'err' else 'skipped'))
                if res == 'ok':
                    good = [[n, v] for i, (n, v) in enumerate(spec) if i != k and n in got]
                    cmp_config(what, got, good)
        return len(spec) > 0, lab


HOW = st.tuples(st.integers(0, 5), st.integers(0, 5), st.integers(0, 6)).map(list)


def near_names():
    """Texts that are almost the name of a column, a relation or an action."""
    out = []
    for which, enum in (('col', Column), ('rel', RuleRelation), ('act', RuleAction)):
        names = {m.name for m in enum}
        for name in sorted(names):
            for t in (name + ' ', ' ' + name, name + '\n', '\t' + name.lower(), name + '\0', name.replace('_', ' '), name.replace('_', '-'),
                      name.replace('_', ''), name[:-1], name[1:], name + name[-1], name + 's', enum.__name__ + '.' + name, '_' + name, name + '_',
                      name + '.', '"%s"' % name, name.lower().title().replace('_', ' '), name + '_x'):
                if t.upper() not in names:
                    out.append([which, t])
    return out


NEAR = near_names()


class C04(Check):
    id = 'C04'
    quick, thorough = 1600, 1600 * 30
    rule = 'pairs of rules built from random spellings (enumeration member, number, name in any letter case, boolean) compared with ' \
           'each other and with values differing in one field, plus invalid arguments; every column x relation x action x spelling ' \
           'enumerated; non-trivial = two different spellings or an invalid argument'

    def strategy(self, tier):
        bad = st.one_of(
            st.tuples(st.just('col'), st.one_of(st.integers(-5, 70000).filter(lambda v: v not in COLS), st.sampled_from(['', 'Pathh', 'process name', '40071', ' path']))),
            st.tuples(st.just('rel'), st.one_of(st.integers(-3, 300).filter(lambda v: not 0 <= v <= 7), st.sampled_from(['', 'equals', 'is not', '0', 'ends']))),
            st.tuples(st.just('act'), st.one_of(st.integers(-3, 300).filter(lambda v: not 0 <= v <= 1), st.sampled_from(['', 'includes', 'yes', '1']))),
            st.tuples(st.just('val'), st.sampled_from(['int', 'none', 'bytes', 'list', 'float', 'bool'])),
            st.sampled_from(NEAR),
        ).map(list)
        return st.fixed_dictionaries({'r': RULE, 'q': RULE, 'h1': HOW, 'h2': HOW, 'bad': st.one_of(st.none(), bad)})

    def fixed(self, tier):
        for c in COLS:
            for rel in range(8):
                for a in (0, 1):
                    for h in range(7):
                        yield {'r': [c, rel, 'v', a], 'q': [COLS[(COLS.index(c) + 1) % len(COLS)], rel, 'v', a], 'h1': [h % 6, h % 6, h],
                               'h2': [0, 0, 0], 'bad': None}
        yield {'r': [40088, 0, '64-bit', 1], 'q': [40088, 0, '64-bit', 0], 'h1': [0, 0, 0], 'h2': [0, 0, 0], 'bad': None, 'default': True}
        for bad in NEAR:
            yield {'r': [40088, 0, '64-bit', 1], 'q': [40088, 0, '64-bit', 0], 'h1': [0, 0, 0], 'h2': [0, 0, 0], 'bad': bad}

    def run(self, case):
        r, q = case['r'], case['q']
        with sut('building a rule'):
            a, b = make_rule(r, case['h1']), make_rule(r, case['h2'])
            c = make_rule(q, case['h2'])
            if case.get('default'):
                cmp_rule('default rule', Rule(), r)
        cmp_rule('rule', a, r)
        cmp_rule('rule', b, r)
        with sut('comparing rules'):
            expect(a == b and not a != b and hash(a) == hash(b), 'the same rule spelled in two ways is not equal/hash-equal: %r %r', a, b)
            expect(len({a, b}) == 1, 'the same rule spelled in two ways gives two set members')
            eq = r == q
            expect((a == c) is eq and (a != c) is (not eq) and (c == a) is eq, 'rules %s and %s: == gives %s', short(r), short(q), a == c)
            for i, alt in ((0, COLS[(COLS.index(r[0]) + 1) % len(COLS)]), (1, (r[1] + 1) % 8), *[(2, x) for x in near(r[2])], (3, 1 - r[3])):
                o = list(r)
                o[i] = alt
                o = make_rule(o)
                expect(not a == o and a != o, 'rules differing in field %d compare equal: %r %r', i, a, o)
            for y in (copy.copy(b), copy.deepcopy(b), pickle.loads(pickle.dumps(b))):
                cmp_rule('copy of a rule', y, r)
                expect(a == y and not a != y and hash(a) == hash(y), 'a copy of a rule is not equal to it: %r %r', a, y)
            for other in (None, 5, 'x', (), r, tuple(r)):
                expect(not a == other and a != other, 'a rule equals %r', other)
            for x in (a, b):
                text, rep = str(x), repr(x)
                same('repr of a rule', rep, 'Rule(Column.%s, RuleRelation.%s, "%s", RuleAction.%s)' % (
                    M.COLUMN_NAME[r[0]], M.RELATION_NAME[r[1]], r[2], M.ACTION_NAME[r[3]]))
                same('text of a rule', text, 'If %s %s "%s", then %s' % (
                    M.COLUMN_NAME[r[0]].capitalize(), M.RELATION_NAME[r[1]].lower(), r[2], M.ACTION_NAME[r[3]].capitalize()))
            raw = [pp.dumps_configuration({'FilterRules': [x]}) for x in (a, b)]
            expect(raw[0] == raw[1], 'the same rule spelled in two ways is dumped as different bytes: %r', a)
            d = Rule(action=r[3], value=r[2], relation=r[1], column=r[0])
            cmp_rule('rule from keyword arguments', d, r)
            cmp_rule('rule without an action', Rule(*[r[0], r[1], r[2]]), r[:3] + [1])
            for i, f in enumerate(('column', 'relation', 'value', 'action')):       # a rule is what its fields are now
                setattr(d, f, getattr(c, f))
                now = q[:i + 1] + r[i + 1:]
                cmp_rule('rule after assigning its %s' % f, d, now)
                e = make_rule(now)
                expect(d == e and hash(d) == hash(e) and str(d) == str(e) and repr(d) == repr(e), 'after assigning its %s a rule '
                       'is not the same as a new rule with these fields: %r %r', f, d, e)
                expect((d == a) is (now == r), 'after assigning its %s the rule %r == %r', f, d, a)
                expect(pp.dumps_configuration({'FilterRules': [d]}) == pp.dumps_configuration({'FilterRules': [e]}),
                       'after assigning its %s a rule is not dumped like a new rule with these fields: %r', f, d)
        lab = ['spelled']
        if case['bad']:
            which, v = case['bad']
            args = [spell('c', r[0], 0), spell('r', r[1], 0), r[2], spell('a', r[3], 0)]
            if which == 'val':
                args[2] = {'int': 12345, 'none': None, 'bytes': b'x', 'list': ['x'], 'float': 1.5, 'bool': True}[v]
            else:
                args[{'col': 0, 'rel': 1, 'act': 3}[which]] = v
            res, e = outcome('Rule%r' % (args,), Rule, *args)
            expect(res == 'err', 'Rule%r is accepted as %r', args, e)
            expect(isinstance(e, (KeyError, ValueError, TypeError)), 'Rule%r raises %r', args, e)
            lab.append('bad ' + which)
        return case['h1'] != case['h2'] or case['bad'] is not None, lab


BAD_TEXT = ['int', 'none', 'bytes', 'list', 'rule', 'float', 'dict', 'bytearray']
BAD_NUM = ['text', 'none', 'float', 'list', 'neg', 'big', 'huge', 'bytes']
BAD_RULES = ['text', 'int', 'none', 'tuple', 'spec', 'dict']


def bad_value(kind):
    return {'int': 5, 'none': None, 'bytes': b'abc', 'list': ['a'], 'rule': Rule(), 'float': 1.5, 'dict': {'a': 1}, 'bytearray': bytearray(b'ab'),
            'text': 'abc', 'neg': -1, 'big': 1 << 32, 'huge': 1 << 70, 'tuple': ('a', 'b'), 'spec': [40071, 0, 'x', 1]}[kind]


class C05(Check):
    id = 'C05'
    quick, thorough = 800, 800 * 30
    rule = 'a random valid configuration with one value replaced by an ill-typed or out-of-range one (every option x every kind of bad ' \
           'value enumerated; position of the bad element drawn); non-trivial = always'

    def cases(self):
        for n in M.BARE_TEXTS + M.Z_TEXTS:
            for b in BAD_TEXT:
                yield [n, 'text', b]
        for n in M.NUMBERS:
            for b in BAD_NUM:
                yield [n, 'num', b]
        for n in M.RULES:
            for b in BAD_RULES:
                yield [n, 'rules', b]
            yield [n, 'whole', 'int']
            yield [n, 'whole', 'none']
            yield [n, 'whole', 'text']
        for b in BAD_NUM:
            yield ['Columns', 'array', b]
        yield ['Columns', 'array', 'u16']
        for b in ['text', 'none', 'float', 'list', 'neg', 'big', 'huge', 'bytes']:
            yield ['ColumnMap', 'array', b]
        for n in ('Columns', 'ColumnMap'):
            for b in ('int', 'none'):
                yield [n, 'whole', b]
        for n in M.FONTS:
            for f in range(5):
                for b in BAD_NUM:
                    yield [n, 'font', b, f]
            for f in range(5, 13):
                for b in BAD_NUM + ['u8']:
                    yield [n, 'font', b, f]
            for b in ('int', 'none', 'bytes', 'long'):
                yield [n, 'font', b, 13]
            for b in ('text', 'none', 'int', 'rule'):
                yield [n, 'whole', b]

    def fixed(self, tier):
        for c in self.cases():
            yield {'cfg': [['Autoscroll', 1], ['SymbolPath', 'x']], 'bad': c, 'at': 0, 'n': 2}
            yield {'cfg': [], 'bad': c, 'at': 1, 'n': 0}

    def strategy(self, tier):
        return st.fixed_dictionaries({'cfg': CONFIG, 'bad': st.sampled_from(list(self.cases())), 'at': st.integers(0, 9), 'n': st.integers(0, 5)})

    def run(self, case):
        name, how, b = case['bad'][:3]
        spec = [r for r in case['cfg'] if r[0] != name]
        items = [(n, make_value(n, v)) for n, v in spec]
        n = case['n']
        at = case['at'] % (n + 1)
        if how in ('text', 'num', 'whole'):
            v = bad_value(b)
        elif how == 'rules':
            v = [Rule('path', 'is', str(i), i % 2) for i in range(n)]
            v.insert(at, bad_value(b))
        elif how == 'array':
            v = [40052] * n
            v.insert(at, 1 << 16 if b == 'u16' else bad_value(b))
        else:
            f = [9] * 13 + ['Arial']
            f[case['bad'][3]] = {'u8': 256, 'long': 'x' * 33}.get(b) or bad_value(b)
            v = Font(**dict(zip(M.FONT_FIELDS, f)))
        items.insert(case['at'] % (len(items) + 1), (name, v))
        cfg = collections.OrderedDict(items)
        res, e = outcome('dumps_configuration with %s = %s' % (name, short(v)), pp.dumps_configuration, cfg)
        if res == 'ok':
            raise Violation('a configuration with %s = %s (%s) is dumped without an error (as %s)' % (name, short(v), how, short(e[-40:])))
        return True, ['%s:%s' % (how, b)]
