"""Checks C13-C22, C26, C30, C31: what each kind of event reads as."""
from hypothesis import strategies as st

from . import events as E
from . import gens as G
from . import pml
from . import tables as T
from . import view as V
from .checks_log import EV, P, S, small_log
from .core import Check, expect, same, short, sut
from .prim import scrub, units

BOTH = (True, False)


def batches(events, n=64, **k):
    """Logs of n events, alternating pointer sizes batch by batch."""
    events = list(events)
    for j, i in enumerate(range(0, len(events), n)):
        yield dict(small_log(j % 2 == 0), events=events[i:i + n], **k)


def both(events, n=64, **k):
    events = list(events)
    for is64 in BOTH:
        for i in range(0, len(events), n):
            yield dict(small_log(is64), events=events[i:i + n], **k)


class EventCheck(Check):
    kinds = []
    quick, thorough = 1000, 1000 * 30

    def strategy(self, tier):
        return G.log(st.lists(G.simple_event(self.kinds), min_size=1, max_size=4))

    def interesting(self, e, b):
        return True

    def extra_checks(self, what, ev, e, b):
        pass

    def run(self, spec):
        log = pml.Log(spec)
        r = V.open_reader(log.encode().bytes())
        same('number of events', len(r), len(spec['events']))
        hit = False
        labels = set()
        for i, e in enumerate(spec['events']):
            b = log.built(e)
            what = 'event %d (%s%s)' % (i, e['op'], ', 64-bit log' if spec['is64'] else ', 32-bit log')
            ev = V.read_one(r, i, 'reading %s event' % e['op'])
            V.cmp_content(what, ev, b)
            self.extra_checks(what, ev, e, b)
            hit = hit or self.interesting(e, b)
            labels |= self.labels(e, b)
        return hit, sorted(labels)

    def labels(self, e, b):
        return {e['kind'] + ':' + e['op']}


# ---- network --------------------------------------------------------------------------------------------------------
Z12 = '00' * 12


def NET(op='Send', **k):
    return EV('net', op, dict({'s4': True, 'sip': '7f000001' + Z12, 'd4': True, 'dip': '0a000001' + Z12, 'tcp': True, 'len': 5, 'sport': 80, 'dport': 443,
                               'kv': [], 'end': 2, 'hi': 0}, **k))


def _link(spec, picks, ports):
    """Name some of the addresses and ports the events use."""
    hosts = {h[0]: h for h in spec['hosts']}
    pnames = {(p[0], bool(p[1])): p for p in spec['ports']}
    nets = [e['d'] for e in spec['events']]
    for k, (i, which, name) in enumerate(picks):
        ip = nets[i % len(nets)][('sip', 'dip')[which]]
        hosts[ip] = [ip, name]
    for i, which, other, name in ports:
        d = nets[i % len(nets)]
        port, tcp = d[('sport', 'dport')[which]], d['tcp']
        tcp = not tcp if other else tcp
        pnames[(port, tcp)] = [port, int(tcp), name]
    return dict(spec, hosts=list(hosts.values()), ports=list(pnames.values()))


class C13(EventCheck):
    id = 'C13'
    rule = 'logs with 1-4 network events over random addresses, ports, protocols, host tables and port tables (names attached to addresses and ports the events ' \
           'use, to the other protocol, to look-alike addresses); all operations x protocol x address-family combinations enumerated; non-trivial = a named ' \
           'host or port, an IPv6 address, or extra name/value pairs'

    def strategy(self, tier):
        name = st.one_of(st.sampled_from(['host', 'a.example.com', '\u4e2d\u6587', 'x' * 255, '']), G.PRINT)
        base = G.log(st.lists(G.simple_event(['net']), min_size=1, max_size=4), hosts=G.HOSTS, ports=G.PORTNAMES)
        return st.builds(_link, base, st.lists(st.tuples(st.integers(0, 3), st.integers(0, 1), name), max_size=3),
                         st.lists(st.tuples(st.integers(0, 3), st.integers(0, 1), st.sampled_from([False, False, True]), G.NONEMPTY), max_size=3))

    def fixed(self, tier):
        evs = []
        for op in G.NNAMES:
            for s4 in BOTH:
                for d4 in BOTH:
                    for tcp in BOTH:
                        for hi in (0, 8, 0xfff8):
                            evs.append(NET(op, s4=s4, d4=d4, tcp=tcp, hi=hi, sip='7f000001' + Z12 if s4 else G.IPS6[0], dip='7f000001' + Z12 if d4 else G.IPS6[3]))
        yield from both(evs)
        yield from both(evs, hosts=[['7f000001' + Z12, 'localhost'], [G.IPS6[0], 'ip6-localhost'], [G.IPS6[3], '']],
                        ports=[[80, 1, 'http'], [443, 1, 'https'], [443, 0, 'quic']])
        yield from both(evs, hosts=[['01000000' + Z12, 'other']], ports=[[443, 0, 'quic'], [80, 0, 'www-udp'], [20480, 1, 'swapped']])
        ips = [NET(s4=False, d4=False, sip=a, dip=b) for a in G.IPS6 for b in ('00' * 15 + '%02x' % 5, '0001' * 8, '0fff' * 8, 'f000' * 8)]
        ips += [NET(sip='%02x%02x%02x%02x' % (a, a ^ 255, 0, 1) + Z12) for a in range(256)]
        ips += [NET(sport=p, dport=65535 - p, tcp=bool(p & 1)) for p in (0, 1, 9, 10, 80, 255, 256, 443, 1023, 1024, 32767, 32768, 65535)]
        ips += [NET(len=v) for v in G._bounds(32)]
        ips += [NET(kv=[['k%d' % i, 'v%d' % i] for i in range(n)], end=end) for n in range(6) for end in (0, 1, 2)]
        ips += [NET(kv=[['k%d' % i, 'v%d' % (i * 3)] for i in range(n)], end=n % 3) for n in (7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000)]
        ips += [NET(kv=[['seqnum', '0'], ['connid', '\u4e2d'], ['startime', 'x' * 300]])]
        yield from both(ips)
        # whole networks, in both directions: addresses and ports that resemble the ones before
        near = []
        for at in range(4):
            for n in list(range(255, -1, -1)) + list(range(256)):
                ip, other = bytearray([10, 0, 0, 7]), bytearray([10, 0, 0, 7])
                ip[at], other[at] = n, n * 7 % 256
                near.append(NET(sip=ip.hex() + Z12, dip=other.hex() + Z12, sport=n, dport=n << 8 | at))
        yield from batches(near, 512)
        yield {'bulk': 70000, 'is64': True}
        yield {'bulk': 65536, 'is64': False}

    def run(self, case):
        if 'bulk' not in case:
            return EventCheck.run(self, case)
        n = case['bulk']        # a name for that many hosts and for every port of both protocols
        hosts = [['%08x' % (i * 2654435761 % 2 ** 32) + Z12, 'h%d' % i] for i in range(n)]
        ports = [[i, p, 'p%d.%d' % (i, p)] for i in range(65536) for p in (0, 1)]
        at = sorted({0, 1, 255, 256, 32767, 32768, 65534, 65535, min(65536, n - 1), min(65537, n - 1), n // 2, n - 2, n - 1})
        evs = [NET(sip=hosts[i][0], dip=hosts[n - 1 - i][0], tcp=bool(tcp), sport=i & 0xffff, dport=65535 - (i & 0xffff)) for i in at for tcp in (0, 1)]
        return EventCheck.run(self, dict(small_log(case['is64']), hosts=hosts, ports=ports, events=evs))

    def interesting(self, e, b):
        d = e['d']
        return bool(d['kv'] or not (d['s4'] and d['d4'])) or b.path != '%s:%d -> %s:%d' % (
            E.host_text(bytes.fromhex(d['sip']), d['s4']), d['sport'], E.host_text(bytes.fromhex(d['dip']), d['d4']), d['dport'])

    def labels(self, e, b):
        d = e['d']
        return {'%s %s' % ('tcp' if d['tcp'] else 'udp', e['op']), 'named' if self.interesting(dict(e, d=dict(d, kv=[], s4=True, d4=True)), b) else 'plain'}


# ---- registry -------------------------------------------------------------------------------------------------------
UNKNOWN_KEY = st.builds(lambda op, d, c: {'kind': 'reg_key', 'op': op, 'd': dict(d, cls=c)}, st.sampled_from(['RegQueryKey', 'RegEnumKey']),
                        G.K['reg_key'].map(lambda e: e['d']), st.one_of(st.integers(10, 20), st.integers(10, 0xffffffff)))
UNKNOWN_VALUE = st.builds(lambda e, c: dict(e, d=dict(e['d'], cls=c, ext=False)), G.K['reg_value'], st.one_of(st.integers(6, 20), st.integers(6, 0xffffffff)))
LEGAL_KEY = {'path': S('HKLM\\Software'), 'length': 1234, 'index': 1000, 'ext': True, 'name': 'a name', 'vals': [132390118470000000] + [1000 + i for i in range(9)]}


class C14(EventCheck):
    id = 'C14'
    kinds = ['reg_plain', 'reg_load', 'reg_open', 'reg_open', 'reg_key', 'reg_key', 'reg_setinfo', 'reg_unknown']
    rule = 'logs with 1-4 registry key operations with random paths, accesses, information classes (known and unknown), structures and values; every operation x ' \
           'information class x with/without captured data enumerated; non-trivial = an event with details'

    def strategy(self, tier):
        return G.log(st.lists(st.one_of(G.simple_event(self.kinds[:-1]), G.simple_event(self.kinds[:-1]), self.unknown()), min_size=1, max_size=4))

    @staticmethod
    def unknown():
        return st.builds(lambda c, k: dict(c, **k), G.simple_event(['thread_create']).map(lambda e: {k: e[k] for k in e if k not in ('kind', 'op', 'd')}),
                         st.one_of(UNKNOWN_KEY, UNKNOWN_VALUE))

    def fixed(self, tier):
        evs = []
        for op in ('RegQueryKey', 'RegEnumKey'):
            for cls in list(range(0, 14)) + [255, 0xffffffff]:
                for ext in BOTH:
                    for length in (0, 1, 5, 65536):
                        evs.append(EV('reg_key', op, dict(LEGAL_KEY, cls=cls, ext=ext, length=length)))
            for name in ('', 'x', '\u4e2d', 'n' * 511, 'n' * 512):
                for cls in (0, 1, 3):
                    evs.append(EV('reg_key', op, dict(LEGAL_KEY, cls=cls, name=name)))
        for cls in list(range(0, 12)) + [0xffffffff]:
            for has in BOTH:
                for v in (0, 1, 0x20019, 132390118470000000):
                    evs.append(EV('reg_setinfo', 'RegSetInfoKey', {'path': S('HKCU'), 'cls': cls, 'has': has, 'v': v}))
        for op in ('RegOpenKey', 'RegCreateKey'):
            for acc in (0, 1, 0x2000000, 0x20019, 0xf003f, 0x2000001):
                for ext in [None] + [[g, d] for g in (0, 0x20019, 0xf003f) for d in (0, 1, 2, 3, 0xffffffff)]:
                    if acc or not ext or ext[1] != 1:
                        evs.append(EV('reg_open', op, {'path': S('HKLM\\a', True), 'access': acc, 'ext': ext}))
        for op in E.REG_CATEGORY:
            evs.append(EV('reg_plain', op, {'path': S('HKLM\\b')}))
        for op in ('RegLoadKey', 'RegRenameKey'):
            for a in BOTH:
                evs.append(EV('reg_load', op, {'path': S('HKLM\\c', a), 'new': S('new name', not a)}))
        yield from both(evs)
        # without the event's extra data directly behind it
        yield from both([dict(e, place=p) for e in evs for p in (-1, 5)][::7])
        for c in (6, 7, 100, 0xffffffff):
            for op in ('RegQueryValue', 'RegEnumValue'):
                yield from both([EV('reg_value', op, {'path': S('HKLM\\v'), 'length': 5, 'index': 1, 'cls': c, 'ext': False, 'name': '', 'gap': 0,
                                                      'data': {'t': 4, 'k': 'dword', 'v': 1}})])

    def interesting(self, e, b):
        return bool(b.details)

    def labels(self, e, b):
        c = e['d'].get('cls')
        return {e['op'] + (':' + str(E.KEYCLASS.get(c, 'unknown')) if e['kind'] == 'reg_key' else '')}


VAL = {'path': S('HKLM\\v'), 'length': 5, 'index': 1, 'cls': 2, 'ext': True, 'name': 'value', 'gap': 0, 'data': {'t': 4, 'k': 'dword', 'v': 1}}


class C15(EventCheck):
    id = 'C15'
    kinds = ['reg_value', 'reg_setvalue']
    rule = 'logs with 1-4 value queries, enumerations and writes over every value type, boundary and random data, lengths larger than the captured data, data too ' \
           'short for its type, all information classes; non-trivial = an event with value data'

    def fixed(self, tier):
        datas = [{'t': 4, 'k': 'dword', 'v': v} for v in G._bounds(32)[::3]] + [{'t': 11, 'k': 'qword', 'v': v} for v in G._bounds(64)[::4]]
        for t in (1, 2):
            for end in (0, 1):
                datas += [{'t': t, 'k': 'sz', 'v': v, 'end': end} for v in ('', 'a', 'abc', '\u4e2d\u6587', '\U0001f600', 'a\r\nb', 'x' * 127, 'x' * 128, '\u0100\u0200', '%a%')]
        datas += [{'t': 3, 'k': 'bin', 'v': 'ab' * n} for n in (0, 1, 2, 3, 15, 16, 17, 255, 256, 257, 4096)] + [{'t': 3, 'k': 'bin', 'v': '000a0d1aff00'}]
        datas += [{'t': 7, 'k': 'multi', 'v': v, 'end': end} for v in (['a'], ['a', 'b'], ['x' * 100, '\u4e2d', 'c']) for end in (0, 1, 2)]
        datas += [{'t': t, 'k': 'raw', 'v': '01020304'} for t in (0, 5, 6, 8, 9, 10, 12, 13, 255, 0xffffffff)]
        datas += [{'t': 4, 'k': 'raw', 'v': '01' * n} for n in (1, 2, 3)] + [{'t': 11, 'k': 'raw', 'v': '01' * n} for n in (1, 3, 4, 7)]
        evs = []
        for data in datas:
            for more in (0, 1, 2, 1000):
                for op in ('RegQueryValue', 'RegEnumValue'):
                    evs.append(EV('reg_value', op, dict(VAL, data=data, more=more)))
                    for name, gap in (('n', 0), ('name', 2), ('\u4e2d\u6587\u540d', 6)):
                        evs.append(EV('reg_value', op, dict(VAL, cls=1, name=name, gap=gap, data=data, more=more)))
                evs.append(EV('reg_setvalue', 'RegSetValue', {'path': S('HKLM\\v'), 'data': data, 'more': more}))
            for op in ('RegQueryValue', 'RegEnumValue'):
                evs.append(EV('reg_value', op, dict(VAL, cls=0, data=data)))
        evs += [EV('reg_value', op, dict(VAL, ext=False, length=n, index=n, cls=c)) for op in ('RegQueryValue', 'RegEnumValue') for n in (0, 1, 144, 0xffffffff) for c in range(6)]
        for n in (32766, 32767, 32768, 65535, 65536, 70000):
            for more in (0, 2):
                for data in ({'t': 1, 'k': 'sz', 'v': 'x' * n, 'end': 1}, {'t': 2, 'k': 'sz', 'v': '\u4e2d' * n, 'end': 0}, {'t': 3, 'k': 'bin', 'v': 'a5' * n},
                             {'t': 7, 'k': 'multi', 'v': ['abcde'] * (n // 6), 'end': 2}):
                    evs.append(EV('reg_setvalue', 'RegSetValue', {'path': S('HKLM\\v'), 'data': data, 'more': more}))
        yield from both(evs)

    def interesting(self, e, b):
        return any(k == 'Data' for k, _ in b.details)

    def labels(self, e, b):
        return {e['op'], 'data:' + e['d']['data']['k'] + str(e['d']['data']['t'] if e['d']['data']['t'] < 12 else 'unknown')}


# ---- file system ----------------------------------------------------------------------------------------------------
CREATE = {'sub': 0, 'path': S('C:\\a.txt'), 'access': 0x120089, 'sid': '', 'disp': 1, 'opts': 0x60, 'attr': 0x80, 'share': 7, 'alloc': 0, 'result': 1}
SID1 = '0105000000000005' + '15000000' + '01020304' * 3 + 'e8030000'


class C16(EventCheck):
    id = 'C16'
    kinds = ['fs_create']
    rule = 'logs with 1-4 CreateFile events with random accesses, dispositions, options, attributes, sharing, sizes, impersonation SIDs and open results; every ' \
           'disposition x open result enumerated; non-trivial = every CreateFile event'

    def fixed(self, tier):
        evs = []
        for disp in list(range(8)) + [127, 128, 255]:
            for res in [None] + list(range(8)) + [0x100, 0x80000001, 0xffffffff]:
                for alloc in (0, 1, 4096, 0xffffffff):
                    for sid in ('', SID1):
                        evs.append(EV('fs_create', 'CreateFile', dict(CREATE, disp=disp, result=res, alloc=alloc, sid=sid)))
        for opts in (0, 1, 0x40, 0x800000, 0xffffff):
            for disp in (0, 5):
                for attr in (0, 1, 0x80, 0x8000, 0xffff):
                    for share in (0, 1, 4, 7, 8, 0xffff):
                        evs.append(EV('fs_create', 'CreateFile', dict(CREATE, opts=opts, disp=disp, attr=attr, share=share)))
        for n in (0, 1, 127, 128, 255, 256, 4096):
            for a in BOTH:
                evs.append(EV('fs_create', 'CreateFile', dict(CREATE, path=S('x' * n, a), sid=SID1)))
        yield from both(evs)
        yield from both([dict(e, fill=f, place=p) for e in evs[::9] for f in (1, 2) for p in (0, 9, -1)])

    def labels(self, e, b):
        d = e['d']
        return {'%s/%s' % (E.DISPOSITION.get(d['disp'], 'unknown'), 'no result' if d['result'] is None else E.OPENRESULT.get(d['result'], 'unknown'))}


class C17(EventCheck):
    id = 'C17'
    kinds = ['fs_rw', 'fs_rw', 'fs_ioctl', 'fs_ioctl', 'fs_mapping', 'fs_setdisp', 'fs_meta']
    rule = 'logs with 1-4 reads, writes, control codes, mappings, disposition changes with random fields; every named control code x both operations, every ' \
           'priority x flag, every low page protection enumerated; non-trivial = an event with details'

    def fixed(self, tier):
        evs = []
        io = {'sub': 0, 'path': S('C:\\f'), 'wlen': 17, 'rlen': 99000, 'off': -5, 'clen': 1 << 40, 'xn': None}
        for code in [c for c, _ in T.IOCTL_NAMES] + [0, 1, 2, 3, 4, 0x3fff, 0x94264, 0xffffffff]:
            for op in ('FileSystemControl', 'DeviceIoControl'):
                for xn in (None, 4):
                    evs.append(EV('fs_ioctl', op, dict(io, code=code, xn=xn), fill=code & 1))
        edges = [0, 1, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]
        for code, name in T.IOCTL_NAMES:
            if name in ('FSCTL_OFFLOAD_READ', 'FSCTL_OFFLOAD_WRITE') or name.startswith('FSCTL_PIPE'):
                for v in edges:
                    u = v & 0xffffffff
                    evs += [EV('fs_ioctl', 'FileSystemControl', dict(io, code=code, wlen=u, clen=v)), EV('fs_ioctl', 'FileSystemControl', dict(io, code=code, rlen=u, off=v - (1 << 63)))]
        rw = {'sub': 0, 'path': S('C:\\f'), 'flags': 0x60900, 'length': 4096, 'offset': 0, 'real': None}
        for op in ('ReadFile', 'WriteFile'):
            for real in (None, 0, 1, 0xffffffff):
                for off in (0, 1, -1, -2, 4096, 1 << 31, 1 << 32, 1 << 40, (1 << 63) - 1, -(1 << 63)):
                    for length in (0, 512, 0x80000000, 0xffffffff):
                        evs.append(EV('fs_rw', op, dict(rw, real=real, offset=off, length=length), fill=1 if length else 2))
            for pr in range(8):
                for b in range(33):
                    evs.append(EV('fs_rw', op, dict(rw, flags=(pr << 17) | ((1 << b) & 0xffffffff))))
        for sync in (0, 1, 2, 3, 16, 0xffffffff, 0x80000000):
            for bit in range(32):
                for nc in (0, 0x200):
                    evs.append(EV('fs_mapping', 'CreateFileMapping', {'sub': 0, 'path': S('C:\\f'), 'sync': sync, 'prot': (1 << bit) | nc}))
        for prot in range(1024):
            evs.append(EV('fs_mapping', 'CreateFileMapping', {'sub': 0, 'path': S('C:\\f'), 'sync': 1, 'prot': prot}))
        for v in range(256):
            evs.append(EV('fs_setdisp', 'SetInformationFile', {'sub': 0xd, 'path': S('C:\\f'), 'delete': v}))
        for s in (0x3b, 0x37):
            evs.append(EV('fs_meta', 'QueryInformationFile', {'sub': s, 'path': S('C:\\f')}))
        yield from both(evs)

    def interesting(self, e, b):
        return bool(b.details)

    def labels(self, e, b):
        return {b.operation}


ODD_PATHS = ['C:\\\\', '\\\\', '\\\\srv\\share', '\\\\srv\\share\\', 'C:\\a\\\\\\', 'C:/', 'a/', ' ', 'C:\\ ', '\\ \\', 'C:', '.', '..\\', '\u4e2d\\', '\\\\?\\C:\\']
DIR = {'sub': 1, 'path': S('C:\\dir'), 'filter': S(''), 'cls': 37, 'list': ['.', '..', 'a.txt'], 'align': 8, 'cut': None}


class C18(EventCheck):
    id = 'C18'
    kinds = ['fs_querydir', 'fs_querydir', 'fs_notify', 'dir_unknown']
    rule = 'logs with 1-4 directory queries and notifications: every listing structure with up to 8 random names, filters, empty and drive-root paths, captures ' \
           'cut at random bytes, unknown information classes; every class x every cut of a small listing enumerated; non-trivial = a listing, filter or mask'

    def strategy(self, tier):
        base = G.simple_event(['fs_querydir'])
        cut = st.builds(lambda e, c: dict(e, d=dict(e['d'], cut=c)), base, st.integers(0, 400))
        unk = st.builds(lambda e, c: dict(e, d=dict(e['d'], cls=c)), base, st.one_of(st.integers(76, 100), st.integers(76, 0xffffffff)))
        long_ = st.builds(lambda e, n, c, s: dict(e, d=dict(e['d'], cls=c, list=[s * (1 + i % 9) + str(i) for i in range(n)])), base, st.integers(9, 400),
                          st.sampled_from([1, 2, 3, 12, 37, 38]), st.sampled_from(['f', 'name', '\u4e2d', 'a long file name ']))
        return G.log(st.lists(st.one_of(base, base, cut, unk, long_, G.simple_event(['fs_notify'])), min_size=1, max_size=4))

    def fixed(self, tier):
        evs = []
        for cls, _ in T.FILE_INFO_CLASS:
            for lst in (None, ['.'], ['.', '..', 'desktop.ini', 'KMSpico-setup.zip', 'a', '\u4e2d\u6587.txt', '\U0001f600']):
                for filt in ('', '*', 'a.txt'):
                    for path in ('C:\\', 'C:\\dir', '', '\\'):
                        evs.append(EV('fs_querydir', 'DirectoryControl', dict(DIR, cls=cls, list=lst, filter=S(filt), path=S(path))))
        for path in ODD_PATHS:
            for filt in ('*', 'a\\b', '\\', '.', ' '):
                evs.append(EV('fs_querydir', 'DirectoryControl', dict(DIR, filter=S(filt), path=S(path))))
        for cls in (1, 2, 3, 12, 37, 38):
            for align in (4, 8):
                for n in range(1, 40):
                    evs.append(EV('fs_querydir', 'DirectoryControl', dict(DIR, cls=cls, align=align, list=['x' * n, 'y' * (n % 7 + 1), 'z' * (n % 5 + 1)]), fill=1 + n % 3))
            evs.append(EV('fs_querydir', 'DirectoryControl', dict(DIR, cls=cls, list=['f%d' % i for i in range(300)])))
            evs.append(EV('fs_querydir', 'DirectoryControl', dict(DIR, cls=cls, list=['g' * 255 for i in range(200)])))
            evs.append(EV('fs_querydir', 'DirectoryControl', dict(DIR, cls=cls, align=4, list=['%x' % i for i in range(65000 // (E.LISTING_FIXED[cls] + 12))])))
            size = len(E.listing_bytes(cls, ['ab', 'cdef', 'g'], 8, lambda n: b'\0' * n)[0])
            for cut in range(size + 1):
                evs.append(EV('fs_querydir', 'DirectoryControl', dict(DIR, cls=cls, list=['ab', 'cdef', 'g'], cut=cut)))
        for cls in (1, 2, 3, 12, 37, 38):
            for lst in ([''], ['a', ''], ['', ''], ['', 'a', ''], ['ab', 'c', '', 'd', '']):
                for align in (4, 8):
                    evs.append(EV('fs_querydir', 'DirectoryControl', dict(DIR, cls=cls, list=lst, align=align)))
        for cls in (0, 76, 77, 100, 0x101, 0x10001, 0x10025, 0x1000002, 0xffffffff):
            for lst in (None, ['a']):
                for filt in ('', 'x'):
                    evs.append(EV('fs_querydir', 'DirectoryControl', dict(DIR, cls=cls, list=lst, filter=S(filt))))
        for m in [0, 0xfff, 0xffffffff] + [1 << i for i in range(32)]:
            evs.append(EV('fs_notify', 'DirectoryControl', {'sub': 2, 'path': S('C:\\dir'), 'mask': m}))
        yield from both(evs)

    def interesting(self, e, b):
        return len(b.details) > 1 or e['kind'] == 'fs_notify' or b.path != b.base_path

    def labels(self, e, b):
        if e['kind'] == 'fs_notify':
            return {'notify'}
        d = e['d']
        return {'class %s' % (d['cls'] if d['cls'] in E.LISTING_FIXED else 'other'), 'cut' if d['cut'] is not None else 'whole'}


def fs_event(op, sub, path='C:\\f'):
    """An event of any file-system operation and sub-operation with a well-formed body."""
    if op == 'CreateFile':
        return EV('fs_create', op, dict(CREATE, sub=sub, path=S(path)))
    if op in ('ReadFile', 'WriteFile'):
        return EV('fs_rw', op, {'sub': sub, 'path': S(path), 'flags': 0, 'length': 1, 'offset': 2, 'real': None})
    if op in ('FileSystemControl', 'DeviceIoControl'):
        return EV('fs_ioctl', op, {'sub': sub, 'path': S(path), 'code': 0x900a4, 'wlen': 1, 'rlen': 2, 'off': 3, 'clen': 4, 'xn': None})
    if op == 'CreateFileMapping':
        return EV('fs_mapping', op, {'sub': sub, 'path': S(path), 'sync': 1, 'prot': 2})
    if op == 'DirectoryControl' and sub == 1:
        return EV('fs_querydir', op, dict(DIR, list=None, path=S(path)))
    if op == 'DirectoryControl' and sub == 2:
        return EV('fs_notify', op, {'sub': 2, 'path': S(path), 'mask': 1})
    if op == 'SetInformationFile' and sub == 0xd:
        return EV('fs_setdisp', op, {'sub': sub, 'path': S(path), 'delete': 1})
    if op == 'QueryInformationFile' and sub in (0x3b, 0x37):
        return EV('fs_meta', op, {'sub': sub, 'path': S(path)})
    return EV('fs_plain', op, {'sub': sub, 'path': S(path), 'n': 0, 'xn': None})


def sub_name(op, sub):
    table = T.SUB_OPS.get(op)
    if table is None or sub == 0:
        return op
    return table.get(sub, op + ' <Unknown>')


class C19(EventCheck):
    id = 'C19'
    quick, thorough = 600, 600 * 30
    rule = 'every file-system operation x all 256 sub-operation codes x both pointer sizes, enumerated with details on and off, plus random logs mixing them; checks ' \
           'operation, path and the exported operation text; non-trivial = an operation that has sub-operations'

    def strategy(self, tier):
        e = st.builds(lambda op, sub, p, c: dict(fs_event(op, sub, p), **c), st.one_of(st.sampled_from(G.FNAMES), st.sampled_from(sorted(T.SUB_OPS))), G.SUB,
                      st.one_of(G.WINPATH, G.PRINT), G.simple_event(['thread_create']).map(lambda x: {k: x[k] for k in ('tid', 'fill', 'place')}))
        return G.log(st.lists(e, min_size=1, max_size=6)).map(lambda s: dict(s, details=len(s['events']) % 2 == 0))

    def fixed(self, tier):
        for details in BOTH:
            for spec in both((fs_event(op, sub) for op in G.FNAMES for sub in range(256)), 128):
                yield dict(spec, details=details)

    def run(self, spec):
        log = pml.Log(spec)
        r = V.open_reader(log.encode().bytes(), should_get_details=spec.get('details', True))
        hit = False
        for i, e in enumerate(spec['events']):
            op, sub = e['op'], e['d']['sub']
            ev = V.read_one(r, i, 'reading %s sub-operation %d event' % (op, sub))
            want = sub_name(op, sub)
            what = '%s sub-operation %d' % (op, sub)
            same(what + ': operation', ev.operation, want)
            b = log.built(e)
            same(what + ': path', ev.path, b.path if spec.get('details', True) else b.base_path)
            with sut('get_compatible_csv_info'):
                csv = ev.get_compatible_csv_info()
            same(what + ': exported operation', csv['Operation'], '<Unknown>' if want.endswith(' <Unknown>') else want)
            hit = hit or op in T.SUB_OPS
        return hit, ['details on' if spec.get('details', True) else 'details off']


# ---- processes ------------------------------------------------------------------------------------------------------
class C20(EventCheck):
    id = 'C20'
    kinds = ['proc_created', 'proc_exit', 'thread_create', 'thread_exit', 'load_image', 'process_start']
    rule = 'logs with 1-4 process, thread and image events with random identifiers, times, sizes, texts in both encodings, environments and SID-sized unknown parts; ' \
           'non-trivial = every such event'

    def strategy(self, tier):
        return G.log(st.lists(G.event(self.kinds), min_size=1, max_size=4))

    def fixed(self, tier):
        evs = []
        for op in ('Process_Create', 'Process_Defined'):
            for n1 in (0, 12, 28, 68):
                for n2 in (0, 8, 255):
                    for a in BOTH:
                        for b in BOTH:
                            evs.append(EV('proc_created', op, {'pid': 0xfffffffc, 's1': 'aa' * n1, 's2': 'bb' * n2, 'path': S('C:\\Windows\\app.exe', a), 'cmd': S('app.exe /x "y z"', b)}))
        for f in ('status', 'kernel', 'user', 'ws', 'pws', 'priv', 'ppriv'):
            for op in ('Process_Exit', 'Process_Statistics'):
                for v in G._bounds(32 if f == 'status' else 64)[::4]:
                    evs.append(EV('proc_exit', op, dict({'status': 1, 'kernel': 2, 'user': 3, 'ws': 4, 'pws': 5, 'priv': 6, 'ppriv': 7}, **{f: v})))
        for v in G._bounds(64)[::3]:
            evs.append(EV('thread_exit', 'Thread_Exit', {'kernel': v, 'user': v ^ 0xff}, tid=v & 0xffffffff))
            evs.append(EV('thread_create', 'Thread_Create', {'id': v & 0xffffffff}, tid=(v ^ 1) & 0xffffffff))
            evs.append(EV('load_image', 'Load_Image', {'base': v & 0xffffffff, 'size': (v >> 3) & 0xffffffff, 'path': S('C:\\x.dll', bool(v & 1))}))
        for env in ([], ['A=1'], ['=::=::\\', 'PATH=C:\\', 'X=\u4e2d'], ['V%d=%s' % (i, 'z' * i) for i in range(200)]):
            for end in ((0,) if not env else (0, 1, 2)):
                for a in BOTH:
                    evs.append(EV('process_start', 'Process_Start', {'ppid': 632, 'cmd': S('cmd /c dir', a), 'cwd': S('C:\\', not a), 'env': env, 'end': end}))
        yield from both(evs)
        yield from both([EV('load_image', 'Load_Image', {'base': v & 0xffffffff, 'size': 1, 'path': S('p')}) for v in G._bounds(64)])
        for env in (['BIG=' + 'e' * 40000, 'Z=1'], ['A%d=%s' % (i, 'v' * 3000) for i in range(30)], ['N%d=1' % i for i in range(9000)]):
            for a in BOTH:
                yield from both([EV('process_start', 'Process_Start', {'ppid': 1, 'cmd': S('c' * 0x7fff, a), 'cwd': S('d' * 0x7ffe, not a), 'env': env, 'end': 2}),
                                 EV('thread_create', 'Thread_Create', {'id': 7})])
        for i in range(0, 64):
            yield dict(small_log(True), events=[EV('load_image', 'Load_Image', {'base': 1 << i, 'size': i, 'path': S('p')})])

    def labels(self, e, b):
        return {e['op']}


# ---- masks ----------------------------------------------------------------------------------------------------------
STD = [0, 0x10000, 0x20000, 0x40000, 0x80000, 0x100000, 0x120000, 0x160000, 0x1f0000, 0xf0000, 0x130000]
GEN = [0, 1 << 28, 1 << 29, 1 << 30, 1 << 31, 3 << 30, 7 << 29, 15 << 28, 5 << 29]
OTHER = [0, 1 << 24, 1 << 25, 3 << 24, 0x200, 0x100, 0x300]


class C21(EventCheck):
    id = 'C21'
    quick, thorough = 600, 600 * 30
    rule = 'bit masks through the events that carry them: all 2^16 file attributes, all 2^12 notification masks, all share modes, all subsets of the specific rights ' \
           'x combinations of standard and generic rights (files and registry), all subsets of each half of the create options, all priorities x I/O flags ' \
           'enumerated; random sparse and dense masks; non-trivial = a mask with a named bit'

    def strategy(self, tier):
        return G.log(st.lists(G.simple_event(['fs_create', 'reg_open', 'fs_notify', 'fs_rw']), min_size=2, max_size=8))

    def fixed(self, tier):
        evs = []
        for v in range(1 << 16):
            share = v & 7 if v & 8 else (v >> 4 | v << 9) & 0xffff
            opts = (v & 0xfff) << (12 if v & 0x8000 else 0)
            evs.append(EV('fs_create', 'CreateFile', dict(CREATE, attr=v, share=share, opts=opts), stack=[]))
        yield from batches(evs, 512)
        yield from batches([EV('fs_notify', 'DirectoryControl', {'sub': 2, 'path': S('d'), 'mask': m}, stack=[]) for m in range(1 << 13)], 512)
        std = STD if tier == 'quick' else [x << 16 for x in range(32)]
        gen = GEN if tier == 'quick' else [x << 28 for x in range(16)]
        acc = [lo | s | g for lo in range(512) for s in std for g in gen]
        acc += [lo | s | o for lo in range(512) for s in std[::3] for o in OTHER]
        yield from batches([EV('fs_create', 'CreateFile', dict(CREATE, access=m), stack=[]) for m in acc], 512)
        reg = [lo | s | g | o for lo in range(64) for s in std for g in gen for o in OTHER]
        yield from batches([EV('reg_open', 'RegOpenKey', {'path': S('k'), 'access': m, 'ext': [reg[(i * 7) % len(reg)], 2]}, stack=[])
                            for i, m in enumerate(reg) if m], 512)
        yield from batches([EV('reg_open', 'RegCreateKey', {'path': S('k'), 'access': 1 << 25, 'ext': [m, 1 + i % 2]}, stack=[]) for i, m in enumerate(reg)], 512)
        one = [1 << i for i in range(24)]
        yield from batches([EV('fs_create', 'CreateFile', dict(CREATE, opts=a | b | c), stack=[]) for a in one for b in one for c in one if a <= b <= c], 512)
        yield from batches([EV('fs_create', 'CreateFile', dict(CREATE, share=v), stack=[]) for v in range(256)], 256)
        yield from batches([EV('fs_rw', ('ReadFile', 'WriteFile')[v & 1], {'sub': 0, 'path': S('f'), 'flags': (v & 0xff) | (v >> 8 << 17), 'length': 1, 'offset': 2,
                                                                         'real': None}, stack=[]) for v in range(1 << 15)], 512)

    def labels(self, e, b):
        return {e['kind']}


# ---- code catalogues ------------------------------------------------------------------------------------------------
class C22(EventCheck):
    id = 'C22'
    quick, thorough = 800, 800 * 30
    rule = 'every catalogued result code and its neighbours and bit-flipped variants, every catalogued control code and its neighbours, random 32-bit codes, checked ' \
           'through the exported Result and the Control detail; non-trivial = every code'

    def strategy(self, tier):
        code = st.one_of(G.U32, st.sampled_from([c for c, _ in T.RESULT_NAMES]), st.builds(lambda c, b: c ^ 1 << b, st.sampled_from([c for c, _ in T.RESULT_NAMES]), st.integers(0, 31)))
        ctl = st.one_of(G.U32, G.IOCTLS, st.builds(lambda c, b: c ^ 1 << b, st.sampled_from([c for c, _ in T.IOCTL_NAMES]), st.integers(0, 31)))
        return st.builds(lambda rs, cs: {'res': rs, 'ctl': cs}, st.lists(code, min_size=1, max_size=8), st.lists(ctl, min_size=1, max_size=8))

    def fixed(self, tier):
        res = {c for c, _ in T.RESULT_NAMES}
        ctl = {c for c, _ in T.IOCTL_NAMES}

        def around(s):
            return sorted({v & 0xffffffff for c in s for v in [c, c - 1, c + 1] + [c ^ 1 << b for b in range(32)]} | set(range(0, 600)))
        a, b = around(res), around(ctl)
        for i in range(0, max(len(a), len(b)), 128):
            yield {'res': a[i:i + 128], 'ctl': b[i:i + 128]}

    def run(self, case):
        evs = [EV('fs_plain', 'CloseFile', {'sub': 0, 'path': S('x')}, res=c, stack=[]) for c in case['res']]
        evs += [EV('fs_ioctl', op, {'sub': 0, 'path': S('x'), 'code': c, 'wlen': 1, 'rlen': 2, 'off': 3, 'clen': 4, 'xn': None}, stack=[])
                for c in case['ctl'] for op in ('FileSystemControl', 'DeviceIoControl')]
        log = pml.Log(dict(small_log(len(case['res']) % 2 == 0), events=evs))
        r = V.open_reader(log.encode().bytes())
        for i, e in enumerate(evs):
            ev = V.read_one(r, i, 'reading %s event' % e['op'])
            if e['kind'] == 'fs_plain':
                same('result code', ev.result, e['res'])
                with sut('get_compatible_csv_info'):
                    got = ev.get_compatible_csv_info()['Result']
                same('exported result of code 0x%x' % e['res'], got, E.RESULT.get(e['res'], '0x%X' % e['res']))
            else:
                same('control code 0x%x of %s' % (e['d']['code'], e['op']), ev.details.get('Control'), E.ioctl_text(e['d']['code']))
        return True, ['named' if any(c in E.RESULT for c in case['res']) else 'unnamed']


def any_event(cls, op, path='C:\\f'):
    """A well-formed event of any documented operation."""
    if cls == 3:
        return fs_event(op, 0, path)
    if cls == 5:
        return NET(op)
    if cls == 4 or op in ('Thread_Profile', 'System_Statistics'):
        return dict(EV('opaque', op, {'n': 8}), cls=cls)
    if cls == 1:
        if op in ('Process_Defined', 'Process_Create'):
            return EV('proc_created', op, {'pid': 1, 's1': '', 's2': '', 'path': S(path), 'cmd': S('c', True)})
        if op in ('Process_Exit', 'Process_Statistics'):
            return EV('proc_exit', op, {'status': 1, 'kernel': 2, 'user': 3, 'ws': 4, 'pws': 5, 'priv': 6, 'ppriv': 7})
        if op == 'Thread_Create':
            return EV('thread_create', op, {'id': 1})
        if op == 'Thread_Exit':
            return EV('thread_exit', op, {'kernel': 1, 'user': 2})
        if op == 'Load_Image':
            return EV('load_image', op, {'base': 1, 'size': 2, 'path': S(path)})
        return EV('process_start', op, {'ppid': 1, 'cmd': S('c'), 'cwd': S('d'), 'env': ['A=1'], 'end': 2})
    if op in E.REG_CATEGORY:
        return EV('reg_plain', op, {'path': S(path)})
    if op in ('RegLoadKey', 'RegRenameKey'):
        return EV('reg_load', op, {'path': S(path), 'new': S('n')})
    if op in ('RegOpenKey', 'RegCreateKey'):
        return EV('reg_open', op, {'path': S(path), 'access': 1, 'ext': [1, 2]})
    if op in ('RegQueryKey', 'RegEnumKey'):
        return EV('reg_key', op, dict(LEGAL_KEY, cls=3, path=S(path)))
    if op in ('RegQueryValue', 'RegEnumValue'):
        return EV('reg_value', op, dict(VAL, path=S(path)))
    if op == 'RegSetInfoKey':
        return EV('reg_setinfo', op, {'path': S(path), 'cls': 0, 'has': True, 'v': 1 << 56})
    return EV('reg_setvalue', op, {'path': S(path), 'data': {'t': 4, 'k': 'dword', 'v': 1}, 'more': 0})


OPCODES = [(cls, op) for cls, op in sorted(E.OPS)]


class C26(EventCheck):
    id = 'C26'
    quick, thorough = 800, 800 * 30
    rule = 'logs mixing events of all 89 documented operations of all five classes, all option combinations; every operation x pointer size x options enumerated; ' \
           'checks class, operation name and path; non-trivial = at least two different operations'

    def strategy(self, tier):
        return G.log(st.lists(G.simple_event(list(G.K)), min_size=2, max_size=8)).flatmap(
            lambda s: st.tuples(G.BOOL, G.BOOL).map(lambda o: dict(s, opts=list(o))))

    def fixed(self, tier):
        for opts in ([True, True], [True, False], [False, True], [False, False]):
            for path in ('C:\\f', '', '\u4e2d' * 40):
                for spec in both([dict(any_event(c, o, path), fill=f) for c, o in OPCODES for f in (0, 1, 2)], 30):
                    yield dict(spec, opts=opts)

    def run(self, spec):
        log = pml.Log(spec)
        stack, details = spec.get('opts', [True, True])
        r = V.open_reader(log.encode().bytes(), should_get_stacktrace=stack, should_get_details=details)
        same('number of events', len(r), len(spec['events']))
        for i, e in enumerate(spec['events']):
            b = log.built(e)
            ev = V.read_one(r, i, 'reading %s event' % e['op'])
            what = 'operation %d of class %d (%s)' % (E.op_code(e), E.class_of(e), e['op'])
            same(what + ': class', ev.event_class.name, E.CLASS_NAMES[E.class_of(e)])
            expect(int(ev.event_class) == E.class_of(e), '%s: class %r', what, ev.event_class)
            same(what + ': operation', ev.operation, b.operation)
            same(what + ': path', ev.path, b.path if details else b.base_path)
        return len({e['op'] for e in spec['events']}) > 1, ['options:%s%s' % (int(stack), int(details))]


# ---- text -----------------------------------------------------------------------------------------------------------
UNITS = st.one_of(st.sampled_from([0x41, 0x20, 0x7f, 0x80, 0xff, 0x100, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfeff, 0xfffe, 0xffff, 0x3042, 0x0a, 0x0d]),
                  st.integers(1, 0xffff))


def _unit_text(us):
    return ''.join(map(chr, us))        # lone surrogates stay lone; neighbouring halves form a pair when encoded


WILD = st.lists(UNITS, min_size=1, max_size=14).map(_unit_text)
PAIRS = st.lists(st.sampled_from(['\ud83d\ude00', '\ud83d', '\ude00', 'a', '\u4e2d', '\ud800\udc00', '\udbff\udfff', '\ufffd']), min_size=1, max_size=8).map(''.join)
NULS = st.tuples(WILD, WILD).map('\0'.join)
LONGEST = st.builds(lambda s, n: (s * n)[:n], st.sampled_from(['a', '\u4e2d', 'ab\u0416', '\ud83d\ude00']), st.sampled_from([255, 256, 1023, 1024, 1025, 4095, 4096, 8192, 0x3fff, 0x4000, 0x7ffe, 0x7fff]))
BLANK = st.text(' \t\r\n\v\x1f\x7f\xa0\u3000.\\"', max_size=3)
EDGED = st.tuples(BLANK, st.one_of(G.ASCII, G.PRINT, st.sampled_from(['C:\\a', 'x', '\u4e2d'])), BLANK).map(''.join).filter(bool)
TXT = st.one_of(WILD, WILD, PAIRS, PAIRS, LONGEST, G.NONEMPTY, EDGED, EDGED)
TXTN = st.one_of(TXT, TXT, NULS)


def text_events(t, n):
    """Events that carry the text t (no NUL) and n (may hold a NUL) in every place a text can be."""
    short_ = t[:2000]
    out = [EV('reg_plain', 'RegCloseKey', {'path': S(n)}), EV('reg_load', 'RegLoadKey', {'path': S('HKLM'), 'new': S(n)}),
           EV('reg_load', 'RegRenameKey', {'path': S(n), 'new': S(t)}),
           EV('proc_created', 'Process_Create', {'pid': 1, 's1': '', 's2': '', 'path': S(n), 'cmd': S(t)}),
           EV('process_start', 'Process_Start', {'ppid': 1, 'cmd': S(n), 'cwd': S(t), 'env': [t, 'x=' + short_], 'end': 2}),
           EV('load_image', 'Load_Image', {'base': 1, 'size': 2, 'path': S(n)}), fs_event('CloseFile', 0, n),
           EV('fs_querydir', 'DirectoryControl', dict(DIR, path=S(n), filter=S(t[:1000]), list=[short_, 'x', short_[:9]])),
           EV('reg_key', 'RegEnumKey', dict(LEGAL_KEY, cls=0, name=t[:32000])), EV('reg_key', 'RegQueryKey', dict(LEGAL_KEY, cls=3, name=t[:32000])),
           EV('reg_key', 'RegEnumKey', dict(LEGAL_KEY, cls=1, name=t[:32000])),
           EV('reg_value', 'RegEnumValue', dict(VAL, cls=1, name=short_, data={'t': 1, 'k': 'sz', 'v': n[:20000], 'end': 1})),
           EV('reg_value', 'RegQueryValue', dict(VAL, data={'t': 2, 'k': 'sz', 'v': t[:20000], 'end': 0})),
           EV('reg_value', 'RegQueryValue', dict(VAL, data={'t': 7, 'k': 'multi', 'v': [short_, 'b', short_[:7]], 'end': 2})),
           EV('reg_setvalue', 'RegSetValue', {'path': S(t), 'data': {'t': 1, 'k': 'sz', 'v': n, 'end': 1}, 'more': 0}),
           NET(kv=[['k' + short_, short_]])]
    for x in (t, n):
        if x.isascii() and '\0' not in x:       # the one-byte form of the detail strings
            y = x[:0x7fff]
            out += [EV('reg_plain', 'RegCloseKey', {'path': S(y, True)}), EV('reg_load', 'RegRenameKey', {'path': S(y, True), 'new': S(y, True)}),
                    EV('proc_created', 'Process_Create', {'pid': 1, 's1': '', 's2': '', 'path': S(y, True), 'cmd': S(y, True)}),
                    EV('process_start', 'Process_Start', {'ppid': 1, 'cmd': S(y, True), 'cwd': S(y, True), 'env': ['a'], 'end': 2}),
                    EV('load_image', 'Load_Image', {'base': 1, 'size': 2, 'path': S(y, True)}), fs_event('CloseFile', 0, y),
                    EV('fs_querydir', 'DirectoryControl', dict(DIR, path=S(y, True), filter=S(y[:1000], True)))]
    return out


class C30(EventCheck):
    id = 'C30'
    quick, thorough = 150, 150 * 30
    rule = 'texts of arbitrary UTF-16 code units (unpaired surrogates, byte-order marks, NULs, boundary lengths up to 32767) put in every text field of a log - ' \
           'event paths and details, process and module fields, header, host and port names; all of the BMP enumerated; non-trivial = a text outside ASCII or ' \
           'longer than 255'

    def strategy(self, tier):
        return st.fixed_dictionaries({'t': TXT, 'n': TXTN, 'is64': G.BOOL, 'fill': G.FILL, 'term': st.integers(0, 1)})

    def fixed(self, tier):
        step = 509
        for a in range(1, 0x10000, step):
            t = ''.join(map(chr, range(a, min(a + step, 0x10000))))
            yield {'t': t, 'n': t, 'is64': a % 2 == 0, 'fill': 0, 'term': 1}
            s = 'a'.join(map(chr, range(a, min(a + step, 0x10000))))
            yield {'t': s, 'n': s, 'is64': a % 2 == 0, 'fill': 1, 'term': 0}
        for n in (1, 127, 128, 255, 256, 0x7ffe, 0x7fff):
            for c in ('a', '\u4e2d'):
                yield {'t': c * n, 'n': c * n, 'is64': True, 'fill': 1, 'term': 1}
        for n in (300, 1100, 2100, 8200, 16383):      # characters of two units across every boundary
            for c in ('\U0001f600', '\ud800', '\udc00\ud800'):
                t = c * (n if len(c) > 1 or c > '\uffff' else 2 * n)
                yield {'t': t, 'n': ('a' + t)[:len(t)] if c < '\uffff' else 'a' + c * (n - 1) + 'b', 'is64': n % 2 == 0, 'fill': 1, 'term': n & 1}
        for t in (' ', 'a ', ' a', '\t', 'a\n', '"a"', 'a.', 'a\\', '\x7f', '\x01', ''.join(map(chr, range(1, 128)))):
            for f in (0, 1):
                yield {'t': t, 'n': t, 'is64': f == 0, 'fill': f, 'term': f}
        for n in ('a\0b', '\0', '\0abc', '\u0100\0', 'x\0\0y', '\ud800\0\udc00', '\u4e2d\0'):
            for f in (0, 1, 2):
                yield {'t': 'plain', 'n': n, 'is64': True, 'fill': f, 'term': 1}

    def run(self, case):
        t, n = _unit_text(units(case['t'])), _unit_text(units(case['n']))
        proc = P(command_line=t, process_name=n, image_path=t, user=n, company=t, description=n, version=t[:3], integrity=n[:5],
                 mods=[dict(base=1, size=2, ts=3, path=t, version=n, company=t, description=n)])
        hosts = [['7f000001' + Z12, t], ['0a000001' + Z12, n]]
        spec = dict(small_log(case['is64']), fill=case['fill'], procs=[proc], hosts=hosts, ports=[[80, 1, t], [443, 1, t]], computer=t[:16],
                    root=n[:200], sp=t[:20], layout={'term': case['term']}, events=text_events(t, n))
        for e in spec['events']:
            e['fill'] = case['fill']
        log = pml.Log(spec)
        log.names = {k: v.split('\0')[0] for k, v in log.names.items()}
        r = V.open_reader(log.encode().bytes())
        for i, e in enumerate(spec['events']):
            V.cmp_content('event %d (%s)' % (i, e['op']), V.read_one(r, i, 'reading %s event' % e['op']), log.built(e))
        with sut('processes'):
            V.cmp_process('process', r.processes()[0], proc)
        with sut('system_details'):
            s = r.system_details()
        same('Computer Name', s['Computer Name'], V.z(spec['computer']))
        same('System Root', s['System Root'], V.z(spec['root']))
        os_ = 'Windows 10%s (build 19041.0)' % (', ' + V.z(spec['sp']) if V.z(spec['sp']) else '')
        same('Operating System', s['Operating System'], os_)
        odd = scrub(t) != t or scrub(n) != n
        return not (t.isascii() and n.isascii()) or len(t) > 255, ['repaired'] if odd else ['nul'] if '\0' in n else ['valid']


# ---- SIDs -----------------------------------------------------------------------------------------------------------
class C31(EventCheck):
    id = 'C31'
    quick, thorough = 1200, 1200 * 30
    rule = 'impersonation SIDs of every well-formed size (0-61 sub-authorities), random and boundary authorities and sub-authorities, malformed lengths and ' \
           'revisions, in both pointer sizes and several paths; non-trivial = a well-formed SID with a sub-authority'

    def strategy(self, tier):
        long_ = st.builds(lambda a, subs: '01%02x' % len(subs) + a.to_bytes(6, 'big').hex() + ''.join(s.to_bytes(4, 'little').hex() for s in subs), G.ints(48),
                          st.lists(G.U32, max_size=61))
        sid = st.one_of(G.sid(), long_)
        return G.log(st.lists(st.builds(lambda s, p, r: EV('fs_create', 'CreateFile', dict(CREATE, sid=s, path=p, result=r)), sid, G.LITTLE, st.sampled_from([None, 1])),
                              min_size=1, max_size=4))

    def fixed(self, tier):
        evs = []

        def add(sid):
            evs.append(EV('fs_create', 'CreateFile', dict(CREATE, sid=sid)))
        for n in range(62):
            add('01%02x' % n + '000000000005' + ''.join((i * 0x01020304 + 1 & 0xffffffff).to_bytes(4, 'little').hex() for i in range(n)))
        for a in G._bounds(48):
            add('0101' + a.to_bytes(6, 'big').hex() + '12000000')
        for v in G._bounds(32):
            add('0102' + '000000000005' + '20000000' + v.to_bytes(4, 'little').hex())
        for rev in range(256):
            add('%02x' % rev + '01' + '000000000005' + '12000000')
        for n in range(16):
            for size in range(0, 66):
                add('01%02x' % n + '000000000005' + '11' * size)
        add(SID1)
        yield from both(evs)

    def run(self, spec):
        log = pml.Log(spec)
        r = V.open_reader(log.encode().bytes())
        hit = False
        labels = set()
        for i, e in enumerate(spec['events']):
            sid = e['d']['sid']
            ev = V.read_one(r, i, 'reading CreateFile event impersonating %s' % sid)
            if sid:
                want = E.sid_text(bytes.fromhex(sid))
                same('SID %s' % sid, ev.details.get('Impersonating'), want)
                hit = hit or want.count('-') > 2
                labels.add('well-formed' if want else 'malformed')
            else:
                expect('Impersonating' not in ev.details, 'an event without a SID shows one: %s', short(ev.details.get('Impersonating')))
            V.cmp_content('event %d' % i, ev, log.built(e))
        return hit, sorted(labels)
