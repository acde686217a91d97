"""Hypothesis strategies that produce the JSON-able case specs."""
from hypothesis import strategies as st

from . import tables as T
from .prim import nunits

# ---- numbers --------------------------------------------------------------------------------------------------------


def _bounds(bits):
    vals = {0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 99, 100, 999, 1000, 1023, 1024, 4095, 4096, 9999, 10000, 65534}
    for b in (7, 8, 15, 16, 23, 24, 31, 32, 39, 40, 47, 48, 52, 53, 55, 56, 62, 63, 64):
        vals |= {(1 << b) - 1, 1 << b, (1 << b) + 1}
    vals |= {999999, 1000000, 9999999, 10000000, 10000001, 0x80000000, 0xfffffffe, 0xffffffff}
    # values with a meaning in Windows: exit codes, error codes, image bases, times, logon sessions, page and block sizes
    vals |= {0x103, 0xc0000005, 0xc000013a, 0x40010004, 0x80004005, 0xe06d7363, 0x7fffffff, 0x3e3, 0x3e4, 0x3e5, 0x3e6, 0x3e7, 512, 8192,
             0x10000, 0x400000, 0x10000000, 0x140000000, 0x180000000, 0x7ffe0000, 0x7ff000000000, 0xfffff80000000000, 0xffff800000000000,
             116444736000000000, 116444735999999999, 0x7fffffffffffffff, 0x01d65000_00000000, 1 << 20, 1 << 30, 1 << 36}
    return sorted(v for v in vals if v < 1 << bits)


def ints(bits):
    return st.one_of(st.sampled_from(_bounds(bits)), st.integers(0, (1 << bits) - 1), st.integers(0, min(255, (1 << bits) - 1)))


def mostly(usual, rare, n=6):
    """usual, and one time in n rare (one_of counts a strategy that is given several times once)."""
    return st.integers(0, n - 1).flatmap(lambda k: rare if k == n - 1 else usual)


U8, U16, U32, U64 = ints(8), ints(16), ints(32), ints(64)
S64 = st.one_of(st.sampled_from([0, 1, -1, -2, 4096, -(1 << 63), (1 << 63) - 1, -(1 << 31), 1 << 31, 1 << 32, -4096]),
                st.integers(-(1 << 63), (1 << 63) - 1))
BOOL = st.booleans()
FILL = st.sampled_from([0, 1, 2, 3, 0xabcdef])
# bitmask values: anything, and sparse combinations of few bits


def mask(bits, table=()):
    one = st.integers(0, bits - 1).map(lambda b: 1 << b)
    named = st.sampled_from([v for v, _ in table]) if table else one
    combo = st.lists(st.one_of(one, named), max_size=5).map(lambda l: _or(l) & ((1 << bits) - 1))
    return st.one_of(combo, combo, ints(bits))


def _or(l):
    v = 0
    for x in l:
        v |= x
    return v


# ---- texts ----------------------------------------------------------------------------------------------------------
ASCII = st.text(alphabet=st.characters(min_codepoint=1, max_codepoint=0x7f), max_size=24)
PRINT = st.text(alphabet=st.characters(min_codepoint=0x20, max_codepoint=0x7e), max_size=30)
UNI = st.text(alphabet=st.characters(min_codepoint=1, blacklist_categories=('Cs',)), max_size=16)
EDGE_CHARS = '\u00e9\u0416\u4e2d\ud7ff\ue000\ufeff\ufffe\uffff\U00010000\U0001f600\U0010ffff\u0100\u0a00\u000a\u000d\u2028\u0d0a\u0a0d'
EDGY = st.lists(st.sampled_from(list(EDGE_CHARS + 'aZ09 \\:')), max_size=12).map(''.join)
WINPATH = st.lists(st.sampled_from(['C:', 'Windows', 'System32', 'a', 'Program Files (x86)', 'x.dll', 'HKLM', 'Software',
                                    '\u4e2d\u6587', '\U0001f600', 'Default User', '..', '{0-1}']), max_size=6).map('\\'.join)
# texts with a meaning in Windows or in Procmon
FAMOUS = ['', ' ', '.', '..', '*', '*.*', '?', '\\', '\\\\', '/', 'C:', 'C:\\', 'c:\\windows', 'C:\\Windows\\', 'C:\\Windows\\System32\\', 'C:\\$Directory', 'C:\\$Mft', 'C:\\$LogFile', '\\Device\\HarddiskVolume1',
          '\\??\\C:\\a', '\\\\?\\C:\\a', '\\\\?\\UNC\\server\\share', '\\\\server\\share\\', '\\\\.\\pipe\\x', '\\SystemRoot\\System32\\ntdll.dll', '%SystemRoot%\\system32', 'C:\\a:stream', 'C:\\a::$DATA',
          'C:\\PROGRA~1\\A', 'C:/a/b', 'C:\\a.', 'C:\\a ', ' C:\\a', '"C:\\a b\\c.exe" -x "y"', 'HKLM', 'HKLM\\', 'HKCU', 'HKCU\\Software', 'HKLM\\System\\CurrentControlSet', 'HKLM\\SOFTWARE\\WOW6432Node\\x',
          'HKU\\.DEFAULT', 'HKU\\S-1-5-21-1-2-3-1001_Classes', 'HKCR\\.txt', '\\REGISTRY\\MACHINE', '\\REGISTRY\\USER\\S-1-5-18', 'HKLM\\x\\(Default)', '(Default)', '<unknown>', '<Unknown>', '<Unknown: 7>', 'n/a', 'N/A', 'None',
          'Unknown', 'Idle', 'System', 'Registry', 'smss.exe', 'svchost.exe', 'Procmon64.exe', 'Microsoft Corporation', 'NT AUTHORITY\\SYSTEM', 'NT AUTHORITY\\LOCAL SERVICE', 'BUILTIN\\Administrators', 'S-1-5-18',
          'Medium', 'Low', 'AppContainer', 'Mandatory Label\\System Mandatory Level', '10.0.19041.1 (WinBuild.160101.0800)', 'Path=C:\\a;C:\\b', '=C:=C:\\x', '=::=::\\', 'A=', 'A==b', 'PATHEXT=.COM;.EXE',
          'localhost', 'LOCALHOST', '127.0.0.1', '::1', '0.0.0.0', 'WORKGROUP', 'http', 'https', 'microsoft-ds', '0', '1', '-1', '00', '0x0', '0x10', '1,000', '1.5', 'true', 'True', 'False', 'Length', 'Offset', 'Name', 'a, b',
          'a: b', 'Key: value, Other: x', '{}', '{0}', '{0:x}', '{a}', '%s', '%d', '%%', '%1', '\\n', '\\x41', '&amp;', "'", '"', '""', '`', '\t', '\n', '\r\n', '\r', 'a\tb', 'a\n', '\na', 'a  b', '  ', 'a ', ' a',
          'desktop.ini', 'thumbs.db', 'A', '~', '$Recycle.Bin', 'CON', 'NUL', 'a.EXE', '.a', 'a..b', 'ntoskrnl.exe', 'ntdll.dll']
NAMED = st.sampled_from(FAMOUS)
SIZES = [63, 64, 65, 127, 128, 129, 255, 256, 257, 260, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]


def fit(s, n):
    """At most n UTF-16 units."""
    if nunits(s) <= n:
        return s
    s = s[:n]
    while nunits(s) > n:
        s = s[:-1]
    return s


def long_text(limit):
    big = [n for n in SIZES + [8191, 8192, 8193, 0x3fff, 0x4000, 0x4001, 0x7ffe, 0x7fff] if n <= limit]
    if not big:
        return UNI
    seed = st.sampled_from(['a', 'ab', '\u4e2d', 'a\U0001f600', '\U0001f600', 'C:\\dir\\', '\u00e9\u0416x'])
    return st.builds(lambda s, n: fit(s * (n // nunits(s) + 1), n), seed, st.sampled_from(big))


def text(limit=0x7fff, longs=4097):
    return st.one_of(WINPATH, PRINT, UNI, EDGY, WINPATH, PRINT, UNI, EDGY, NAMED, NAMED, long_text(min(longs, limit))) \
        .map(lambda s: fit(s, limit))


NONEMPTY = text(longs=600).filter(bool)

# texts of logs can hold any UTF-16 code units
LONE = st.lists(st.sampled_from(['\ud800', '\udc00', '\udbff', '\udfff', 'a', '\\', '\u4e2d', '\U0001f600', 'C:', ' ']), min_size=1, max_size=8).map(''.join)


def ltext(limit=0x7fff, longs=4097):
    return st.one_of(text(limit, longs), text(limit, longs), text(limit, longs), text(limit, longs), text(limit, longs),
                     LONE.map(lambda s: fit(s, limit)))


def is_ascii(s):
    return all(0 < ord(c) < 0x80 for c in s)


def dstr(longs=4097):
    """A detail string in either encoding."""
    return st.one_of(
        st.builds(lambda s: {'s': s, 'a': True}, st.one_of(PRINT, ASCII, NAMED, WINPATH.filter(is_ascii))),
        st.builds(lambda s: {'s': s, 'a': False}, ltext(longs=longs)),
        st.builds(lambda n: {'s': ('C:\\abc' * (n // 6 + 1))[:n], 'a': True}, st.sampled_from([n for n in SIZES + [8192, 0x3fff, 0x4000, 0x7ffe, 0x7fff] if n <= longs])),
    )


def hexb(lo, hi):
    return st.binary(min_size=lo, max_size=hi).map(lambda b: b.hex())


LITTLE = dstr(longs=300)
DSTR = dstr(longs=0x7fff)

# ---- registry data --------------------------------------------------------------------------------------------------
SZ = st.one_of(ltext(longs=8193), st.lists(st.sampled_from(['a', '\r\n', 'line', '\n', ';', '', ', ']), max_size=6).map(''.join))


def regdata(types=None):
    return st.one_of(
        st.builds(lambda v: {'t': 4, 'k': 'dword', 'v': v}, U32),
        st.builds(lambda v: {'t': 11, 'k': 'qword', 'v': v}, U64),
        st.builds(lambda t, v, e: {'t': t, 'k': 'sz', 'v': v, 'end': e}, st.sampled_from([1, 2]), SZ, st.sampled_from([1, 1, 0])),
        st.builds(lambda v: {'t': 3, 'k': 'bin', 'v': v}, hexb(0, 40)),
        st.builds(lambda b, n: {'t': 3, 'k': 'bin', 'v': (b * n)[:60000 * 2]}, hexb(1, 4), st.sampled_from([16, 64, 255, 256, 257, 1024, 5000])),
        st.builds(lambda f, v, e: {'t': 7, 'k': 'multi', 'v': f + v, 'end': e}, st.sampled_from([[], [], []] + [['']]),
                  st.lists(NONEMPTY, min_size=1, max_size=5), st.sampled_from([2, 2, 1, 0])),
        st.builds(lambda t, v: {'t': t, 'k': 'raw', 'v': v}, st.one_of(st.sampled_from([0, 5, 6, 8, 9, 10, 12, 100]), st.integers(12, 0xffffffff)),
                  hexb(0, 12)),
        # fewer bytes than the type needs: shown as no data
        st.builds(lambda v: {'t': 4, 'k': 'raw', 'v': v}, hexb(1, 3)),
        st.builds(lambda v: {'t': 11, 'k': 'raw', 'v': v}, hexb(1, 7)),
    )


REGDATA = regdata()
# more than 64 KiB, which only the data of RegSetValue can have
HUGEDATA = st.one_of(
    st.builds(lambda t, s, n, e: {'t': t, 'k': 'sz', 'v': s * n, 'end': e}, st.sampled_from([1, 2]), st.sampled_from(['x', '\u4e2d', 'C']), st.sampled_from([32766, 32767, 32768, 32769, 40000, 65535, 65536, 66000]),
              st.integers(0, 1)),
    st.builds(lambda b, n: {'t': 3, 'k': 'bin', 'v': b * n}, hexb(1, 1), st.sampled_from([65534, 65535, 65536, 65537, 131072])),
    st.builds(lambda n: {'t': 7, 'k': 'multi', 'v': ['text%d' % (i % 7) for i in range(n)], 'end': 2}, st.sampled_from([5000, 5462, 6000, 12000])))


# authority, sub-authorities
WELL_KNOWN_SIDS = [(0, 0), (1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 4), (4,), (5,), (5, 1), (5, 2), (5, 4), (5, 6), (5, 7), (5, 9), (5, 10), (5, 11), (5, 12), (5, 18), (5, 19), (5, 20), (5, 32, 544), (5, 32, 545),
                   (5, 21, 1, 2, 3, 500), (5, 21, 1, 2, 3, 501), (5, 21, 0, 0, 0, 0), (5, 5, 0, 999), (5, 80, 1, 2, 3, 4, 5), (15, 2, 1), (15, 3, 1), (16, 0), (16, 4096), (16, 8192), (16, 12288), (16, 16384), (18, 1), (5, 90, 0, 1),
                   (12, 1, 1), (0,), (11,), (9,)]


def sid():
    good = st.builds(lambda a, subs: '01%02x' % len(subs) + a.to_bytes(6, 'big').hex() + ''.join(s.to_bytes(4, 'little').hex() for s in subs),
                     ints(48), st.lists(U32, max_size=15))
    bad = st.one_of(st.builds(lambda r, t: '%02x' % r + t, st.integers(2, 255), hexb(7, 27)),
                    st.builds(lambda n, t: '01%02x' % n + t, st.integers(0, 15), hexb(6, 60)))
    known = st.sampled_from(WELL_KNOWN_SIDS).map(lambda t: '01%02x' % (len(t) - 1) + t[0].to_bytes(6, 'big').hex() + ''.join(x.to_bytes(4, 'little').hex() for x in t[1:]))
    return st.one_of(st.just(''), good, good, known, bad)


# ---- kinds: name -> strategy of (op, d) -----------------------------------------------------------------------------
def fd(**k):
    return st.fixed_dictionaries(k)


def ev(kind, ops, d):
    return st.builds(lambda op, dd: {'kind': kind, 'op': op, 'd': dd}, st.sampled_from(ops), d)


PNAMES = [n for _, n in T.PROCESS_OPS]
RNAMES = [n for _, n in T.REGISTRY_OPS]
FNAMES = [n for _, n in T.FS_OPS]
NNAMES = [n for _, n in T.NETWORK_OPS]

def small_extra(d):
    """The extra details hold at most 64 KiB."""
    v = d['data']['v']
    size = len(v) // 2 if d['data']['k'] in ('bin', 'raw') else 2 * sum(nunits(x) + 2 for x in v) if d['data']['k'] == 'multi' else \
        2 * nunits(v) + 2 if d['data']['k'] == 'sz' else 8
    return dict(d, name=fit(d['name'], (65535 - 64 - size) // 2))


K = {}
K['proc_created'] = ev('proc_created', ['Process_Defined', 'Process_Create'],
                       fd(pid=U32, s1=hexb(0, 28), s2=hexb(0, 40), path=DSTR, cmd=DSTR))
K['proc_exit'] = ev('proc_exit', ['Process_Exit', 'Process_Statistics'],
                    fd(status=U32, kernel=U64, user=U64, ws=U64, pws=U64, priv=U64, ppriv=U64))
K['thread_create'] = ev('thread_create', ['Thread_Create'], fd(id=U32))
K['thread_exit'] = ev('thread_exit', ['Thread_Exit'], fd(kernel=U64, user=U64))
K['load_image'] = ev('load_image', ['Load_Image'], fd(base=U64, size=U32, path=DSTR))
K['process_start'] = ev('process_start', ['Process_Start'],
                        fd(ppid=U32, cmd=DSTR, cwd=LITTLE, end=st.sampled_from([2, 1, 0]), env=st.lists(NONEMPTY, max_size=6), pad=st.sampled_from([0, 0, 0, 1, 2, 6, 40, 200]))
                        .map(lambda d: d if d['env'] else dict(d, end=0)))
_PROF = [(4, n) for _, n in T.PROFILING_OPS] + [(1, 'Thread_Profile'), (1, 'System_Statistics')]
K['opaque'] = st.builds(lambda co, n: {'kind': 'opaque', 'cls': co[0], 'op': co[1], 'd': {'n': n}},
                        st.sampled_from(_PROF), st.integers(0, 40))
IPS4 = ['7f000001', '00000000', 'ffffffff', 'c0a80101', '0a000001', '01020304', 'a9fe0001', 'e00000fb', '64400001', 'effffffa']
IPS6 = ['00000000000000000000000000000001', '00000000000000000000000000000000', 'fe800000000000000000000000000001',
        '20010db8000000000000ff0000428329', 'ffffffffffffffffffffffffffffffff', '00000000000000000000ffff0a000001', '0000000000000000000000000a000001', '0064ff9b00000000000000000a000001', '20020a00000100000000000000000001', '20010000000000000000000000000001', 'ff020000000000000000000000010003', 'fd000000000000000000000000000001', '000a000b000c0d000e0000f001230000']
PREFIX4 = st.sampled_from(['7f', '0a', 'ac10', 'c0a8', 'a9fe', 'e0', 'ef', 'f0', '00', 'ff', '6440', 'c000', 'c612', 'cb00'])
TAIL4 = st.one_of(hexb(4, 4), st.sampled_from(['00000000', '00000001', 'ffffffff', '000000ff', '00000100']))
IP4 = st.one_of(st.sampled_from(IPS4), st.builds(lambda a, b: a + b[len(a):], PREFIX4, TAIL4), hexb(4, 4)).map(lambda h: h + '00' * 12)
PREFIX6 = st.sampled_from(['fe80', 'fec0', 'fc00', 'fd', 'ff01', 'ff02', 'ff0e', '2001', '20010000', '20010db8', '2002', '0064ff9b', '3ffe', '00000000000000000000ffff', '000000000000000000000000',
                           '0000', '00000000000000000000', '2002c0a8', '0100000000000000'])
TAIL6 = st.one_of(hexb(16, 16), hexb(1, 1).map(lambda b: b * 16), st.sampled_from(['00' * 15 + '01', '00' * 16, 'ff' * 16, '0001' * 8]))
IP6 = st.one_of(st.sampled_from(IPS6), st.builds(lambda a, b: a + b[len(a):], PREFIX6, TAIL6), st.builds(lambda a, b: a + b[len(a):], PREFIX6, TAIL6), hexb(16, 16), st.lists(st.sampled_from(['0000', '0001', '0f00', '00ab', 'ffff', '1000']), min_size=8, max_size=8).map(''.join))
PORTS = st.one_of(st.sampled_from([0, 1, 21, 80, 443, 255, 256, 5355, 32767, 32768, 49152, 65535]), st.integers(0, 65535))
END = st.tuples(BOOL, IP4, IP6).map(lambda t: [t[0], t[1] if t[0] else t[2]])
KV = st.lists(st.tuples(NONEMPTY.filter(lambda s: s != 'Length'), NONEMPTY).map(list), max_size=4, unique_by=lambda p: p[0])
KV = mostly(KV, st.builds(lambda n, m: [['k%d' % i, 'v%d' % (i * m)] for i in range(n)], st.one_of(st.integers(5, 40), st.integers(41, 300)), st.integers(0, 9)), 4)
K['net'] = ev('net', NNAMES,
              st.builds(lambda s, d, tcp, ln, sp, dp, kv, end, hi: {
                  's4': s[0], 'sip': s[1], 'd4': d[0], 'dip': d[1], 'tcp': tcp, 'len': ln, 'sport': sp, 'dport': dp,
                  'kv': kv, 'end': end, 'hi': hi}, END, END, BOOL, U32, PORTS, PORTS, KV, st.sampled_from([2, 1, 0]), st.sampled_from([0, 0, 8, 0xfff8])))
K['reg_plain'] = ev('reg_plain', ['RegCloseKey', 'RegFlushKey', 'RegUnloadKey', 'RegDeleteKey', 'RegDeleteValue',
                                  'RegQueryMultipleValueKey', 'RegSetKeySecurity', 'RegQueryKeySecurity'], fd(path=DSTR))
K['reg_load'] = ev('reg_load', ['RegLoadKey', 'RegRenameKey'], fd(path=DSTR, new=LITTLE))
REG_MASK = st.one_of(mask(32, T.REG_ACCESS), st.sampled_from([0x2000000, 0x2000000, 0x20019, 0xf003f, 0x20006, 0x80000000, 0]))
K['reg_open'] = ev('reg_open', ['RegOpenKey', 'RegCreateKey'],
                   fd(path=DSTR, access=REG_MASK, ext=st.one_of(st.none(), st.tuples(REG_MASK, st.one_of(st.sampled_from([1, 2, 1, 2, 0, 3]), U32)).map(list)))
                   .map(lambda d: dict(d, ext=[d['ext'][0], 2]) if d['access'] == 0 and d['ext'] else d))
K['reg_key'] = ev('reg_key', ['RegQueryKey', 'RegEnumKey'],
                  fd(path=DSTR, length=U32, index=U32, cls=mostly(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7, 8, 9]), U32, 8), ext=BOOL, name=ltext(32700, longs=0x7fff),
                     vals=st.lists(U64, min_size=10, max_size=10)))
K['reg_value'] = ev('reg_value', ['RegQueryValue', 'RegEnumValue'],
                    fd(path=DSTR, length=U32, index=U32, cls=st.sampled_from([0, 1, 2, 1, 2, 2, 3, 4, 5]), ext=st.sampled_from([True, True, False]),
                       name=ltext(longs=4097), gap=st.sampled_from([0, 0, 2, 1, 6]), data=REGDATA,
                       more=st.sampled_from([0, 0, 0, 0, 1, 4, 1000])).map(small_extra))
K['reg_setinfo'] = ev('reg_setinfo', ['RegSetInfoKey'],
                      fd(path=DSTR, cls=st.one_of(st.sampled_from([0, 1, 5]), st.sampled_from([2, 3, 4, 6, 7]), U32), has=BOOL, v=U64))
K['reg_setvalue'] = ev('reg_setvalue', ['RegSetValue'],
                       fd(path=DSTR, data=mostly(REGDATA, HUGEDATA, 8), more=st.sampled_from([0, 0, 0, 1, 2, 100, 100000])))
SUB = st.one_of(st.just(0), U8)
FS_MASK = mask(32, T.FS_ACCESS)
K['fs_create'] = ev('fs_create', ['CreateFile'],
                    fd(sub=SUB, path=DSTR, access=FS_MASK, sid=sid(), disp=st.one_of(st.integers(0, 5), st.integers(0, 5), U8),
                       opts=mask(24, T.CREATE_OPTIONS), attr=mask(16), share=st.one_of(st.integers(0, 7), mask(16)), alloc=U32,
                       result=st.one_of(st.none(), st.integers(0, 5), st.integers(0, 5), U32)))
RW_FLAGS = st.builds(lambda lo, pr, hi, junk: lo | pr << 17 | hi | junk, mask(8), st.integers(0, 7),
                     st.sampled_from([0, 0x400000, 0x200000, 0x800000, 0xe00000]), st.sampled_from([0, 0xff000000, 0x1ff00, 0x10000, 0x100]))
K['fs_rw'] = ev('fs_rw', ['ReadFile', 'WriteFile'],
                fd(sub=SUB, path=DSTR, flags=st.one_of(RW_FLAGS, RW_FLAGS, U32), length=U32, offset=S64, real=st.one_of(st.none(), U32)))
IOCTLS = st.one_of(st.sampled_from([c for c, _ in T.IOCTL_NAMES]), U32,
                   st.sampled_from([0x94264, 0x98268, 0x11c017, 0x11bfff, 0x119ff7, 0x116003]))
K['fs_ioctl'] = ev('fs_ioctl', ['FileSystemControl', 'DeviceIoControl'],
                   fd(sub=SUB, path=DSTR, code=IOCTLS, wlen=U32, rlen=U32, off=S64, clen=U64, xn=st.one_of(st.none(), st.integers(0, 12))))
FNAME = st.one_of(NONEMPTY, NONEMPTY, LONE, NAMED)
K['fs_querydir'] = ev('fs_querydir', ['DirectoryControl'],
                      fd(sub=st.just(1), path=st.one_of(DSTR, DSTR, st.sampled_from(['C:\\', 'C:\\a', '\\', '', 'C:\\\\', '\\\\', '\\\\s\\d\\\\\\', 'C:/', 'a/', ' ', 'a\\ ', '\\ \\']).map(lambda s: {'s': s, 'a': True})),
                         filter=st.one_of(st.just({'s': '', 'a': False}), LITTLE), cls=st.one_of(st.sampled_from([1, 2, 3, 12, 37, 38]), mostly(st.sampled_from([c for c, _ in T.FILE_INFO_CLASS]), U32, 4)),
                         list=st.one_of(st.none(), st.lists(FNAME, min_size=1, max_size=8)), align=st.sampled_from([8, 8, 4]), cut=st.none()))
K['fs_notify'] = ev('fs_notify', ['DirectoryControl'], fd(sub=st.just(2), path=DSTR, mask=mask(32, T.NOTIFY_FLAGS)))
K['fs_mapping'] = ev('fs_mapping', ['CreateFileMapping'], fd(sub=SUB, path=DSTR, sync=st.one_of(st.integers(0, 3), U32), prot=st.one_of(mask(10), mask(32))))
K['fs_setdisp'] = ev('fs_setdisp', ['SetInformationFile'], fd(sub=st.just(0xd), path=DSTR, delete=st.one_of(st.integers(0, 2), U8)))
K['fs_meta'] = ev('fs_meta', ['QueryInformationFile'], fd(sub=st.sampled_from([0x3b, 0x37]), path=DSTR))


def _plain_ok(op, sub):
    if op in ('CreateFile', 'ReadFile', 'WriteFile', 'FileSystemControl', 'DeviceIoControl', 'CreateFileMapping'):
        return False
    return (op, sub) not in (('DirectoryControl', 1), ('DirectoryControl', 2), ('SetInformationFile', 0xd),
                             ('QueryInformationFile', 0x3b), ('QueryInformationFile', 0x37))


_PLAIN = [n for n in FNAMES if _plain_ok(n, 0)]
_SUBS = [(op, s) for op in T.SUB_OPS for s in T.SUB_OPS[op] if _plain_ok(op, s)]
_PLAIN_D = fd(path=DSTR, n=st.integers(0, 20), xn=st.one_of(st.none(), st.integers(0, 20)))
K['fs_plain'] = st.builds(lambda os_, d: {'kind': 'fs_plain', 'op': os_[0], 'd': dict(d, sub=os_[1])},
                          st.one_of(st.sampled_from(_SUBS), st.tuples(st.sampled_from(_PLAIN), SUB).filter(lambda t: _plain_ok(*t)),
                                    st.tuples(st.sampled_from(sorted(T.SUB_OPS)), U8).filter(lambda t: _plain_ok(*t))), _PLAIN_D)

DETAIL_KINDS = [k for k in K if k not in ('opaque', 'fs_plain')]

# FILETIMEs between 1970 and 9999 (what a date can be computed for)
EPOCH = 116444736000000000
DAY = 864000000000
FT_MAX = 2650467744000000000 - 1


def _ft(day, tick):
    return min(EPOCH + day * DAY + tick, FT_MAX - (1 << 40))


TICKS = st.one_of(st.sampled_from([0, 1, 9, 10, 99, 100, 9999999, 10000000, DAY - 1, DAY // 2, DAY // 2 - 1, DAY // 2 + 1, DAY // 24, 13 * DAY // 24,
                                   9 * DAY // 24 + 59 * 600000000, 123456]), st.integers(0, DAY - 1))
DAYS = st.one_of(st.sampled_from([0, 1, 58, 59, 789, 790, 11015, 11016, 11017, 18320, 18321, 18322, 18627, 24855, 24856, 47540, 47541, 49709, 49710, 49711, 100000]),
                 st.integers(0, 30000), st.integers(0, 2932890))
FILETIME = st.builds(_ft, DAYS, TICKS)

# ---- processes, logs ------------------------------------------------------------------------------------------------
STR = ltext(longs=520)
ST = st.one_of(WINPATH, PRINT, EDGY, LONE, NAMED, NAMED)


def module():
    return fd(base=U64, size=U32, ts=U32, path=ST, version=ST, company=ST, description=ST)


def process(mods=3):
    return fd(idx=st.integers(0, 5), pid=U32, ppid=U32, auth=U64, session=U32, start=U64, end=U64, virt=st.one_of(st.integers(0, 2), U32),
              p64=st.integers(0, 1), integrity=ST, user=ST, process_name=ST, image_path=STR, command_line=STR, company=ST,
              version=ST, description=ST, mods=st.lists(module(), max_size=mods))


def procs(lo=1, hi=4, mods=2):
    """Processes with distinct table indexes (not the same as their position)."""
    return st.lists(process(mods), min_size=lo, max_size=hi).flatmap(
        lambda ps: st.lists(st.one_of(st.integers(0, 40), U32), min_size=len(ps), max_size=len(ps), unique=True)
        .map(lambda ix: [dict(p, idx=i) for p, i in zip(ps, ix)]))


PLAIN_PROC = dict(idx=3, pid=1234, ppid=4, auth=0x3e7, session=1, start=0, end=0, virt=0, p64=1, integrity='High',
                  user='PC\\me', process_name='app.exe', image_path='C:\\app.exe', command_line='app.exe -x',
                  company='Co', version='1.0', description='An app', mods=[])
SMALL_PROC = fd(pid=st.sampled_from([0, 4, 1234]), integrity=ST, user=ST, process_name=ST).map(lambda d: dict(PLAIN_PROC, **d))
SMALL_PROCS = st.one_of(st.just([PLAIN_PROC]), st.tuples(SMALL_PROC, SMALL_PROC).map(lambda t: [dict(t[0], idx=7), dict(t[1], idx=1)]))

IPALL = st.one_of(IP4, IP6)
HOSTS = st.lists(st.tuples(st.one_of(st.sampled_from([h + '00' * 12 for h in IPS4] + IPS6), IPALL),
                           st.one_of(st.sampled_from(['host', 'localhost', 'a.b.example.com', '\u4e2d', '']), NAMED, WINPATH, PRINT, LONE)).map(list),
                 max_size=8, unique_by=lambda t: t[0])
PORTNAMES = st.lists(st.tuples(PORTS, st.sampled_from([0, 1, 1, 2, 0x100]), st.one_of(st.sampled_from(['http', 'https', 'domain']), NAMED.filter(bool), NONEMPTY, LONE)).map(list),
                     max_size=8, unique_by=lambda t: (t[0], bool(t[1])))

PLACE = mostly(st.sampled_from([0, 0, 0, 1, 7, 300, -1]), st.sampled_from([0xffff, 0x10000, 0x10007, 0x20000]), 12)
STACK = st.lists(st.one_of(U64, U32), max_size=6)


XTRA = st.one_of(st.none(), st.none(), st.none(), hexb(0, 9))


def event(kinds, date=FILETIME, stack=STACK, res=None):
    res = res or st.one_of(st.sampled_from([0, 0, 0x103, 0xc0000034, 0x80000005]), st.sampled_from([c for c, _ in T.RESULT_NAMES]), U32)
    common = fd(proc=st.integers(0, 3), tid=U32, dur=U64, date=date, res=res, stack=stack, place=PLACE, fill=FILL, xtra=XTRA)
    return st.builds(lambda c, k: dict(c, **k), common, st.one_of([K[k] for k in kinds]))


def simple_event(kinds, date=FILETIME):
    """Common fields kept plain: the case is about the details."""
    common = fd(proc=st.integers(0, 1), tid=st.sampled_from([0, 77, 0xffffffff]), dur=st.just(5), date=date, res=st.just(0), stack=st.sampled_from([[], [], [1, 2]]),
                place=PLACE, fill=FILL, xtra=XTRA)
    return st.builds(lambda c, k: dict(c, **k), common, st.one_of([K[k] for k in kinds]))


LAYOUT = fd(gaps=st.lists(st.integers(0, 9), min_size=1, max_size=3), eorder=st.integers(0, 50), sorder=st.integers(0, 50), sphys=st.integers(0, 50),
            pphys=st.integers(0, 50), sections=st.integers(0, 50), agap=st.sampled_from([0, 0, 1, 64]), sgap=st.sampled_from([0, 0, 3, 200]),
            dup=st.integers(0, 1), term=st.sampled_from([1, 1, 0]), junk=st.lists(STR, max_size=2), icons=st.integers(0, 30))

OS = st.sampled_from([[6, 0], [6, 1], [6, 2], [6, 3], [10, 0]])
SYSTEM = fd(computer=ltext(16), root=ltext(260, 260), os=st.builds(lambda o, b, c: o + [b, c], OS, U32, U32),
            sp=st.one_of(st.just(''), st.just('Service Pack 1'), ltext(25)), cpus=U32, ram=U64)


def norm(spec):
    """Clamp what depends on other fields (process count, pointer width)."""
    n = len(spec['procs'])
    m = 0xffffffffffffffff if spec['is64'] else 0xffffffff
    for e in spec['events']:
        e['proc'] %= n
        e['stack'] = [a & m for a in e['stack']]
        if e['kind'] == 'load_image':
            e['d']['base'] &= m
    for p in spec['procs']:
        for mo in p['mods']:
            mo['base'] &= m
    return spec


# ---- twins: events that differ from another one of the log in a single field, which must not be confused with it -----
_FIXED_KEYS = {'sub', 'end', 't', 'k', 'a', 'cls', 'align', 'hi', 'access', 'gap', 'more', 'cut', 'place', 'fill', 'xtra', 'stack', 'kind', 'op', 'pad'}
_HEX = {'sip': 0, 'dip': 0, 's1': 0, 's2': 0, 'sid': 8}
_SWAP = {**{c: c + 32 for c in range(65, 91)}, **{c: c - 32 for c in range(97, 123)}}


def _leaves(x, path=(), parent=None):
    if isinstance(x, dict):
        for k in sorted(x):
            if k not in _FIXED_KEYS:
                yield from _leaves(x[k], path + (k,), x)
    elif isinstance(x, list):
        for i, y in enumerate(x):
            if not (len(path) > 1 and path[-2] == 'kv' and i == 0):
                yield from _leaves(y, path + (i,), x)
    elif x is not None and x != '':
        yield path, x, parent


def _other(path, v, parent, how):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return [v ^ 1, v >> 1, v & 0xff, v & 0xffff, v % 10, v ^ 1][how] if v >= 0 else v ^ 1
    lo = _HEX.get(path[-1], 0 if path[-1] == 'v' and isinstance(parent, dict) and parent.get('k') in ('bin', 'raw') else None)
    if lo is not None:
        b = bytearray.fromhex(v)
        if len(b) > lo:
            at = min(lo + [0, 1, 2, 3, 7, 15][how], len(b) - 1)
            b[at] = [b[at] ^ 1, b[at] % 10, b[at] >> 1, b[at] % 100, b[at] ^ 0xff, (b[at] + 1) & 0xff][how]
        return b.hex()
    last = 'a' if v[-1] != 'a' else 'b'
    return [v[:-1] + last, v.translate(_SWAP), v[::-1], last + v[1:], v[1:] + v[:1], v[:-1] or v][how]


def twin(event, leaf, how):
    import copy
    e = copy.deepcopy(event)
    leaves = list(_leaves(e))
    own = [x for x in leaves if x[0][0] == 'd'] or leaves
    pick = own if leaf % 4 else leaves
    path, v, parent = pick[leaf // 4 % len(pick)]
    at = e
    for k in path[:-1]:
        at = at[k]
    at[path[-1]] = _other(path, v, parent, how)
    return e


# ---- echoes: a number or text of the log that occurs in another of its fields as well (as it is, or as a part) -------
_NUM32 = {'tid', 'id', 'pid', 'ppid', 'session', 'size', 'ts', 'length', 'index', 'len', 'status', 'alloc', 'wlen', 'rlen', 'real', 'sync', 'res'}
_NUM64 = {'dur', 'auth', 'start', 'end', 'kernel', 'user', 'ws', 'pws', 'priv', 'ppriv', 'clen'}
_TEXTS = {'integrity', 'user', 'process_name', 'image_path', 'command_line', 'company', 'version', 'description', 'path', 's', 'name', 'filter', 'new', 'list', 'env', 'v'}


def _fields(x, path=()):
    """(parent, key, 'n32' | 'n64' | 'text')"""
    if isinstance(x, dict):
        for k in sorted(x):
            y = x[k]
            if isinstance(y, bool):
                pass
            elif isinstance(y, int):
                if k == 'user' and 'kernel' not in x or k == 'end' and 'start' not in x:
                    continue
                if k in _NUM32 or k in _NUM64:
                    yield x, k, 'n32' if k in _NUM32 else 'n64'
            elif isinstance(y, str):
                if k in _TEXTS and not (k == 'v' and x.get('k') != 'sz'):
                    yield x, k, 'text'
            else:
                yield from _fields(y, path + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x):
            if isinstance(y, str):
                if path[-1:] and path[-1] in ('list', 'env'):
                    yield x, i, 'text'
            else:
                yield from _fields(y, path)


def echo(spec, src, dst, how):
    every = [f for part in ('procs', 'events') for f in _fields(spec[part])]
    if not every:
        return
    to, k, kind = every[dst % len(every)]
    same = [f for f in every if (f[2] == 'text') == (kind == 'text') and not (f[0] is to and f[1] == k)]
    if not same:
        return
    v = same[src % len(same)][0][same[src % len(same)][1]]
    if kind != 'text':
        v = [v, v, v + 1, v - 1, v * 2, v][how]
        to[k] = min(max(v, 0), 0xffffffff if kind == 'n32' else (1 << 63) - 1)
        return
    v = [v, v, v + '\\x', 'x\\' + v, '"%s"' % v, v[:-1]][how]
    if not v or nunits(v) > 300 or '\0' in v:
        return
    if 'a' in to and k == 's' and not is_ascii(v):
        to['a'] = False
    to[k] = v


ECHOES = st.one_of(st.just([]), st.just([]), st.just([]), st.lists(st.tuples(st.integers(0, 1 << 20), st.integers(0, 1 << 20), st.integers(0, 5)), min_size=1, max_size=3))


def add_echoes(x):
    for src, dst, how in x.pop('echoes'):
        echo(x, src, dst, how)
    return x


TWINS = st.one_of(st.just([]), st.lists(st.tuples(st.integers(0, 3), st.integers(0, 199), st.integers(0, 5)), min_size=1, max_size=3))


def add_twins(x):
    for i, leaf, how in x.pop('twins'):
        if x['events']:
            x['events'].append(twin(x['events'][i % len(x['events'])], leaf, how))
    return x


def log(events, procs_=SMALL_PROCS, layout=None, hosts=None, ports=None, system=None):
    import copy
    parts = dict(is64=BOOL, fill=FILL, procs=procs_, events=events, twins=TWINS, echoes=ECHOES)
    if layout is not None:
        parts['layout'] = layout
    if hosts is not None:
        parts['hosts'] = hosts
    if ports is not None:
        parts['ports'] = ports
    s = fd(**parts)
    if system is not None:
        s = st.builds(lambda a, b: dict(b, **a), s, system)
    return s.map(lambda x: norm(add_twins(add_echoes(copy.deepcopy(x)))))
