"""Independent model of PML events: for every supported kind, how its details are laid out in the file and what reading
them must produce.  Written from docs/PML Format.md, the Windows SDK structures and Procmon's own exports; it imports
nothing from the code under test.

An event is a JSON-able dict:
  {'op': name, 'd': {kind specific fields}, 'proc': i, 'tid':, 'dur':, 'date':, 'res':, 'stack': [..],
   'place': where the extra details go, 'fill': seed}
"""
from . import tables as T
from .prim import u8, u16, u32, u64, s64, pv, w, Fill, dinfo, dbytes, dtext, scrub, multisz_text

CLASS_NAMES = {1: 'Process', 2: 'Registry', 3: 'File_System', 4: 'Profiling', 5: 'Network'}
OPS = {}
for _cls, _tab in ((1, T.PROCESS_OPS), (2, T.REGISTRY_OPS), (3, T.FS_OPS), (4, T.PROFILING_OPS), (5, T.NETWORK_OPS)):
    for _code, _name in _tab:
        OPS[(_cls, _name)] = _code

RESULT = dict(T.RESULT_NAMES)
IOCTL = dict(T.IOCTL_NAMES)
KEYCLASS = dict(T.REG_KEY_CLASS)
FILECLASS = dict(T.FILE_INFO_CLASS)
REGTYPE = dict(T.REG_TYPES)
DISPOSITION = dict(T.FS_DISPOSITION)
OPENRESULT = dict(T.FS_OPEN_RESULT)
PRIORITY = dict(T.PRIORITY)
SETINFO = {0: 'KeyWriteTimeInformation', 1: 'KeyWow64FlagsInformation', 5: 'KeySetHandleTagsInformation'}


# ---- masks ----------------------------------------------------------------------------------------------------------
def mask_names(mask, table):
    """Greedy left to right: a name is used when all its bits are still set, and then consumes them."""
    names = []
    for bits, name in table:
        if mask & bits == bits:
            names.append(name)
            mask &= ~bits
    return names


def access_text(mask, table, generic):
    for bit, rights in zip((31, 30, 29, 28), generic):
        if mask >> bit & 1:
            mask |= rights
    names = mask_names(mask, table)
    return ', '.join(names) if names else 'None 0x%x' % mask


def reg_access(mask):
    return access_text(mask, T.REG_ACCESS, T.REG_GENERIC)


def fs_access(mask):
    return access_text(mask, T.FS_ACCESS, T.FS_GENERIC)


def attributes_text(v):
    return ''.join(mask_names(v, T.FILE_ATTRIBUTES)) if v else 'n/a'


def share_text(v):
    return ', '.join(mask_names(v, T.SHARE_MODE)) if v else 'None'


def ioctl_text(code):
    if code in IOCTL:
        return IOCTL[code]
    return '0x%x (Device:0x%x Function:%d Method: %d)' % (code, code // 65536, code // 4 % 4096, code % 4)


def regtype_text(code):
    return REGTYPE.get(code, '<Unknown: %d>' % code)


def sid_text(raw):
    """S-1-authority-sub-sub... of a binary SID; '' when it is not a well-formed revision-1 SID."""
    raw = bytes(raw)
    if raw[0] != 1 or len(raw) != 8 + 4 * raw[1]:
        return ''
    auth = 0
    for b in raw[2:8]:
        auth = auth * 256 + b
    text = 'S-1-%d' % auth
    for i in range(raw[1]):
        v = 0
        for b in reversed(raw[8 + 4 * i:12 + 4 * i]):
            v = v * 256 + b
        text += '-%d' % v
    return text


# ---- registry data --------------------------------------------------------------------------------------------------
# {'t': type code, 'k': 'dword'|'qword'|'sz'|'bin'|'multi'|'raw', 'v': value, 'end': how strings are terminated}
def regdata_bytes(d):
    k, v = d['k'], d['v']
    if k == 'dword':
        return u32(v)
    if k == 'qword':
        return u64(v)
    if k == 'sz':
        return w(v) + (b'\0\0' if d['end'] else b'')
    if k == 'multi':
        return b'\0\0'.join(w(s) for s in v) + b'\0\0' * d['end']
    return bytes.fromhex(v)


def regdata_value(d):
    k, v = d['k'], d['v']
    if k in ('dword', 'qword'):
        return v
    if k == 'sz':
        return scrub(v.split('\0')[0])
    if k == 'multi':
        return multisz_text(v)
    if k == 'bin':
        return bytes.fromhex(v)
    return ''       # types Procmon shows no data for, and values whose captured data is too short for the type


# ---- directory listings ---------------------------------------------------------------------------------------------
LISTING_FIXED = {1: 64, 2: 68, 3: 94, 12: 12, 37: 104, 38: 80}


def listing_bytes(cls, entries, align, fill):
    """FILE_*_INFORMATION records: NextEntryOffset chains, each aligned, last one 0."""
    out = b''
    ends = []       # offset at which each record's name ends
    starts = []
    for i, name in enumerate(entries):
        nb = w(name)
        fixed = LISTING_FIXED[cls]
        size = fixed + len(nb)
        padded = -(-size // align) * align
        last = i == len(entries) - 1
        head = u32(0 if last else padded) + fill(4)
        if cls == 12:
            rec = head + u32(len(nb))
        else:
            rec = head + fill(8 * 4) + fill(8) + fill(8) + fill(4) + u32(len(nb))
            if cls == 2:
                rec += fill(4)
            elif cls == 38:
                rec += fill(4) + fill(4) + fill(8)           # EaSize, alignment, FileId
            elif cls == 3:
                rec += fill(4) + fill(1) + fill(1) + fill(24)
            elif cls == 37:
                rec += fill(4) + fill(1) + fill(1) + fill(24) + fill(2) + fill(8)
        assert len(rec) == fixed, (cls, len(rec))
        rec += nb
        starts.append(len(out))
        ends.append(len(out) + len(rec))
        out += rec if last else rec + fill(padded - size)
    return out, starts, ends


# ---- kinds ----------------------------------------------------------------------------------------------------------
class Built(object):
    """What an event looks like in the file and what it must read as."""

    def __init__(self, operation, path, category, details, raw, extra=None, base_path=None,
                 know_details=True, loose=None):
        self.operation = operation
        self.path = path
        self.category = category
        self.details = details            # ordered list of (key, value)
        self.raw = raw                    # details bytes
        self.extra = extra                # extra details bytes or None
        self.base_path = path if base_path is None else base_path   # path when details are switched off
        self.know_details = know_details  # False: the format of this operation's details is not documented
        self.loose = loose                # key whose presence/value is not specified (truncated listing tail)


KINDS = {}


def kind(name):
    def deco(f):
        KINDS[name] = f
        return f
    return deco


def fs_frame(d, is64, fill, io_fields, path, after=b''):
    size = (8 if is64 else 4) * 5 + 0x14
    io = bytearray(fill(size))
    for off32, off64, data in io_fields:
        off = off64 if is64 else off32
        io[off:off + len(data)] = data
    return u8(d['sub']) + fill(3) + bytes(io) + dinfo(path) + fill(2) + dbytes(path) + after


def fs_opname(op, sub):
    table = T.SUB_OPS.get(op)
    if table is None or sub == 0:
        return op
    return table.get(sub, op + ' <Unknown>')


@kind('proc_created')
def _(op, d, is64, fill, log):
    s1, s2 = bytes.fromhex(d['s1']), bytes.fromhex(d['s2'])
    raw = fill(4) + u32(d['pid']) + fill(0x24) + u8(len(s1)) + u8(len(s2)) + dinfo(d['path']) + dinfo(d['cmd']) + \
        fill(2) + s1 + s2 + dbytes(d['path']) + dbytes(d['cmd'])
    return Built(op, dtext(d['path']), '', [('PID', d['pid']), ('Command line', dtext(d['cmd']))], raw)


@kind('proc_exit')
def _(op, d, is64, fill, log):
    raw = u32(d['status']) + u64(d['kernel']) + u64(d['user']) + u64(d['ws']) + u64(d['pws']) + u64(d['priv']) + \
        u64(d['ppriv'])
    return Built(op, '', '', [('Exit Status', d['status']), ('User Time', d['user']), ('Kernel Time', d['kernel']),
                              ('Private Bytes', d['priv']), ('Peak Private Bytes', d['ppriv']),
                              ('Working Set', d['ws']), ('Peak Working Set', d['pws'])], raw)


@kind('thread_create')
def _(op, d, is64, fill, log):
    return Built(op, '', '', [('Thread ID', d['id'])], u32(d['id']))


@kind('thread_exit')
def _(op, d, is64, fill, log):
    return Built(op, '', '', [('Thread ID', d['_tid']), ('User Time', d['user']), ('Kernel Time', d['kernel'])],
                 fill(4) + u64(d['kernel']) + u64(d['user']))


@kind('load_image')
def _(op, d, is64, fill, log):
    return Built(op, dtext(d['path']), '', [('Image Base', d['base']), ('Image Size', d['size'])],
                 pv(d['base'], is64) + u32(d['size']) + dinfo(d['path']) + fill(2) + dbytes(d['path']))


@kind('process_start')
def _(op, d, is64, fill, log):
    env = b'\0\0'.join(w(s) for s in d['env']) + b'\0\0' * d['end']
    raw = u32(d['ppid']) + dinfo(d['cmd']) + dinfo(d['cwd']) + u32(len(env) // 2) + dbytes(d['cmd']) + \
        dbytes(d['cwd']) + env + fill(d.get('pad', 0))
    return Built(op, '', '', [('Parent PID', d['ppid']), ('Command line', dtext(d['cmd'])),
                              ('Current directory', dtext(d['cwd'])), ('Environment', multisz_text(d['env']))], raw)


@kind('opaque')      # Thread Profile, System Statistics, Profiling class: only the common fields are documented
def _(op, d, is64, fill, log):
    return Built(op, '', '', [], fill(d['n']), know_details=False)


@kind('net')
def _(op, d, is64, fill, log):
    flags = (1 if d['s4'] else 0) | (2 if d['d4'] else 0) | (4 if d['tcp'] else 0) | (d['hi'] & 0xfff8)
    src, dst = bytes.fromhex(d['sip']), bytes.fromhex(d['dip'])
    tail = b'\0\0'.join(w(s) for kv in d['kv'] for s in kv) + b'\0\0' * (d['end'] if d['kv'] else 2)
    raw = u16(flags) + fill(2) + u32(d['len']) + src + dst + u16(d['sport']) + u16(d['dport']) + tail
    path = '%s:%s -> %s:%s' % (log.host(src, d['s4']), log.port(d['sport'], d['tcp']),
                               log.host(dst, d['d4']), log.port(d['dport'], d['tcp']))
    return Built(('TCP ' if d['tcp'] else 'UDP ') + op, path, '',
                 [('Length', d['len'])] + [(scrub(k), scrub(v)) for k, v in d['kv']], raw)


REG_CATEGORY = {'RegCloseKey': '', 'RegFlushKey': '', 'RegUnloadKey': '', 'RegDeleteKey': 'Write',
                'RegDeleteValue': 'Write', 'RegQueryMultipleValueKey': 'Read', 'RegSetKeySecurity': 'Write Metadata',
                'RegQueryKeySecurity': 'Read Metadata'}


@kind('reg_plain')
def _(op, d, is64, fill, log):
    raw = dinfo(d['path']) + dbytes(d['path'])
    return Built(op, dtext(d['path']), REG_CATEGORY[op], [], raw)


@kind('reg_load')
def _(op, d, is64, fill, log):
    raw = dinfo(d['path']) + dinfo(d['new']) + dbytes(d['path']) + dbytes(d['new'])
    if op == 'RegLoadKey':
        return Built(op, dtext(d['path']), '', [('Hive Path', dtext(d['new']))], raw)
    return Built(op, dtext(d['path']), 'Write', [('New Name', dtext(d['new']))], raw)


@kind('reg_open')
def _(op, d, is64, fill, log):
    raw = dinfo(d['path']) + fill(2) + u32(d['access']) + dbytes(d['path'])
    extra = None
    details = []
    category = 'Read'
    if d['access']:
        text = reg_access(d['access'])
        details.append(('Desired Access', text))
        if d['ext']:
            granted, disp = d['ext']
            if text == 'Maximum Allowed':
                details.append(('Granted Access', reg_access(granted)))
            if disp in (1, 2):
                details.append(('Disposition', {1: 'REG_CREATED_NEW_KEY', 2: 'REG_OPENED_EXISTING_KEY'}[disp]))
            if disp == 1:
                category = 'Write'
    if d['ext']:
        extra = u32(d['ext'][0]) + u32(d['ext'][1])
    return Built(op, dtext(d['path']), category, details, raw, extra)


KEY_FIELDS = {       # key information class -> its fields, in structure order
    'Name': [('Name', 'lname')],
    'HandleTags': [('HandleTags', 4)],
    'Flags': [('UserFlags', 4)],
    'Cached': [('LastWriteTime', 8), ('TitleIndex', 4), ('SubKeys', 4), ('MaxNameLen', 4), ('Values', 4),
               ('MaxValueNameLen', 4), ('MaxValueDataLen', 4)],
    'Basic': [('LastWriteTime', 8), ('TitleIndex', 4), ('Name', 'lname')],
    'Full': [('LastWriteTime', 8), ('TitleIndex', 4), ('ClassOffset', 4), ('ClassLength', 4), ('SubKeys', 4),
             ('MaxNameLen', 4), ('MaxClassLen', 4), ('Values', 4), ('MaxValueNameLen', 4), ('MaxValueDataLen', 4)],
    'Node': [('LastWriteTime', 8), ('TitleIndex', 4), ('ClassOffset', 4), ('ClassLength', 4), ('Name', 'lname')],
    'Virtualization': [], 'Trust': [], 'Layer': [],
}


@kind('reg_key')     # RegQueryKey / RegEnumKey
def _(op, d, is64, fill, log):
    enum = op == 'RegEnumKey'
    raw = dinfo(d['path']) + fill(2) + u32(d['length']) + (u32(d['index']) if enum else b'') + u32(d['cls']) + \
        dbytes(d['path'])
    name = KEYCLASS.get(d['cls'])
    details = [('Index', d['index'])] if enum else [('Query', name or '<Unknown: %d>' % d['cls'])]
    extra = None
    if not d['ext']:
        details.append(('Length', d['length']))
    else:
        extra = b''
        values = d['vals']
        for i, (key, how) in enumerate(KEY_FIELDS.get(name, [])):
            if how == 'lname':
                extra += u32(len(w(d['name']))) + w(d['name'])
                details.append((key, scrub(d['name'])))
            elif how == 8:
                extra += u64(values[i])
                details.append((key, values[i]))
            else:
                extra += u32(values[i] & 0xffffffff)
                details.append((key, values[i] & 0xffffffff))
        extra += fill(d.get('pad', 0))
    return Built(op, dtext(d['path']), 'Read', details, raw, extra)


@kind('reg_value')   # RegQueryValue / RegEnumValue
def _(op, d, is64, fill, log):
    enum = op == 'RegEnumValue'
    raw = dinfo(d['path']) + fill(2) + u32(d['length']) + (u32(d['index']) if enum else b'') + u32(d['cls']) + \
        dbytes(d['path'])
    details = [('Index', d['index'])] if enum else []
    extra = None
    known = d['cls'] in (0, 1, 2)
    more = d.get('more', 0)              # the value's own size can exceed what was captured
    if not d['ext']:
        details.append(('Length', d['length']))
    else:
        data = regdata_bytes(d['data'])
        more = more if data else 0
        typ = regtype_text(d['data']['t'])
        extra = fill(4) + u32(d['data']['t'])
        if d['cls'] == 0:
            details.append(('Type', typ))
            extra += u32(len(w(d['name']))) + w(d['name'])
        else:
            if d['cls'] == 1:
                nb = w(d['name'])
                off = 20 + len(nb) + d['gap']
                extra += u32(off) + u32(len(data) + more) + u32(len(nb)) + nb + fill(d['gap'])
                details.append(('Name', scrub(d['name'])))
            else:
                extra += u32(len(data) + more)
            extra += data
            details += [('Type', typ), ('Length', len(data) + more)]
            if data:
                details.append(('Data', regdata_value(d['data'])))
    return Built(op, dtext(d['path']), 'Read', details, raw, extra, know_details=known or not d['ext'])


@kind('reg_setinfo')
def _(op, d, is64, fill, log):
    cls = d['cls']
    data = {0: lambda: u64(d['v']), 1: lambda: u32(d['v'] & 0xffffffff),
            5: lambda: u32(d['v'] & 0xffffffff)}.get(cls, lambda: fill(4))() if d['has'] else b''
    raw = dinfo(d['path']) + fill(2) + u32(cls) + fill(4) + u16(len(data)) + fill(2) + dbytes(d['path']) + data
    details = [('KeySetInformationClass', SETINFO.get(cls, '<Unknown: %d>' % cls)), ('Length', len(data))]
    if data and cls == 0:
        details.append(('LastWriteTime', d['v']))
    elif data and cls == 1:
        details.append(('Wow64Flags', d['v'] & 0xffffffff))
    elif data and cls == 5:
        details.append(('HandleTags', d['v'] & 0xffffffff))
    return Built(op, dtext(d['path']), 'Write Metadata', details, raw)


@kind('reg_setvalue')
def _(op, d, is64, fill, log):
    data = regdata_bytes(d['data'])
    length = len(data) + d['more']       # the value's own size; the captured data may be shorter
    raw = dinfo(d['path']) + fill(2) + u32(d['data']['t']) + u32(length) + u32(len(data)) + dbytes(d['path']) + data
    details = [('Type', regtype_text(d['data']['t'])), ('Length', length)]
    if data and d['data']['t'] in REGTYPE:
        details.append(('Data', regdata_value(d['data'])))
    return Built(op, dtext(d['path']), 'Write', details, raw)


@kind('fs_create')
def _(op, d, is64, fill, log):
    sid = bytes.fromhex(d['sid'])
    dispopt = (d['disp'] << 24) | d['opts']
    raw = fs_frame(d, is64, fill, [
        (0x10, 0x14, u32(dispopt)), (0x14, 0x1c, u16(d['attr']) + u16(d['share'])), (0x24, 0x34, u32(d['alloc']))],
        d['path'], u32(d['access']) + u8(len(sid)) + fill(3) + sid)
    name = DISPOSITION.get(d['disp'], '<unknown>')
    details = [('Desired Access', fs_access(d['access'])), ('Disposition', name),
               ('Options', ', '.join(mask_names(d['opts'], T.CREATE_OPTIONS))),
               ('Attributes', attributes_text(d['attr'])), ('ShareMode', share_text(d['share'])),
               ('AllocationSize',
                d['alloc'] if name in ('Supersede', 'Create', 'OpenIf', 'OverwriteIf') else 'n/a')]
    if sid:
        details.append(('Impersonating', sid_text(sid)))
    extra = None
    result = None
    if d['result'] is not None:
        extra = u32(d['result'])
        result = OPENRESULT.get(d['result'], '<unknown>')
        details.append(('OpenResult', result))
    if result in ('Superseded', 'Created', 'Overwritten'):
        category = 'Write'
    elif result in ('Opened', 'Exists', 'DoesNotExist'):
        category = ''
    else:       # not known whether something was created: decided by what was asked for
        category = '' if name in ('Open', '<unknown>') else 'Write'
    return Built(op, dtext(d['path']), category, details, raw, extra)


@kind('fs_rw')
def _(op, d, is64, fill, log):
    flags = d['flags']
    raw = fs_frame(d, is64, fill, [(4, 4, u32(flags)), (0xc, 0xc, u32(d['length'])), (0x14, 0x1c, s64(d['offset']))],
                   d['path'])
    details = [('Offset', d['offset']), ('Length', d['length'] if d['real'] is None else d['real'])]
    io = flags & 0xe000ff
    if io:
        details.append(('I/O Flags', ', '.join(mask_names(io, T.IO_FLAGS))))
    prio = flags >> 17 & 7
    if prio:
        details.append(('Priority', PRIORITY.get(prio, '0x%x' % prio)))
    return Built(op, dtext(d['path']), 'Read' if op == 'ReadFile' else 'Write', details, raw,
                 None if d['real'] is None else u32(d['real']))


IOCTL_CATEGORY = {}
for _n in ('FSCTL_OFFLOAD_READ FSCTL_GET_REPARSE_POINT FSCTL_READ_RAW_ENCRYPTED').split():
    IOCTL_CATEGORY[_n] = 'Read'
for _n in ('FSCTL_OFFLOAD_WRITE FSCTL_MOVE_FILE FSCTL_DELETE_REPARSE_POINT FSCTL_WRITE_RAW_ENCRYPTED '
           'FSCTL_PIPE_TRANSCEIVE FSCTL_PIPE_INTERNAL_TRANSCEIVE').split():
    IOCTL_CATEGORY[_n] = 'Write'
for _n in ('FSCTL_SET_COMPRESSION FSCTL_WRITE_PROPERTY_DATA FSCTL_SET_OBJECT_ID FSCTL_DELETE_OBJECT_ID '
           'FSCTL_SET_REPARSE_POINT FSCTL_SET_SPARSE FSCTL_SET_ENCRYPTION FSCTL_CREATE_USN_JOURNAL '
           'FSCTL_WRITE_USN_CLOSE_RECORD FSCTL_EXTEND_VOLUME FSCTL_DELETE_USN_JOURNAL').split():
    IOCTL_CATEGORY[_n] = 'Write Metadata'
for _n in ('FSCTL_QUERY_RETRIEVAL_POINTERS FSCTL_GET_COMPRESSION FSCTL_QUERY_FAT_BPB FSCTL_FILESYSTEM_GET_STATISTICS '
           'FSCTL_GET_NTFS_VOLUME_DATA FSCTL_GET_NTFS_FILE_RECORD FSCTL_GET_VOLUME_BITMAP '
           'FSCTL_GET_RETRIEVAL_POINTERS FSCTL_IS_VOLUME_DIRTY FSCTL_READ_PROPERTY_DATA FSCTL_FIND_FILES_BY_SID '
           'FSCTL_GET_OBJECT_ID FSCTL_READ_USN_JOURNAL FSCTL_SET_OBJECT_ID_EXTENDED FSCTL_CREATE_OR_GET_OBJECT_ID '
           'FSCTL_READ_FILE_USN_DATA FSCTL_QUERY_USN_JOURNAL').split():
    IOCTL_CATEGORY[_n] = 'Read Metadata'


@kind('fs_ioctl')
def _(op, d, is64, fill, log):
    code = d['code']
    name = ioctl_text(code)
    details = [('Control', name)]
    after = b''
    if op == 'FileSystemControl':
        if name == 'FSCTL_PIPE_INTERNAL_WRITE':
            details.append(('Length', d['wlen']))
        elif name == 'FSCTL_PIPE_INTERNAL_READ':
            details.append(('Length', d['rlen']))
        elif name in ('FSCTL_PIPE_TRANSCEIVE', 'FSCTL_PIPE_INTERNAL_TRANSCEIVE'):
            details += [('WriteLength', d['wlen']), ('ReadLength', d['rlen'])]
        elif name == 'FSCTL_OFFLOAD_READ':      # FSCTL_OFFLOAD_READ_INPUT: 4 dwords, FileOffset, CopyLength
            after = fill(16) + s64(d['off']) + u64(d['clen'])
            details += [('Offset', d['off']), ('Length', d['clen'])]
        elif name == 'FSCTL_OFFLOAD_WRITE':     # FSCTL_OFFLOAD_WRITE_INPUT: 2 dwords, FileOffset, CopyLength, ...
            after = fill(8) + s64(d['off']) + u64(d['clen']) + fill(8 + 512)
            details += [('Offset', d['off']), ('Length', d['clen'])]
    raw = fs_frame(d, is64, fill, [(8, 8, u32(d['wlen'])), (0xc, 0xc, u32(d['rlen'])), (0x14, 0x1c, u32(code))],
                   d['path'], after)
    return Built(op, dtext(d['path']), IOCTL_CATEGORY.get(name, ''), details, raw,
                 fill(d['xn']) if d.get('xn') is not None else None)


@kind('fs_querydir')
def _(op, d, is64, fill, log):
    raw = fs_frame(d, is64, fill, [(0x14, 0x1c, u32(d['cls']))], d['path'], dinfo(d['filter']) + dbytes(d['filter']))
    base, filt = dtext(d['path']), dtext(d['filter'])
    details = []
    path = base
    if filt:
        path = base + filt if base.endswith('\\') else base + '\\' + filt
        details.append(('Filter', filt))
    details.append(('FileInformationClass', FILECLASS.get(d['cls'], '<unknown>')))
    extra = None
    loose = None
    if d['list'] is not None:
        if d['cls'] in LISTING_FIXED:
            data, starts, ends = listing_bytes(d['cls'], d['list'], d['align'], fill)
            cut = min(65535, len(data))
            if d['cut'] is not None:
                cut = min(cut, d['cut'])
            extra = data[:cut]
            n0 = 1 if filt else 0
            for i, name in enumerate(d['list']):
                if ends[i] <= cut:
                    details.append((str(n0 + i), scrub(name)))
                else:
                    loose = str(n0 + i)     # the record the capture cut through may or may not be listed
                    break
        else:
            extra = fill(len(d['list']) * 10)
    return Built('QueryDirectory', path, 'Read Metadata', details, raw, extra, base_path=base, loose=loose)


@kind('fs_notify')
def _(op, d, is64, fill, log):
    raw = fs_frame(d, is64, fill, [(0x10, 0x14, u32(d['mask']))], d['path'])
    return Built('NotifyChangeDirectory', dtext(d['path']), 'Read Metadata',
                 [('Filter', ', '.join(mask_names(d['mask'], T.NOTIFY_FLAGS)))], raw)


PAGE = [(2, 'PAGE_READONLY'), (4, 'PAGE_READWRITE'), (8, 'PAGE_WRITECOPY'), (0x10, 'PAGE_EXECUTE'),
        (0x20, 'PAGE_EXECUTE_READ'), (0x40, 'PAGE_EXECUTE_READWRITE')]


@kind('fs_mapping')
def _(op, d, is64, fill, log):
    raw = fs_frame(d, is64, fill, [(0xc, 0xc, u32(d['sync']) + u32(d['prot']))], d['path'])
    details = [('SyncType', {0: 'SyncTypeOther', 1: 'SyncTypeCreateSection'}.get(d['sync'],
                                                                                 'Unknown: 0x%x' % d['sync']))]
    for bit, name in PAGE:
        if d['prot'] & bit:
            details.append(('PageProtection', name + ('|PAGE_NOCACHE' if d['prot'] & 0x200 else '')))
            break
    return Built(op, dtext(d['path']), '', details, raw)


@kind('fs_setdisp')
def _(op, d, is64, fill, log):
    raw = fs_frame(d, is64, fill, [], d['path'], u8(d['delete']) + fill(3))
    return Built('SetDispositionInformationFile', dtext(d['path']), 'Write' if d['delete'] else '',
                 [('Delete', 'True' if d['delete'] else 'False')], raw)


@kind('fs_meta')     # QueryIdInformation, QueryRemoteProtocolInformation
def _(op, d, is64, fill, log):
    return Built(fs_opname(op, d['sub']), dtext(d['path']), 'Read Metadata', [],
                 fs_frame(d, is64, fill, [], d['path']))


@kind('fs_plain')    # every other file-system operation: name and path are documented, the details are not
def _(op, d, is64, fill, log):
    return Built(fs_opname(op, d['sub']), dtext(d['path']), '', [],
                 fs_frame(d, is64, fill, [], d['path'], fill(d.get('n', 0))),
                 None if d.get('xn') is None else fill(d['xn']), know_details=False)


def build(ev, is64, log):
    """Built for one event spec."""
    d = ev['d']
    if ev['kind'] == 'thread_exit':
        d = dict(d, _tid=ev['tid'])
    b = KINDS[ev['kind']](ev['op'], d, is64, Fill(ev['fill']), log)
    if b.extra is None and ev.get('xtra') is not None and ev['kind'] not in READS_EXTRA:
        b.extra = bytes.fromhex(ev['xtra'])     # an extra structure that nothing of this operation's details is in
    return b


READS_EXTRA = {'reg_open', 'reg_key', 'reg_value', 'fs_create', 'fs_rw', 'fs_querydir'}


CLASS_OF_KIND = {'proc_created': 1, 'proc_exit': 1, 'thread_create': 1, 'thread_exit': 1, 'load_image': 1,
                 'process_start': 1, 'net': 5}


def class_of(ev):
    if ev['kind'] == 'opaque':
        return ev['cls']
    if ev['kind'].startswith('reg_'):
        return 2
    if ev['kind'].startswith('fs_'):
        return 3
    return CLASS_OF_KIND[ev['kind']]


def op_code(ev):
    return OPS[(class_of(ev), ev['op'])]


def host_text(raw, v4):
    if v4:
        return '.'.join(str(b) for b in raw[:4])
    return ':'.join('%x' % (raw[2 * i] * 256 + raw[2 * i + 1]) for i in range(8))


