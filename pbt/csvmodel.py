"""What Procmon's CSV export shows for an event.  Own calendar arithmetic; imports nothing from the code under test."""
from collections import OrderedDict

from . import events as E

TICK = 10000000
EPOCH_1601_DAYS = 134774        # days from 1601-01-01 to 1970-01-01


def civil(days1601):
    """(year, month, day) of a day number counted from 1601-01-01, by walking the Gregorian 400-year cycle."""
    cycle, d = divmod(days1601, 146097)      # 1601 starts a 400-year cycle
    century = min(d // 36524, 3)
    d -= century * 36524
    four = d // 1461
    d -= four * 1461
    year_in = min(d // 365, 3)
    d -= year_in * 365
    year = 1601 + 400 * cycle + 100 * century + 4 * four + year_in
    leap = year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)
    for month, n in enumerate((31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31), 1):
        if d < n:
            return year, month, d + 1
        d -= n
    raise AssertionError


def parts(filetime):
    """(year, month, day, hour, minute, second, 100 ns ticks)"""
    secs, ticks = divmod(filetime, TICK)
    days, s = divmod(secs, 86400)
    return civil(days) + (s // 3600, s // 60 % 60, s % 60, ticks)


def clock(filetime, fraction):
    _, _, _, h, m, s, ticks = parts(filetime)
    return '%d:%02d:%02d%s %s' % (h % 12 or 12, m, s, '.%07d' % ticks if fraction else '', 'PM' if h >= 12 else 'AM')


def day(filetime):
    y, m, d = parts(filetime)[:3]
    return '%d/%d/%d' % (m, d, y)


def date_time(filetime, fraction=False):
    return day(filetime) + ' ' + clock(filetime, fraction)


def relative(delta):
    secs, ticks = divmod(delta, TICK)
    return '%02d:%02d:%02d.%07d' % (secs // 3600, secs // 60 % 60, secs % 60, ticks)


def seconds(ticks):
    return '%d.%07d' % divmod(ticks, TICK)


def commas(v):
    sign, s = ('-', str(-v)) if v < 0 else ('', str(v))
    out = ''
    while len(s) > 3:
        out = ',' + s[-3:] + out
        s = s[:-3]
    return sign + s + out


HIDDEN = ('TitleIndex', 'MaxNameLen', 'MaxValueNameLen', 'MaxValueDataLen', 'ClassOffset', 'ClassLength', 'MaxClassLen')


def detail(ev, b):
    d = OrderedDict(b.details)
    cls = E.class_of(ev)
    op = b.operation
    out = []
    for k, v in d.items():
        if cls == 1 and op == 'Load_Image' and k in ('Image Base', 'Image Size'):
            v = '0x%x' % v
        elif cls == 1 and op == 'Thread_Exit' and k in ('User Time', 'Kernel Time'):
            v = seconds(v)
        elif cls == 1 and op == 'Process_Start' and k == 'Environment':
            v = ''.join('\n;\t' + x for x in v)
        elif cls == 1 and op == 'Process_Exit':
            if k == 'Exit Status':
                v = v - (1 << 32) if v >> 31 else v
            else:
                v = seconds(v) + ' seconds' if k.endswith('Time') else commas(v)
        elif cls == 2:
            if k in HIDDEN or k == 'LastWriteTime' and op != 'RegSetInfoKey':
                continue
            if k == 'Name' and (op == 'RegQueryValue' or op == 'RegQueryKey' and d['Query'] == 'Name'):
                continue
            if k == 'LastWriteTime':
                v = date_time(v)
            elif k in ('Length', 'SubKeys', 'Values', 'Index'):
                v = commas(v)
            elif k in ('HandleTags', 'UserFlags', 'Wow64Flags'):
                v = '0x%x' % v
            elif k == 'Data':
                t = d['Type']
                if t == 'REG_BINARY':
                    v = ' '.join('%02X' % x for x in v)
                elif t == 'REG_QWORD':
                    v = ''
                elif t == 'REG_MULTI_SZ':
                    v = ', '.join(v)
                elif isinstance(v, str):
                    v = v.replace('\r\n', '\n;')
        elif cls == 3 and k in ('AllocationSize', 'Offset', 'Length') and isinstance(v, int):
            v = commas(v)
        out.append('%s: %s' % (k, v))
    return ', '.join(out)


def operation(ev, b):
    if b.operation.endswith(' <Unknown>'):
        return '<Unknown>'
    return b.operation.replace('_', ' ') if E.class_of(ev) == 1 else b.operation


def result(code):
    return E.RESULT.get(code, '0x%X' % code)
