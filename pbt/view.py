"""Reading logs with the library and comparing what it returns with the model."""
import io
import os

from . import events as E
from . import pml
from .core import expect, pp, same, short, sut
from .prim import scrub

PROC_ATTRS = [('pid', 'pid'), ('parent_pid', 'ppid'), ('authentication_id', 'auth'), ('session', 'session'), ('virtualized', 'virt'),
              ('start_time', 'start'), ('end_time', 'end')]


def open_reader(raw, what='opening the log', **kw):
    with sut(what):
        return pp.ProcmonLogsReader(io.BytesIO(raw) if isinstance(raw, bytes) else raw, **kw)


def read_one(reader, i, what='reading event'):
    with sut('%s %d' % (what, i)):
        return reader[i]


def z(s):
    return scrub(s.split('\0')[0])


def cmp_module(what, m, spec):
    for a, k in (('base_address', 'base'), ('size', 'size'), ('timestamp', 'ts')):
        same('%s %s' % (what, a), getattr(m, a), spec[k])
    for a in pml.MOD_KEYS:
        same('%s %s' % (what, a), getattr(m, a), z(spec[a]))


def cmp_process(what, p, spec, modules=True):
    for a, k in PROC_ATTRS:
        same('%s %s' % (what, a), getattr(p, a), spec[k])
    same(what + ' is_process_64bit', p.is_process_64bit, bool(spec['p64']))
    for a in pml.STR_KEYS:
        same('%s %s' % (what, a), getattr(p, a), z(spec[a]))
    if modules:
        same(what + ' number of modules', len(p.modules), len(spec['mods']))
        for i, (m, ms) in enumerate(zip(p.modules, spec['mods'])):
            cmp_module('%s module %d' % (what, i), m, ms)


def proc_key(spec):
    return [spec[k] for _, k in PROC_ATTRS] + [bool(spec['p64'])] + [z(spec[k]) for k in pml.STR_KEYS] + \
        [[m['base'], m['size'], m['ts']] + [z(m[k]) for k in pml.MOD_KEYS] for m in spec['mods']]


def proc_key_of(p):
    return [getattr(p, a) for a, _ in PROC_ATTRS] + [p.is_process_64bit] + [getattr(p, a) for a in pml.STR_KEYS] + \
        [[m.base_address, m.size, m.timestamp] + [getattr(m, a) for a in pml.MOD_KEYS] for m in p.modules]


def cmp_common(what, ev, spec, log, stack=True, process=True):
    if process:
        cmp_process(what + ' process', ev.process, log.proc(spec['proc']), modules=False)
    same(what + ' tid', ev.tid, spec['tid'])
    cls = E.class_of(spec)
    expect(int(ev.event_class) == cls and ev.event_class.name == E.CLASS_NAMES[cls], '%s class: got %r, expected %s', what, ev.event_class,
           E.CLASS_NAMES[cls])
    same(what + ' duration', ev.duration, spec['dur'])
    same(what + ' date', ev.date_filetime, spec['date'])
    same(what + ' result', ev.result, spec['res'])
    if stack:
        expect(list(ev.stacktrace) == spec['stack'], '%s stack trace: got %s, expected %s', what, short(ev.stacktrace), short(spec['stack']))


def cmp_details(what, ev, b):
    got = list(ev.details.items())
    if b.loose is not None and len(got) == len(b.details) + 1 and got and got[-1][0] == b.loose:
        got = got[:-1]
    if got != b.details or any(type(x[1]) is not type(y[1]) for x, y in zip(got, b.details)):
        for x, y in zip(got, b.details):
            if x != y or type(x[1]) is not type(y[1]):
                expect(False, '%s details: got %s: %s, expected %s: %s', what, x[0], short(x[1]), y[0], short(y[1]))
        expect(False, '%s details: got keys %s, expected %s', what, short([k for k, _ in got]), short([k for k, _ in b.details]))


def cmp_naming(what, ev, b):
    same(what + ' operation', ev.operation, b.operation)
    same(what + ' path', ev.path, b.path)


def cmp_content(what, ev, b):
    """Operation, path, category and details (the last two only where the details are documented)."""
    cmp_naming(what, ev, b)
    if b.know_details:
        same(what + ' category', ev.category, b.category)
        cmp_details(what, ev, b)


def cmp_event(what, ev, spec, log):
    cmp_common(what, ev, spec, log)
    cmp_content(what, ev, log.built(spec))


def snap(ev):
    """Everything observable of an event, as plain comparable data."""
    return (proc_key_of(ev.process), ev.tid, int(ev.event_class), ev.operation, ev.duration, ev.date_filetime, ev.result, list(ev.stacktrace),
            ev.category, ev.path, [(k, list(v) if isinstance(v, list) else v) for k, v in ev.details.items()])
