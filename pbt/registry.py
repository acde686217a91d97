"""id -> check."""


def get(cid):
    from . import core
    import importlib
    for mod in ('checks_pmc', 'checks_log', 'checks_event', 'checks_csv', 'checks_more', 'checks_env', 'checks_fault', 'checks_res', 'checks_obj'):
        try:
            m = importlib.import_module('pbt.' + mod)
        except ModuleNotFoundError as e:
            if e.name != 'pbt.' + mod:
                raise
            continue
        c = getattr(m, cid, None)
        if isinstance(c, type) and issubclass(c, core.Check) and c.id == cid:
            return c()
    raise SystemExit('unknown property %r' % cid)
