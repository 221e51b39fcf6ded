"""Minimal stand-ins for the third party modules which are not installed."""
import sys
import types


def mod(name, **kw):
    m = sys.modules.get(name)
    if m is None:
        m = types.ModuleType(name)
        sys.modules[name] = m
        if '.' in name:
            parent, child = name.rsplit('.', 1)
            if parent == 'openquake':
                import openquake
                setattr(openquake, child, m)
            else:
                setattr(mod(parent), child, m)
    for k, v in kw.items():
        setattr(m, k, v)
    return m


def almost(a, b, decimal=7):
    assert abs(b - a) < 1.5 * 10 ** -decimal, '%s != %s' % (a, b)


mod('numpy', array=list)
mod('numpy.testing', assert_almost_equal=almost)


class Process(object):
    rss = 0

    def __init__(self, pid):
        self.pid = pid

    def get_memory_info(self):
        Process.rss += 1024
        return Process


class AccessDenied(Exception):
    pass


class Usage(object):
    percent = 1

mod('psutil', Process=Process, AccessDenied=AccessDenied,
    phymem_usage=lambda: Usage)


class Future(object):
    def __init__(self, value):
        self.value = value

    def result(self):
        return self.value


class Pool(object):
    def submit(self, func, *args):
        return Future(func(*args))

mod('concurrent')
mod('concurrent.futures', ProcessPoolExecutor=Pool,
    as_completed=lambda futures: reversed(list(futures)))


class Anything(object):
    """Base for classes which are only named"""
    def __init__(self, *args, **kw):
        self.args = args
        self.__dict__.update(kw)
