"""Access to the log of the running session, and forcing of useLog at the outermost calls."""
import contextlib
import functools
import inspect
import io
import os
import re
import sqlite3
import nimble
from nimble.core.data import Base
from mc.core import SCRATCH

_connect = sqlite3.connect


def quick_sqlite():
    """commits need not reach the disk in a check"""
    def connect(*a, **k):
        c = _connect(*a, **k)
        c.execute('pragma synchronous=off')
        c.execute('pragma journal_mode=memory')
        return c
    sqlite3.connect = connect


def use_new_log(name='log'):
    loc = os.path.join(SCRATCH, 'logs%d' % os.getpid())
    nimble.settings.set('logger', 'location', loc)
    nimble.settings.set('logger', 'name', name)
    p = os.path.join(loc, name + '.db')
    nimble.core.logger.active.cleanup()
    if os.path.exists(p):
        os.remove(p)
    nimble.settings.set('logger', 'location', loc + '/')
    nimble.settings.set('logger', 'location', loc)
    return p


class Counter:
    """number of entries in the log file, read through a connection of its own"""
    def __init__(self, path):
        self.path = path
        self.con = None

    def count(self):
        if self.con is None:
            if not os.path.exists(self.path):
                return 0
            self.con = _connect(self.path)
        try:
            return self.con.execute('select count(*) from logger').fetchone()[0]
        except sqlite3.OperationalError:
            return 0


def shown(**kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        nimble.showLog(**kw)
    return out.getvalue()


DOTS = '.' * 79
SESSION = re.compile(r'^\.\s*SESSION (\d+)\s*\.$')


def blocks(text, append=False):
    """[(session, entry text)] and the session headings of the output of showLog"""
    out, session, heads = [], None, []
    parts = text.split(DOTS)
    for part in parts:
        lines = part.split('\n')
        keep = []
        for line in lines:
            m = SESSION.match(line)
            if m:
                session = int(m.group(1))
                heads.append(session)
            else:
                keep.append(line)
        body = '\n'.join(keep).strip('\n')
        if body.strip() and body.strip() != 'NIMBLE LOGS':
            out.append((session, body))
    return out, heads


# forcing useLog at the outermost calls

class Forced:
    depth = 0
    calls = []
    value = None
    on = False


def _wrap(fn, label):
    @functools.wraps(fn)
    def outer(*a, **k):
        if Forced.on and Forced.depth == 0:
            k.pop('useLog', None)
            if Forced.value is not None:
                k['useLog'] = Forced.value
            Forced.depth += 1
            try:
                ret = fn(*a, **k)
            finally:
                Forced.depth -= 1
            Forced.calls.append((label, a[0] if a else None, ret))
            return ret
        Forced.depth += 1
        try:
            return fn(*a, **k)
        finally:
            Forced.depth -= 1
    outer.__mc__ = True
    return outer


def install():
    """wraps every public method with a useLog parameter on the concrete classes"""
    todo = []
    for rtype in ('List', 'Matrix', 'DataFrame', 'Sparse'):
        o = nimble.data([[1, 2], [3, 4]], returnType=rtype, useLog=False)
        v = o.view()
        for x in (o, v, o.points, o.features, v.points, v.features):
            if type(x) not in todo:
                todo.append(type(x))
    for cls in todo:
        for name in dir(cls):
            if name.startswith('_'):
                continue
            fn = inspect.getattr_static(cls, name)
            if not inspect.isfunction(fn) or getattr(fn, '__mc__', False):
                continue
            if 'useLog' in inspect.signature(fn).parameters:
                setattr(cls, name, _wrap(fn, name))
    for name in ('data',):
        pass


@contextlib.contextmanager
def forced(value):
    Forced.calls, Forced.value, Forced.on, Forced.depth = [], value, True, 0
    try:
        yield Forced.calls
    finally:
        Forced.on = False


def is_data(x):
    return isinstance(x, Base)
