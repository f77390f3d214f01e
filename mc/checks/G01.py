"""G01: settings keep the last value set; saved ones survive restarts, failures and crashes."""
import configparser
import errno
import itertools
import os
import resource
import shutil
import signal
import sqlite3
import sys
import nimble
from nimble.core.configuration import SessionConfiguration, loadSettings
from mc.core import SCRATCH

PROPERTY = 'G01'
LEVEL = 'model_checking'
RULE = ('every sequence up to the depth of set, setDefault, saveChanges (all forms, possible and refused), get, changes to the returned dicts, hooks and restarts, on one '
        'session and on two sessions sharing the file, compared with a model of (file, session changes); every save of every history of depth 2 is repeated with a '
        'crash and with a write error after every byte and before every file operation; logging destinations follow every sequence of settings')
ASSUMPTIONS = ['section and option names are plain words, values are single lines without surrounding white space (INI format)',
               'a crash loses nothing already written; renaming is atomic']

ERR = configparser.Error
VALS = {'pct': '50%', 'int': '%(x)s', 'punct': 'a=b ; #c: [d] é', 'empty': '', 'five': 5}

OPS = [('set', 'A', 'x', '1'), ('set', 'A', 'x', '2'), ('set', 'A', 'Y', VALS['pct']), ('set', 'B', 'x', VALS['int']), ('set', 'B', 'x', VALS['five']),
       ('def', 'A', 'x', '2'), ('def', 'B', 'Y', VALS['punct']), ('def', 'B', 'x', VALS['empty']),
       ('save', None, None), ('save', 'A', None), ('save', 'A', 'x'), ('save', 'B', 'x'), ('save', None, 'x'),
       ('vandal', None), ('vandal', 'A'), ('reload',), ('refused', 'nimble', 'foo', 'v'), ('refused', 'sklearn', 'foo', 'v')]
INITIAL = [{}, {'A': {'x': '0', 'y': 'low'}, 'C': {'q': '7'}}, {'B': {'x': '5', 'Y': 'k'}}]
SECTIONS = [(s, o) for s in 'ABC' for o in ('x', 'Y', 'y', 'q')]


def plain(d):
    return {s: dict(o) for s, o in d.items() if o}


class Model:
    def __init__(self, base):
        self.base = {s: dict(o) for s, o in base.items()}
        self.changes = {}
        self.heard = []

    def value(self, s, o):
        return self.changes.get((s, o), self.base.get(s, {}).get(o, KeyError))

    def all(self):
        out = {s: dict(o) for s, o in self.base.items()}
        for (s, o), v in self.changes.items():
            out.setdefault(s, {})[o] = v
        return plain(out)

    def set(self, s, o, v):
        self.changes[(s, o)] = v
        self.heard.append((s, o, v))

    def selected(self, s, o):
        return [k for k in self.changes if (s is None or k[0] == s) and (o is None or k[1] == o)]

    def save(self, s, o):
        for k in self.selected(s, o):
            self.base.setdefault(k[0], {})[k[1]] = str(self.changes.pop(k))


def write(path, d):
    with open(path, 'w', encoding='utf-8') as f:
        for s, o in d.items():
            f.write('[%s]\n' % s)
            for k, v in o.items():
                f.write('%s = %s\n' % (k, v))


def fresh(path):
    """what the next session finds"""
    return plain(SessionConfiguration(path).get())


def open_session(path, heard):
    conf = SessionConfiguration(path)
    for s, o in (('A', 'x'), ('A', 'Y'), ('B', 'x'), ('B', 'Y')):
        conf.hook(s, o, listener(heard, s, o))
    return conf


def listener(heard, s, o):
    return lambda v: heard.append((s, o, v))


def compare(rec, what, conf, m):
    rec.step()
    want = m.all()
    got = plain(conf.get())
    if got != want:
        rec.violation('settings|' + what, '%r not %r' % (got, want))
    for s in 'ABC':
        try:
            g = dict(conf.get(s))
        except ERR:
            g = {}
        if g != want.get(s, {}):
            rec.violation('section|%s|%s' % (s, what), '%r not %r' % (g, want.get(s)))
    for s, o in SECTIONS:
        try:
            g = conf.get(s, o)
        except ERR:
            g = KeyError
        if g != m.value(s, o):
            rec.violation('option|%s.%s|%s' % (s, o, what), '%r not %r' % (g, m.value(s, o)))
    text, sec = {}, None
    for line in str(conf).split('\n'):
        if line.startswith('['):
            sec = text.setdefault(line[1:-1], {})
        elif line.strip():
            k, v = (line + ' ').split(' = ', 1)
            sec[k] = v.strip()
    shown = {s: {o: str(v) for o, v in d.items()} for s, d in want.items()}
    if text != shown:
        rec.violation('text|' + what, '%r not %r' % (text, shown))


def apply(rec, what, conf, m, op, path):
    """runs one operation; returns the session to go on with, or None to stop"""
    kind = op[0]
    before = fresh(path)
    if kind == 'reload':
        m.changes = {}
        conf = open_session(path, m.got)
        return conf
    if kind == 'vandal':
        d = conf.get() if op[1] is None else None
        if op[1] is not None:
            try:
                d = {op[1]: conf.get(op[1])}
            except ERR:
                d = {}
        for s in list(d):
            for o in list(d[s]):
                d[s][o] = 'changed by the user'
            d[s]['new'] = 'v'
        return conf
    if kind == 'refused':
        try:
            conf.set(*op[1:])
            rec.violation('not refused|' + what)
        except Exception:
            rec.rejected += 1
        return conf
    if kind == 'set':
        conf.set(*op[1:])
        m.set(*op[1:])
        return conf
    if kind == 'def':
        conf.setDefault(*op[1:])
        m.set(*op[1:])
        m.save(op[1], op[2])
        return conf
    s, o = op[1:]
    try:
        conf.saveChanges(s, o)
        ok = True
    except Exception as e:
        ok = False
        err = e
    if s is None and o is not None:
        if ok:
            rec.violation('not refused|' + what)
        else:
            rec.rejected += 1
        return conf
    if not ok:
        if all(isinstance(m.changes[k], str) for k in m.selected(s, o)):
            rec.violation('save fails|' + what, repr(err))
            return None
        rec.rejected += 1
        if fresh(path) != before:
            rec.violation('refused save changed the file|' + what)
        return conf
    m.save(s, o)
    return conf


def tasks(tier):
    out = []
    for i in range(len(INITIAL)):
        for first in range(len(OPS)):
            out.append(['history', i, first, 3 if tier == 'quick' else 4])
        for k, op in enumerate(OPS):
            if op[0] in ('save', 'def'):
                out.append(['crash', i, k, 2 if tier == 'quick' else 3])
    for first in range(len(PAIR)):
        out.append(['pair', first, 4 if tier == 'quick' else 5])
    for first in range(len(LOGOPS)):
        out.append(['logs', first, 3 if tier == 'quick' else 4])
    out.append(['load'])
    return out


def run_task(task, rec):
    globals()['t_' + task[0]](rec, *task[1:])
    rec.trace()


def ini():
    d = os.path.join(SCRATCH, 'g%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    return os.path.join(d, 'conf.ini')


def start(path, init):
    write(path, init)
    m = Model(init)
    m.got = []
    return open_session(path, m.got), m


def t_history(rec, i, first, depth):
    path = ini()
    for rest in itertools.product(range(len(OPS)), repeat=depth - 1):
        conf, m = start(path, INITIAL[i])
        what = '%d' % i
        for k in (first,) + rest:
            what += ' ' + repr(OPS[k])
            conf = apply(rec, what, conf, m, OPS[k], path)
            if conf is None:
                break
            if m.got != m.heard:
                rec.violation('hooks|' + what, '%r not %r' % (m.got, m.heard))
                break
            rec.state((repr(m.base), repr(m.changes)))
        else:
            compare(rec, what, conf, m)
            if fresh(path) != plain(m.base):
                rec.violation('file|' + what, '%r not %r' % (fresh(path), m.base))
            rec.outcome(repr((m.base, m.changes)))


# crashes

class Crash(BaseException):
    pass


ARMED = [None]


def audit(event, args):
    if ARMED[0] is None or event not in ('open', 'os.rename', 'os.remove', 'os.truncate', 'os.link', 'os.symlink'):
        return
    if event == 'open':
        mode, flags = args[1], args[2]
        if not (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
            return
    if ARMED[0] == 0:
        os._exit(77)
    ARMED[0] -= 1


HOOKED = []


def child(fn):
    """runs fn in a forked process; returns its exit status or the signal (negative)"""
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            code = fn()
        except BaseException:
            code = 98
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    return -os.WTERMSIG(status) if os.WIFSIGNALED(status) else os.WEXITSTATUS(status)


def t_crash(rec, i, last, depth):
    """every distinct state (file, session) reached by the histories, then a save interrupted everywhere"""
    path = ini()
    if not HOOKED:
        sys.addaudithook(audit)
        HOOKED.append(1)
    seen = set()
    for n in range(depth + 1):
        for seq in itertools.product([k for k, op in enumerate(OPS) if op[0] in ('set', 'def', 'save', 'reload')], repeat=n):
            conf, m = start(path, INITIAL[i])
            what = 'crash %d' % i
            quiet = Quiet()
            for k in seq:
                what += ' ' + repr(OPS[k])
                conf = apply(quiet, what, conf, m, OPS[k], path)
                if conf is None:
                    break
            state = (repr(sorted(m.base.items())), repr(sorted(m.changes.items())))
            if conf is None or state in seen:
                continue
            seen.add(state)
            op = OPS[last]
            what += ' ' + repr(op)
            old = fresh(path)
            session = plain(conf.get())
            with open(path, 'rb') as f:
                content = f.read()

            def restore():
                for f in os.listdir(os.path.dirname(path)):
                    os.remove(os.path.join(os.path.dirname(path), f))
                with open(path, 'wb') as f:
                    f.write(content)

            def run():
                if op[0] == 'def':
                    conf.setDefault(*op[1:])
                else:
                    conf.saveChanges(*op[1:])
            if child(lambda: (run(), 0)[1]) != 0:
                continue        # a refused save
            new = fresh(path)
            size = max(os.path.getsize(os.path.join(os.path.dirname(path), f)) for f in os.listdir(os.path.dirname(path)))
            if new == old:
                continue

            def look(where):
                rec.step()
                try:
                    got = fresh(path)
                except Exception as e:
                    rec.violation('unreadable|%s|%s' % (where, what), repr(e))
                    return
                if got not in (old, new):
                    rec.violation('torn|%s|%s' % (where, what), '%r is neither %r nor %r' % (got, old, new))
                rec.outcome((where.split()[0], got == new))

            # before every file operation
            n = 0
            while True:
                restore()

                def op_crash():
                    ARMED[0] = n
                    run()
                    return 0
                status = child(op_crash)
                look('operation %d' % n)
                rec.state((what, 'op', n))
                if status != 77:
                    break
                n += 1
            if n == 0:
                rec.violation('no file operation seen|' + what)
            # after every byte
            for limit in range(0, size + 1):
                restore()

                def byte_crash():
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    run()
                    return 0
                status = child(byte_crash)
                look('byte %d' % limit)
                rec.state((what, 'byte', limit))
                if limit % 5 and limit not in (size, size - 1) and depth == 2:
                    continue
                restore()

                def byte_error():
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
                    try:
                        run()
                        failed = False
                    except OSError as e:
                        failed = True
                    resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
                    if not failed:
                        return 0
                    after = plain(conf.get())
                    if op[0] == 'def':
                        session.setdefault(op[1], {})[op[2]] = op[3]
                    if after != session:
                        return 11
                    if fresh(path) != old:
                        return 12
                    run()
                    if fresh(path) != new:
                        return 13
                    return 1
                status = child(byte_error)
                rec.step()
                if status not in (0, 1):
                    rec.violation('failed save %s|byte %d|%s' % ({11: 'changed the session', 12: 'changed the file', 13: 'cannot be repeated'}.get(
                        status, status), limit, what))
                else:
                    rec.rejected += status


class Quiet:
    rejected = 0

    def violation(self, *a):
        pass

    step = violation


# two sessions

PAIR = [(k,) + op for k in (0, 1) for op in [('set', 'A', 'x', '1%d' % k), ('def', 'A', 'x', '2%d' % k), ('def', 'B', 'y%d' % k, '3'), ('save', None, None),
                                             ('save', 'A', None), ('reload',)]]


def t_pair(rec, first, depth):
    path = ini()
    for rest in itertools.product(range(len(PAIR)), repeat=depth - 1):
        seq = (first,) + rest
        write(path, {'A': {'x': '0'}, 'C': {'q': '1'}})
        disk = Model({'A': {'x': '0'}, 'C': {'q': '1'}})
        confs = [SessionConfiguration(path), SessionConfiguration(path)]
        pend = [{}, {}]
        what = 'two sessions'
        for k in seq:
            who, kind, *args = PAIR[k]
            what += ' %d:%s%r' % (who, kind, tuple(args))
            if kind == 'set':
                confs[who].set(*args)
                pend[who][tuple(args[:2])] = args[2]
            elif kind == 'def':
                confs[who].setDefault(*args)
                pend[who].pop(tuple(args[:2]), None)
                disk.base.setdefault(args[0], {})[args[1]] = args[2]
            elif kind == 'save':
                confs[who].saveChanges(*args)
                for key in list(pend[who]):
                    if args[0] in (None, key[0]):
                        disk.base.setdefault(key[0], {})[key[1]] = pend[who].pop(key)
            else:
                confs[who] = SessionConfiguration(path)
                pend[who] = {}
            for w in (0, 1):
                for key, v in pend[w].items():
                    if confs[w].get(*key) != v:
                        rec.violation('own change lost|' + what, '%r %r' % (key, v))
            rec.step()
            rec.state(repr((disk.base, pend)))
        if fresh(path) != plain(disk.base):
            rec.violation('saved settings lost|' + what, '%r not %r' % (fresh(path), disk.base))


# the destination of log entries

LOGOPS = [('set', 'location', 'P'), ('set', 'location', 'Q'), ('set', 'name', 'm'), ('set', 'name', 'n'), ('def', 'location', 'Q'), ('def', 'name', 'n'),
          ('set', 'enabledByDefault', 'True'), ('set', 'enabledByDefault', 'False'), ('save',), ('log',), ('data',)]


def entries(base):
    out = {}
    for loc in 'PQ':
        for name in 'mn':
            p = os.path.join(base, loc, name + '.db')
            if os.path.exists(p):
                c = sqlite3.connect(p)
                n = c.execute('select count(*) from logger').fetchone()[0]
                c.close()
                if n:
                    out[(loc, name)] = n
    return out


def t_logs(rec, first, depth):
    path = ini()
    base = os.path.join(SCRATCH, 'gl%d' % os.getpid())
    saved = nimble.settings, nimble.core.logger.active
    try:
        for rest in itertools.product(range(len(LOGOPS)), repeat=depth - 1):
            shutil.rmtree(base, ignore_errors=True)
            write(path, {'logger': {'location': os.path.join(base, 'P'), 'name': 'm', 'enabledByDefault': 'True', 'enableDeepLogging': 'False'}})
            nimble.settings = SessionConfiguration(path)
            nimble.core.logger.initLoggerAndLogConfig()
            cur = {'location': 'P', 'name': 'm', 'enabledByDefault': 'True'}
            want = {}
            what = 'logs'
            for k in (first,) + rest + (9, 10):
                op = LOGOPS[k]
                what += ' ' + repr(op)
                if op[0] in ('set', 'def'):
                    v = os.path.join(base, op[2]) if op[1] == 'location' else op[2]
                    (nimble.settings.set if op[0] == 'set' else nimble.settings.setDefault)('logger', op[1], v)
                    cur[op[1]] = op[2]
                elif op[0] == 'save':
                    nimble.settings.saveChanges()
                else:
                    if op[0] == 'log':
                        nimble.log('h', 'text')
                    else:
                        nimble.data([[1]])
                    if op[0] == 'log' or cur['enabledByDefault'] == 'True':
                        key = (cur['location'], cur['name'])
                        want[key] = want.get(key, 0) + 1
                rec.step()
            got = entries(base)
            if got != want:
                rec.violation('destination|' + what, '%r not %r' % (got, want))
            rec.state(repr((cur, want)))
            nimble.core.logger.active.cleanup()
    finally:
        nimble.core.logger.active.cleanup()
        nimble.settings, nimble.core.logger.active = saved
        shutil.rmtree(base, ignore_errors=True)


def t_load(rec):
    """which file a session uses, and that starting it keeps what is there"""
    base = os.path.join(SCRATCH, 'gh%d' % os.getpid())
    old_home, old_cwd = os.environ.get('HOME'), os.getcwd()
    try:
        for here, home, same in itertools.product([None, {}, {'A': {'x': '1'}}, {'fetch': {'location': '/f'}}], [None, {}, {'A': {'x': '2'}}, {'fetch': {'location': '/g'}}], [0, 1]):
            shutil.rmtree(base, ignore_errors=True)
            h, c = os.path.join(base, 'home'), os.path.join(base, 'cwd')
            if same:
                c = h
                if here != home:
                    continue
            os.makedirs(h)
            os.makedirs(c, exist_ok=True)
            if home is not None:
                write(os.path.join(h, '.nimble.ini'), home)
            if here is not None:
                write(os.path.join(c, '.nimble.ini'), here)
            os.environ['HOME'] = h
            os.chdir(c)
            src = here if here is not None else (home or {})
            used = os.path.join(c if here is not None else h, '.nimble.ini')
            want = {s: dict(o) for s, o in src.items()}
            want.setdefault('fetch', {}).setdefault('location', h)
            what = 'load %r %r %d' % (here, home, same)
            for n in (1, 2):
                conf = loadSettings()
                rec.step()
                if plain(conf.get()) != want:
                    rec.violation('loaded|' + what, '%r not %r' % (conf.get(), want))
                if fresh(used) != want:
                    rec.violation('loaded file|' + what)
            conf.setDefault('A', 'x', '9')
            want.setdefault('A', {})['x'] = '9'
            if plain(loadSettings().get()) != want:
                rec.violation('restart|' + what)
            if here is not None and home is not None and not same and fresh(os.path.join(h, '.nimble.ini')) != plain(home):
                rec.violation('other file changed|' + what)
            rec.state(what)
    finally:
        os.chdir(old_cwd)
        os.environ['HOME'] = old_home
        shutil.rmtree(base, ignore_errors=True)
