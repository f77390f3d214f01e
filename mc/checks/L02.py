"""L02: the log keeps every entry, and showLog shows exactly the entries asked for."""
import datetime
import itertools
import os
import re
import sqlite3
import threading
import nimble
from nimble.core.logger.session_logger import SessionLogger
from mc.core import SCRATCH
from mc.logs import quick_sqlite, shown, blocks, _connect
from mc.model import Tab
from mc.obs import build

PROPERTY = 'L02'
LEVEL = 'model_checking'
RULE = ('every log built from up to the stated number of entries of every kind over up to 3 sessions, every combination of the parameters of showLog (levels, sessions, '
        'dates as text and datetime at and around every entry, limits, texts and patterns), printed or saved (every sequence of 3 saves): the entries shown are those of the '
        'model; every interleaving of the database steps of two sessions, (for the shortest histories; up to 2 preemptions, thorough 4, for the others), and a crash before every one: no entry is lost and sessions never share a number')
ASSUMPTIONS = ['texts searched for are single lines without quotes and backslashes; case is not considered for ASCII letters',
               'a limit on the entries may be applied before or after the level of detail']

TIMES = ['2021-03-01 00:00:00', '2021-03-01 12:30:00', '2021-03-02 00:00:00', '2021-03-05 08:00:30']
LEVELS = {'load': 1, 'tl': 1, 'report': 1, 'prep': 2, 'run': 2, 'deepRun': 3, 'tuning': 2, 'setSeed': 1}


def tasks(tier):
    out = []
    n = 4 if tier == 'thorough' else 3
    for first in KINDS:
        for second in KINDS:
            out.append(['query', first, second, n])
    for name in TEXTS:
        out.append(['text', name])
    for i in range(4):
        out.append(['save', i])
    for p in range(len(PROGRAMS)):
        for before in (0, 1):
            out.append(['schedules', p, before, 99 if p == 0 else 4 if tier == 'thorough' else 2])
    out += [['crash', k] for k in range(3)]
    out += [['content', r] for r in ('List', 'Matrix', 'DataFrame', 'Sparse')]
    return out


READY = []


def run_task(task, rec):
    if not READY:
        quick_sqlite()
        READY.append(1)
    loc = os.path.join(SCRATCH, 'log2_%d' % os.getpid())
    os.makedirs(loc, exist_ok=True)
    for f in os.listdir(loc):
        os.remove(os.path.join(loc, f))
    nimble.settings.set('logger', 'location', loc)
    nimble.settings.set('logger', 'name', 'lg')
    nimble.settings.set('logger', 'enabledByDefault', 'False')
    nimble.settings.set('logger', 'enableDeepLogging', 'False')
    try:
        globals()['t_' + task[0]](rec, loc, *task[1:])
    finally:
        nimble.core.logger.active.cleanup()
    rec.trace()


# ---------------------------------------------------------------- entries

def obj():
    o = build(Tab([[3, 1], [1, 2], [2, 0]], ['a', 'b', 'c'], ['x', 'y']), 'List')
    o.name = 'thing'
    return o


def k_load():
    nimble.data([[1, 2]], name='loaded', useLog=True)


def k_prep():
    obj().points.sort('x', useLog=True)


def k_user():
    nimble.log('heading_1', 'some text 50% done')


def k_dict():
    nimble.log('Zheading', {'key': 1, 'other': [2, 'x1']})


def k_run():
    o = obj()
    nimble.train('nimble.RidgeRegression', o, 'y', useLog=True)


def k_deep():
    nimble.settings.set('logger', 'enableDeepLogging', 'True')
    o = obj()
    nimble.trainAndTestOnTrainingData('nimble.RidgeRegression', nimble.calculate.rootMeanSquareError, o, 'y', crossValidationFolds=3, useLog=True)
    nimble.settings.set('logger', 'enableDeepLogging', 'False')


def k_seed():
    nimble.random.setSeed(5, useLog=True)


KINDS = {'load': k_load, 'prep': k_prep, 'user': k_user, 'dict': k_dict, 'run': k_run, 'deep': k_deep, 'seed': k_seed}


def fresh(loc):
    nimble.core.logger.active.cleanup()
    p = os.path.join(loc, 'lg.db')
    if os.path.exists(p):
        os.remove(p)
    nimble.core.logger.active = SessionLogger(loc, 'lg')
    return p


def new_session(loc):
    nimble.core.logger.active.cleanup()
    nimble.core.logger.active = SessionLogger(loc, 'lg')


def rows(path):
    con = _connect(path)
    try:
        return con.execute('select timestamp, sessionNumber, logType, logInfo from logger order by entry').fetchall()
    finally:
        con.close()


class Log:
    """the model: rows and the text each is shown as"""
    def __init__(self, rec, loc, path, what, times=True):
        con = _connect(path)
        n = [e for e, in con.execute('select entry from logger order by entry')]
        if times:
            for i, e in enumerate(n):
                con.execute('update logger set timestamp=? where entry=?', (TIMES[i * len(TIMES) // len(n)], e))
            con.commit()
        con.close()
        self.rows = rows(path)
        self.what = what
        self.shown, heads = blocks(shown(levelOfDetail=3, leastSessionsAgo=None, mostSessionsAgo=None, maximumEntries=None))
        self.ok = True
        if [s for s, _ in self.shown] != [r[1] for r in self.rows]:
            rec.violation('all|' + what, 'sessions %r not %r' % ([s for s, _ in self.shown], [r[1] for r in self.rows]))
            self.ok = False
            return
        for r, (s, text) in zip(self.rows, self.shown):
            if r[0] not in text:
                rec.violation('timestamp|' + what, text)

    def expected(self, level=2, least=0, most=1, start=None, end=None, limit=100, search=None, regex=False):
        last = max(r[1] for r in self.rows)
        out = []
        for r, s in zip(self.rows, self.shown):
            if least is not None and not r[1] <= last - least:
                continue
            if most is not None and not r[1] > last - most:
                continue
            t = datetime.datetime.fromisoformat(r[0])
            if start is not None and t < when(start):
                continue
            if end is not None and t > when(end):
                continue
            if search is not None:
                if regex:
                    if not (re.search(search, r[2]) or re.search(search, r[3])):
                        continue
                elif lower(search) not in lower(r[2]) and lower(search) not in lower(r[3]):
                    continue
            out.append((r, s))
        lv = [(r, s) for r, s in out if level >= LEVELS.get(r[2], 1)]
        if limit is None:
            return [[s for r, s in lv]]
        cut = out[max(0, len(out) - limit):]
        return [[s for r, s in cut if level >= LEVELS.get(r[2], 1)], [s for r, s in lv[max(0, len(lv) - limit):]]]

    def check(self, rec, **q):
        kw = {'levelOfDetail': q.get('level', 2), 'leastSessionsAgo': q.get('least', 0), 'mostSessionsAgo': q.get('most', 1), 'startDate': q.get('start'), 'endDate': q.get('end'),
              'maximumEntries': q.get('limit', 100), 'searchForText': q.get('search'), 'regex': q.get('regex', False)}
        rec.step()
        name = '%s|%r' % (self.what, sorted(q.items(), key=str))
        try:
            got, _ = blocks(shown(**kw))
        except Exception as e:
            rec.violation('fails|' + name, repr(e))
            return
        want = self.expected(**q)
        rec.outcome(len(got))
        if got not in want:
            rec.violation('entries|' + name, 'shown\n%s\nnot\n%s' % (brief(got), brief(want[0])))


def brief(b):
    return '\n'.join('%s %s' % (s, t.split('\n')[0][:100]) for s, t in b)


def lower(s):
    return ''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in s)


def when(x):
    return x if isinstance(x, datetime.datetime) else datetime.datetime.fromisoformat(x.strip())


def dates():
    out = [None]
    for t in TIMES:
        d = datetime.datetime.fromisoformat(t)
        out += [d, t, t[:16], t[:10], d - datetime.timedelta(seconds=1), str(d + datetime.timedelta(seconds=1))]
    return list(dict.fromkeys(out))


def t_query(rec, loc, first, second, n):
    """every log of n entries starting with the two, with every division into sessions"""
    for rest in itertools.product(['user', 'prep', 'deep'] if n == 3 else list(KINDS), repeat=n - 2):
        for cuts in itertools.product((0, 1), repeat=n - 1):
            kinds = (first, second) + rest
            path = fresh(loc)
            for i, k in enumerate(kinds):
                if i and cuts[i - 1]:
                    new_session(loc)
                KINDS[k]()
            log = Log(rec, loc, path, '%s %s' % (kinds, cuts))
            rec.state(log.what)
            if not log.ok:
                continue
            per = [r[1] for r in log.rows]
            if len(set(per)) != sum(cuts) + 1 or per != sorted(per):
                rec.violation('sessions|' + log.what, per)
            limits = (0, 1, 2, 3, 100, None)
            sess = [(l, m) for l in (None, 0, 1, 2) for m in (None, 0, 1, 2, 3) if not (l is not None and m is not None and m < l)]
            for (l, m), level, limit in itertools.product(sess, (1, 2, 3), limits):
                log.check(rec, least=l, most=m, level=level, limit=limit)
            if sum(cuts) in (0, 1):
                for search, regex in (('heading_1', False), ('THING', False), ('x', False), ('user', False), ('50%', False), ('nowhere', False), ('h.*1', True), ('^prep$|^load$', True), ('', False)):
                    for (l, m), limit in itertools.product([(None, None), (0, 1), (1, 2)], (1, 2, None)):
                        log.check(rec, search=search, regex=regex, least=l, most=m, limit=limit, level=3)
            if rest[0] == 'user' and cuts[-1] == 1 and sum(cuts) == 1:
                ds = dates()
                for s, e in itertools.product(ds, ds):
                    if s is not None and e is not None and when(s) > when(e):
                        try:
                            shown(startDate=s, endDate=e)
                            rec.violation('dates in the wrong order|%r %r' % (s, e))
                        except Exception:
                            rec.rejected += 1
                        continue
                    log.check(rec, start=s, end=e, least=None, most=None, level=3)


TEXTS = {
    'percent': '100% sure', 'underscore': 'a_b', 'plain': 'axb', 'caps': 'MixedCase', 'accent': 'éà ü', 'regexchars': '[a+b]*(c)', 'number': '1.50', 'list': '[1, 2]', 'dict': "{x: 1}",
    'none': 'None', 'long': 'word ' * 60, 'hash': '# comment', 'star': '*?', 'empty': '', 'true': 'True', 'huge': 'abcdefghij' * 30, 'minus': '-1', 'escape': 'a!b^c', 'nul': 'a ESCAPE b',
    'semicolon': "x; DROP TABLE logger; --", 'question': '? and ?1', 'colon': 'a:b @c $d',
}
VALUES = [lambda t: t, lambda t: [t], lambda t: [1, t, 'end'], lambda t: {'k': t}, lambda t: {t: 'v'}, lambda t: {'n': {'m': t}}, lambda t: ['item %d' % i for i in range(40)] + [t],
          lambda t: {'f%d' % i: i * 1.5 for i in range(30)}, lambda t: [float('nan'), t], lambda t: {'o': len, 'k': t}, lambda t: [None, True, -0.5, 10 ** 20, t], lambda t: [[], {}, (), t]]


def squeeze(s):
    return ''.join(s.split())


def t_text(rec, loc, name):
    text = TEXTS[name]
    others = [v for k, v in TEXTS.items()]
    path = fresh(loc)
    entries = []
    for v in VALUES:
        entries.append(('h', v(text)))
    if len(text) <= 50:
        entries.append((text, 'about'))
    for o in others:
        entries.append(('o', o))
    for h, v in entries:
        nimble.log(h, v)
    log = Log(rec, loc, path, 'text ' + name)
    if not log.ok:
        return
    for (h, v), (s, shown_) in zip(entries, log.shown):
        rec.step()
        parts = [v] if isinstance(v, str) else [str(x) for x in v] if isinstance(v, list) else [str(x) for kv in v.items() for x in kv]
        for p in parts + ['User - ' + h]:
            if squeeze(str(p)) not in squeeze(shown_):
                rec.violation('user entry|%s|%r %r' % (name, h, str(v)[:60]), 'does not show %r:\n%s' % (p[:200], shown_[:600]))
    for t in [text] + [x for x in others if len(x) < 40]:
        for part in {t, t[:2], t[-2:], t.upper(), t[1:-1]}:
            for limit in (None, 2):
                log.check(rec, search=part, least=None, most=None, limit=limit, level=3)
    for pat in (re.escape(text), '^User - h', '\\d{2}', '[%_]', text[:1] + '.+' if text[:1].isalpha() else '.'):
        log.check(rec, search=pat, regex=True, least=None, most=None, limit=None, level=3)
    for bad in ('(', '['):
        try:
            shown(searchForText=bad, regex=True)
            rec.violation('pattern accepted|' + bad)
        except Exception:
            rec.rejected += 1


def t_save(rec, loc, part):
    """files written by every sequence of 3 saves"""
    path = fresh(loc)
    for i, k in enumerate(KINDS):
        if i in (2, 5):
            new_session(loc)
        KINDS[k]()
    log = Log(rec, loc, path, 'save')
    if not log.ok:
        return
    qs = [dict(level=3, least=None, most=None), dict(level=1), dict(search='nowhere'), dict(level=2, most=None, limit=2)]
    choices = [(q, app, f) for q in range(4) for app in (False, True) for f in ('f1', 'f2')]
    for seq in itertools.product(choices, repeat=3):
        if seq[0][0] != part or seq[0][2] != 'f1':
            continue
        for f in ('f1', 'f2'):
            p = os.path.join(loc, f)
            if os.path.exists(p):
                os.remove(p)
        content = {}
        for q, app, f in seq:
            rec.step()
            out = shown(**{{'level': 'levelOfDetail', 'least': 'leastSessionsAgo', 'most': 'mostSessionsAgo', 'search': 'searchForText', 'limit': 'maximumEntries'}[k]: v for k, v in qs[q].items()},
                        saveToFileName=f, append=app)
            if out:
                rec.violation('prints|%r' % (seq,), out)
            content[f] = (content.get(f, []) if app else []) + log.expected(**qs[q])[0]
        for f in ('f1', 'f2'):
            p = os.path.join(loc, f)
            got = blocks(open(p, encoding='utf-8').read())[0] if os.path.exists(p) else None
            if got != content.get(f):
                rec.violation('file|%r %s' % (seq, f), 'has %s\nnot %s' % (got and brief(got), content.get(f) and brief(content[f])))
        rec.state(seq)
    for f in os.listdir(loc):
        if f not in ('f1', 'f2', 'lg.db') and not f.startswith('lg.db'):
            rec.violation('other file|' + f)


# ---------------------------------------------------------------- what an entry says

def t_content(rec, loc, rtype):
    rmse = nimble.calculate.rootMeanSquareError
    for named, y, seed, args in itertools.product((True, False), ('obj', 'name'), (None, 0, 5), ({}, {'lamb': 0.5})):
        for fn in ('train', 'trainAndApply', 'trainAndTest', 'onTraining'):
            path = fresh(loc)
            x = build(Tab([[3, 1, 2], [1, 2, 1], [2, 0, 5], [4, 4, 4]], None, ['x', 'y', 'z']), rtype)
            l = build(Tab([[1], [2], [3], [5]]), rtype)
            tx = build(Tab([[3, 1, 2], [1, 2, 1]] if y == 'obj' else [[3, 1], [1, 2]]), rtype)
            ty = build(Tab([[1], [2]]), rtype)
            if named:
                for o, n in ((x, 'objX'), (l, 'objY'), (tx, 'testXq'), (ty, 'testYq')):
                    o.name = n
            lab = l if y == 'obj' else 'y'
            k = dict(arguments=args, randomSeed=seed, useLog=True)
            L = 'nimble.RidgeRegression'
            nimble.random.setSeed(1, useLog=False)
            rec.step()
            data = [('objX', 'trainX', x.shape if y == 'obj' else (4, 2)), ('objY' if y == 'obj' else None, 'trainY', (4, 1))]
            perf = None
            if fn == 'train':
                nimble.train(L, x, lab, **k)
            elif fn == 'trainAndApply':
                nimble.trainAndApply(L, x, lab, tx, **k)
                data.append(('testXq', 'testX', tx.shape))
            elif fn == 'trainAndTest':
                perf = nimble.trainAndTest(L, rmse, x, lab, tx, ty, **k)
                data += [('testXq', 'testX', tx.shape), ('testYq', 'testY', (2, 1))]
            else:
                perf = nimble.trainAndTestOnTrainingData(L, rmse, x, lab, **k)
            text = blocks(shown())[0]
            what = 'content|%s %s named=%s %s seed=%r %r' % (fn, rtype, named, y, seed, args)
            if len(text) != 1:
                rec.violation(what, '%d entries' % len(text))
                continue
            text = text[0][1]
            want = [fn + '(' if fn != 'onTraining' else 'trainAndTestOnTrainingData(', 'RidgeRegression']
            want += ['lamb=0.5'] if args else []
            want += ['RandomSeed:%d' % seed] if seed is not None else []
            want += ['rootMeanSquareError=%s' % perf] if perf is not None else []
            for name, default, shape in data:
                nm = (name or '\\w+') if named else default
                if y != 'obj' and default == 'trainY' or not named:
                    nm = '[\\w.]+'
                if not re.search('%s%d%d' % (nm, shape[0], shape[1]), squeeze(text)):
                    rec.violation(what, 'no %s of %s\n%s' % (nm, shape, text))
            for w in want:
                if w not in squeeze(text):
                    rec.violation(what, 'no %s\n%s' % (w, text))
            rec.state(what)


# ---------------------------------------------------------------- two sessions

class Blocked(Exception):
    pass


SCHED = threading.local()


def point():
    s = getattr(SCHED, 'me', None)
    if s is not None:
        s.wait()


def retried(fn, *a):
    point()
    while True:
        try:
            return fn(*a)
        except sqlite3.OperationalError as e:
            if 'locked' not in str(e) or getattr(SCHED, 'me', None) is None:
                raise
            SCHED.me.blocked()


class Cur(sqlite3.Cursor):
    def execute(self, *a):
        return retried(super().execute, *a)


class Con(sqlite3.Connection):
    def cursor(self, *a):
        return super().cursor(Cur)

    def commit(self):
        return retried(super().commit)

    def execute(self, *a):
        return self.cursor().execute(*a)


class Thread(threading.Thread):
    def __init__(self, fn):
        super().__init__(daemon=True)
        self.fn = fn
        self.go = threading.Semaphore(0)
        self.at = threading.Semaphore(0)
        self.done = False
        self.stuck = False
        self.error = None
        self.steps = 0

    def run(self):
        SCHED.me = self
        self.go.acquire()
        try:
            self.fn()
        except Exception as e:
            self.error = e
        SCHED.me = None
        self.done = True
        self.at.release()

    def wait(self):
        self.at.release()
        self.go.acquire()

    def blocked(self):
        self.stuck = True
        self.at.release()
        self.go.acquire()

    def step(self):
        self.stuck = False
        self.steps += 1
        self.go.release()
        self.at.acquire()


PROGRAMS = [('l', 'l'), ('sl', 'l'), ('sl', 'sl'), ('ll', 'l'), ('ll', 'll'), ('sll', 'sl'), ('lcl', 'l'), ('l', 'sll'), ('lcl', 'sl'), ('s', 'll')]


def t_schedules(rec, loc, p, before, bound):
    """every interleaving (up to the bound on preemptions) of the database steps of two sessions: s shows, l logs, c closes and starts another session"""
    progs = PROGRAMS[p]
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        taken, choices = play(rec, loc, progs, before, prefix)
        n += 1
        for i in range(len(prefix), len(choices)):
            for alt in choices[i]:
                if alt != taken[i] and preemptions(taken[:i] + [alt], choices) <= bound:
                    stack.append(taken[:i] + [alt])
    rec.count('schedules', n)


def preemptions(taken, choices):
    return sum(1 for i in range(1, len(taken)) if taken[i] != taken[i - 1] and taken[i - 1] in choices[i])


def play(rec, loc, progs, before, prefix):
    path = os.path.join(loc, 'two.db')
    for f in os.listdir(loc):
        if f.startswith('two.db'):
            os.remove(os.path.join(loc, f))
    if before:
        s = SessionLogger(loc, 'two')
        s.log('old', 'x')
        s.cleanup()
    done = [[], []]
    loggers = [[], []]

    def program(i):
        def run():
            s = SessionLogger(loc, 'two')
            loggers[i].append(s)
            sess = 0
            for j, c in enumerate(progs[i]):
                if c == 's':
                    if not s.isAvailable:
                        s.setup()
                    s.extractFromLog('select count(*) from logger')
                elif c == 'l':
                    s.log('e', '%d.%d.%d' % (i, sess, j))
                    done[i].append((sess, '%d.%d.%d' % (i, sess, j)))
                else:
                    s.cleanup()
                    sess += 1
                    s = SessionLogger(loc, 'two')
                    loggers[i].append(s)
        return run
    old = sqlite3.connect
    sqlite3.connect = lambda f, *a, **k: _connect(f, timeout=0, factory=Con, check_same_thread=False)
    threads = [Thread(program(i)) for i in (0, 1)]
    for t in threads:
        t.start()
    taken, choices = [], []
    name = '%r %d ' % (progs, before)
    try:
        while not all(t.done for t in threads):
            en = [i for i, t in enumerate(threads) if not t.done and not t.stuck]
            if not en:
                # nothing else can move: a real connection would wait and fail
                rec.violation('blocked|%s%s' % (name, taken))
                return taken, choices
            i = prefix[len(taken)] if len(taken) < len(prefix) else taken[-1] if taken else en[0]
            if i not in en:
                i = en[0]
            choices.append(en)
            taken.append(i)
            other = threads[1 - i]
            was = other.stuck
            threads[i].step()
            rec.step()
            if was and not threads[i].stuck:
                other.stuck = False
    finally:
        sqlite3.connect = old
    rec.outcome(tuple(taken))
    for t in threads:
        if t.error is not None:
            rec.violation('error|%s%s' % (name, taken), repr(t.error))
            return taken, choices
    for ls in loggers:
        for s in ls:
            s.cleanup()
    got = rows(path)
    rec.state((progs, before, tuple(taken)))
    want = [x for d in done for x in d]
    infos = [r[3] for r in got if r[2] == 'e']
    if sorted(infos) != sorted(repr(x[1]) for x in want):
        rec.violation('entries of two sessions|%s%s' % (name, taken), '%r' % (infos,))
        return taken, choices
    nums = {}
    for r in got:
        if r[2] == 'e':
            a, b, _ = eval(r[3]).split('.')
            nums.setdefault((a, b), set()).add(r[1])
    flat = [n for s in nums.values() for n in s]
    if before:
        flat.append(0)
    if any(len(s) != 1 for s in nums.values()) or len(set(flat)) != len(flat):
        rec.violation('session numbers|%s%s' % (name, taken), '%r' % (nums,))
    for i in '01':
        mine = [eval(x) for x in infos if eval(x)[0] == i]
        if mine != [x[1] for x in done[int(i)]]:
            rec.violation('order|%s%s' % (name, taken), mine)
    return taken, choices


def t_crash(rec, loc, k):
    """the process ends before the n-th database step of a session"""
    n = 0
    while True:
        p = os.path.join(loc, 'cr.db')
        for f in os.listdir(loc):
            if f.startswith('cr'):
                os.remove(os.path.join(loc, f))
        if k:
            s = SessionLogger(loc, 'cr')
            for i in range(k):
                s.log('e', 'old%d' % i)
            s.cleanup()
        mark = os.path.join(loc, 'cr.mark')
        pid = os.fork()
        if pid == 0:
            left = [n]

            class Dying:
                def wait(self):
                    if left[0] == 0:
                        os._exit(9)
                    left[0] -= 1

                def blocked(self):
                    os._exit(3)
            try:
                SCHED.me = Dying()
                sqlite3.connect = lambda f, *a, **kk: _connect(f, timeout=0, factory=Con)
                s = SessionLogger(loc, 'cr')
                for i in range(3):
                    s.log('e', 'new%d' % i)
                    with open(mark, 'a') as f:
                        f.write('%d' % i)
            finally:
                os._exit(0)
        _, status = os.waitpid(pid, 0)
        rec.step()
        finished = status == 0
        did = open(mark).read() if os.path.exists(mark) else ''
        s = SessionLogger(loc, 'cr')
        try:
            s.log('e', 'after')
            s.cleanup()
            got = rows(p)
        except Exception as e:
            rec.violation('crash|%d before step %d' % (k, n), repr(e))
            got = None
        if got is not None:
            infos = [eval(r[3]) for r in got]
            least = ['old%d' % i for i in range(k)] + ['new%s' % i for i in did] + ['after']
            more = ['old%d' % i for i in range(k)] + ['new%d' % i for i in range(len(did) + 1)] + ['after']
            if infos not in (least, more):
                rec.violation('crash|%d before step %d' % (k, n), '%r after %r' % (infos, did))
            nums = [r[1] for r in got]
            if len({x for x, i in zip(nums, infos) if i.startswith('new')} & {x for x, i in zip(nums, infos) if not i.startswith('new')}) or nums != sorted(nums):
                rec.violation('crash sessions|%d before step %d' % (k, n), nums)
            rec.state((k, n))
        n += 1
        if finished:
            break
