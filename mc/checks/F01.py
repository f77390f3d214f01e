"""F01: fetched files are whole, at their place below nimbleData, and what the source provides."""
import gzip
import io
import itertools
import os
import posixpath
import resource
import shutil
import signal
import sys
import tarfile
import tempfile
import urllib.parse
import zipfile

import nimble
import requests
from mc.core import SCRATCH

PROPERTY = 'F01'
LEVEL = 'model_checking'
RULE = ('every sequence of up to three (thorough: four) of: fetching any of the urls of a simulated web (plain files, queries, zip, tar, compressed tar, gzip with '
        'and without extension, archives sharing member names, damaged and unsafe archives, links, pages, missing, parent segments), with or without overwriting, the web publishing a new '
        'version, the web becoming unreachable or reachable; and, after every short history, every fetch killed before each of its file operations and at every tested byte of '
        'each file written, or failing there with an error; results and the whole file tree are compared with a model')
ASSUMPTIONS = ['the network is replaced below requests (at its transport adapter), so any use of requests sees the simulated web',
               'a kill leaves the completed file operations in place: reordering by the file system after a power failure is not modelled',
               'a url which is also the directory of another, or the decompressed name of another, is not part of the web']


# ------------------------------------------------------------------ the web
def table(seed, n=3):
    return ('x,y\n' + ''.join('%d,%d\n' % (seed * 10 + i, seed + i * i) for i in range(n))).encode()


def zipped(members):
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w') as z:
        for k, v in members:
            z.writestr(zipfile.ZipInfo(k), v)
    return b.getvalue()


def tarred(members, mode='w'):
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode=mode) as t:
        for k, v in members:
            i = tarfile.TarInfo(k)
            if isinstance(v, tuple):
                i.type, i.linkname = v
                t.addfile(i)
            elif v is None:
                i.type = tarfile.DIRTYPE
                i.mode = 0o755
                t.addfile(i)
            else:
                i.size = len(v)
                t.addfile(i, io.BytesIO(v))
    return b.getvalue()


def gz(b):
    return gzip.compress(b, mtime=0)


def whole(name):
    return lambda s: (table(s), [(name, table(s))])


def archive(name, members, make):
    def f(s):
        m = [(k, g(s)) for k, g in members]
        raw = make(m)
        return raw, [(k, v) for k, v in m if isinstance(v, bytes) and not k.endswith('/')]
    return f


def opaque(name, make):
    """what cannot be taken apart is returned as it is"""
    def f(s):
        raw = make(s)
        return raw, [(name, raw)]
    return f


def tb(k, n=3):
    return lambda s: table(s * 7 + k, n)


def const(v):
    return lambda s: v


# url -> (name of the stored file, version -> (raw content, [(name, content) of the returned files]) )
WEB = {
    'http://web.test/d/plain.csv': whole('plain.csv'),
    'http://www.web.test/d/noext': whole('noext'),
    'http://web.test/get?id=1': lambda s: (table(s + 3), [(None, table(s + 3))]),
    'http://web.test/get?id=2&k=a/b': lambda s: (table(s + 5), [(None, table(s + 5))]),
    'http://web.test/d/one.zip': archive('one.zip', [('data.csv', tb(1)), ('sub/', const(b'')), ('sub/more.csv', tb(2, 40))], lambda m: zipped(m)),
    'http://web.test/d/two.zip': archive('two.zip', [('data.csv', tb(3))], zipped),
    'http://web.test/d/t.tar': archive('t.tar', [('in', const(None)), ('in/t.csv', tb(4, 60)), ('data.csv', tb(5))], tarred),
    'http://web.test/d/c.tar.gz': archive('c.tar.gz', [('c.csv', tb(6))], lambda m: tarred(m, 'w:gz')),
    'http://web.test/d/z.csv.gz': lambda s: (gz(table(s + 20, 30)), [('z.csv', table(s + 20, 30))]),
    'http://web.test/d/packed': lambda s: (gz(table(s + 30)), [('packed', table(s + 30))]),
    'http://web.test/../../../../up.csv': whole('up.csv'),
    'http://web.test/e/unsafe.zip': opaque('unsafe.zip', lambda s: zipped([('../../../../unsafe.csv', table(s))])),
    'http://web.test/e/unsafe.tar': opaque('unsafe.tar', lambda s: tarred([('ok.csv', table(s)), ('/abs.csv', table(s))])),
    'http://web.test/e/damaged.zip': opaque('damaged.zip', lambda s: (lambda z: z[:30] + bytes([z[30 + 12] ^ 255]) + z[31:])(zipped([('d.csv', table(s, 9))]))),
    'http://web.test/e/damaged.tar': opaque('damaged.tar', lambda s: tarred([('d.csv', table(s, 200))])[:700]),
    'http://web.test/e/damaged.gz': opaque('damaged.gz', lambda s: gz(table(s, 50))[:-12]),
    # a link out of the directory and a file below it
    'http://web.test/e/link.tar': lambda s: (tarred([('out', (tarfile.SYMTYPE, '../../../../target')), ('out/x.csv', table(s))]), 'contained'),
    'http://web.test/e/page': None,
    'http://web.test/e/missing.csv': None,
}
URLS = list(WEB)
del WEB['http://web.test/e/missing.csv']
REFUSED = ('http://web.test/e/page', 'http://web.test/e/missing.csv')
CORE = [0, 2, 3, 4, 5, 6, 7, 8, 9]


def key(url):
    u = urllib.parse.urlparse(url)
    return (u.netloc[4:] if u.netloc.startswith('www.') else u.netloc, posixpath.normpath('/' + u.path).replace('//', '/'), u.query)


BYKEY = {key(u): u for u in URLS}
STATE = {'version': 0, 'online': True, 'gets': []}


class Adapter:
    """stands for the transport of requests"""


def send(self, request, **kw):
    if not STATE['online']:
        raise requests.exceptions.ConnectionError('offline')
    url = BYKEY.get(key(request.url))
    r = requests.models.Response()
    r.url, r.request = request.url, request
    r.headers['content-type'] = 'text/csv'
    if url is None or url not in WEB:
        r.status_code, r.reason, body = 404, 'Not Found', b'no'
    elif WEB[url] is None:
        r.status_code, r.reason, body = 200, 'OK', b'<html></html>'
        r.headers['content-type'] = 'text/html'
    else:
        r.status_code, r.reason, body = 200, 'OK', WEB[url](STATE['version'])[0]
    if request.method == 'GET':
        STATE['gets'].append(url)
    r.raw = io.BytesIO(body if request.method == 'GET' else b'')
    return r


requests.adapters.HTTPAdapter.send = send


# ------------------------------------------------------------------ running
def tree(top):
    out = {}
    for root, dirs, files in os.walk(top):
        for f in files + [d for d in dirs if os.path.islink(os.path.join(root, d))]:
            p = os.path.join(root, f)
            out[os.path.relpath(p, top)] = os.readlink(p) if os.path.islink(p) else open(p, 'rb').read()
    return out


def fresh(top):
    for f in os.listdir(top):
        p = os.path.join(top, f)
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.remove(p)
    loc = os.path.join(top, 'a', 'b', 'c', 'loc')
    os.makedirs(loc)
    os.makedirs(os.path.join(top, 'a', 'b', 'c', 'target'))
    with open(os.path.join(loc, 'mine.txt'), 'w') as f:
        f.write('mine')
    return loc


def outside(top):
    """all files which are not in nimbleData"""
    pre = os.path.join('a', 'b', 'c', 'loc', 'nimbleData') + os.sep
    return {k: v for k, v in tree(top).items() if not k.startswith(pre)}


MINE = {os.path.join('a', 'b', 'c', 'loc', 'mine.txt'): b'mine'}


def fetch(url, over):
    """(paths, None) or (None, error)"""
    try:
        return nimble.fetchFiles(url, over) if over else nimble.fetchFiles(url), None
    except Exception as e:  # noqa
        return None, e


def check(rec, what, loc, url, paths, version):
    """the returned files are those of the version"""
    want = WEB[url](version)[1]
    data = os.path.join(loc, 'nimbleData')
    netloc, path, query = key(url)
    home = os.path.join(data, netloc, os.path.dirname(path[1:]))
    real = [os.path.realpath(p) for p in paths]
    if any(not r.startswith(data + os.sep) or not os.path.isfile(r) for r in real):
        rec.violation('place|' + what, 'returned %r' % (paths,))
        return
    if want == 'contained':
        return
    got = []
    for p in paths:
        with open(p, 'rb') as f:
            got.append((os.path.relpath(p, home).replace(os.sep, '/'), f.read()))
    exp = [(got[i][0] if k is None and i < len(got) else k, v) for i, (k, v) in enumerate(want)]
    if sorted(got) != sorted(exp):
        rec.violation('content|' + what, 'returned %r\nexpected %r' % ([(k, v[:60]) for k, v in got], [(k, v[:60]) for k, v in exp]))


OPS = [('fetch', i, o) for i in range(len(URLS)) for o in (False, True)] + [('publish',), ('online',)]


def name(op):
    if op[0] == 'fetch':
        return URLS[op[1]][7:] + (' overwrite' if op[2] else '')
    return op[0]


class Model:
    def __init__(self):
        self.stored = {}
        self.version = 0
        self.online = True

    def sync(self):
        STATE.update(version=self.version, online=self.online)


def apply(rec, what, loc, top, m, op):
    if op[0] == 'publish':
        m.version += 1
        return True
    if op[0] == 'online':
        m.online = not m.online
        return True
    url, over = URLS[op[1]], op[2]
    m.sync()
    STATE['gets'] = []
    before = tree(os.path.join(loc, 'nimbleData'))
    paths, err = fetch(url, over)
    rec.step()
    have = url in m.stored and not over
    if have:
        if STATE['gets']:
            rec.violation('downloaded again|' + what, STATE['gets'])
    elif not m.online or url in REFUSED:
        rec.rejected += 1
        if err is None:
            rec.violation('accepted|' + what, paths)
            return False
        if tree(os.path.join(loc, 'nimbleData')) != before:
            rec.violation('refused but changed|' + what, '')
            return False
        return True
    else:
        m.stored[url] = m.version
    if err is not None:
        rec.violation('fails|' + what, repr(err))
        return False
    check(rec, what, loc, url, paths, m.stored[url])
    if outside(top) != MINE:
        rec.violation('outside|' + what, sorted(outside(top)))
        return False
    rec.outcome(tuple(sorted(os.path.basename(p) for p in paths)))
    return True


def tasks(tier):
    out = []
    n = len(OPS)
    for i in range(n):
        out.append(['sequences', i, 3, tier])
    if tier == 'thorough':
        small = [k for k, op in enumerate(OPS) if op[0] != 'fetch' or op[1] in CORE[1:]]
        for i in small:
            for j in small:
                out.append(['deeper', i, j])
    for i in range(len(URLS)):
        if URLS[i] in REFUSED:
            continue
        for over in (False, True):
            for kind in ('kill', 'torn', 'error'):
                out.append(['crash', i, over, kind, tier])
    out += [['data', i] for i in range(len(URLS))]
    return out


def run_task(task, rec):
    top = os.path.realpath(tempfile.mkdtemp(dir=SCRATCH, prefix='f01'))
    old = nimble.settings.get('fetch', 'location')
    cwd = os.getcwd()
    try:
        os.chdir(top)
        loc = os.path.join(top, 'a', 'b', 'c', 'loc')
        nimble.settings.set('fetch', 'location', loc)
        globals()['t_' + task[0]](rec, top, *task[1:])
    finally:
        os.chdir(cwd)
        nimble.settings.set('fetch', 'location', old)
        shutil.rmtree(top)


def play(rec, top, seq):
    loc = fresh(top)
    m = Model()
    what = ''
    for op in seq:
        what += ('; ' if what else '') + name(op)
        if not apply(rec, what, loc, top, m, op):
            return None
    rec.state((tuple(sorted(m.stored.items())), m.version, m.online))
    rec.trace()
    return m


def useful(seq):
    """a sequence ends with a fetch and does not begin by going offline and online"""
    return seq[-1][0] == 'fetch' and not any(a[0] == b[0] == 'online' for a, b in zip(seq, seq[1:]))


def t_sequences(rec, top, i, depth, tier):
    if OPS[i][0] == 'fetch':
        play(rec, top, [OPS[i]])
    quick = tier == 'quick'
    for j in OPS:
        seq = [OPS[i], j]
        if useful(seq):
            play(rec, top, seq)
        if quick and (OPS[i][0] == 'fetch' and OPS[i][2] or j[0] == 'fetch' and OPS[i][0] == 'fetch' and j[1] not in CORE):
            continue
        for k in OPS:
            seq = [OPS[i], j, k]
            if quick and j[0] == 'fetch' and OPS[i][0] == 'fetch' and k[0] == 'fetch' and k[1] not in (OPS[i][1], j[1], 0, 2):
                continue
            if useful(seq):
                play(rec, top, seq)


def t_deeper(rec, top, i, j):
    small = [op for op in OPS if op[0] != 'fetch' or op[1] in CORE[1:]]
    for k in small:
        for n in small:
            seq = [OPS[i], OPS[j], k, n]
            if useful(seq):
                play(rec, top, seq)


# ------------------------------------------------------------------ faults
ARMED = [None, None]
HOOKED = []


def audit(event, args):
    if ARMED[0] is None or event not in ('open', 'os.rename', 'os.remove', 'os.mkdir', 'os.truncate', 'os.link', 'os.symlink', 'os.utime', 'os.chmod'):
        return
    if event == 'open':
        flags = args[2]
        if not (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
            return
    if ARMED[0] == 0:
        if ARMED[1] == 'error':
            ARMED[0] = None
            raise OSError(28, 'No space left on device')
        os._exit(77)
    ARMED[0] -= 1


def child(fn):
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            code = fn()
        except BaseException:  # noqa
            code = 98
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    return -os.WTERMSIG(status) if os.WIFSIGNALED(status) else os.WEXITSTATUS(status)


def t_crash(rec, top, i, over, kind, tier):
    if not HOOKED:
        sys.addaudithook(audit)
        HOOKED.append(1)
    url = URLS[i]
    pub = ('publish',)
    others = [0, 4, 5] if i in (4, 5) else [0]
    pasts = [[], [('fetch', i, False), pub], [('fetch', o, False) for o in others if o != i] + [pub]]
    if tier == 'thorough':
        pasts += [[('fetch', o, False), pub, ('fetch', i, False), pub] for o in (4, 5, 6) if o != i]
        pasts += [[('fetch', i, False), pub, ('fetch', i, True), pub]]
    op = ('fetch', i, over)
    for past in pasts:
        point, limit = 0, 0
        sizes = None
        while True:
            loc = fresh(top)
            m = Model()
            label = '; '.join([name(o) for o in past] + [name(op)])
            ok = True
            for o in past:
                ok = ok and apply(rec, label, loc, top, m, o)
            if not ok:
                break
            m.sync()
            if sizes is None:
                # the sizes of all files involved bound the bytes at which writing can stop
                big = max([len(WEB[url](v)[0]) for v in (0, m.version)] + [len(c) for v in (0, m.version) for _, c in (WEB[url](v)[1] if WEB[url](v)[1] != 'contained' else [])])
                step = 1 if tier == 'thorough' and big < 400 else max(1, big // 24)
                sizes = sorted({0, 1, big - 1, *range(0, big, step)})
            if kind == 'torn':
                if limit >= len(sizes):
                    break
                at = sizes[limit]
                limit += 1

                def run():
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (at, resource.RLIM_INFINITY))
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    fetch(url, over)
                    return 0
            else:
                at = point
                point += 1

                def run():
                    ARMED[:] = [at, kind]
                    fetch(url, over)
                    return 78 if ARMED[0] is None else 0
            what = '%s, %s at %d' % (label, kind, at)
            status = child(run)
            if status in (98, 99):
                rec.violation('driver|' + what, 'exit %d' % status)
                break
            rec.step()
            rec.state((i, over, kind, tuple(past), at))
            if outside(top) != MINE:
                rec.violation('outside|' + what, sorted(outside(top)))
            # afterwards: each url is whole, in one of its versions; what was not fetched now stays
            had = m.stored.get(url)
            STATE.update(version=m.version, online=True)
            paths, err = fetch(url, False)
            if err is not None:
                rec.violation('unusable|' + what, repr(err))
            else:
                bad = []

                class Probe:
                    def violation(self, k, d=''):
                        bad.append((k, d))
                for v in {m.version} | ({had} if had is not None else set()):
                    bad = []
                    check(Probe(), what, loc, url, paths, v)
                    if not bad:
                        break
                if bad:
                    rec.violation(bad[0][0], 'after the fault: ' + str(bad[0][1]))
                rec.outcome((kind, v == m.version))
            for o, v in list(m.stored.items()):
                if o != url:
                    paths, err = fetch(o, False)
                    if err is not None:
                        rec.violation('other unusable|' + what, repr(err))
                    else:
                        check(rec, what + ', then ' + o, loc, o, paths, v)
            # and fetching again replaces everything
            paths, err = fetch(url, True)
            if err is not None:
                rec.violation('cannot be repeated|' + what, repr(err))
            else:
                check(rec, what + ', again', loc, url, paths, m.version)
            if kind != 'torn' and status not in (77, 78):
                break
            if point > 400:
                rec.violation('endless|' + what)
                break
    rec.trace()


def t_data(rec, top, i):
    """nimble.data of a url is nimble.data of the fetched file, and stores nothing"""
    url = URLS[i]
    loc = fresh(top)
    for v in (0, 1):
        STATE.update(version=v, online=True)
        before = tree(top)
        rec.step()
        rec.state((i, v))
        try:
            o = nimble.data(url, useLog=False)
        except Exception as e:  # noqa
            o, err = None, e
        if tree(top) != before:
            rec.violation('stored|nimble.data(%s)' % url, sorted(set(tree(top)) ^ set(before)))
        if url in REFUSED:
            rec.rejected += 1
            if o is not None:
                rec.violation('accepted|nimble.data(%s)' % url, '')
            continue
        files = WEB[url](v)[1]
        if files == 'contained' or len(files) != 1 or '/e/' in url:
            continue
        if o is None:
            rec.violation('fails|nimble.data(%s)' % url, repr(err))
            continue
        rows = [[float(x) for x in r.split(',')] for r in files[0][1].decode().split()[1:]]
        if o.copy('python list') != rows or o.features.getNames() != ['x', 'y']:
            rec.violation('other data|nimble.data(%s)' % url, (o.copy('python list'), rows))
        paths, err = fetch(url, True)
        if err is not None or len(paths) != 1:
            rec.violation('fails|fetchFiles(%s)' % url, repr(err))
            continue
        p = nimble.data(paths[0], useLog=False)
        if p.copy('python list') != rows or p.features.getNames() != ['x', 'y']:
            rec.violation('other data|nimble.data(fetchFiles(%s))' % url, (p.copy('python list'), rows))
    rec.trace()
