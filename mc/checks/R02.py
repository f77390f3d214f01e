"""R02: seeding and alternateControl histories against a stack model of the random state."""
import itertools
import random
import numpy as np
import nimble
from mc.core import h64

PROPERTY = 'R02'
LEVEL = 'model_checking'
RULE = ('every sequence of the alphabet {setSeed, draw from python / numpy generator, generateSubsidiarySeed, random.data, shuffle, enter a '
        'block with a seed, with None, with an invalid seed, leave it normally, by exception, by KeyboardInterrupt, by closing a generator} up to '
        'the depth, nesting included; the oracle is a stack of independent python and numpy generators; state = (generator states, stack depth)')
ASSUMPTIONS = ['blocks are left in the reverse order of entering them', 'one thread']


class Boom(Exception):
    pass


def digest():
    s = nimble.random.numpyRandom.get_state()
    return h64((nimble.random.pythonRandom.getstate(), s[0], s[1].tobytes(), s[2], s[3], s[4]))


class Model:
    """Independent generators; a stack of saved states."""
    def __init__(self):
        self.py = random.Random(0)
        self.np = np.random.RandomState(0)
        self.stack = []

    def digest(self):
        s = self.np.get_state()
        return h64((self.py.getstate(), s[0], s[1].tobytes(), s[2], s[3], s[4]))

    def seed(self, s):
        self.py.seed(s)
        self.np.seed(s)

    def push(self):
        self.stack.append((self.py.getstate(), self.np.get_state()))

    def pop(self):
        p, n = self.stack.pop()
        self.py.setstate(p)
        self.np.set_state(n)


ACTIONS = ['set1', 'set2', 'py', 'np', 'sub', 'data', 'dataseed', 'perm', 'enter1', 'enter2', 'enterNone', 'enterBad', 'setBad',
           'exit', 'exc', 'kbd', 'genenter', 'nested']


def draw(a):
    if a == 'sub':
        return nimble.random.generateSubsidiarySeed()
    if a == 'data':
        return nimble.random.data(2, 2, 0.5, useLog=False).copy('pythonlist')
    o = nimble.data([[0], [1], [2], [3]], useLog=False)
    o.points.permute(useLog=False)
    return o.copy('pythonlist')


def gen(seed):
    with nimble.random.alternateControl(seed, useLog=False):
        yield


def run(seq, rec):
    nimble.random.setSeed(0, useLog=False)
    m = Model()
    stack = []   # real context managers or generators

    def bad(k, why):
        rec.violation(' '.join(seq[:k + 1]), why)

    try:
        for k, a in enumerate(seq):
            rec.step()
            if a in ('set1', 'set2', 'setBad'):
                s = {'set1': 1, 'set2': 2, 'setBad': -1}[a]
                err = None
                try:
                    nimble.random.setSeed(s, useLog=False)
                except Exception as e:  # noqa
                    err = e
                if stack:
                    if not isinstance(err, RuntimeError):
                        return bad(k, 'setSeed inside alternateControl: %r' % (err,))
                elif a == 'setBad':
                    if err is None:
                        return bad(k, 'invalid seed accepted')
                else:
                    if err is not None:
                        return bad(k, 'raised %r' % err)
                    m.seed(s)
            elif a == 'py':
                x, y = nimble.random.pythonRandom.random(), m.py.random()
                if x != y:
                    return bad(k, 'drew %r, expected %r' % (x, y))
            elif a == 'np':
                x, y = nimble.random.numpyRandom.randint(1000), m.np.randint(1000)
                if x != y:
                    return bad(k, 'drew %r, expected %r' % (x, y))
            elif a in ('sub', 'data', 'perm'):
                before = (nimble.random.pythonRandom.getstate(), nimble.random.numpyRandom.get_state())
                d0 = digest()
                x = draw(a)
                d1 = digest()
                if d1 == d0:
                    return bad(k, '%s does not consume randomness' % a)
                after = (nimble.random.pythonRandom.getstate(), nimble.random.numpyRandom.get_state())
                nimble.random.pythonRandom.setstate(before[0])
                nimble.random.numpyRandom.set_state(before[1])
                y = draw(a)
                if x != y or digest() != d1:
                    return bad(k, '%s from the same state gives %r and %r' % (a, x, y))
                if a == 'sub' and not (isinstance(x, int) and 0 <= x < 2 ** 32):
                    return bad(k, 'subsidiary seed %r' % x)
                if a == 'perm' and sorted(x) != [[0], [1], [2], [3]]:
                    return bad(k, 'permute lost points')
                m.py.setstate(after[0])
                m.np.set_state(after[1])
            elif a == 'dataseed':
                x = nimble.random.data(2, 3, 0, randomSeed=5, useLog=False)
                if 'd' not in MEMO:
                    MEMO['d'] = x.copy('pythonlist')
                if x.copy('pythonlist') != MEMO['d']:
                    return bad(k, 'data with the same seed differs')
            elif a in ('enter1', 'enter2', 'enterNone', 'genenter'):
                s = {'enter1': 1, 'enter2': 2, 'enterNone': None, 'genenter': 1}[a]
                if a == 'genenter':
                    c = gen(s)
                    next(c)
                else:
                    c = nimble.random.alternateControl(s, useLog=False)
                    c.__enter__()
                stack.append(c)
                m.push()
                if s is None:
                    m.py.setstate(nimble.random.pythonRandom.getstate())
                    m.np.set_state(nimble.random.numpyRandom.get_state())
                else:
                    m.seed(s)
            elif a == 'enterBad':
                err = None
                try:
                    with nimble.random.alternateControl(-1, useLog=False):
                        pass
                except Exception as e:  # noqa
                    err = e
                if err is None:
                    return bad(k, 'invalid seed accepted')
            elif a == 'nested':
                try:
                    with nimble.random.alternateControl(2, useLog=False):
                        nimble.random.numpyRandom.random_sample()
                        with nimble.random.alternateControl(None, useLog=False):
                            nimble.random.pythonRandom.random()
                            raise Boom()
                except Boom:
                    pass
            elif a in ('exit', 'exc', 'kbd'):
                if not stack:
                    return None   # not a history
                c = stack.pop()
                m.pop()
                kind = {'exc': Boom, 'kbd': KeyboardInterrupt}.get(a)
                if hasattr(c, 'send'):   # plain generator
                    try:
                        if a == 'exit':
                            c.close()
                        else:
                            c.throw(kind())
                    except (Boom, KeyboardInterrupt):
                        pass
                else:
                    try:
                        if kind is None:
                            swallow = c.__exit__(None, None, None)
                        else:
                            e = kind()
                            swallow = c.__exit__(kind, e, None)
                        if swallow:
                            return bad(k, 'the exception was swallowed')
                    except (Boom, KeyboardInterrupt):
                        pass
            if digest() != m.digest():
                return bad(k, 'generator state differs from the model')
            rec.state((m.digest(), len(stack)))
        rec.trace()
        rec.outcome(digest())
        # outside of every block seeding is possible again
        while stack:
            c = stack.pop()
            m.pop()
            c.close() if hasattr(c, 'send') else c.__exit__(None, None, None)
        if digest() != m.digest():
            return bad(len(seq) - 1, 'state not restored after leaving the remaining blocks')
        try:
            nimble.random.setSeed(1, useLog=False)
        except RuntimeError as e:
            return bad(len(seq) - 1, 'setSeed refused outside: %s' % e)
    finally:
        while stack:
            c = stack.pop()
            c.close() if hasattr(c, 'send') else c.__exit__(None, None, None)
        nimble.random.setSeed._settable = True
    return True


MEMO = {}


def tasks(tier):
    depth = 4 if tier == 'quick' else 5
    return [[a, b, depth] for a in ACTIONS for b in ACTIONS if a not in ('exit', 'exc', 'kbd')]


def run_task(task, rec):
    a, b, depth = task
    rec.sample(' '.join([a, b, '...']))
    for rest in itertools.product(ACTIONS, repeat=depth - 2):
        seq = [a, b] + list(rest)
        opened = 0
        for x in seq:
            if x in ('exit', 'exc', 'kbd'):
                opened -= 1
                if opened < 0:
                    break
            elif x in ('enter1', 'enter2', 'enterNone', 'genenter'):
                opened += 1
        if opened < 0:
            continue
        run(seq, rec)
