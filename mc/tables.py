"""Initial tables shared by the read-level checks."""
from mc.model import Tab

NAN = float('nan')


def numeric():
    return [
        Tab([[1, 0, 2], [0, 3, 0], [2, 1, 1]], ['a', 'b', 'c'], ['x', 'y', 'z']),
        Tab([[1, 0, 2], [1, 0, 2]], None, ['x', 'y', 'z']),
        Tab([[0, 0.5], [-1, 2], [0, 0]], ['a', None, 'c'], [None, 'y']),
        Tab([[NAN, 1, 0], [0, 2, NAN], [1, 1, 0]], None, None),
        Tab([[0, 0], [0, 0]], ['a', 'b'], None),
        Tab([[1, 0, 1]], ['a'], ['x', 'y', 'z']),
        Tab([[0], [1], [1]], None, ['x']),
        Tab([[3]]),
        Tab([[1, 1], [0, 1], [1, 0], [0, 0]], None, ['x', 'y']),
    ]


def mixed():
    return [
        Tab([['u', 0, 1], ['v', 1, 0], ['u', 2, 2]], ['a', 'b', 'c'], ['x', 'y', 'z']),
        Tab([['u', 'v'], ['v', 'u']], None, ['x', 'y']),
        Tab([[True, False], [False, True]], None, ['x', 'y']),
        Tab([['1', '0'], ['0', '2']], None, ['x', 'y']),
    ]


def empty():
    return [Tab([], None, ['x', 'y'], 2), Tab([[], []], ['a', 'b'], None, 0), Tab([], None, None, 0)]
