"""PrefixNext: the end of the range that holds exactly the strings with a given prefix (abstract interpretation)."""
from fe.spec import Custom
from fe import absint as A
from .m_codec import Case, B, S, opq

_it = {}


def next_of(d):
    """add one at the end, carry through 0xff; an all-0xff (or empty) prefix has no successor and is returned as it is"""
    out = [x for x in d]
    for i in range(len(out) - 1, -1, -1):
        if out[i] == 255: out[i] = 0
        else:
            out[i] += 1
            return out
    return list(d)


def prefix_next(repo, rep):
    c = Case.__new__(Case)
    c.rep = rep; c.repo = repo; c.fns = {}; c.und = {}
    if id(repo) not in _it: _it.clear(); _it[id(repo)] = A.Interp(repo, ['common/helper.cc', 'common/helper.h'])
    c.it = _it[id(repo)]
    sb = lambda v: B(v - 256 if v > 127 else v)
    vals = (0, 1, 0x7e, 0x7f, 0x80, 0xfd, 0xfe, 0xff)
    ins = [[]] + [[a] for a in vals] + [[a, b] for a in vals for b in vals] + \
          [[a, b, z] for a in (0, 0x7f, 0xff) for b in (0x7f, 0xfe, 0xff) for z in (0, 0x7f, 0x80, 0xff)] + \
          [[7] + [255] * n for n in (3, 7, 8, 17, 31)] + [[0x61] * n + [255] * m for n in list(range(1, 70)) + [127, 128, 255, 256] for m in (0, 1, 2)]
    for d in ins:
        for view in (False, True):
            c.run('Helper', 'PrefixNext', [S([sb(x) for x in d], view)], 'successor of %s' % (bytes(d).hex() or 'the empty prefix'), ret=[sb(x) for x in next_of(d)])
    # what stands before the byte that takes the carry is copied, whatever it is
    for n in (1, 4):
        p = opq(n, 'p')
        for tail in ([5], [5, 255], [0x7f], [0xfe, 255, 255]):
            for view in (False, True):
                c.run('Helper', 'PrefixNext', [S(p + [sb(x) for x in tail], view)], 'successor of %d bytes and %s' % (n, bytes(tail).hex()), ret=p + [sb(x) for x in next_of(tail)])
    c.done()


PROPS = {p: [Custom(prefix_next, 'PrefixNext: the successor of a prefix')] for p in ('C04', 'M04', 'X05')}
