"""R04: layout of raft log keys (abstract interpretation, fe/absint.py): the key orders by region, then by index."""
from fe.spec import Custom
from fe import absint as A
from fe.repo import AnalysisBroken
from .m_codec import Case, be, B, S, opq, same, top

_it = {}
def keys(repo, rep):
    c = Case.__new__(Case)
    c.rep = rep; c.repo = repo; c.fns = {}; c.und = {}
    if id(repo) not in _it: _it.clear(); _it[id(repo)] = A.Interp(repo, ['log/rocks_log_storage.cc', 'log/rocks_log_storage.h'])
    c.it = _it[id(repo)]
    r = A.src('region', 64, True, {63: 0}); i = A.src('index', 64, True, {63: 0})
    key = [B(ord('D'))] + be(r) + be(i)
    c.run('Codec', 'EncodeKey', [r, i], 'prefix, region and index, most significant byte first', ret=key)
    n = lambda: A.Cell(A.mk(7, 64, True), 'int64_t')
    c.run('Codec', 'DecodeKey', [S(key, True), n, n], 'region and index of a key', out={1: r, 2: i})
    for k in (0, 9, 16, 18): c.run('Codec', 'DecodeKey', [S(opq(k), True), n, n], 'refuses a key of another length', bad=True)
    c.done()


PROPS = {'R04': [Custom(keys, 'log key layouts')]}
