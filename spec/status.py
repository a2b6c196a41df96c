"""Whole-tree rule X08: the outcome of a step is looked at and a failure is not turned into a success.

Every call whose declared result is a status (or a success flag that the code always looks at) is an obligation: the result
is not thrown away, not overwritten before anybody looked, and a known failure that nobody passed on does not end in the
function answering success.  spec/outcomes.json lists the places of the reference tree where that is done on purpose
(best-effort clean-up, periodic background work that is retried, reads that answer with a partial result by contract)."""
import os, json
from fe.status import Whole8
from fe.spec import Custom

HERE = os.path.dirname(os.path.abspath(__file__))
MSG = {'drop': 'the result of %s is thrown away', 'unread': 'the result of %s is overwritten or forgotten before anybody looks at it',
       'lost': 'a failure of %s is overwritten by a later result', 'swallow': '%s is known to have failed, yet the function answers success'}


def outcomes(repo, rep):
    base = json.load(open(os.path.join(HERE, 'outcomes.json')))
    inv = set(json.load(open(os.path.join(HERE, 'inventory.json'))))
    w = Whole8(repo, inv, set(base['checked']))
    if len(repo.unparsed) + len(w.broken) > 20: rep.broken('whole-tree rules: %d files or functions could not be read' % (len(repo.unparsed) + len(w.broken))); return
    known = {tuple(x[1:]) for x in base['known']}
    kinds = {(q, k) for q, k, c in known}
    here = {f.qual() for f in w.funcs}
    moved = {(fl, k, c) for fl, q, k, c in base['known'] if q not in here}        # of functions that are gone: renamed or inlined
    for f, ev, n in w.results():
        if not n and not ev: continue
        rep.functions.append('%s:%d %s' % (f.file, f.line, f.qual()))
        rep.obligations += n
        for kind, callee, line in ev:
            ws = w.owners(f)
            ok = any((q, kind, callee) in known or ((kind in ('drop', 'unread')) and ((q, 'drop', callee) in known or (q, 'unread', callee) in known)) for q in ws)
            ok = ok or (f.file, kind, callee) in moved
            if not ok and callee in w.fresh: ok = any((q, kind) in kinds for q in ws)      # a new helper that passes on what was tolerated before
            rep.check(ok, f.file, f.qual(), 'outcome ' + kind, callee, line, MSG[kind] % callee)
    rep.rules.append({'function': '*', 'rule': 'outcome of every status-returning call', 'instances': rep.obligations})


PROPS = {'X08': [Custom(outcomes, 'no outcome of a step is dropped and no failure is answered as success')]}
