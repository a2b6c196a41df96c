#!/usr/bin/env python3
"""ev.py FILE QUAL [n] : raw events of a function"""
import sys; sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True
from fe.repo import Repo
from fe.explore import *
from fe.term import *
r=Repo(); r.headers()
class D(Rule):
    autoinline=False; maxstates=9999; inline=opaque=keys=frozenset(); files=(); lambda_calls={}
    seen=set()
    def track(s,a): return True
    def label(s,k,t): return 'e'
    def on_event(s,k,t,st,line,lab,ex):
        x=(k,line,show(t)[:200])
        if x not in s.seen: s.seen.add(x); print(*x)
    def on_exit(s,*a): pass
    def on_iter(s,*a): pass
f=r.func(sys.argv[1],sys.argv[2],int(sys.argv[3]) if len(sys.argv)>3 else None)
ex=Explorer(r,D()); ex.curfile=f.file; ex.run(f)
