# trims spec/tables/srv_e.tbl to clauses about answering: dedupes, drops return-shape clauses, drops empty blocks
import re
T='/verif/spec/tables/srv_e.tbl'
out=[]
for b in open(T).read().split('\n\n'):
    L=[l for l in b.split('\n') if l.strip()]
    if not L: continue
    # join continuation lines
    J=[]
    for l in L:
        if l[0] in ' \t' and J: J[-1]+='\n'+l
        else: J.append(l)
    keep=[]
    for l in J:
        if re.match(r'(ret|rets|retmay|stop\??)\b',l): continue
        if l in keep: continue
        keep.append(l)
    # drop unused lets
    body='\n'.join(x for x in keep[1:] if not x.startswith('let '))
    ch=True
    lets={x.split()[1]:x for x in keep if x.startswith('let ')}
    used=set(); todo=re.findall(r'@(\w+)',body)
    while todo:
        n=todo.pop()
        if n in used or n not in lets: continue
        used.add(n); todo+=re.findall(r'@(\w+)',lets[n].split('=',1)[1])
    keep=[x for x in keep if not x.startswith('let ') or x.split()[1] in used]
    if not any(not x.startswith('let ') for x in keep[1:]): continue
    out.append('\n'.join(keep))
open(T,'w').write('\n\n'.join(out)+'\n')
