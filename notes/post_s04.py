import re
T='/verif/spec/tables/eng_b.tbl'
out=[]
for b in open(T).read().split('\n\n'):
    if not b.strip(): continue
    cas='CompareAndSet' in b.split('\n')[0]
    m='((@KG.ok && ELEM(expect_values) == OUT(@KG, 3)) || (!@KG.ok && ELEM(expect_values).empty))' if cas else '!@KG.ok'
    v='ELEM(kvs).value.empty'
    L=[]
    for l in b.strip('\n').split('\n'):
        if l.startswith('each kvs') and 'push_back' in l:
            h=l[:l.index(')))')+3]; assert ' if ' in l
            h=re.match(r'(each kvs : .*?\)\)\)) if ',l).group(1)
            if 'kDelete' in h: c=m+' && '+v
            elif 'kPutTTL' in h: c=m+' && ctx.Ttl'+(' && !'+v if cas else '')
            else: c=m+' && !ctx.Ttl'+(' && !'+v if cas else '')
            l=h+' if '+c
        elif re.match(r'each kvs : @ELEM\d? = true',l): l=l.split(' if ')[0]+' if '+m
        elif l.startswith('may key_states ='): l='on key_states = CTOR(vector, kvs.size, false) if DID(@W) && @W.ok'
        elif l.startswith('may ctx.Response.ts'): l='may ctx.Response.ts = ts_provider_.GetTs if DID(@W) && @W.ok\nmust ctx.Response.ts = _ if DID(@W) && @W.ok && ctx.Response && kvs.size == 1\nmust ctx.Response.ts = _ if DID(@W) && @W.ok && ctx.Response && !(kvs.size < 2)'
        L.append(l)
    L.append('through kvs if !ELEM(kvs).key.empty')
    L.append('through kvs if @KG.ok || @KG.error_code == EKEY_NOT_FOUND')
    L.append('through kvs if !is_atomic || '+m)
    L.append('stop? kvs break if false')
    out.append('\n'.join(L))
open(T,'w').write('\n\n'.join(out)+'\n')
