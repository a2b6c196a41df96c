import re,sys
def strip(s):
    s=re.sub(r'/\*.*?\*/','',s,flags=re.S)
    s=re.sub(r'(?m)//.*$','',s)
    out=[];i=0
    # remove DINGO_LOG...; statements except FATAL
    pat=re.compile(r'\b(DINGO_LOG(?:_IF)?|LOG|DINGO_LOG_EVERY_N)\s*\((?!FATAL)')
    while True:
        m=pat.search(s,i)
        if not m: out.append(s[i:]);break
        out.append(s[i:m.start()])
        j=m.end();instr=False
        while s[j]!=';' or instr:
            c=s[j]
            if c=='"' and s[j-1]!="'": instr=not instr
            if instr and c=='\\': j+=1
            j+=1
        out.append('~')
        i=j+1
    s=''.join(out)
    s=re.sub(r'(?m)^\s*#include.*$','',s)
    s=re.sub(r'\n\s*\n+','\n',s)
    s=re.sub(r'(?m)^(\s*)~$',r'',s)
    s=re.sub(r'\n\s*\n+','\n',s)
    s=re.sub(r'(?m)^( +)',lambda m:' '*(len(m.group(1))//2),s)
    return s
for f in sys.argv[1:]:
    print('=====',f); print(strip(open(f).read()))
