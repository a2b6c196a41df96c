#!/usr/bin/env python3
"""seed.py make ID...|all : (re)build /verif/seeded/ID from tools/seeds/ID.py; seed.py try ID... : check it."""
import sys, os, json, shutil, subprocess, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# compiles the real sources with small stand-ins for the libraries that are not installed, and runs them
set -e
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
mkdir -p $T/pb/proto
%s
g++ -std=c++17 -DGLOG_CUSTOM_PREFIX_SUPPORT -DGLOG_USE_GLOG_EXPORT -O%s -w -I"$D" -I"$D/kit" -I$T/pb -I$R/src %s "$D/demo.cc" %s $PB -lglog -lgflags -lfmt -lprotobuf -lpthread -o $T/demo
cd $T
GLOG_minloglevel=4 timeout 120 ./demo
'''

def make(i):
    s = runpy.run_path(f'{V}/tools/seeds/{i}.py')
    d = f'{V}/seeded/{i}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    with tempfile.TemporaryDirectory() as t:
        for f, old, new in s['edits']:
            src = open('/repo/' + f).read() if not os.path.exists(f'{t}/b/{f}') else open(f'{t}/b/{f}').read()
            assert src.count(old) == 1, (i, f, src.count(old), old)
            for side, txt in (('a', open('/repo/' + f).read()), ('b', src.replace(old, new))):
                os.makedirs(os.path.dirname(f'{t}/{side}/{f}'), exist_ok=True); open(f'{t}/{side}/{f}', 'w').write(txt)
        p = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=t, capture_output=True, text=True).stdout
        out = []
        for l in p.splitlines(): out.append(l)
        open(d + '/patch.diff', 'w').write('\n'.join(out) + '\n')
    open(d + '/demo.cc', 'w').write(s['demo'].lstrip())
    protos = s.get('protos', [])
    pb = 'PB=""\n'
    if protos:
        pb = 'protoc -I"$D/kit" --cpp_out=$T/pb ' + ' '.join('proto/%s.proto' % p for p in protos) + '\nPB="' + ' '.join('$T/pb/proto/%s.pb.cc' % p for p in protos) + '"\n'
    sh = s.get('sh') or SH % (s.get('pre', '') + pb, s.get('opt', '0'), s.get('flags', ''), ' '.join('$R/' + x for x in s.get('srcs', [])))
    open(d + '/demo.sh', 'w').write(sh); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(d + '/meta.json', 'w'), indent=1)
    kit = s.get('kit', ['bthread', 'butil', 'bvar', 'braft'])
    for k in kit:
        a = f'{V}/tools/kit/{k}'
        if os.path.isdir(a): shutil.copytree(a, f'{d}/kit/{k}')
        else: os.makedirs(os.path.dirname(f'{d}/kit/{k}'), exist_ok=True); shutil.copy(a, f'{d}/kit/{k}')
    for p in protos:
        os.makedirs(f'{d}/kit/proto', exist_ok=True); shutil.copy(f'{V}/tools/kit/proto/{p}.proto', f'{d}/kit/proto/')
    for k, v in s.get('extra', {}).items():
        os.makedirs(os.path.dirname(f'{d}/{k}'), exist_ok=True); open(f'{d}/{k}', 'w').write(v)
    print('made', i)

def trial(i, full=False):
    d = f'{V}/seeded/{i}'
    with tempfile.TemporaryDirectory(prefix='seedtry') as t:
        subprocess.run(f'git -C /repo archive HEAD | tar x -C {t}', shell=True, check=True)
        shutil.copytree(d, t + '/../' + os.path.basename(t) + '_d')
        dd = t + '_d'
        a = subprocess.run(['bash', dd + '/demo.sh'], cwd=t, capture_output=True, text=True)
        subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=t, check=True)
        b = subprocess.run(['bash', dd + '/demo.sh'], cwd=t, capture_output=True, text=True)
        shutil.rmtree(dd)
        prop = json.load(open(d + '/meta.json'))['property']
        c = subprocess.run([sys.executable, V + '/check.py', prop], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=t))
        caught = c.returncode == 1
        print(i, prop, 'demo clean rc', a.returncode, '| patched rc', b.returncode, '| check', 'CAUGHT' if caught else 'missed(rc %d)' % c.returncode)
        if a.returncode: print(a.stdout[-600:], a.stderr[-1500:])
        if not b.returncode: print(b.stdout[-600:], b.stderr[-600:])
        for l in c.stdout.splitlines()[:4]: print('    ', l[:300])

ids = sys.argv[2:]
if ids == ['all']: ids = sorted(x[:-3] for x in os.listdir(V + '/tools/seeds') if x.endswith('.py'))
for i in ids:
    if sys.argv[1] == 'make': make(i)
    elif sys.argv[1] == 'try': trial(i)
    else: make(i); trial(i)
