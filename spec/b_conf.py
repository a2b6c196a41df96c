"""B02: shipped configuration files and compiled-in defaults of the switches durability and safety rest on."""
import glob, os, re
from fe.spec import Custom
from fe.repo import AnalysisBroken

REPLICATED = ('coordinator', 'store', 'index', 'document')
# switch -> value every shipped file must leave in force (a file may leave it out: then the compiled-in default holds);
# 'set' = a replicated role must name it itself (its default lives in braft, which is not in this tree)
CONF = {
    'raft_sync': (True, 'set'),
    'store_state_machine_enable_independent_queue': (False, None),
    'backup_strict_version_comparison': (True, None), 'restore_strict_version_comparison': (True, None),
    'br_backup_enable_get_job_list_check': (True, None), 'br_backup_index_must_be_exist': (True, None), 'br_backup_document_must_be_exist': (True, None),
    'enable_br_update_id_epoch_debug': (False, None), 'enable_lite': (False, None),
    'bdb_use_db_pool': (False, None), 'diskann_build_sync_internal': (False, None), 'diskann_load_sync_internal': (False, None),
    'enable_dir_service': (False, 'set'), 'enable_threads_service': (False, 'set'),
}
# compiled-in defaults: file that defines the switch -> default
DEFAULTS = {
    'store_state_machine_enable_independent_queue': ('src/raft/store_state_machine.cc', False),
    'rocks_log_enable_get_term_cache': ('src/log/rocks_log_storage.cc', False),
    'backup_strict_version_comparison': ('src/br/parameter.cc', True), 'restore_strict_version_comparison': ('src/br/parameter.cc', True),
    'br_backup_enable_get_job_list_check': ('src/br/parameter.cc', True),
    'br_backup_index_must_be_exist': ('src/br/parameter.cc', True), 'br_backup_document_must_be_exist': ('src/br/parameter.cc', True),
    'enable_br_update_id_epoch_debug': ('src/coordinator/coordinator_control.cc', False),
    'enable_lite': ('src/coordinator/coordinator_control_meta.cc', False),
    'enable_region_split_and_merge_for_lite': ('src/coordinator/coordinator_control_coor.cc', False),
    'bdb_use_db_pool': ('src/engine/bdb_raw_engine.cc', False),
    'diskann_build_sync_internal': ('src/vector/vector_index_diskann.cc', False), 'diskann_load_sync_internal': ('src/vector/vector_index_diskann.cc', False),
    'auto_compaction': ('src/coordinator/kv_control_kv.cc', False),
}
TRUE = ('true', 't', 'yes', 'y', '1'); FALSE = ('false', 'f', 'no', 'n', '0')

def parse(path):
    """gflags flag file -> [(name, value, line)] in order; `-x`, `--x`, `-nox`, `-x=v`"""
    out = []
    for n, l in enumerate(open(path, errors='replace'), 1):
        l = l.strip()
        if not l.startswith('-'): continue
        l = l.lstrip('-')
        k, eq, v = l.partition('=')
        k = k.strip().replace('-', '_'); v = v.strip()
        out.append((k, v if eq else None, n))
    return out

def in_force(entries, flag):
    """value the file leaves in force for a boolean switch: (True/False/None/'?', line)"""
    r = (None, 0)
    for k, v, n in entries:
        if k == flag: r = (True if v is None or v.lower() in TRUE else False if v.lower() in FALSE else '?', n)
        elif k == 'no' + flag and v is None: r = (False, n)
    return r

def files(repo, rep):
    fs = sorted(glob.glob(os.path.join(repo.root, 'conf/*-gflags.conf')))
    if not fs: raise AnalysisBroken('no conf/*-gflags.conf')
    got = set()
    for p in fs:
        rel = os.path.relpath(p, repo.root); es = parse(p)
        role = os.path.basename(p)[:-len('-gflags.conf')]
        for k, v, n in es:
            if k == 'role': rep.check(v == role, rel, role, 'role', v or '', n, 'the file shipped for role %s starts a %s' % (role, v))
        if role in REPLICATED: got.add(role)
        for flag, (want, how) in CONF.items():
            v, n = in_force(es, flag)
            if v is None:
                rep.check(not (how == 'set' and role in REPLICATED), rel, role, flag, 'absent', 0,
                          'role %s no longer sets %s=%s' % (role, flag, str(want).lower()))
            else:
                rep.check(v == want, rel, role, flag, str(v), n, 'role %s runs with %s=%s, it must be %s' % (role, flag, str(v).lower(), str(want).lower()))
        # fromenv/flagfile would let something else decide
        for k, v, n in es:
            if k in ('flagfile', 'fromenv', 'tryfromenv', 'undefok'):
                bad = k == 'flagfile' or any(x.strip() in CONF for x in (v or '').split(','))
                rep.check(not bad, rel, role, 'indirection', k, n, 'role %s takes safety switches from elsewhere (%s)' % (role, k))
    for r in REPLICATED:
        rep.check(r in got, 'conf', r, 'file', r, 0, 'no flag file is shipped for role %s' % r)

def defaults(repo, rep):
    for flag, (file, want) in DEFAULTS.items():
        u = repo.unit(file)
        d = u.flags.get(flag)
        if d is None:
            # moved to another file?
            for p in sorted(glob.glob(os.path.join(repo.root, 'src/**/*.cc'), recursive=True)):
                if re.search(r'DEFINE_bool\(\s*%s\b' % flag, open(p, errors='replace').read()):
                    u = repo.unit(os.path.relpath(p, repo.root)); d = u.flags.get(flag); file = u.rel if hasattr(u, 'rel') else file
                    break
        rep.check(d is not None, file, flag, 'definition', 'absent', 0, 'switch %s is not defined any more' % flag)
        if d is None: continue
        v = d[1].strip()
        val = True if v in ('true', '1') else False if v in ('false', '0') else v
        rep.check(val == want, file, flag, 'default', v, d[2], 'the compiled-in default of %s is %s, it must be %s' % (flag, v, str(want).lower()))

ALLOW = {('server/server.cc', 'auto_compaction'), ('server/server.cc', 'region_enable_auto_split'), ('server/server.cc', 'region_enable_auto_merge')}
def writers(repo, rep):
    """no code assigns a safety switch, passes it as output, or sets it by name, besides the control-config requests"""
    watch = set(CONF) | set(DEFAULTS) | {'raft_sync'}
    for p in sorted(glob.glob(os.path.join(repo.root, 'src/**/*.cc'), recursive=True) + glob.glob(os.path.join(repo.root, 'src/**/*.h'), recursive=True)):
        rel = os.path.relpath(p, repo.root); srel = rel[4:]
        if srel.startswith('client'): continue
        txt = open(p, errors='replace').read()
        if 'FLAGS_' not in txt and 'SetCommandLineOption' not in txt: continue
        code = strip(txt)
        for m in re.finditer(r'\bFLAGS_(\w+)\b', code):
            f = m.group(1)
            if f not in watch: continue
            after = code[m.end():m.end() + 40].lstrip(); before = code[:m.start()].rstrip()
            before = re.sub(r'(\w+\s*::\s*)+$', '', before).rstrip()
            wr = (re.match(r'(=(?!=)|\|=|&=|\^=)', after) or before.endswith('&') and not before.endswith('&&')) and (srel, f) not in ALLOW
            line = code.count('\n', 0, m.start()) + 1
            rep.check(not wr, rel, f, 'writer', 'write', line, 'switch %s is written here; only start-up flags and the control-config request may change it' % f)
        for m in re.finditer(r'SetCommandLineOption\w*\s*\(\s*("?)([\w]*)', code):
            line = code.count('\n', 0, m.start()) + 1
            nm = re.match(r'SetCommandLineOption\w*\s*\(\s*"(\w+)"', txt_at(txt, line))
            name = nm.group(1) if nm else ''
            rep.check(bool(name) and name not in watch, rel, name or '?', 'writer', 'SetCommandLineOption', line, 'a safety switch may be set by name here')

def txt_at(txt, line):
    l = txt.split('\n')[line - 1:line + 1]
    s = '\n'.join(l); i = s.find('SetCommandLineOption')
    return s[i:] if i >= 0 else ''

def strip(txt):
    """code without comments and string contents, line structure kept"""
    def r(m):
        s = m.group(0)
        return re.sub(r'[^\n]', ' ', s) if s.startswith('/') else '""' if s.startswith('"') else "' '"
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', r, txt, flags=re.S)

PROPS = {'B02': [Custom(files, 'shipped flag files'), Custom(defaults, 'compiled-in defaults'), Custom(writers, 'who writes a safety switch')]}
