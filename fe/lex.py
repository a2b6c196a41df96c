"""Tokenizer + conditional-compilation filter for C++ sources."""
import re

class Tok:
    __slots__ = ('k', 's', 'line', 'adj')
    def __init__(self, k, s, line, adj):
        self.k = k; self.s = s; self.line = line; self.adj = adj
    def __repr__(self):
        return '%s:%s@%d' % (self.k, self.s, self.line)

# Feature macros taken as on (the CMake defaults of the project); every other macro is taken as undefined.
DEFINED = {'WITH_VECTOR_INDEX_USE_DOCUMENT_SPEEDUP': 1, '__x86_64__': 1, '__linux__': 1, '__cplusplus': 201703,
           'USE_GLOG': 1}

TOK = re.compile(r'''
 (?P<ws>[ \t\r\f\v]+)
|(?P<nl>\n)
|(?P<lc>//[^\n]*)
|(?P<bc>/\*.*?\*/)
|(?P<raw>(?:u8|u|U|L)?R"(?P<delim>[^()\\\s]{0,16})\(.*?\)(?P=delim)")
|(?P<str>(?:u8|u|U|L)?"(?:[^"\\\n]|\\.)*")
|(?P<chr>(?:u8|u|U|L)?'(?:[^'\\\n]|\\.)+')
|(?P<num>\.?[0-9](?:'?[0-9a-zA-Z_.]|(?<=[eEpP])[+-])*)
|(?P<id>[A-Za-z_$][A-Za-z_0-9$]*)
|(?P<op><<=|\.\.\.|->\*|<=>|::|->|\+\+|--|<<|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|%=|&=|\|=|\^=|\#\#|[-+*/%&|^~!=<>?:;,.(){}\[\]\#@\\`])
''', re.X | re.S)


def _pp_expr(expr):
    e = re.sub(r'defined\s*\(\s*(\w+)\s*\)', lambda m: '1' if m.group(1) in DEFINED else '0', expr)
    e = re.sub(r'defined\s+(\w+)', lambda m: '1' if m.group(1) in DEFINED else '0', e)
    e = re.sub(r'//.*', '', e)
    e = re.sub(r'/\*.*?\*/', '', e)
    e = re.sub(r'\b__has_include\s*\([^)]*\)', '0', e)
    e = re.sub(r"\b([A-Za-z_]\w*)\b(\s*\([^)]*\))?", lambda m: str(DEFINED.get(m.group(1), 0)), e)
    e = re.sub(r'\b(\d+)[uUlL]+\b', r'\1', e)
    e = e.replace('&&', ' and ').replace('||', ' or ')
    e = re.sub(r'!(?!=)', ' not ', e)
    try:
        return bool(eval(e, {'__builtins__': {}}, {}))
    except Exception:
        return False


def preprocess(text):
    """Blank out directives and inactive branches, keeping line numbers."""
    text = text.replace('\r\n', '\n')
    lines = text.split('\n')
    out = []
    stack = []      # [active_parent, taken, active]
    active = True
    i = 0
    in_bc = False
    n = len(lines)
    while i < n:
        ln = lines[i]
        st = ln.lstrip()
        if not in_bc and st.startswith('#'):
            full = ln; cnt = 1
            while full.rstrip().endswith('\\') and i + cnt < n:
                full = full.rstrip()[:-1] + ' ' + lines[i + cnt]; cnt += 1
            d = full.lstrip()[1:].lstrip()
            m = re.match(r'(\w+)\s*(.*)', d, re.S)
            if m:
                kw, rest = m.group(1), m.group(2)
                if kw in ('if', 'ifdef', 'ifndef'):
                    if kw == 'if': c = _pp_expr(rest)
                    else:
                        nm = re.match(r'\w+', rest)
                        c = bool(nm) and nm.group(0) in DEFINED
                        if kw == 'ifndef': c = not c
                    stack.append([active, c, c])
                    active = active and c
                elif kw in ('elif', 'else') and stack:
                    par, taken, _ = stack[-1]
                    c = (not taken) and (kw == 'else' or _pp_expr(rest))
                    stack[-1][1] = taken or c
                    stack[-1][2] = c
                    active = par and c
                elif kw == 'endif' and stack:
                    active = stack.pop()[0]
            out.extend([''] * cnt)
            i += cnt
            continue
        # track block comments spanning lines (approximate: ignore inside strings)
        s = ln
        if in_bc or '/*' in s:
            t = re.sub(r'"(?:[^"\\]|\\.)*"', '""', s) if not in_bc else s
            pos = 0
            while True:
                if in_bc:
                    j = t.find('*/', pos)
                    if j < 0: break
                    in_bc = False; pos = j + 2
                else:
                    j = t.find('/*', pos)
                    k = t.find('//', pos)
                    if j < 0 or (0 <= k < j): break
                    in_bc = True; pos = j + 2
        out.append(ln if active else '')
        if not active: in_bc = False
        i += 1
    return '\n'.join(out)


def tokenize(text, pp=True):
    if pp: text = preprocess(text)
    toks = []
    line = 1; pos = 0; n = len(text)
    match = TOK.match
    adj = False
    while pos < n:
        m = match(text, pos)
        if not m:
            pos += 1; adj = False
            continue
        k = m.lastgroup
        if k == 'delim': k = 'raw'
        s = m.group(k)
        pos = m.end()
        if k == 'ws': adj = False; continue
        if k == 'nl': line += 1; adj = False; continue
        if k == 'lc': adj = False; continue
        if k == 'bc': line += s.count('\n'); adj = False; continue
        if k == 'raw':
            toks.append(Tok('str', s, line, adj)); line += s.count('\n'); adj = True; continue
        if k == 'op' and s == '\\':
            continue
        toks.append(Tok(k, s, line, adj))
        adj = True
    toks.append(Tok('eof', '', line, False))
    return toks
