"""C++ statement / expression parser and declaration scanner (no semantic analysis)."""
from .lex import tokenize

class E:
    __slots__ = ('k', 'a', 'line')
    def __init__(self, k, a, line):
        self.k = k; self.a = a; self.line = line
    def __repr__(self):
        return '%s%r' % (self.k, self.a)

class ParseError(Exception):
    pass

BUILTIN = {'void', 'bool', 'char', 'short', 'int', 'long', 'float', 'double', 'unsigned', 'signed', 'auto', 'wchar_t',
           'char8_t', 'char16_t', 'char32_t', '__int128', '__m128', '__m256', '__m512'}
CV = {'const', 'volatile', 'static', 'constexpr', 'thread_local', 'register', 'inline', 'mutable', 'typename', 'struct',
      'class', 'enum', 'extern', 'virtual', 'explicit', 'friend', 'union'}
KW_STMT = {'if', 'for', 'while', 'do', 'switch', 'case', 'default', 'return', 'break', 'continue', 'goto', 'try',
           'throw', 'delete', 'new', 'else', 'using', 'typedef', 'static_assert', 'sizeof', 'this', 'nullptr', 'true',
           'false', 'operator', 'template', 'namespace', 'asm', '__asm__'}
ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='}
PREC = {'||': 1, '&&': 2, '|': 3, '^': 4, '&': 5, '==': 6, '!=': 6, '<': 7, '>': 7, '<=': 7, '>=': 7, '<=>': 7,
        '<<': 8, '>>': 8, '+': 9, '-': 9, '*': 10, '/': 10, '%': 10, '.*': 11, '->*': 11}


class Parser:
    def __init__(self, toks, i=0, end=None):
        self.t = toks
        self.i = i
        self.end = len(toks) - 1 if end is None else end
        self.opaque = []

    # -- helpers
    def s(self, o=0):
        j = self.i + o
        return self.t[j].s if j < self.end else ''
    def k(self, o=0):
        j = self.i + o
        return self.t[j].k if j < self.end else 'eof'
    def line(self):
        return self.t[min(self.i, len(self.t) - 1)].line
    def expect(self, s):
        if self.s() != s:
            raise ParseError('line %d: expected %r got %r' % (self.line(), s, self.s()))
        self.i += 1
    def accept(self, s):
        if self.s() == s and self.k() == 'op':
            self.i += 1
            return True
        return False

    def match_close(self, i):
        """index of the bracket matching t[i] (one of ( [ {)."""
        t = self.t
        d = 0
        n = len(t)
        while i < n:
            s = t[i].s
            if t[i].k == 'op':
                if s in '([{' and len(s) == 1: d += 1
                elif s in ')]}' and len(s) == 1:
                    d -= 1
                    if d == 0: return i
            i += 1
        raise ParseError('unbalanced bracket')

    def scan_targs(self, i):
        """t[i] is '<': if it opens a plausible template argument list return index after '>', else None."""
        t = self.t
        d = 0
        j = i
        lim = min(self.end, i + 200)
        while j < lim:
            tk = t[j]
            s = tk.s
            if tk.k == 'op':
                if s == '<': d += 1
                elif s == '>':
                    d -= 1
                    if d == 0: return j + 1
                elif s in ('::', ',', '*', '&', '...'): pass
                elif s == '&&':
                    if j + 1 < lim and t[j + 1].s not in ('>', ','): return None
                elif s == '(':
                    # function type: must follow an identifier/type or '*' and hold types only
                    try: c = self.match_close(j)
                    except ParseError: return None
                    for q in range(j + 1, c):
                        if t[q].k == 'op' and t[q].s not in ('::', ',', '*', '&', '&&', '<', '>', '(', ')', '...', '[', ']'):
                            return None
                    j = c
                elif s == '[':
                    if t[j + 1].s == ']': j += 1
                    elif t[j + 1].k in ('num', 'id') and t[j + 2].s == ']': j += 2
                    else: return None
                else:
                    return None
            elif tk.k in ('str',):
                return None
            j += 1
        return None

    def try_type(self, i, expr_ctx=False):
        """Return (end, text, has_builtin, tail) for a type starting at i, or None."""
        t = self.t
        end = self.end
        parts = []
        builtin = False
        named = False
        j = i
        while j < end:
            tk = t[j]
            s = tk.s
            if tk.k == 'id' and s in CV:
                parts.append(s); j += 1; continue
            if tk.k == 'id' and s in BUILTIN:
                if named: break
                parts.append(s); builtin = True; j += 1; continue
            if s == '[' and j + 1 < end and t[j + 1].s == '[' and not parts:
                c = self.match_close(j); j = c + 1; continue
            if s == 'decltype' and not named and not builtin and t[j + 1].s == '(':
                c = self.match_close(j + 1); parts.append('decltype'); named = True; j = c + 1; continue
            if (tk.k == 'id' or s == '::') and not named and not builtin:
                if s in KW_STMT: return None
                if s == '::': parts.append('::'); j += 1
                while True:
                    if not (j < end and t[j].k == 'id' and t[j].s not in KW_STMT): return None
                    parts.append(t[j].s); j += 1
                    if j < end and t[j].s == '<' and t[j].k == 'op':
                        e = self.scan_targs(j)
                        if e is None: break
                        parts.append(''.join((' ' if q > j and t[q].k == 'id' and t[q - 1].k == 'id' else '') + t[q].s
                                             for q in range(j, e)))
                        j = e
                    if j + 1 < end and t[j].s == '::' and t[j + 1].k == 'id':
                        parts.append('::'); j += 1
                        if t[j].s == 'template': j += 1
                        continue
                    break
                named = True
                continue
            break
        if not (named or builtin): return None
        tail = ''
        while j < end:
            s = t[j].s
            if s in ('*', '&', '&&') and t[j].k == 'op': tail += s; j += 1
            elif s == 'const' or s == 'volatile' or s == '__restrict' or s == 'restrict': parts.append(s); j += 1
            else: break
        txt = ''
        for p in parts:
            if txt and (txt[-1].isalnum() or txt[-1] in '_>') and (p[0].isalnum() or p[0] == '_'): txt += ' '
            txt += p
        return j, txt + tail, builtin, tail

    # -- expressions
    def expr(self):
        e = self.assign()
        while self.s() == ',' and self.k() == 'op':
            ln = self.line(); self.i += 1
            e = E('comma', (e, self.assign()), ln)
        return e

    def assign(self):
        if self.s() == 'throw':
            ln = self.line(); self.i += 1
            x = None if self.s() in (';', ')', '') else self.assign()
            return E('throw', (x,), ln)
        l = self.ternary()
        s = self.s()
        if self.k() == 'op':
            if s in ASSIGN:
                ln = self.line(); self.i += 1
                r = self.init_or_assign()
                return E('asg', (s, l, r), ln)
            if s == '>' and self.s(1) == '>=' and self.t[self.i + 1].adj:
                ln = self.line(); self.i += 2
                return E('asg', ('>>=', l, self.assign()), ln)
        return l

    def init_or_assign(self):
        if self.s() == '{': return self.braced()
        return self.assign()

    def ternary(self):
        c = self.binary(0)
        if self.s() == '?' and self.k() == 'op':
            ln = self.line(); self.i += 1
            if self.s() == ':':
                self.i += 1
                f = self.assign()
                return E('cond', (c, c, f), ln)
            a = self.init_or_assign() if self.s() == '{' else self.expr()
            self.expect(':')
            b = self.init_or_assign()
            return E('cond', (c, a, b), ln)
        return c

    def binop(self):
        if self.k() != 'op':
            if self.k() == 'id' and self.s() in ('and', 'or'): return ('&&' if self.s() == 'and' else '||'), 1
            return None, 0
        s = self.s()
        if s == '>':
            if self.s(1) == '>' and self.k(1) == 'op' and self.t[self.i + 1].adj: return '>>', 2
            if self.s(1) == '>=' and self.t[self.i + 1].adj: return None, 0
            return '>', 1
        if s in PREC: return s, 1
        return None, 0

    def binary(self, minp):
        l = self.unary()
        while True:
            op, w = self.binop()
            if op is None: return l
            p = PREC[op]
            if p <= minp: return l
            ln = self.line()
            self.i += w
            r = self.binary(p)
            l = E('bin', (op, l, r), ln)

    def unary(self):
        s = self.s(); k = self.k(); ln = self.line()
        if k == 'op':
            if s in ('!', '~', '-', '+', '*', '&', '++', '--', '&&'):
                self.i += 1
                return E('un', (s, self.unary()), ln)
            if s == '(':
                c = self.cast()
                if c is not None: return c
        elif k == 'id':
            if s == 'sizeof' or s == 'alignof':
                self.i += 1
                if self.s() == '...': self.i += 1
                if self.s() == '(':
                    c = self.match_close(self.i)
                    txt = ' '.join(x.s for x in self.t[self.i + 1:c])
                    self.i = c + 1
                    return E('sizeof', (txt,), ln)
                return E('sizeof', (repr(self.unary()),), ln)
            if s == 'new':
                return self.new()
            if s == 'delete':
                self.i += 1
                if self.s() == '[': self.i += 2
                return E('del', (self.unary(),), ln)
            if s == 'co_await': self.i += 1; return self.unary()
        return self.postfix()

    def cast(self):
        r = self.try_type(self.i + 1)
        if not r: return None
        j, txt, builtin, tail = r
        if j >= self.end or self.t[j].s != ')': return None
        nk, ns = (self.t[j + 1].k, self.t[j + 1].s) if j + 1 < self.end else ('eof', '')
        ok = False
        simple = (j == self.i + 2)
        if nk in ('num', 'str', 'chr') or (nk == 'id' and ns not in ('and', 'or')): ok = True
        elif ns in ('!', '~'): ok = True
        elif ns == '(':
            ok = builtin or bool(tail) or txt.endswith('_t') or '<' in txt
        elif ns in ('*', '&', '-', '+', '++', '--'):
            ok = builtin or (bool(tail) and not simple) or txt.endswith('_t')
        elif ns in ('{', '['):
            ok = builtin
        if not ok: return None
        ln = self.line()
        self.i = j + 1
        return E('cast', (txt, self.unary()), ln)

    def new(self):
        ln = self.line()
        self.i += 1
        if self.s() == '(':  # placement, unless it is a parenthesised type
            c = self.match_close(self.i)
            if self.t[c + 1].k == 'id' or self.t[c + 1].s in ('(', '::'):
                self.i = c + 1
        if self.s() == '(':
            c = self.match_close(self.i); txt = ' '.join(x.s for x in self.t[self.i + 1:c]); self.i = c + 1
        else:
            r = self.try_type(self.i)
            if not r: raise ParseError('line %d: new' % ln)
            self.i, txt = r[0], r[1]
        args = []
        if self.s() == '[':
            c = self.match_close(self.i); self.i += 1
            args.append(self.expr()); self.i = c + 1
        if self.s() == '(': args += self.args()
        elif self.s() == '{': args += list(self.braced().a[1])
        return E('new', (txt, tuple(args)), ln)

    def args(self):
        self.expect('(')
        out = []
        while self.s() != ')':
            if self.s() == '{': out.append(self.braced())
            else:
                st = self.i
                try:
                    out.append(self.assign())
                    if self.s() == '...': self.i += 1
                    if self.s() not in (',', ')'): raise ParseError('line %d: arg' % self.line())
                except ParseError:
                    # maybe a type argument or statement in a macro: take raw tokens
                    self.i = st
                    out.append(self.raw_arg())
            if self.s() == ',': self.i += 1
        self.i += 1
        return out

    def raw_arg(self):
        d = 0; ln = self.line(); st = self.i
        while self.i < self.end:
            s = self.s()
            if self.k() == 'op':
                if s in ('(', '[', '{'): d += 1
                elif s in (')', ']', '}'):
                    if d == 0: break
                    d -= 1
                elif s == ',' and d == 0: break
            self.i += 1
        txt = ' '.join(x.s for x in self.t[st:self.i])
        if any(x.s == ';' for x in self.t[st:self.i]) or (self.t[st].k == 'id' and self.t[st].s in ('return', 'if', 'for', 'while')):
            # statement passed to a macro such as DEFER
            p = Parser(self.t, st, self.i)
            try:
                b = p.stmts_until_end()
                return E('stmtarg', (b,), ln)
            except ParseError:
                pass
        r = self.try_type(st)
        if not (r and r[0] == self.i):
            self.opaque.append((ln, txt[:80]))
        return E('raw', (txt,), ln)

    def braced(self, tname=None):
        ln = self.line()
        self.expect('{')
        out = []
        while self.s() != '}':
            if self.s() == '{': out.append(self.braced())
            elif self.s() == '.' and self.k(1) == 'id':
                self.i += 1; nm = self.s(); self.i += 1
                self.accept('=')
                out.append(E('desig', (nm, self.init_or_assign()), ln))
            else: out.append(self.assign())
            if self.s() == '...': self.i += 1
            if not self.accept(','): break
        self.expect('}')
        return E('init', (tname, tuple(out)), ln)

    def qualname(self):
        """parse [::] id [<..>] (:: id ...)*; returns (name, targs)"""
        t = self.t
        nm = ''
        targs = ''
        if self.s() == '::': self.i += 1
        while True:
            if self.s() == '~': nm += '~'; self.i += 1
            if self.s() == 'operator':
                self.i += 1
                op = ''
                if self.s() in ('(', '['):
                    op = self.s() + self.s(1); self.i += 2
                else:
                    while self.s() != '(' and self.k() != 'eof': op += self.s(); self.i += 1
                nm += 'operator' + op
                return nm, targs
            if self.k() != 'id': raise ParseError('line %d: name expected at %r' % (self.line(), self.s()))
            nm += self.s(); self.i += 1
            targs = ''
            if self.s() == '<' and self.k() == 'op':
                e = self.scan_targs(self.i)
                if e is not None and e < self.end and self.t[e].s in ('(', '::', '{', ')', ';', ','):
                    nx = self.t[e].s
                    known = nm.startswith('std::') or nm.endswith('_cast') or nx in ('(', '::', '{')
                    if known:
                        targs = ''.join((' ' if q > self.i and t[q].k == 'id' and t[q - 1].k == 'id' else '') + t[q].s
                                        for q in range(self.i + 1, e - 1))
                        self.i = e
            if self.s() == '::' and (self.k(1) == 'id' or self.s(1) == '~'):
                self.i += 1
                nm += '::'
                if self.s() == 'template': self.i += 1
                continue
            return nm, targs

    def lambda_(self):
        ln = self.line()
        c = self.match_close(self.i)
        cap = ' '.join(x.s for x in self.t[self.i + 1:c])
        self.i = c + 1
        params = []
        if self.s() == '<': self.i = self.scan_targs(self.i) or self.i
        if self.s() == '(':
            c = self.match_close(self.i)
            params = parse_params(self, self.i + 1, c)
            self.i = c + 1
        while self.s() in ('mutable', 'noexcept', 'constexpr'): self.i += 1
        if self.s() == '->':
            self.i += 1
            r = self.try_type(self.i)
            if r: self.i = r[0]
        if self.s() != '{': raise ParseError('line %d: lambda body' % ln)
        body = self.block()
        return E('lambda', (cap, tuple(params), body), ln)

    def primary(self):
        s = self.s(); k = self.k(); ln = self.line()
        if k == 'num': self.i += 1; return E('num', (s,), ln)
        if k == 'str':
            txt = ''
            while self.k() == 'str' or (self.k() == 'id' and self.s().isupper() or self.s().startswith('PRI')):
                txt += self.s(); self.i += 1
            if self.k() == 'id' and self.t[self.i].adj and self.s() in ('s', 'sv'): self.i += 1
            return E('str', (txt,), ln)
        if k == 'chr': self.i += 1; return E('chr', (s,), ln)
        if k == 'op':
            if s == '(':
                self.i += 1
                if self.s() == '{':
                    # GNU statement expression
                    b = self.block(); self.expect(')')
                    return E('stmtexpr', (b,), ln)
                e = self.expr()
                while self.s() == '...' or (self.binop()[0] and self.s(1) == '...'):
                    # fold expression
                    self.i = self.match_from(')')
                self.expect(')')
                return e
            if s == '[': return self.lambda_()
            if s == '{': return self.braced()
            if s == '::': pass
            elif s == '~': pass
            else: raise ParseError('line %d: unexpected %r' % (ln, s))
        if k == 'id':
            if s == 'this': self.i += 1; return E('this', (), ln)
            if s in ('true', 'false', 'nullptr'): self.i += 1; return E('lit', (s,), ln)
            if s == 'typename': self.i += 1; return self.primary()
            if s in BUILTIN or s in ('const',):
                r = self.try_type(self.i)
                if r and self.t[r[0]].s in ('(', '{'):
                    self.i = r[0]
                    nm = r[1]
                    if self.s() == '{': return self.braced(nm)
                    return E('name', (nm, ''), ln)
                raise ParseError('line %d: unexpected type %r' % (ln, s))
            if s in KW_STMT and s not in ('operator', 'this', 'sizeof', 'new', 'delete'):
                raise ParseError('line %d: unexpected keyword %r' % (ln, s))
        if k == 'eof': raise ParseError('line %d: unexpected end' % ln)
        nm, targs = self.qualname()
        if self.s() == '{' and self.k() == 'op' and self.brace_init_ok(nm, targs):
            e = self.braced(nm + ('<' + targs + '>' if targs else ''))
            return e
        return E('name', (nm, targs), ln)

    nobrace = 0
    def brace_init_ok(self, nm, targs):
        if targs: return True
        last = nm.split('::')[-1]
        return last[:1].isupper() or nm.startswith('std::') or last.endswith('_t') or '::' in nm

    def match_from(self, close):
        d = 0; i = self.i
        while i < self.end:
            s = self.t[i].s
            if s in ('(', '[', '{'): d += 1
            elif s in (')', ']', '}'):
                if d == 0: return i
                d -= 1
            i += 1
        raise ParseError('unbalanced')

    def postfix(self):
        e = self.primary()
        while True:
            s = self.s()
            if self.k() != 'op': return e
            ln = self.line()
            if s == '(':
                a = self.args()
                e = E('call', (e, tuple(a)), ln)
            elif s in ('.', '->'):
                self.i += 1
                if self.s() == 'template': self.i += 1
                if self.s() == '*':
                    self.i += 1
                    e = E('bin', ('.*', e, self.unary()), ln)
                    continue
                # member name, possibly qualified / templated / destructor / operator
                nm, targs = self.memname()
                e = E('mem', (e, nm, s), ln)
            elif s == '[':
                self.i += 1
                x = self.init_or_assign() if self.s() == '{' else self.expr()
                self.expect(']')
                e = E('idx', (e, x), ln)
            elif s in ('++', '--'):
                self.i += 1
                e = E('post', (s, e), ln)
            else:
                return e

    def memname(self):
        if self.s() == '~':
            self.i += 1; nm = '~' + self.s(); self.i += 1
            return nm, ''
        return self.qualname()

    # -- statements
    def block(self):
        ln = self.line()
        self.expect('{')
        out = []
        while self.s() != '}':
            if self.k() == 'eof': raise ParseError('eof in block')
            out.append(self.stmt())
        self.i += 1
        return E('block', (tuple(out),), ln)

    def stmts_until_end(self):
        out = []
        while self.i < self.end: out.append(self.stmt(allow_noend=True))
        return E('block', (tuple(out),), self.line())

    def semi(self, allow_noend=False):
        if allow_noend and self.i >= self.end: return
        self.expect(';')

    def stmt(self, allow_noend=False):
        st = self.i
        try:
            return self.stmt1(allow_noend)
        except ParseError as ex:
            # recover: skip to ';' at depth 0 or a balanced block
            self.i = st
            ln = self.line()
            d = 0
            while self.i < self.end:
                s = self.s()
                if self.k() == 'op':
                    if s in ('(', '[', '{'): d += 1
                    elif s in (')', ']', '}'):
                        d -= 1
                        if d < 0: break
                        if d == 0 and s == '}' and self.s(1) not in (')', ',', ';', '.', '->'):
                            self.i += 1
                            break
                    elif s == ';' and d == 0:
                        self.i += 1
                        break
                self.i += 1
            if self.i == st: self.i += 1
            txt = ' '.join(x.s for x in self.t[st:min(self.i, st + 14)])
            self.opaque.append((ln, txt + '   [' + str(ex) + ']'))
            return E('opaque', (' '.join(x.s for x in self.t[st:self.i]),), ln)

    def stmt1(self, allow_noend=False):
        s = self.s(); k = self.k(); ln = self.line()
        if k == 'op':
            if s == '{': return self.block()
            if s == ';': self.i += 1; return E('empty', (), ln)
            if s == '[' and self.s(1) == '[':
                self.i = self.match_close(self.i) + 1
                return self.stmt1(allow_noend)
        if k == 'id':
            if s == '__attribute__' and self.s(1) == '(':
                self.i = self.match_close(self.i + 1) + 1
                return self.stmt1(allow_noend)
            if s.isupper() and self.s(1) in ('for', 'while') and self.k(1) == 'id':
                self.i += 1
                return self.stmt1(allow_noend)
            if s == 'if':
                self.i += 1
                if self.s() == 'constexpr': self.i += 1
                self.expect('(')
                init = None
                # optional init-statement
                d = 0; j = self.i; has = False
                while j < self.end:
                    x = self.t[j].s
                    if self.t[j].k == 'op':
                        if x in ('(', '[', '{'): d += 1
                        elif x in (')', ']', '}'):
                            if d == 0: break
                            d -= 1
                        elif x == ';' and d == 0: has = True; break
                    j += 1
                if has: init = self.stmt1()
                dcl = self.try_decl(in_cond=True)
                if dcl is not None: cond = dcl
                else: cond = self.expr()
                self.expect(')')
                th = self.stmt()
                el = None
                if self.s() == 'else' and self.k() == 'id':
                    self.i += 1
                    el = self.stmt()
                return E('if', (init, cond, th, el), ln)
            if s == 'while':
                self.i += 1; self.expect('(')
                dcl = self.try_decl(in_cond=True)
                c = dcl if dcl is not None else self.expr()
                self.expect(')')
                return E('while', (c, self.stmt()), ln)
            if s == 'do':
                self.i += 1
                b = self.stmt()
                if self.s() != 'while': raise ParseError('do-while')
                self.i += 1
                self.expect('('); c = self.expr(); self.expect(')'); self.semi(allow_noend)
                return E('do', (b, c), ln)
            if s == 'for' or s == 'BOOST_FOREACH':
                return self.for_()
            if s == 'switch':
                self.i += 1; self.expect('(')
                c = self.expr(); self.expect(')')
                return E('switch', (c, self.stmt()), ln)
            if s == 'case':
                self.i += 1
                e = self.ternary()
                if self.s() == '...': self.i += 1; self.ternary()
                self.expect(':')
                return E('case', (e,), ln)
            if s == 'default' and self.s(1) == ':':
                self.i += 2
                return E('default', (), ln)
            if s == 'return' or s == 'co_return':
                self.i += 1
                e = None
                if self.s() == '{': e = self.braced()
                elif self.s() != ';' and self.i < self.end: e = self.expr()
                self.semi(allow_noend)
                return E('ret', (e,), ln)
            if s == 'break': self.i += 1; self.semi(); return E('break', (), ln)
            if s == 'continue': self.i += 1; self.semi(); return E('continue', (), ln)
            if s == 'goto':
                self.i += 1; nm = self.s(); self.i += 1; self.semi()
                return E('goto', (nm,), ln)
            if s == 'try':
                self.i += 1
                b = self.block()
                hs = []
                while self.s() == 'catch':
                    self.i += 1
                    c = self.match_close(self.i); self.i = c + 1
                    hs.append(self.block())
                return E('try', (b, tuple(hs)), ln)
            if s in ('using', 'typedef', 'static_assert', 'friend'):
                while self.s() != ';': self.i += 1
                self.i += 1
                return E('empty', (), ln)
            if s in ('struct', 'class', 'union', 'enum') and self.local_type(): return E('empty', (), ln)
            if self.s(1) == ':' and self.k(1) == 'op' and s not in KW_STMT and s not in BUILTIN:
                self.i += 2
                return E('label', (s,), ln)
            if s in ('asm', '__asm__'):
                while self.s() != ';': self.i += 1
                self.i += 1
                return E('opaque', ('asm',), ln)
        d = self.try_decl()
        if d is not None:
            self.semi(allow_noend)
            return d
        e = self.expr()
        if self.s() != ';' and e.k == 'call' and e.a[0].k == 'name' and e.a[0].a[0].split('::')[-1].isupper():
            # statement-like macro without a semicolon
            return E('expr', (e,), ln)
        self.semi(allow_noend)
        return E('expr', (e,), ln)

    def local_type(self):
        j = self.i + 1
        while j < self.end and self.t[j].s not in ('{', ';', '(', '='): j += 1
        if j < self.end and self.t[j].s == '{':
            c = self.match_close(j)
            self.i = c + 1
            while self.s() != ';': self.i += 1
            self.i += 1
            return True
        return False

    def for_(self):
        ln = self.line()
        self.i += 1
        self.expect('(')
        # range-for?
        d = 0; j = self.i; colon = None; q = 0
        while j < self.end:
            x = self.t[j].s
            if self.t[j].k == 'op':
                if x in ('(', '[', '{'): d += 1
                elif x in (')', ']', '}'):
                    if d == 0: break
                    d -= 1
                elif d == 0 and x == ';': break
                elif d == 0 and x == '?': q += 1
                elif d == 0 and x == ':':
                    if q: q -= 1
                    else: colon = j; break
            j += 1
        if colon is not None:
            r = self.try_type(self.i)
            if not r: raise ParseError('line %d: range-for decl' % ln)
            ty = r[1]
            self.i = r[0]
            names = self.bind_names()
            self.expect(':')
            rng = self.init_or_assign() if self.s() == '{' else self.expr()
            self.expect(')')
            return E('rfor', (names, ty, rng, self.stmt()), ln)
        init = None
        if self.s() == ';': self.i += 1
        else:
            init = self.try_decl()
            if init is None: init = E('expr', (self.expr(),), ln)
            self.expect(';')
        cond = None if self.s() == ';' else self.expr()
        self.expect(';')
        step = None if self.s() == ')' else self.expr()
        self.expect(')')
        return E('for', (init, cond, step, self.stmt()), ln)

    def bind_names(self):
        if self.s() == '[':
            c = self.match_close(self.i)
            names = tuple(x.s for x in self.t[self.i + 1:c] if x.k == 'id')
            self.i = c + 1
            return ('[]',) + names
        nm = self.s()
        if self.k() != 'id': raise ParseError('line %d: declarator' % self.line())
        self.i += 1
        return nm

    def try_decl(self, in_cond=False):
        """Parse a variable declaration (without the ';') or return None."""
        st = self.i
        ln = self.line()
        r = self.try_type(self.i)
        if not r: return None
        j, ty, builtin, tail = r
        if j >= self.end: return None
        tk = self.t[j]
        if tk.s == '[' and tk.k == 'op' and 'auto' in ty.split():
            pass
        elif tk.s == '[' and tk.k == 'op' and ty.replace('const', '').strip().rstrip('&') == 'auto':
            pass
        elif tk.s == '(' and self.t[j + 1].s == '*' and self.t[j + 2].k == 'id' and self.t[j + 3].s == ')' \
                and self.t[j + 4].s == '(' and builtin:
            # function pointer variable
            self.i = j + 2
            nm = self.s(); self.i += 2
            self.i = self.match_close(self.i) + 1
            init = None
            if self.accept('='): init = self.init_or_assign()
            return E('decl', (((nm, ty, init),),), ln)
        elif tk.k != 'id' or tk.s in KW_STMT:
            return None
        else:
            nx = self.t[j + 1].s if j + 1 < self.end + 1 else ''
            if in_cond:
                if nx not in ('=', '{'): return None
            elif nx not in ('=', ';', '(', '{', ',', '[', ':', '') : return None
            if nx == ':' and not in_cond and False: return None
            if nx == '(' and not builtin and '<' not in ty and not tail:
                # `Type name(args)`; a macro call such as `FOO bar(` does not occur
                pass
        self.i = j
        decls = []
        base = ty
        while True:
            extra = ''
            while self.s() in ('*', '&') and self.k() == 'op': extra += self.s(); self.i += 1
            names = self.bind_names()
            init = None
            if self.s() == '[' and not isinstance(names, tuple):
                while self.s() == '[':
                    c = self.match_close(self.i)
                    self.i = c + 1
                extra += '[]'
            if self.s() == '=':
                self.i += 1
                init = self.init_or_assign()
            elif self.s() == '(':
                save = self.i
                a = self.args()
                init = E('ctor', (base + extra, tuple(a)), ln)
            elif self.s() == '{':
                b = self.braced()
                init = E('ctor', (base + extra, b.a[1], 'brace'), ln)
            decls.append((names, base + extra, init))
            if in_cond: break
            if not self.accept(','): break
        if in_cond:
            if self.s() != ')':
                self.i = st
                return None
        elif self.s() not in (';', ':', ')') and self.i < self.end:
            self.i = st
            return None
        return E('decl', (tuple(decls),), ln)


def parse_params(p, i, c):
    """Parse parameter declarations in tokens [i,c). Returns [(name, type, has_default)]."""
    out = []
    t = p.t
    j = i
    while j < c:
        # find end of this parameter
        d = 0; e = j; deflt = None
        while e < c:
            s = t[e].s
            if t[e].k == 'op':
                if s in ('(', '[', '{'): d += 1
                elif s in (')', ']', '}'): d -= 1
                elif s == '<' and deflt is None:
                    x = p.scan_targs(e)
                    if x is not None and x <= c: e = x; continue
                elif s == '=' and d == 0 and deflt is None: deflt = e
                elif s == ',' and d == 0: break
            e += 1
        stop = deflt if deflt is not None else e
        toks = t[j:stop]
        name = ''
        ty = toks
        if toks:
            # function pointer / std::function handled by last identifier heuristic
            q = len(toks) - 1
            while q >= 0 and toks[q].s == ']':
                while q >= 0 and toks[q].s != '[': q -= 1
                q -= 1
            if q >= 0 and toks[q].k == 'id' and toks[q].s not in BUILTIN and toks[q].s not in CV and q > 0 and \
                    toks[q - 1].s != '::':
                name = toks[q].s
                ty = toks[:q] + toks[q + 1:]
        txt = ''
        for x in ty:
            if txt and (txt[-1].isalnum() or txt[-1] in '_') and (x.s[0].isalnum() or x.s[0] == '_'): txt += ' '
            txt += x.s
        if txt != 'void' or name:
            if txt or name: out.append((name, txt, deflt is not None))
        j = e + 1
    return out


def is_cstr(x):
    return isinstance(x, E) and x.k == 'call' and not x.a[1] and isinstance(x.a[0], E) and x.a[0].k == 'mem' and x.a[0].a[1] == 'c_str'

def cut_cstr(x):
    if is_cstr(x): x.a[0].a = (x.a[0].a[0], 'cstr') + tuple(x.a[0].a[2:])

def mark_cstr(x):
    '''x.c_str() stands for x itself, except where a byte string is built from it: the bytes after the first zero byte
    are lost there, and the name becomes `cstr`.'''
    if isinstance(x, (list, tuple)):
        for y in x: mark_cstr(y)
        if isinstance(x, tuple) and len(x) == 3 and isinstance(x[1], str) and base_str(x[1]): cut_cstr(x[2])
        return
    if not isinstance(x, E): return
    if x.k == 'asg': cut_cstr(x.a[2])
    elif x.k == 'ctor' and isinstance(x.a[0], str) and base_str(x.a[0]) and len(x.a[1]) == 1: cut_cstr(x.a[1][0])
    elif x.k == 'call' and isinstance(x.a[0], E):
        f = x.a[0]
        if f.k == 'name' and isinstance(f.a[0], str) and f.a[0] in ('std::string', 'string', 'std::string_view') and len(x.a[1]) == 1:
            cut_cstr(x.a[1][0])
        elif f.k == 'mem' and isinstance(f.a[1], str):
            n = f.a[1].split('::')[-1]
            if n.startswith(('set_', 'add_')) or n in ('push_back', 'emplace_back', 'emplace', 'insert', 'try_emplace', 'insert_or_assign') \
               or n in ('append', 'assign') and len(x.a[1]) == 1:
                for y in x.a[1]: cut_cstr(y)
    for y in x.a: mark_cstr(y)

def base_str(t):
    return '*' not in t and t.replace('const', '').replace('&', '').strip() in ('std::string', 'string', 'std::string_view', 'string_view')


class Func:
    __slots__ = ('name', 'cls', 'ns', 'params', 'ret', 'file', 'line', 'endline', 'btok', 'etok', 'inits', 'toks', '_body',
                 'opaque', 'quals', 'isdecl')
    def qual(self):
        return (self.cls + '::' if self.cls else '') + self.name
    def body(self):
        if self._body is None:
            p = Parser(self.toks, self.btok, self.etok + 1)
            self._body = p.block()
            self.opaque = p.opaque
            if any(self.toks[i].s == 'c_str' for i in range(self.btok, self.etok)): mark_cstr(self._body)
        return self._body
    def __repr__(self):
        return '<%s %s:%d>' % (self.qual(), self.file, self.line)


class Unit:
    def __init__(self, path, text, rel):
        self.path = path
        self.rel = rel
        self.toks = tokenize(text)
        self.funcs = []      # definitions
        self.decls = []      # declarations without body
        self.fields = {}     # class -> {field: type}
        self.enums = {}      # enum name -> [enumerators]
        self.bases = {}      # class -> [base names]
        self.flags = {}      # gflag name -> (type, default text, line)
        self.errors = []
        self.p = Parser(self.toks)
        self.scan(0, len(self.toks) - 1, None)

    def skip_to(self, i, end, stops=(';',)):
        t = self.toks
        d = 0
        while i < end:
            s = t[i].s
            if t[i].k == 'op':
                if s in ('(', '[', '{'): d += 1
                elif s in (')', ']', '}'): d -= 1
                elif s in stops and d == 0: return i
            i += 1
        return end

    def scan(self, i, end, cls):
        t = self.toks
        P = self.p
        while i < end:
            tk = t[i]
            s = tk.s
            if tk.k == 'op':
                if s == '{':
                    i = P.match_close(i) + 1
                else:
                    i += 1
                if s == '[' and t[i].s == '[':
                    i = P.match_close(i - 1) + 1
                continue
            if tk.k == 'id':
                if s == 'namespace':
                    j = i + 1
                    while t[j].s not in ('{', ';', '='): j += 1
                    if t[j].s == '{':
                        c = P.match_close(j)
                        self.scan(j + 1, c, cls)
                        i = c + 1
                    else:
                        i = self.skip_to(j, end) + 1
                    continue
                if s == 'extern' and t[i + 1].k == 'str':
                    if t[i + 2].s == '{':
                        c = P.match_close(i + 2)
                        self.scan(i + 3, c, cls)
                        i = c + 1
                    else: i += 2
                    continue
                if s == 'template':
                    if t[i + 1].s == '<':
                        d = 0; j = i + 1
                        while j < end:
                            if t[j].s == '<': d += 1
                            elif t[j].s == '>':
                                d -= 1
                                if d == 0: break
                            j += 1
                        i = j + 1
                    else: i += 1
                    continue
                if s in ('using', 'typedef', 'static_assert', 'friend'):
                    i = self.skip_to(i, end) + 1
                    continue
                if s in ('public', 'private', 'protected', 'signals') and t[i + 1].s == ':':
                    i += 2
                    continue
                if s in ('class', 'struct', 'union') :
                    r = self.scan_class(i, end, cls)
                    if r is not None:
                        i = r
                        continue
                if s == 'enum':
                    j = i + 1
                    while j < end and t[j].s not in ('{', ';', '('): j += 1
                    if j < end and t[j].s == '{':
                        c = P.match_close(j)
                        nm = ''
                        q = i + 1
                        while t[q].s in ('class', 'struct'): q += 1
                        if t[q].k == 'id': nm = t[q].s
                        vals = []
                        q = j + 1
                        while q < c:
                            if t[q].k == 'id': vals.append(t[q].s)
                            q = self.skip_to(q, c, (',',)) + 1
                        self.enums[nm] = vals
                        i = self.skip_to(c + 1, end) + 1
                        continue
                    if j < end and t[j].s == ';':
                        i = j + 1
                        continue
            i = self.scan_decl(i, end, cls)

    def scan_class(self, i, end, cls):
        t = self.toks
        P = self.p
        j = i + 1
        nm = ''
        while j < end:
            s = t[j].s
            if t[j].k == 'id':
                if s in ('final',): pass
                elif s == 'alignas' or s == '__attribute__':
                    j = P.match_close(j + 1)
                else: nm = s
            elif s == '<':
                e = P.scan_targs(j)
                if e is None: return None
                j = e
                continue
            elif s == '[': j = P.match_close(j)
            elif s == '::': pass
            elif s in (':', '{', ';'): break
            else: return None
            j += 1
        if j >= end: return end
        if t[j].s == ';': return j + 1
        bases = []
        if t[j].s == ':':
            q = j + 1
            while t[q].s != '{':
                if t[q].k == 'id' and t[q].s not in ('public', 'private', 'protected', 'virtual') and \
                        t[q + 1].s in (',', '{', '<', '::'):
                    bases.append(t[q].s)
                q += 1
            j = q
        c = P.match_close(j)
        self.bases.setdefault(nm, []).extend(bases)
        self.fields.setdefault(nm, {})
        self.scan(j + 1, c, nm)
        # trailing declarators
        k = self.skip_to(c + 1, end)
        return k + 1

    def scan_decl(self, i, end, cls):
        """one declaration starting at i; returns next index."""
        t = self.toks
        P = self.p
        st = i
        j = i
        while j < end:
            tk = t[j]
            s = tk.s
            if s == 'operator' and t[j + 1].k == 'op' and t[j + 1].s != '(':
                j += 1
                while j < end and t[j].k == 'op' and t[j].s != '(': j += 1
                continue
            if tk.k == 'op':
                if s == ';':
                    self.field(st, j, cls)
                    return j + 1
                if s == '=':
                    k = self.skip_to(j, end)
                    self.field(st, j, cls)
                    return k + 1
                if s == '{':
                    # brace-initialised variable or unknown construct
                    c = P.match_close(j)
                    if t[c + 1].s in (';', ','):
                        self.field(st, j, cls)
                        return self.skip_to(c + 1, end) + 1
                    return c + 1
                if s == '<':
                    e = P.scan_targs(j)
                    if e is not None:
                        j = e
                        continue
                if s == '[':
                    j = P.match_close(j) + 1
                    continue
                if s == '(':
                    prev = t[j - 1]
                    isop = False
                    q = j - 1
                    while q > st and t[q].s != 'operator' and j - q < 4: q -= 1
                    if t[q].s == 'operator' and q >= st: isop = True
                    if s == '(' and isop and t[j - 1].s == 'operator' and t[j + 1].s == ')': j += 2   # operator()
                    if isop or (prev.k == 'id' and prev.s not in BUILTIN and prev.s not in ('decltype', 'noexcept', 'alignas', '__attribute__')):
                        r = self.function(st, j, end, cls, q if isop else None)
                        if r is not None: return r
                    c = P.match_close(j)
                    j = c + 1
                    continue
                if s == '}':
                    return j + 1
            j += 1
        return end

    def field(self, st, j, cls):
        if cls is None: return
        t = self.toks
        q = j - 1
        while q > st and t[q].s == ']':
            while q > st and t[q].s != '[': q -= 1
            q -= 1
        if q > st and t[q].k == 'id':
            self.fields.setdefault(cls, {})[t[q].s] = ' '.join(x.s for x in t[st:q])

    def function(self, st, j, end, cls, opidx):
        t = self.toks
        P = self.p
        # name
        if opidx is not None:
            ns = opidx
            name = 'operator' + ''.join(x.s for x in t[opidx + 1:j])
        else:
            ns = j - 1
            name = t[ns].s
            if t[ns - 1].s == '~': ns -= 1; name = '~' + name
        quals = []
        while ns - 2 >= st and t[ns - 1].s == '::' and (t[ns - 2].k == 'id' or t[ns - 2].s == '>'):
            if t[ns - 2].s == '>':
                q = ns - 2; d = 0
                while q > st:
                    if t[q].s == '>': d += 1
                    elif t[q].s == '<':
                        d -= 1
                        if d == 0: break
                    q -= 1
                ns = q - 1
            else:
                ns -= 2
            quals.insert(0, t[ns].s)
        ret = ' '.join(x.s for x in t[st:ns])
        c = P.match_close(j)
        k = c + 1
        # flags
        if name.startswith('DEFINE_') and not quals:
            args = [x.s for x in t[j + 1:c]]
            if args:
                # default = tokens between first and second comma
                d = 0; parts = [[]]
                for x in t[j + 1:c]:
                    if x.s in ('(', '{', '['): d += 1
                    if x.s in (')', '}', ']'): d -= 1
                    if x.s == ',' and d == 0: parts.append([]); continue
                    parts[-1].append(x.s)
                if len(parts) >= 2:
                    self.flags[parts[0][0]] = (name[7:], ' '.join(parts[1]), t[j].line)
            return self.skip_to(c + 1, end) + 1
        fcls = quals[-1] if quals else cls
        isctor = fcls is not None and name == fcls
        # plain macro invocation at namespace scope such as BRPC_VALIDATE_GFLAG(..);
        while k < end:
            s = t[k].s
            if s in ('const', 'noexcept', 'override', 'final', 'volatile', '&', '&&', 'mutable'):
                k += 1
                if s == 'noexcept' and t[k].s == '(': k = P.match_close(k) + 1
                continue
            if s == '->':
                r = P.try_type(k + 1)
                if not r: return None
                k = r[0]
                continue
            if s == '[' and t[k + 1].s == '[':
                k = P.match_close(k) + 1
                continue
            if s == '__attribute__':
                k = P.match_close(k + 1) + 1
                continue
            break
        inits = []
        f = Func()
        f.name = name; f.cls = fcls; f.ns = None; f.ret = ret; f.file = self.rel; f.line = t[j].line
        f.toks = t; f._body = None; f.opaque = []; f.quals = quals; f.inits = inits
        f.params = parse_params(P, j + 1, c)
        f.btok = f.etok = None; f.endline = f.line
        f.isdecl = True
        if t[k].s == ':' and (isctor or not ret):
            # ctor initialisers
            q = k + 1
            while q < end:
                # name
                n0 = q
                while q < end and t[q].s not in ('(', '{'):
                    if t[q].s == '<':
                        e = P.scan_targs(q)
                        if e is not None: q = e; continue
                    q += 1
                cc = P.match_close(q)
                inits.append((t[q - 1].s, q, cc))
                q = cc + 1
                if t[q].s == '...': q += 1
                if t[q].s == ',':
                    q += 1
                    continue
                break
            k = q
        if t[k].s == '{':
            cc = P.match_close(k)
            f.btok = k; f.etok = cc; f.endline = t[cc].line
            f.isdecl = False
            self.funcs.append(f)
            n = cc + 1
            return n
        if t[k].s == 'try':
            return None
        if t[k].s == ';':
            if ret or isctor or name.startswith('~'):
                self.decls.append(f)
            return k + 1
        if t[k].s == '=':
            e = self.skip_to(k, end)
            if t[k + 1].s in ('0',) : self.decls.append(f)
            return e + 1
        if t[k].s == ',':   # multiple declarators: treat as variables
            return self.skip_to(k, end) + 1
        return None
