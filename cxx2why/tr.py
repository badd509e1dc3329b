"""Clang AST -> WhyML translation of function bodies."""
import json, re
from .ast import ExtractError
from .types import Types, why

PASS = ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr',
        'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'CXXRewrittenBinaryOperator', 'CXXStaticCastExpr',
        'CXXFunctionalCastExpr', 'ImplicitCastExpr', 'CStyleCastExpr', 'CXXConstCastExpr')


class NeedFn(Exception):
    def __init__(self, name):
        Exception.__init__(self, name)
        self.name = name


class X:
    """Translated expression: code, type, effectful?, plus iterator / lvalue extras."""

    def __init__(self, code, ty, eff=False, **kw):
        self.code, self.ty, self.eff = code, ty, eff
        self.lv = kw.get('lv')
        self.it = kw.get('it')      # iterator: dict
        self.node = kw.get('node')
        self.__dict__.update({k: v for k, v in kw.items() if k not in ('lv', 'it', 'node')})

    def __str__(self):
        return self.code


class LV:
    """An lvalue: a mutable variable plus a path of selectors."""

    def __init__(self, var, ty, path=()):
        self.var, self.ty, self.path = var, ty, tuple(path)

    def read(self):
        c = self.var
        for k, a, _t in self.path:
            c = sel_read(k, a, c)
        return c

    def write(self, v):
        def go(cur, path):
            if not path:
                return v
            k, a, _t = path[0]
            inner = go(sel_read(k, a, cur), path[1:])
            return sel_write(k, a, cur, inner)
        return '%s <- %s' % (self.var, go(self.var, self.path))

    def ext(self, k, a, ty):
        return LV(self.var, ty, self.path + ((k, a, ty),))


def sel_read(k, a, c):
    if k == 'field':
        return '%s.%s' % (par(c), a)
    if k == 'idx':
        return '(at_ %s %s)' % (par(c), par(a))
    if k == 'key':
        return '(mgetx %s %s)' % (par(c), par(a))
    if k == 'keyd':
        return '(mgetd %s %s)' % (par(c), par(a[0]))
    if k == 'opt':
        return '(oget %s)' % par(c)
    if k == 'fst':
        return '(fst_ %s)' % par(c)
    if k == 'snd':
        return '(snd_ %s)' % par(c)
    raise ExtractError('sel ' + k)


def sel_write(k, a, c, v):
    if k == 'field':
        return '{ %s with %s = %s }' % (par(c), a, v)
    if k == 'idx':
        return '(upd_ %s %s %s)' % (par(c), par(a), par(v))
    if k == 'key':
        return '(mset %s %s %s)' % (par(c), par(a), par(v))
    if k == 'keyd':
        return '(mset %s %s %s)' % (par(c), par(a[0]), par(v))
    if k == 'opt':
        return '(Some %s)' % par(v)
    if k == 'fst':
        return '(%s, snd_ %s)' % (v, par(c))
    if k == 'snd':
        return '(fst_ %s, %s)' % (par(c), v)
    raise ExtractError('sel ' + k)


_atom = re.compile(r"^[A-Za-z_0-9.'!]+$")


def par(c):
    c = str(c)
    if _atom.match(c):
        return c
    if c[0] == '(' and c[-1] == ')':
        d = 0
        for i, ch in enumerate(c):
            d += ch == '('
            d -= ch == ')'
            if d == 0 and i < len(c) - 1:
                break
        else:
            return c
    return '(' + c + ')'


class Lits:
    """String literals of one module."""

    def __init__(self):
        self.tab = {}
        self.full = set()

    def get(self, b, full=False):
        """full: the bytes matter to the specification; otherwise only length and distinctness are stated"""
        if len(b) == 0:
            return '(empty : str)'
        if b not in self.tab:
            nm = ''.join(chr(c) if chr(c).isalnum() and c < 128 else '_%02x' % c for c in b[:12])
            self.tab[b] = 'lit_%d_%s' % (len(self.tab), nm)
        if full or len(b) <= 2:
            self.full.add(b)
        return self.tab[b]

    def decls(self, text=None):
        out = []
        for k, (b, n) in enumerate(self.tab.items()):
            if text is not None and not re.search(r'\b%s\b' % n, text):
                continue
            out.append('  val constant %s : str' % n)
            if b not in self.full:
                out.append('  axiom %s_spec : len %s = %d /\\ lit_tag %s = %d' % (n, n, len(b), n, k))
                continue
            e = '(empty : str)'
            for c in b:
                e = '(snoc %s %d)' % (e, c)
            out.append('  axiom %s_def : %s = %s' % (n, n, e))
            # derived facts (proved, not assumed), stated to help the solvers
            fs = ['len %s = %d /\\ lit_tag %s = %d' % (n, len(b), n, k)] + ['nth %s %d = %d' % (n, i, c) for i, c in enumerate(b)][:40]
            out.append('  axiom %s_spec : %s' % (n, ' /\\ '.join(fs)))
        return '\n'.join(out)


def cstr(s):
    """decode clang's printed string literal to bytes"""
    assert s[0] in '"uUL' or s.startswith('R'), s
    i = s.index('"')
    s = s[i + 1:s.rindex('"')]
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c != '\\':
            out += c.encode('utf-8')
            i += 1
            continue
        n = s[i + 1]
        simple = {'n': 10, 't': 9, 'r': 13, '0': 0, '\\': 92, '"': 34, "'": 39, 'a': 7, 'b': 8, 'f': 12, 'v': 11, '?': 63}
        if n in '01234567':
            j = i + 1
            while j < len(s) and j < i + 4 and s[j] in '01234567':
                j += 1
            out.append(int(s[i + 1:j], 8) & 255)
            i = j
        elif n == 'x':
            j = i + 2
            while j < len(s) and s[j] in '0123456789abcdefABCDEF':
                j += 1
            out.append(int(s[i + 2:j], 16) & 255)
            i = j
        else:
            out.append(simple[n])
            i += 2
    return bytes(out)


def kids(n):
    return [c for c in n.get('inner', []) if isinstance(c, dict)]


def skip(n):
    """strip value-preserving wrappers (not converting casts)"""
    while True:
        k = n.get('kind')
        if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr',
                 'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'CXXRewrittenBinaryOperator'):
            n = [c for c in kids(n) if c.get('kind') and 'Type' not in c['kind'] and c['kind'] != 'NonTypeTemplateParmDecl'][0]
        elif k == 'ImplicitCastExpr' and n.get('castKind') in (
                'NoOp', 'LValueToRValue', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'DerivedToBase',
                'UncheckedDerivedToBase', 'ConstructorConversion', 'UserDefinedConversion'):
            n = kids(n)[0]
        else:
            return n


class FnTr:
    def __init__(self, unit, spec, fn, chain):
        self.u, self.spec, self.fn, self.chain = unit, spec, fn, chain
        self.T = unit.types
        self.env = {}
        self.used = {}
        self.nloop = 0
        self.nexc = 0
        self.ret = ['fn']
        self.cont = []
        self.scope = []      # [(why name, type, mutable)]
        self.mut = {}
        self.inl = []
        self.loopinfo = {}
        self.ntmp = 0
        self.dropped = unit.dropped

    # ---------------------------------------------------------------- util
    def fresh(self, base):
        base = re.sub(r'[^A-Za-z0-9_]', '_', base or 'anon')
        n = self.used.get(base, 0)
        self.used[base] = n + 1
        return 'v_' + base + ('_%d' % n if n else '')

    def tmp(self):
        self.ntmp += 1
        return 't%d' % self.ntmp

    def ty(self, n):
        t = n.get('type', {})
        q = t.get('qualType', '')
        d = t.get('desugaredQualType')
        for c in (q, d):
            if not c:
                continue
            try:
                r = self.T.parse(c)
                if r[0] != 'unknown':
                    return r
            except ExtractError:
                continue
        return ('unknown', d or q)

    def err(self, msg, n=None):
        loc = ''
        if n is not None:
            r = n.get('range', {}).get('begin', {})
            r = r.get('expansionLoc', r)
            loc = ' (line %s)' % r.get('line', '?')
        raise ExtractError('%s: %s%s' % (self.spec.name, msg, loc))

    # --------------------------------------------------------- expressions
    def E(self, n):
        k = n.get('kind')
        m = getattr(self, 'E_' + k, None)
        if m is None:
            if k in PASS:
                return self.E_pass(n)
            self.err('unsupported expression %s' % k, n)
        return m(n)

    def Es(self, ns):
        return [self.E(c) for c in ns]

    def seqargs(self, xs, build):
        """evaluate xs left to right; build(codes)->code."""
        eff = [x.eff for x in xs]
        if sum(1 for x in xs if x.eff) == 0 or len(xs) == 1:
            return build([x.code for x in xs])
        lets, codes = [], []
        for x in xs:
            if _atom.match(x.code) and not x.eff and not x.lv:
                codes.append(x.code)
            else:
                t = self.tmp()
                lets.append('let %s = %s in ' % (t, x.code))
                codes.append(t)
        return '(' + ''.join(lets) + build(codes) + ')'

    def app(self, f, xs, ty, eff=False):
        e = eff or any(x.eff for x in xs)
        return X(self.seqargs(xs, lambda cs: '(%s %s)' % (f, ' '.join(par(c) for c in cs)) if cs else f), ty, e)

    def E_pass(self, n):
        cs = [c for c in kids(n) if c.get('kind')]
        k = n['kind']
        if k == 'SubstNonTypeTemplateParmExpr':
            return self.E(cs[-1])
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr'):
            ck = n.get('castKind')
            x = self.E(cs[0])
            if ck in ('IntegralCast', 'FloatingToIntegral', 'IntegralToFloating'):
                return self.intcast(x, self.ty(n), n)
            if ck == 'IntegralToBoolean':
                return X('(%s <> 0)' % x.code, ('bool',), x.eff)
            if ck == 'FloatingCast':
                return x
            if ck == 'PointerToBoolean':
                if x.ty[0] in ('opt',):
                    return X('(is_some %s)' % par(x.code), ('bool',), x.eff)
                self.err('pointer to bool', n)
            if ck == 'NullToPointer':
                return X('nullp', ('nullptr',))
            if ck in ('ToVoid',):
                return X('(let _ = %s in ())' % x.code, ('unit',), x.eff)
            if ck == 'BitCast':
                return x
            t = self.ty(n)
            if x.ty[0] in ('int', 'char') and t[0] in ('int', 'char') and x.ty != t:
                return self.intcast(x, t, n)
            return x
        return self.E(cs[0])

    def intcast(self, x, t, n):
        s = x.ty
        if t[0] == 'float' or s[0] == 'float':
            if s[0] in ('int', 'char'):
                return X('(num_of_int %s)' % par(x.code), t, x.eff)
            self.err('float to int cast', n)
        if t[0] == 'enum' or s[0] == 'enum':
            return X(x.code, t, x.eff)
        if s[0] == 'bool':
            return X('(if %s then 1 else 0)' % x.code, t, x.eff)
        if re.match(r'^-?\d+$', x.code):
            v = int(x.code)
            if t[0] == 'int':
                b, sg = t[1], t[2]
                v &= (1 << b) - 1
                if sg and v >> (b - 1):
                    v -= 1 << b
                return X(str(v) if v >= 0 else '(%d)' % v, t)
        # model: char is an unsigned byte 0..255
        if s[0] == 'char':
            if t[0] == 'char' or (t[0] == 'int' and t[1] == 8 and not t[2]):
                return X(x.code, t, x.eff)
            if t[0] == 'int':
                if t[2]:
                    return X('(sext8 %s)' % par(x.code), t, x.eff)
                return X('(wrap_u%d (sext8 %s))' % (t[1], par(x.code)), t, x.eff)
        if t[0] == 'char':
            return X('(wrap_u8 %s)' % par(x.code), t, x.eff)
        if s[0] == 'int' and t[0] == 'int':
            (sb, ss), (tb, ts) = s[1:], t[1:]
            if (ss == ts and tb >= sb) or (not ss and ts and tb > sb):
                return X(x.code, t, x.eff)
            return X('(wrap_%s%d %s)' % ('s' if ts else 'u', tb, par(x.code)), t, x.eff)
        return X(x.code, t, x.eff)

    def E_CXXDefaultArgExpr(self, n):
        return X('default_arg', ('default',))

    def E_IntegerLiteral(self, n):
        return X(str(n['value']), self.ty(n))

    def E_FloatingLiteral(self, n):
        v = float(n['value'])
        if v == int(v):
            return X('(num_of_int %s)' % (int(v) if v >= 0 else '(%d)' % v), ('float',))
        self.err('float literal', n)

    def E_CharacterLiteral(self, n):
        return X(str(int(n['value']) & 255), ('char',))

    def E_CXXBoolLiteralExpr(self, n):
        return X('true' if n['value'] in (True, 'true') else 'false', ('bool',))

    def E_StringLiteral(self, n):
        full = cstr(n['value'])
        b = full.split(b'\0')[0]      # used as a C string unless a length is given
        return X(self.u.lits.get(b), ('str',), lit=b, full=full)

    def E_CXXNullPtrLiteralExpr(self, n):
        return X('None', ('nullptr',))

    def E_UserDefinedLiteral(self, n):
        return self.E(kids(n)[1])

    def E_ImplicitValueInitExpr(self, n):
        return self.default(self.ty(n), n)

    E_CXXScalarValueInitExpr = E_ImplicitValueInitExpr

    def E_UnaryExprOrTypeTraitExpr(self, n):
        self.err('sizeof', n)

    def default(self, t, n=None):
        k = t[0]
        if k in ('int', 'char', 'enum'):
            return X('0', t)
        if k == 'bool':
            return X('false', t)
        if k == 'float':
            return X('(num_of_int 0)', t)
        if k in ('str', 'vec', 'stream'):
            return X('(empty : %s)' % why(t), t)
        if k in ('set', 'uset'):
            return X('(sempty : %s)' % why(t), t)
        if k in ('map', 'umap'):
            return X('(mempty : %s)' % why(t), t)
        if k == 'opt':
            return X('(None : %s)' % why(t), t)
        if k == 'none':
            return X('()', t)
        if k == 'json':
            return X('mk_jnull', t)
        if k == 'expr':
            return X('e_none', t)
        if k == 'cfg':
            return X('e_empty_map', t)
        if k in ('pair', 'tuple'):
            return X('(' + ', '.join(self.default(a).code for a in t[1:]) + ')', t)
        if k == 'rec':
            d = self.u.structs[t[1]].get('default')
            if d:
                return X(d, t)
            fs = self.u.structs[t[1]]['fields']
            return X('{ ' + '; '.join('%s = %s' % (w, self.default(ft).code) for _, w, ft in fs) + ' }', t)
        if k == 'abs':
            d = self.u.absdefaults.get(t[1])
            if d:
                return X(d, t)
        self.err('default value of %r' % (t,), n)

    # variables
    def E_DeclRefExpr(self, n):
        r = n['referencedDecl']
        b = self.env.get(r['id'])
        if b is None:
            nm = r.get('name')
            if r.get('kind') == 'EnumConstantDecl':
                return X(self.u.enumval(r, n), self.ty(n))
            g = self.u.globals.get(nm)
            if g is not None:
                return X(g[0], g[1])
            if r.get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
                return X(nm, ('fnref',), fname=nm, decl=r)
            if nm == 'nullopt':
                return X('None', ('nullopt',))
            if nm == 'npos':
                return X('npos', ('int', 64, False))
            if r.get('kind') == 'VarDecl':
                raise NeedFn('var:' + nm)
            self.err('unknown name %s' % nm, n)
        if callable(b):
            return b()
        return b

    def E_CXXThisExpr(self, n):
        b = self.env.get('this')
        if b is None:
            self.err('this', n)
        return b

    def E_MemberExpr(self, n):
        base = kids(n)[0] if kids(n) else None
        nm = n['name']
        if base is not None and base['kind'] == 'CXXThisExpr' or (
                base is not None and skip(base)['kind'] == 'CXXThisExpr'):
            f = self.env.get('this.' + nm)
            if f is not None:
                return f() if callable(f) else f
        g = self.u.globals.get(nm)
        if g is not None and n.get('type', {}).get('qualType') != '<bound member function type>':
            if base is None or True:
                x0 = None
                try:
                    x0 = self.E(base)
                except Exception:
                    x0 = None
                if x0 is None or x0.ty[0] not in ('rec', 'pair', 'miter', 'tuple'):
                    return X(g[0], g[1])
        x = self.E(base)
        return self.field(x, nm, n)

    def field(self, x, nm, n):
        t = x.ty
        if t[0] == 'pair' or t[0] == 'piter':
            if t[0] == 'piter':
                return x.parts[0 if nm == 'first' else 1]
            i = 0 if nm == 'first' else 1
            lv = x.lv.ext('fst' if i == 0 else 'snd', None, t[1 + i]) if x.lv else None
            return X('(%s %s)' % ('fst_' if i == 0 else 'snd_', par(x.code)), t[1 + i], x.eff, lv=lv)
        if t[0] == 'miter':
            it = x.it
            if nm == 'first':
                return X(it['key'], it['kt'])
            if it.get('lv') is not None:
                lv = it['lv'].ext('key', it['key'], it['vt'])
                return X(lv.read(), it['vt'], lv=lv)
            return X('(mgetx %s %s)' % (par(it['map']), par(it['key'])), it['vt'])
        if t[0] == 'insres':
            if nm == 'second':
                return X(x.code, ('bool',))
            self.err('insert result .first', n)
        if t[0] == 'rec':
            for c, w, ft in self.u.structs[t[1]]['fields']:
                if c == nm:
                    lv = x.lv.ext('field', w, ft) if x.lv else None
                    return X('%s.%s' % (par(x.code), w), ft, x.eff, lv=lv)
        if t[0] == 'abs':
            f = self.u.absfields.get((t[1], nm))
            if f:
                return X('(%s %s)' % (f[0], par(x.code)), f[1], x.eff)
        if t[0] == 'opt' and self.u.ptr_opt_fields:
            return self.field(X('(oget %s)' % par(x.code), t[1], x.eff), nm, n)
        self.err('field %s of %r' % (nm, t), n)

    # operators
    def E_UnaryOperator(self, n):
        op = n['opcode']
        sub = kids(n)[0]
        if op == '!':
            x = self.E(sub)
            x = self.tobool(x, sub)
            return X('(not %s)' % par(x.code), ('bool',), x.eff)
        if op == '*':
            if skip(sub)['kind'] == 'CXXThisExpr' and self.spec.thisval and self.env.get('this') is None:
                return X(*self.spec.thisval)
            x = self.E(sub)
            return self.deref(x, n)
        if op == '&':
            x = self.E(sub)
            if getattr(x, 'elt', None):      # pointer to a character of a string
                return X(x.code, ('strptr',), True, it={'s': x.elt[0], 'i': x.elt[1]})
            return x
        if op in ('++', '--'):
            x = self.E(sub)
            return self.incdec(x, op, n.get('isPostfix', False), n)
        if op == '-':
            x = self.E(sub)
            if re.match(r'^\d+$', x.code):
                return X('(-%s)' % x.code, x.ty)
            if x.ty[0] == 'int' and not x.ty[2]:
                return X('(wrap_u%d (- %s))' % (x.ty[1], par(x.code)), x.ty, x.eff)
            return X('(- %s)' % par(x.code), x.ty, x.eff)
        if op == '+':
            return self.E(sub)
        if op == '~':
            x = self.E(sub)
            return X('(bw_not %s)' % par(x.code), x.ty, x.eff)
        self.err('unary %s' % op, n)

    def deref(self, x, n):
        if x.ty[0] == 'opt':
            lv = x.lv.ext('opt', None, x.ty[1]) if x.lv else None
            return X('(oget %s)' % par(x.code), x.ty[1], x.eff, lv=lv)
        if x.ty[0] == 'viter':
            it = x.it
            if it.get('first'):
                return X(it['first'], x.ty[1])
            return X('(at_ %s %s)' % (par(it['s']), par(it['i'])), x.ty[1])
        if x.ty[0] == 'miter':
            it = x.it
            return X('(%s, mgetx %s %s)' % (it['key'], par(it['map']), par(it['key'])), ('pair', it['kt'], it['vt']))
        return x

    def incdec(self, x, op, post, n):
        if x.ty[0] == 'viter':
            iv = x.it['i']
            if x.it.get('const'):
                self.err('increment of constant iterator', n)
            return X('(%s <- %s %s 1)' % (iv, iv, op[0]), ('unit',), True)
        if x.lv is None:
            self.err('%s on non-lvalue' % op, n)
        t = x.ty
        rd = x.lv.read()
        nv = '(%s %s 1)' % (rd, op[0])
        if t[0] == 'int' and op == '--' and not t[2]:
            nv = '(dec_u%d %s)' % (t[1], par(rd))
        if post:
            tmp = self.tmp()
            return X('(let %s = %s in %s; %s)' % (tmp, rd, x.lv.write(nv), tmp), t, True, upd=x.lv.write(nv))
        return X('(begin %s; %s end)' % (x.lv.write(nv), rd), t, True, upd=x.lv.write(nv))

    def tobool(self, x, n):
        x = self.asval(x)
        t = x.ty
        if t[0] == 'bool':
            return x
        if t[0] == 'opt' and t[1][0] == 'fn':
            return X('(any bool)', ('bool',), True)       # whether a logger is given
        if t[0] == 'opt':
            return X('(is_some %s)' % par(x.code), ('bool',), x.eff)
        if t[0] in ('int', 'char'):
            return X('(%s <> 0)' % x.code, ('bool',), x.eff)
        if t[0] == 'istream':
            return X('(not (is_fail %s))' % par(x.code), ('bool',), x.eff)
        if t[0] == 'insres':
            return X(x.code, ('bool',), x.eff)
        if t[0] == 'fn':
            return X('true', ('bool',))
        f = self.u.absbool.get(t[1] if t[0] in ('abs', 'rec') else t[0])
        if f:
            return X('(%s %s)' % (f, par(x.code)), ('bool',), x.eff)
        self.err('no bool conversion of %r' % (t,), n)

    def arith(self, op, a, b, t, n):
        """unsigned/signed machine arithmetic: see DESIGN.md (machine integers)."""
        eff = a.eff or b.eff
        A, B = par(a.code), par(b.code)
        if t[0] == 'float':
            f = {'+': 'num_add', '*': 'num_mul', '-': 'num_sub', '/': 'num_div'}[op]
            return self.app(f, [a, b], t)
        if t[0] == 'bool':
            t = ('int', 32, True)
        bits, sg = (t[1], t[2]) if t[0] == 'int' else (8, False)
        if op == '+':
            if not sg and self.spec.wrap:
                return X('(wrap_u%d (%s + %s))' % (bits, A, B), t, eff)
            return X('(%s + %s)' % (A, B), t, eff)
        if op == '*':
            return X('(%s * %s)' % (A, B), t, eff)
        if op == '-':
            if not sg:
                return self.app('sub_u%d' % bits, [a, b], t)
            return X('(%s - %s)' % (A, B), t, eff)
        if op in ('/', '%'):
            f = {'/': 'div_', '%': 'mod_'}[op]
            return self.app(f, [a, b], t)
        if op == '<<':
            return self.app('shl_u%d' % bits if not sg else 'shl_s', [a, b], t)
        if op == '>>':
            return self.app('shr_', [a, b], t)
        if op in ('&', '|', '^'):
            return self.app({'&': 'bw_and', '|': 'bw_or', '^': 'bw_xor'}[op], [a, b], t)
        self.err('arith %s' % op, n)

    def compare(self, op, a, b, n):
        a, b = self.asval(a), self.asval(b)
        ta, tb = a.ty, b.ty
        eff = a.eff or b.eff
        if ta[0] in ('viter', 'rviter', 'end') or tb[0] in ('viter', 'end'):
            return self.itcmp(op, a, b, n)
        if ta[0] == 'miter' or tb[0] == 'miter':
            return self.itcmp(op, a, b, n)
        if ta[0] == 'nullptr' or tb[0] == 'nullptr' or ta[0] == 'nullopt' or tb[0] == 'nullopt':
            o = b if ta[0] in ('nullptr', 'nullopt') else a
            if o.ty[0] != 'opt':
                if op in ('==', '!='):
                    f = self.u.absnull.get(o.ty[1] if len(o.ty) > 1 else o.ty[0])
                    if f:
                        c = '(%s %s)' % (f, par(o.code))
                        return X(c if op == '==' else '(not %s)' % c, ('bool',), eff)
                if o.ty[0] == 'int' and 'nullptr' in (ta[0], tb[0]):
                    # result of operator<=> against the literal 0
                    z = X('0', o.ty)
                    return self.compare(op, z if o is b else a, b if o is b else z, n)
                self.err('null comparison of %r' % (o.ty,), n)
            c = '(is_some %s)' % par(o.code)
            return X('(not %s)' % c if op == '==' else c, ('bool',), eff)
        ints = ('int', 'char', 'enum')
        if ta[0] in ints and tb[0] in ints:
            if ta[0] == 'char' and tb[0] == 'char' and op not in ('==', '!='):
                a = X('(sext8 %s)' % par(a.code), ta, a.eff)
                b = X('(sext8 %s)' % par(b.code), tb, b.eff)
            w = {'==': '=', '!=': '<>', '<': '<', '>': '>', '<=': '<=', '>=': '>='}[op]
            return X(self.seqargs([a, b], lambda c: '(%s %s %s)' % (par(c[0]), w, par(c[1]))), ('bool',), eff)
        if ta[0] == 'bool' and tb[0] == 'bool':
            w = '(eqb %s %s)'
            c = self.seqargs([a, b], lambda c: w % (par(c[0]), par(c[1])))
            return X(c if op == '==' else '(not %s)' % par(c), ('bool',), eff)
        if ta[0] == 'float' and tb[0] == 'float':
            f = {'==': 'num_eq', '!=': 'num_ne', '<': 'num_lt', '>': 'num_gt', '<=': 'num_le', '>=': 'num_ge'}[op]
            return self.app(f, [a, b], ('bool',))
        if ta[0] == 'expr' and tb[0] != 'expr' and op in ('==', '!='):
            # ExpressionPtr compared with a raw value: same kind and equal
            b2 = self.mkexpr(b, n)
            c = self.app('eqv', [a, b2], ('bool',))
            return c if op == '==' else X('(not %s)' % par(c.code), ('bool',), eff)
        if op in ('==', '!='):
            if ta[0] == 'opt' and tb[0] != 'opt':
                b = X('(Some %s)' % par(b.code), ('opt', tb), b.eff)
            elif tb[0] == 'opt' and ta[0] != 'opt':
                a = X('(Some %s)' % par(a.code), ('opt', ta), a.eff)
            c = self.app('eqv', [a, b], ('bool',))
            f = self.u.eqfun.get(ta[1] if len(ta) > 1 else ta[0])
            if f:
                c = self.app(f, [a, b], ('bool',))
            return c if op == '==' else X('(not %s)' % par(c.code), ('bool',), eff)
        if ta[0] == 'str' and tb[0] == 'str':
            f = {'<': 'str_lt', '>': 'str_gt', '<=': 'str_le', '>=': 'str_ge'}[op]
            return self.app(f, [a, b], ('bool',))
        f = self.u.cmpfun.get((op, ta[0], ta[1] if len(ta) > 1 else None))
        if f:
            return self.app(f, [a, b], ('bool',))
        self.err('comparison %s of %r and %r' % (op, ta, tb), n)

    def itcmp(self, op, a, b, n):
        if op not in ('==', '!='):
            self.err('iterator comparison %s' % op, n)
        if b.it is None and a.it is None:
            self.err('iterator comparison', n)
        if a.it.get('end') and not b.it.get('end'):
            a, b = b, a
        ia, ib = a.it, b.it
        if a.ty[0] == 'miter':
            if not ib.get('end'):
                self.err('comparison of two map iterators', n)
            c = ia['found']
            return X('(not %s)' % par(c) if op == '==' else c, ('bool',))
        if ib.get('end') and ia['s'] == ib['s']:
            w = '=' if op == '==' else '<>'
            return X('(%s %s %s)' % (par(ia['i']), w, par('len %s' % par(ia['s']))), ('bool',))
        # same container is a precondition of the comparison
        w = '=' if op == '==' else '<>'
        return X('(begin same_container %s %s; %s %s %s end)' % (par(ia['s']), par(ib['s']), par(ia['i']), w, par(ib['i'])), ('bool',))

    def E_BinaryOperator(self, n):
        op = n['opcode']
        l, r = kids(n)
        if op in ('&&', '||'):
            a, b = self.tobool(self.E(l), l), self.tobool(self.E(r), r)
            return X('(%s %s %s)' % (par(a.code), op, par(b.code)), ('bool',), a.eff or b.eff)
        if op == '=':
            return self.assign(l, r, n)
        if op == ',':
            a, b = self.E(l), self.E(r)
            ac = a.code if a.ty[0] == 'unit' else 'let _ = %s in ()' % a.code
            return X('(begin %s; %s end)' % (ac, b.code), b.ty, True)
        a, b = self.E(l), self.E(r)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, a, b, n)
        return self.arith(op, a, b, self.ty(n), n)

    def assign(self, l, r, n):
        a = self.E(l)
        b = self.E(r)
        return self.assignx(a, b, n)

    def assignx(self, a, b, n):
        if a.ty[0] == 'viter' and a.it is not None:
            if b.it is None:
                self.err('iterator assignment', n)
            if not a.it.get('svar'):
                self.err('assignment to fixed iterator', n)
            return X('(begin %s <- %s; %s <- %s end)' % (a.it['svar'], b.it['s'], a.it['i'], b.it['i']), ('unit',), True)
        if a.lv is None:
            self.err('assignment to non-lvalue', n)
        b = self.coerce(b, a.lv.ty, n)
        return X('(%s)' % a.lv.write(b.code), ('unit',), True, asgn=a.lv)

    def asval(self, x):
        """the value of an assignment expression"""
        lv = getattr(x, 'asgn', None)
        return X('(begin %s; %s end)' % (x.code, lv.read()), lv.ty, True) if lv is not None else x

    def E_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        l, r = kids(n)
        a, b = self.E(l), self.E(r)
        ct = n.get('computeResultType', {}).get('qualType')
        t = self.T.parse(ct) if ct else self.ty(n)
        if a.lv is None:
            self.err('compound assignment to non-lvalue', n)
        if a.ty[0] == 'bool':
            v = X('(bor_b %s %s)' % (par(a.code), par(self.tobool(b, n).code)) if op == '|' else
                  '(band_b %s %s)' % (par(a.code), par(self.tobool(b, n).code)), ('bool',), b.eff)
        else:
            v = self.arith(op, self.intcast(a, t, n) if a.ty != t else a, b, t, n)
            if a.ty != t:
                v = self.intcast(v, a.ty, n)
        return X('(%s)' % a.lv.write(v.code), ('unit',), True)

    def E_ConditionalOperator(self, n):
        c, a, b = kids(n)
        cx = self.tobool(self.E(c), c)
        ax, bx = self.E(a), self.E(b)
        t = self.ty(n)
        if t[0] == 'unknown' or t[0] == 'opt':
            t = t if t[0] == 'opt' else ax.ty
        ax, bx = self.coerce(ax, t, n), self.coerce(bx, t, n)
        if ax.ty[0] == 'nullopt' or bx.ty[0] == 'nullopt':
            t = ax.ty if bx.ty[0] == 'nullopt' else bx.ty
        return X('(if %s then %s else %s)' % (cx.code, ax.code, bx.code), t, cx.eff or ax.eff or bx.eff)

    def coerce(self, x, t, n=None):
        if x.ty == t:
            return x
        k, s = t[0], x.ty[0]
        if k == 'abs' and s == 'fnref' and x.fname in self.u.fnrefs:
            return X(self.u.fnrefs[x.fname], t)
        if k == 'opt':
            if s in ('nullopt', 'nullptr'):
                return X('(None : %s)' % why(t), t, x.eff)
            if s not in ('opt', 'unknown', 'any'):
                y = self.coerce(x, t[1], n)
                return X('(Some %s)' % par(y.code), t, x.eff)
        if k == 'expr' and s != 'expr' and s in ('bool', 'str', 'vec', 'map', 'float', 'none'):
            return self.mkexpr(x, n)
        if k == 'cfg' and s == 'expr':
            return X(x.code, t, x.eff)
        if k == 'json':
            f = {'bool': 'mk_jbool', 'str': 'mk_jstr', 'float': 'mk_jnum', 'nullptr': None}.get(s)
            if s == 'vec' and x.ty[1] == ('str',):
                f = 'mk_jstrs'
            if s == 'vec' and x.ty[1] == ('json',):
                f = 'mk_jarr'
            if s in ('map', 'umap') and x.ty[1:] == (('str',), ('json',)):
                f = 'mk_jobj'
            if s in ('map', 'umap') and x.ty[1:] == (('str',), ('str',)):
                f = 'mk_jstrmap'
            f = f or self.u.conv.get((x.ty, t))
            if f:
                return X('(%s %s)' % (f, par(x.code)), t, x.eff)
            self.err('JSON from %r' % (x.ty,), n)
        if k == 'var':
            for i, o in enumerate(t[1:]):
                if o == x.ty or (o[0] == x.ty[0]):
                    return X('(In%d %s)' % (i + 1, par(x.code)), t, x.eff)
        if k == 'unit':
            return x
        return x

    def mkexpr(self, x, n=None):
        f = {'bool': 'mk_bool', 'str': 'mk_str', 'vec': 'mk_list', 'map': 'mk_map', 'float': 'mk_num',
             'expr': None, 'none': 'e_none', 'cfg': None, 'rec': None, 'abs': None}
        k = x.ty[0]
        if k in ('rec', 'abs'):
            g = self.u.absexpr.get(x.ty[1])
            if g:
                return X('(%s %s)' % (g, par(x.code)), ('expr',), x.eff)
        if k == 'none':
            return X('e_none', ('expr',))
        if k == 'nullptr':
            return X('e_null', ('expr',))
        if k in ('expr', 'cfg'):
            return X(x.code, ('expr',), x.eff)
        if k not in f or f[k] is None:
            self.err('Expression from %r' % (x.ty,), n)
        return X('(%s %s)' % (f[k], par(x.code)), ('expr',), x.eff)

    # construction
    def E_CXXConstructExpr(self, n):
        t = self.ty(n)
        cs = [c for c in kids(n) if c.get('kind') and c['kind'] != 'CXXDefaultArgExpr']
        c = self.ctor_contract(t, cs, n)
        if c is not None:
            return self.call_contract(c, [c for c in kids(n) if c.get('kind')], n)
        return self.construct(t, cs, n)

    def ctor_contract(self, t, cs, n):
        """the constructor called, if it is under contract"""
        if not cs or len(cs) == 1 and self.ty(cs[0]) == t:
            return None
        q = n.get('ctorType', {}).get('qualType') or n.get('constructorType', {}).get('qualType')
        for c in self.u.fns:
            nd = getattr(c, 'node', None)
            if nd is not None and nd.get('kind') == 'CXXConstructorDecl' and c.rtype_over == t and c.why in self.u.done and c is not self.spec:
                if nd['type']['qualType'] == q and c.nparams == len([c for c in kids(n) if c.get('kind')]):
                    return c
        return None

    E_CXXTemporaryObjectExpr = E_CXXConstructExpr

    def E_CXXInheritedCtorInitExpr(self, n):
        self.err('inherited ctor', n)

    def E_CXXStdInitializerListExpr(self, n):
        return self.E(kids(n)[0])

    def json_list(self, n):
        """elements of a JSON initialiser list, or None"""
        n = skip(n)
        while n['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and self.ty(n) == ('json',):
            cs = [c for c in kids(n) if c.get('kind') and c['kind'] != 'CXXDefaultArgExpr']
            if len(cs) != 1:
                return None
            n = skip(cs[0])
        if n['kind'] != 'CXXStdInitializerListExpr':
            return None
        n = skip(kids(n)[0])
        return [c for c in kids(n) if c.get('kind')] if n['kind'] == 'InitListExpr' else None

    def json_init(self, es, n):
        """an object if every element is a pair with a string first, otherwise an array"""
        prs = [self.json_list(e) for e in es]
        xs, keys = [], []
        if es and all(p is not None and len(p) == 2 for p in prs):
            ks = [self.jstr_of(p[0]) for p in prs]
            if all(k is not None for k in ks):
                if len(set(k.code for k in ks)) != len(ks) or any(getattr(k, 'lit', None) is None for k in ks):
                    self.err('keys of a JSON object', n)
                vs = [self.jval(p[1]) for p in prs]
                def b(c):
                    e = 'mempty'
                    for k, a in zip(ks, c):
                        e = '(mset %s %s %s)' % (e, par(k.code), par(a))
                    return '(mk_jobj %s)' % e
                return X(self.seqargs(vs, b), ('json',), any(x.eff for x in vs))
        vs = [self.jval(e) for e in es]
        def b(c):
            e = 'empty'
            for a in c:
                e = '(snoc %s %s)' % (e, par(a))
            return '(mk_jarr %s)' % e
        return X(self.seqargs(vs, b), ('json',), any(x.eff for x in vs))

    def jstr_of(self, e):
        e = skip(e)
        while e['kind'] in ('CXXConstructExpr',) and self.ty(e) == ('json',) and len(kids(e)) >= 1:
            e = skip(kids(e)[0])
        if e['kind'] == 'StringLiteral':
            return self.E(e)
        return None

    def jval(self, e):
        l = self.json_list(e)
        if l is not None:
            return self.json_init(l, e)
        return self.coerce(self.E(e), ('json',), e)

    def construct(self, t, cs, n):
        k = t[0]
        if k == 'json' and cs:
            l = self.json_list(n)
            if l is not None:
                return self.json_init(l, n)
        if not cs:
            return self.default(t, n)
        if k == 'exc':
            return X('()', t)
        if len(cs) == 1 and ('ctor', t) in self.u.conv and self.ty(cs[0]) != t:
            return self.u.conv[('ctor', t)](self, cs, n)
        if k == 'rec' and self.u.structs[t[1]].get('ctor'):
            r = self.u.structs[t[1]]['ctor'](self, cs, n)
            if r is not None:
                return r
        if k == 'abs' and t[1] in self.u.absctor:
            r = self.u.absctor[t[1]](self, cs, n)
            if r is not None:
                return r
        if len(cs) == 1:
            if k == 'fn' or k == 'lambda':
                return self.E(cs[0])
            x = self.E(cs[0])
            if x.it is not None or x.ty[0] in ('viter', 'miter', 'piter'):
                return x
            if x.ty == t:
                return X(x.code, t, x.eff, lit=getattr(x, 'lit', None))
            if k in ('expr',):
                return self.mkexpr(x, n)
            if k == 'cfg':
                if x.ty[0] == 'map':
                    return X('(mk_map %s)' % par(x.code), t, x.eff)
                return X(x.code, t, x.eff)
            if k == 'nullopt':      # an error value: only its presence matters
                return X('(let _ = %s in None)' % x.code if x.eff else 'None', t, x.eff)
            if k in ('opt', 'json') or x.ty[0] == 'fnref' and x.fname in self.u.fnrefs:
                return self.coerce(x, t, n)
            if k == 'var':
                return self.coerce(x, t, n)
            if k in ('str', 'stream') and x.ty[0] in ('str', 'stream'):
                return X(x.code, t, x.eff)
            if k == 'str' and x.ty[0] == 'char':
                return X('(singleton %s)' % par(x.code), t, x.eff)
            if k == 'istream' and x.ty[0] == 'str':
                return X('(istream_of %s)' % par(x.code), t, x.eff)
            if k in ('map', 'umap') and x.ty[0] in ('map', 'umap'):
                return X(x.code, t, x.eff)
            if k == 'map' and x.ty[0] == 'pair':
                return X('(mset mempty (fst_ %s) (snd_ %s))' % (par(x.code), par(x.code)), t, x.eff)
            if k in ('map', 'umap') and x.ty[0] == 'vec' and x.ty[1][0] == 'pair':
                return X('(map_of_pairs %s)' % par(x.code), t, x.eff)
            if k == 'vec' and x.ty[0] == 'vec':
                return X(x.code, t, x.eff)
            if k == 'vec' and x.ty[0] == 'int':
                return X('(replicate %s %s)' % (par(x.code), par(self.default(t[1], n).code)), t, x.eff)
            if k in ('set', 'uset') and x.ty[0] == 'vec':
                return X('(set_of_seq %s)' % par(x.code), t, x.eff)
            if k == 'pair' and x.ty[0] == 'pair':
                return X(x.code, t, x.eff)
            if k == 'viter':
                return x
            g = self.u.conv.get((x.ty, t)) or self.u.conv.get((x.ty[0], t))
            if g:
                return X('(%s %s)' % (g, par(x.code)), t, x.eff)
            if k == 'unknown':
                return X(x.code, x.ty, x.eff)
            if k in ('rec', 'abs') and x.ty[0] == k:
                return x
            self.err('construct %r from %r' % (t, x.ty), n)
        if k in ('map', 'umap'):
            xs = self.Es(cs)
            if xs[0].ty[0] == 'vec' and xs[0].ty[1][0] == 'pair':
                return X('(map_of_pairs %s)' % par(xs[0].code), t, xs[0].eff)
            if len(xs) == 2 and xs[0].ty == t[1]:
                return self.app('mset mempty', [xs[0], self.coerce(xs[1], t[2], n)], t)
            if len(xs) == 2 and xs[0].ty[0] in ('expr', 'map', 'cfg') and xs[1].ty[0] in ('expr', 'map', 'cfg'):
                def mp(x):
                    return X('(emap_of %s)' % par(x.code), t, True) if x.ty[0] in ('expr', 'cfg') else x
                return self.app('munion', [mp(x) for x in xs], t)
        if k == 'pair':
            xs = self.Es(cs)
            if any(x.ty[0] == 'viter' for x in xs):
                return X('', ('piter',), parts=xs)
            xs = [self.coerce(x, t[1 + i], n) for i, x in enumerate(xs)]
            return X(self.seqargs(xs, lambda c: '(%s, %s)' % (c[0], c[1])), t, any(x.eff for x in xs))
        if k == 'str':
            xs = self.Es(cs)
            if xs[0].ty[0] == 'int' and xs[1].ty[0] == 'char':
                return self.app('replicate', xs, t)
            if xs[0].ty[0] == 'viter':
                return self.iterslice(xs[0], xs[1], t, n)
            if xs[0].ty[0] == 'strptr':
                r = self.app('ptr_slice_ %s' % par(xs[0].it['s']), [X(xs[0].it['i'], ('int', 64, False)), xs[1]], t)
                return X('(let _ = %s in %s)' % (xs[0].code, r.code), t, True) if xs[0].code else r
            if xs[0].ty[0] == 'str' and len(xs) == 2 and xs[1].ty[0] == 'int':
                if getattr(xs[0], 'full', None) not in (None, getattr(xs[0], 'lit', None)):
                    xs[0] = X(self.u.lits.get(xs[0].full), ('str',), lit=xs[0].full)
                return self.app('str_prefix_', xs, t)
        if k == 'vec':
            xs = self.Es(cs)
            if xs[0].ty[0] == 'viter':
                return self.iterslice(xs[0], xs[1], t, n)
            if xs[0].ty[0] == 'int':
                return self.app('replicate', xs, t)
        if k == 'var' and len(cs) == 1:
            return self.coerce(self.E(cs[0]), t, n)
        if k in ('stream', 'istream'):
            x = self.E(cs[0])
            return X(x.code if k == 'stream' else '(istream_of %s)' % par(x.code), t, x.eff)
        if k == 'tuple' and len(cs) == len(t) - 1:
            xs = [self.coerce(self.E(c), ft, n) for c, ft in zip(cs, t[1:])]
            return X(self.seqargs(xs, lambda c: '(' + ', '.join(c) + ')'), t, any(x.eff for x in xs))
        g = self.u.conv.get(('ctor', t))
        if g:
            return g(self, cs, n)
        self.err('construct %r from %d arguments' % (t, len(cs)), n)

    def iterslice(self, a, b, t, n):
        if a.it.get('rev'):
            return X('(rev %s)' % par(a.it['s']), t)
        return X('(slice_ %s %s %s)' % (par(a.it['s']), par(a.it['i']), par(b.it['i'])), t)

    def mkrec(self, t, cs, n):
        fs = self.u.structs[t[1]]['fields']
        out, pre = [], ''
        xs = []
        for i, (c, w, ft) in enumerate(fs):
            if i < len(cs) and cs[i].get('kind') == 'CXXDefaultInitExpr':
                d = self.u.fieldinits.get((t[1], c))
                if d is None:
                    self.err('default initialiser of %s' % c, n)
                xs.append(d(self, {f[0]: x for f, x in zip(fs, xs)}) if callable(d) else X(d, ft))
            elif i < len(cs):
                xs.append(self.coerce(self.E(cs[i]), ft, n))
            else:
                xs.append(self.default(ft, n))
        code = self.seqargs(xs, lambda c: '{ ' + '; '.join('%s = %s' % (fs[i][1], c[i]) for i in range(len(fs))) + ' }')
        return X(par(code), t, any(x.eff for x in xs))

    def E_InitListExpr(self, n):
        t = self.ty(n)
        cs = [c for c in kids(n) if c.get('kind')]
        if 'array_filler' in n:
            cs = []
        k = t[0]
        if k == 'rec':
            return self.mkrec(t, cs, n)
        if k == 'vec' or k == 'unknown':
            if len(cs) == 1 and t[0] == 'vec' and self.ty(cs[0]) == t:
                return self.E(cs[0])
            xs = self.Es(cs)
            et = t[1] if k == 'vec' else xs[0].ty
            xs = [self.coerce(x, et, n) for x in xs]
            def b(c):
                e = 'empty'
                for a in c:
                    e = '(snoc %s %s)' % (e, par(a))
                return e
            return X(self.seqargs(xs, b) if xs else '(empty : %s)' % why(t), ('vec', et), any(x.eff for x in xs))
        if len(cs) == 0:
            return self.default(t, n)
        if len(cs) == 1 and k not in ('pair',):
            return self.coerce(self.E(cs[0]), t, n)
        if k == 'pair':
            return self.construct(t, cs, n)
        self.err('init list of %r' % (t,), n)

    def E_CXXDefaultInitExpr(self, n):
        return self.default(self.ty(n), n)

    def E_CXXThrowExpr(self, n):
        return X('(raise Cxx)', ('any',), True)

    def E_LambdaExpr(self, n):
        return X('<lambda>', ('lambda',), node=n, lenv=dict(self.env))

    # subscripts
    def E_ArraySubscriptExpr(self, n):
        a, b = self.Es(kids(n))
        return self.subscript(a, b, n)

    def subscript(self, a, b, n):
        t = a.ty
        if t[0] in ('vec', 'str'):
            et = t[1] if t[0] == 'vec' else ('char',)
            lv = a.lv.ext('idx', b.code, et) if a.lv else None
            return X(self.app('at_', [a, b], et).code, et, a.eff or b.eff, lv=lv, subs=(a, b))
        if t[0] in ('map', 'umap'):
            if a.lv:
                b = self.coerce(b, t[1], n)
                lv = a.lv.ext('keyd', (b.code, None), t[2])
                dflt = self.default(t[2], n).code
                # operator[] default-inserts
                code = '(begin %s; mgetx %s %s end)' % (
                    a.lv.write('(mins %s %s %s)' % (par(a.code), par(b.code), par(dflt))), par(a.code), par(b.code))
                return X(code, t[2], True, lv=lv)
            return self.app('emap_at_', [a, b], t[2], True)
        if t[0] in ('expr', 'cfg'):
            b2 = b
            if b.ty[0] == 'int':
                return self.app('e_index', [a, b], ('expr',), True)
            if b.ty[0] == 'expr':
                b2 = X('(e_string %s)' % par(b.code), ('str',), True)
            if t[0] == 'cfg':
                return self.app('c_get', [a, b2], ('expr',), True)
            return self.app('e_key', [a, b2], ('expr',), True)
        if t[0] == 'viter':
            return X('(at_ %s (%s + %s))' % (par(a.it['s']), a.it['i'], b.code), t[1], b.eff)
        if t[0] == 'json':
            if b.ty[0] == 'int':
                return self.app('j_index', [a, b], ('json',), True)
            return self.app('j_key', [a, b], ('json',), True)
        f = self.u.subs.get(t[1] if len(t) > 1 else t[0])
        if f:
            return f(self, a, b, n)
        self.err('subscript of %r' % (t,), n)

    # operator calls
    def E_CXXOperatorCallExpr(self, n):
        cs = kids(n)
        f = skip(cs[0])
        nm = f.get('referencedDecl', {}).get('name') or f.get('name', '')
        op = nm[len('operator'):].strip()
        args = cs[1:]
        if op == '->' or op == '*' and len(args) == 1:
            x = self.E(args[0])
            if op == '->' and x.ty[0] in ('opt', 'viter') :
                return self.deref(x, n)
            if op == '->' and x.ty[0] == 'miter':
                return x
            if op == '*':
                return self.deref(x, n)
            return x
        if op == '()':
            return self.call_callable(args[0], args[1:], n)
        if op == '[]':
            return self.subscript(self.E(args[0]), self.E(args[1]), n)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if nm == 'operator==' and f.get('referencedDecl', {}).get('kind') and n.get('kind') == 'CXXRewritten':
                pass
            return self.compare(op, self.E(args[0]), self.E(args[1]), n)
        if op == '!':
            x = self.tobool(self.E(args[0]), n)
            return X('(not %s)' % par(x.code), ('bool',), x.eff)
        if op == '=':
            return self.assign(args[0], args[1], n)
        if op in ('++', '--'):
            return self.incdec(self.E(args[0]), op, len(args) > 1, n)
        if op in ('<<',):
            return self.stream_out(n, args)
        if op == '+':
            a, b = self.E(args[0]), self.E(args[1])
            if a.ty[0] in ('str', 'char') and b.ty[0] in ('str', 'char'):
                return self.app('cat', [self.tostr(a), self.tostr(b)], ('str',))
            if a.ty[0] == 'viter':
                return X('', a.ty, a.eff or b.eff, it=dict(s=a.it['s'], i='(%s + %s)' % (a.it['i'], b.code), const=True))
        if op == '-':
            a, b = self.E(args[0]), self.E(args[1])
            if a.ty[0] == 'viter' and b.ty[0] == 'viter':
                return X('(%s - %s)' % (par(a.it['i']), par(b.it['i'])), ('int', 64, True))
            if a.ty[0] == 'viter':
                return X('', a.ty, it=dict(s=a.it['s'], i='(%s - %s)' % (a.it['i'], b.code), const=True))
        if op == '+=':
            a, b = self.E(args[0]), self.E(args[1])
            if a.ty[0] == 'str' and a.lv:
                return X('(%s)' % a.lv.write('(cat %s %s)' % (par(a.code), par(self.tostr(b).code))), ('unit',), True)
        if op in ('/', '/='):
            a, b = self.E(args[0]), self.E(args[1])
            if op == '/':
                return self.app('path_app', [a, b], ('str',))
            return X('(%s)' % a.lv.write('(path_app %s %s)' % (par(a.code), par(b.code))), ('unit',), True)
        if op in ('|=', '&='):
            a, b = self.E(args[0]), self.E(args[1])
        h = self.u.opcalls.get(op)
        if h:
            r = h(self, args, n)
            if r is not None:
                return r
        if op == '<=>':
            a, b = self.E(args[0]), self.E(args[1])
            if a.ty[0] == 'str' and b.ty[0] == 'str':
                return self.app('str_compare', [a, b], ('int', 32, True))
        self.err('operator call %s' % nm, n)

    def tostr(self, x):
        if x.ty[0] == 'char':
            return X('(singleton %s)' % par(x.code), ('str',), x.eff)
        return x

    # streams: `ss << a << b`
    def stream_out(self, n, args):
        parts = []
        cur = n
        while True:
            c = skip(cur)
            if c['kind'] == 'CXXOperatorCallExpr':
                cs = kids(c)
                f = skip(cs[0])
                if f.get('referencedDecl', {}).get('name') == 'operator<<':
                    parts.append(cs[2])
                    cur = cs[1]
                    continue
            if c['kind'] == 'CXXMemberCallExpr':
                m = skip(kids(c)[0])
                if m.get('name') == 'operator<<':
                    parts.append(kids(c)[1])
                    cur = kids(m)[0]
                    continue
            break
        parts.reverse()
        s = self.E(cur)
        if s.ty[0] != 'stream' or s.lv is None:
            self.err('operator<< on %r' % (s.ty,), n)
        code = []
        for p in parts:
            q = skip(p)
            c = self.stream_piece(s, q, p)
            if c:
                code.append(c)
        return X('(begin %s end)' % '; '.join(code or ['()']), ('unit',), True)

    def stream_piece(self, s, q, p):
        nm = q.get('referencedDecl', {}).get('name') if q['kind'] == 'DeclRefExpr' else None
        if nm == 'endl':
            return s.lv.write('(snoc %s 10)' % par(s.code))
        mode = self.u.streammode.setdefault(id(self), {})
        key = s.lv.var
        st = mode.setdefault(key, {'hex': False, 'fill': 32, 'w': 0})
        if nm == 'hex':
            st['hex'] = True
            return None
        if nm == 'dec':
            st['hex'] = False
            return None
        if q['kind'] == 'CallExpr':
            f = skip(kids(q)[0])
            fn = f.get('referencedDecl', {}).get('name')
            if fn == 'setw':
                st['w'] = int(self.E(kids(q)[1]).code)
                return None
            if fn == 'setfill':
                st['fill'] = int(self.E(kids(q)[1]).code)
                return None
        x = self.E(p)
        if x.ty[0] == 'str':
            if st['w']:
                self.err('setw on string', q)
            return s.lv.write('(cat %s %s)' % (par(s.code), par(x.code)))
        if x.ty[0] == 'char' or (x.ty[0] == 'int' and x.ty[1] == 8):
            return s.lv.write('(snoc %s %s)' % (par(s.code), par(x.code)))
        if x.ty[0] == 'int':
            w = st['w']
            st['w'] = 0
            if st['hex']:
                return s.lv.write('(cat %s (hex_fmt %s %d %d))' % (par(s.code), par(x.code), w, st['fill']))
            if w:
                return s.lv.write('(cat %s (dec_fmt %s %d %d))' % (par(s.code), par(x.code), w, st['fill']))
            return s.lv.write('(cat %s (int_str %s))' % (par(s.code), par(x.code)))
        self.err('stream output of %r' % (x.ty,), q)

    # calls
    def E_CallExpr(self, n):
        cs = kids(n)
        f = skip(cs[0])
        args = [c for c in cs[1:]]
        nm = None
        if f['kind'] == 'DeclRefExpr':
            nm = f['referencedDecl'].get('name')
            if f['referencedDecl']['id'] in self.env:
                return self.call_callable(f, args, n)
        elif f['kind'] == 'MemberExpr':
            nm = f.get('name')
        elif f['kind'] in ('UnresolvedLookupExpr', 'UnresolvedMemberExpr'):
            raise ExtractError('%s: unresolved (dependent) call' % self.spec.name)
        if nm is None:
            return self.call_callable(cs[0], args, n)
        return self.call_named(nm, f, args, n)

    def call_named(self, nm, f, args, n):
        from . import stdlib
        c = self.u.find_contract(nm, args, self, f)
        if c is not None:
            return self.call_contract(c, args, n)
        h = self.u.fncalls.get(nm)
        if h is not None:
            r = h(self, args, n)
            if r is not None:
                return r
        h = getattr(stdlib, 'f_' + nm, None)
        if h is not None:
            r = h(self, args, n)
            if r is not None:
                return r
        return self.inline_named(nm, f, args, n, None)

    def inline_named(self, nm, f, args, n, this):
        if nm in self.inl or len(self.inl) > 6:
            self.err('recursive call of %s without contract' % nm, n)
        did = None
        if f is not None:
            did = f.get('referencedDecl', {}).get('id') or f.get('referencedMemberDecl')
        cand = self.u.lookup_fn(nm, len([a for a in args if a['kind'] != 'CXXDefaultArgExpr']), did,
                                f.get('referencedDecl', {}).get('type', {}).get('qualType') if f else None)
        if cand is None:
            raise NeedFn(nm)
        return self.inline(cand, args, n, this)

    def drop_call(self, n, why_):
        self.dropped.add(why_)
        return X('()', ('unit',), False)

    def call_contract(self, c, args, n, this=None):
        """call of a repo function that is under contract in this unit"""
        xs = []
        eff = True
        pars = c.callee_params
        j = 0
        codes = []
        if this is not None:
            xs.append(this)
        for i, a in enumerate(args):
            if i in c.drop_params:
                continue
            if a.get('kind') == 'CXXDefaultArgExpr':
                x = X(c.defaults[i], ('default',))
                xs.append(x)
                continue
            if i in c.ref_params:
                b = skip(a)
                while b['kind'] in ('CXXConstructExpr', 'CXXFunctionalCastExpr') and 'not_null' in b.get('type', {}).get('qualType', '') and len([k for k in kids(b) if k.get('kind')]) == 1:
                    b = a = skip(kids(b)[0])
            x = self.E(a)
            pt = c.ptypes.get(i)
            if i in c.ref_params:
                if x.lv is None or x.lv.path:
                    self.err('reference argument', n)
                x = X(x.lv.var, x.ty)
            elif pt is not None:
                x = self.coerce(x, pt, n)
            xs.append(x)
        return X(self.seqargs(xs, lambda cs: '(%s %s)' % (c.why, ' '.join(par(a) for a in cs))), c.rtype, True)

    def call_callable(self, fnode, args, n):
        f = self.E(fnode)
        if f.ty[0] == 'lambda':
            return self.inline_lambda(f, args, n)
        if f.ty[0] == 'evalfn':
            xs = self.Es(args)
            return self.app('eval', xs, ('expr',), True)
        if f.ty[0] == 'fnref':
            return self.call_named(f.fname, None, args, n)
        if f.ty[0] == 'fn':
            h = self.u.fnvals.get(f.code)
            if h:
                return h(self, f, args, n)
            return self.drop_call(n, 'call of logger/callback %s' % f.code)
        if f.ty[0] in ('opt',) and f.ty[1][0] == 'fn':
            return self.drop_call(n, 'call of logger/callback %s' % f.code)
        if f.ty[0] == 'hasher':
            return X('0', ('int', 64, False))
        self.err('call of %r' % (f.ty,), n)

    def E_CXXMemberCallExpr(self, n):
        from . import stdlib
        cs = kids(n)
        m = skip(cs[0])
        args = cs[1:]
        nm = m.get('name', '')
        base = kids(m)[0]
        if skip(base)['kind'] == 'CXXThisExpr':
            c = self.u.find_contract(nm, args, self, m, method=True)
            if c is not None:
                return self.u.call_method(self, c, args, n)
            if self.spec.thisval and self.spec.thisval[1] == ('expr',) and self.env.get('this') is None and self.spec.name.startswith('Expression::'):
                r = stdlib.method(self, X(*self.spec.thisval), nm, args, n)
                if r is not None:
                    return r
            if ('this.' + nm) not in self.env and self.env.get('this') is None or True:
                h = self.u.thiscalls.get(nm)
                if h:
                    return h(self, args, n)
            if self.env.get('this') is None or self.env['this'].ty[0] == 'this':
                return self.inline_named(nm, m, args, n, this='this')
        x = self.E(base)
        h = self.u.methods.get((x.ty[1] if x.ty[0] in ('rec', 'abs') else x.ty[0], nm))
        if h is not None:
            r = h(self, x, args, n)
            if r is not None:
                return r
        r = stdlib.method(self, x, nm, args, n)
        if r is None:
            # a method of a repository class that has no contract: inline its body
            if x.ty[0] in ('rec',) and self.u.lookup_fn(nm, len(args), m.get('referencedMemberDecl'), None):
                return self.inline(self.u.lookup_fn(nm, len(args), m.get('referencedMemberDecl'), None), args, n, x)
            if x.ty[0] == 'rec':
                raise NeedFn(nm)
            self.err('method %s of %r' % (nm, x.ty), n)
        return r

    def E_CXXDependentScopeMemberExpr(self, n):
        self.err('dependent member', n)

    # -------------------------------------------------------- inlining
    def bindparam(self, p, a, pre):
        """bind callee parameter p to argument AST a"""
        q = p.get('type', {}).get('qualType', '')
        isref = q.rstrip().endswith('&') and 'const' not in q.split('&')[0] and not q.rstrip().endswith('&&')
        isptr = q.rstrip().endswith('*') and 'const' not in q
        isptr = isptr or ('not_null' in q and 'const' not in re.sub('^const ', '', q).split('*')[0])
        if a.get('kind') == 'CXXDefaultArgExpr':
            init = [c for c in kids(p) if c.get('kind')]
            x = self.E(init[0]) if init else self.default(self.ty(p), p)
        else:
            x = self.E(a)
        if x.ty[0] in ('lambda', 'fn', 'evalfn', 'viter', 'miter', 'piter') or x.ty[0] == 'fnref' and x.fname not in self.u.fnrefs:
            self.env[p['id']] = x
            return
        if (isref or isptr) and x.lv is not None:
            self.env[p['id']] = X(x.code, x.ty, lv=x.lv)
            return
        t = self.ty(p)
        if t[0] in ('unknown',):
            t = x.ty
        x = self.coerce(x, t, p)
        v = self.fresh(p.get('name') or 'arg')
        if 'const' not in q and not q.rstrip().endswith('&'):
            pre.append('let ref %s = %s in' % (v, x.code))
            self.env[p['id']] = X(v, t, lv=LV(v, t))
            self.scope.append((v, t, True))
        else:
            pre.append('let %s = %s in' % (v, x.code))
            self.env[p['id']] = X(v, t)
            self.scope.append((v, t, False))

    def inline(self, cand, args, n, this):
        fn, chain, _ = cand
        pars = [c for c in kids(fn) if c['kind'] == 'ParmVarDecl']
        body = [c for c in kids(fn) if c['kind'] in ('CompoundStmt',)]
        if not body:
            self.err('no body to inline for %s' % fn.get('name'), n)
        saved = dict(self.env)
        pre = []
        ps = list(args) + [{'kind': 'CXXDefaultArgExpr'}] * (len(pars) - len(args))
        newenv = {}
        for p, a in zip(pars, ps):
            self.bindparam(p, a, pre)
        if this is not None and this != 'this':
            for c, w, ft in self.u.structs[this.ty[1]]['fields']:
                self.env['this.' + c] = self.field(this, c, n)
            self.env['this'] = this
        st = [c for c in kids(body[0]) if c.get('kind')]
        if len(st) == 1 and st[0]['kind'] == 'ReturnStmt' and is_lambda(st[0]):
            # a function that only builds a closure: the closure, with the parameters bound
            x = self.E(find_lambda(st[0]))
            self.env = saved
            if any(' = ' in q and not q.startswith('let t') for q in pre):
                self.err('closure factory with computed arguments', n)
            self.u.inlined.add(fn.get('name'))
            return x
        self.inl.append(fn.get('name'))
        rt = self.rettype(fn)
        code = self.inline_body(body[0], rt)
        self.inl.pop()
        for k in list(self.env):
            if k in saved:
                self.env[k] = saved[k]
            elif isinstance(k, str) and k.startswith('this'):
                del self.env[k]
        self.u.inlined.add(fn.get('name'))
        return X('(%s %s)' % (' '.join(pre), code), rt, True)

    def rettype(self, fn):
        q = fn['type']['qualType']
        m = re.search(r'->\s*(.*)$', q)
        if m:
            r = m.group(1)
        else:
            d = 0
            for i, ch in enumerate(q):
                if ch == '<':
                    d += 1
                elif ch == '>':
                    d -= 1
                elif ch == '(' and d == 0:
                    break
            r = q[:i].strip()
        r = re.sub(r'\s*noexcept$', '', r)
        if r.startswith('decltype') or r == 'auto':
            return ('unknown', r)
        return self.T.parse(r)

    def infer_ret(self, body):
        rs = find_returns(body)
        return self.ty(kids(rs[0])[0]) if rs and kids(rs[0]) else ('unit',)

    def inline_body(self, body, rt):
        """block with returns -> expression"""
        stmts = kids(body)
        if rt[0] == 'unknown':
            rs = find_returns(body)
            rt = self.ty(kids(rs[0])[0]) if rs and kids(rs[0]) else ('unit',)
        simple = only_tail_returns(stmts)
        self.nexc += 1
        exc = 'R%d' % self.nexc
        savedc, self.cont = self.cont, []
        if simple:
            self.ret.append(('tail', rt))
            c = self.block(stmts, tail=True)
            self.ret.pop()
            out = '(begin %s end)' % c
        else:
            self.ret.append(('exc', exc, rt))
            c = self.block(stmts)
            self.ret.pop()
            if rt[0] == 'unit':
                out = '(let exception %s in try begin %s end with %s -> () end)' % (exc, c, exc)
                out = '(exception %s in try begin %s end with %s -> () end)' % (exc, c, exc)
            else:
                out = '(exception %s %s in try begin %s; absurd end with %s r_ -> r_ end)' % (exc, why(rt), c, exc)
        self.cont = savedc
        return out

    def lambda_op(self, f, argtys=None):
        rec = [c for c in kids(f.node) if c['kind'] == 'CXXRecordDecl'][0]
        best = None
        for c in kids(rec):
            if c['kind'] == 'CXXMethodDecl' and c.get('name') == 'operator()':
                best = c
            if c['kind'] == 'FunctionTemplateDecl' and c.get('name') == 'operator()':
                for d in kids(c):
                    if d['kind'] == 'CXXMethodDecl' and any(e['kind'] == 'TemplateArgument' for e in kids(d)):
                        best = d
        if best is None:
            for c in kids(rec):
                if c['kind'] == 'FunctionTemplateDecl':
                    for d in kids(c):
                        if d['kind'] == 'CXXMethodDecl':
                            best = d
        if best is None:
            self.err('lambda without call operator')
        return best

    def inline_lambda(self, f, args, n):
        op = self.lambda_op(f)
        saved = dict(self.env)
        self.env.update({k: v for k, v in f.lenv.items() if k not in self.env})
        pre = []
        for p, a in zip([c for c in kids(op) if c['kind'] == 'ParmVarDecl'], args):
            self.bindparam(p, a, pre)
        body = [c for c in kids(op) if c['kind'] == 'CompoundStmt'][0]
        rt = self.rettype(op)
        if rt[0] == 'unknown':
            rs = find_returns(body)
            rt = self.ty(kids(rs[0])[0]) if rs and kids(rs[0]) else ('unit',)
        code = self.inline_body(body, rt)
        for k in list(self.env):
            if k in saved:
                self.env[k] = saved[k]
        return X('(%s %s)' % (' '.join(pre), code), rt, True)

    def lambda_apply(self, f, xs, n):
        """apply lambda to already translated arguments (X list); returns X"""
        if f.ty[0] == 'fnref':
            fk = [{'kind': '_X', 'x': x} for x in xs]
            return self.call_named(f.fname, None, fk, n)
        op = self.lambda_op(f)
        fk = [{'kind': '_X', 'x': x} for x in xs]
        return self.inline_lambda(f, fk, n)

    def E__X(self, n):
        return n['x']

    # ------------------------------------------------------- statements
    def block(self, stmts, tail=False):
        """statement list -> WhyML sequence (unit typed unless tail)"""
        if not stmts:
            return '()'
        s, rest = stmts[0], stmts[1:]
        k = s.get('kind')
        if k is None or k == 'NullStmt':
            return self.block(rest, tail)
        if k == 'DeclStmt':
            pre = []
            for d in kids(s):
                self.decl(d, pre)
            return ' '.join(pre) + '\n' + self.block(rest, tail)
        if tail and not rest:
            return self.S(s, tail=True)
        if tail and k == 'IfStmt' and always_returns_stmt(s, True):
            # if (c) return a;  rest   -> if c then a else rest
            return self.iftail(s, rest)
        c = self.S(s)
        if k in ('ReturnStmt', 'BreakStmt', 'ContinueStmt') or is_throw(s):
            return c
        r = self.block(rest, tail)
        if r == '()' and not tail:
            return c
        return c + ';\n' + r

    def iftail(self, s, rest):
        return self.S_IfStmt(s, tail=True, rest=rest)

    def S(self, n, tail=False):
        k = n['kind']
        m = getattr(self, 'S_' + k, None)
        if m is not None:
            return m(n, tail) if k in ('IfStmt', 'CompoundStmt', 'ReturnStmt', 'SwitchStmt', 'CXXTryStmt') else m(n)
        # expression statement
        return self.exprstmt(n)

    def exprstmt(self, n):
        x = self.E(n)
        if hasattr(x, 'upd'):
            return x.upd
        if x.ty[0] == 'any':
            return x.code
        if x.ty[0] == 'unit':
            return x.code
        if not x.eff:
            return '()'
        return '(let _ = %s in ())' % x.code

    def S_CompoundStmt(self, n, tail=False):
        saved = dict(self.env)
        ns = len(self.scope)
        c = self.block(kids(n), tail)
        self.restore(saved)
        del self.scope[ns:]
        return 'begin ' + c + ' end'

    def restore(self, saved):
        for k in list(self.env):
            if k not in saved:
                pass
        # declarations have unique ids: keep them (harmless)

    def S_NullStmt(self, n):
        return '()'

    def S_DeclStmt(self, n):
        pre = []
        for d in kids(n):
            self.decl(d, pre)
        return ' '.join(pre) + ' ()'

    def decl(self, d, pre):
        k = d['kind']
        if k in ('TypeAliasDecl', 'TypedefDecl', 'UsingDecl', 'CXXRecordDecl', 'StaticAssertDecl', 'UsingDirectiveDecl',
                 'NamespaceAliasDecl'):
            return
        if k == 'DecompositionDecl':
            init = [c for c in kids(d) if c['kind'] != 'BindingDecl'][-1:]
            x = self.E(init[0])
            self.decompose(d, x, pre)
            return
        if k != 'VarDecl':
            self.err('declaration %s' % k, d)
        t = self.ty(d)
        q = d.get('type', {}).get('qualType', '')
        init = [c for c in kids(d) if c.get('kind') and not c['kind'].endswith('Attr')]
        nm = d.get('name')
        isref = q.rstrip().endswith('&')
        isconst = q.startswith('const ') or ' const' in q
        x = None
        if t[0] in ('unknown', 'lambda', 'fn', 'viter', 'miter', 'rviter') or not init:
            pass
        if init and t[0] == 'viter' and init[0]['kind'] == 'CXXConstructExpr' and not kids(init[0]):
            init = []
        if init:
            x = self.E(init[0])
            if x.ty[0] == 'opt' and t != x.ty and '*' in q:
                t = x.ty          # a pointer that may be null
            if x.ty[0] in ('lambda', 'fn', 'evalfn', 'fnref'):
                self.env[d['id']] = x
                return
            if x.ty[0] == 'miter':
                it = dict(x.it)
                kv = self.fresh(nm + '_key')
                fv = self.fresh(nm + '_found')
                pre.append('let %s = %s in let %s = %s in' % (kv, it['key'], fv, it['found']))
                it['key'], it['found'] = kv, fv
                self.env[d['id']] = X('', x.ty, it=it)
                return
            if x.ty[0] == 'insres':
                v = self.fresh(nm)
                pre.append('let %s = %s in' % (v, x.code))
                self.env[d['id']] = X(v, ('insres',))
                return
            if x.ty[0] == 'piter':
                parts = []
                for p, sfx in zip(x.parts, ('_first', '_second')):
                    parts.append(self.declare_iter(nm + sfx, p, pre, False))
                self.env[d['id']] = X('', ('piter',), parts=parts)
                return
            if x.ty[0] == 'viter':
                self.env[d['id']] = self.declare_iter(nm, x, pre, isconst)
                return
            if t[0] == 'unknown':
                t = x.ty
            if x.ty[0] in ('rec', 'abs') and t[0] != x.ty[0] and t[0] == 'unknown':
                t = x.ty
        if not init and t[0] == 'viter' or (t[0] == 'viter' and x is None) or (
                x is not None and x.ty[0] == 'default' and t[0] == 'viter'):
            s = self.fresh(nm + '_s')
            i = self.fresh(nm)
            et = why(('vec', t[1]))
            pre.append('let ref %s = (empty : %s) in let ref %s = 0 in' % (s, et, i))
            self.env[d['id']] = X('', t, it=dict(s=s, i=i, svar=s))
            self.scope.append((s, ('vec', t[1]), True))
            self.scope.append((i, ('int', 64, True), True))
            return
        if x is None:
            if t[0] in ('int', 'char', 'bool', 'float', 'enum'):
                x = X('(any %s)' % why(t), t)       # uninitialised
            else:
                x = self.default(t, d)
        if isref and not isconst and x.lv is not None:
            self.env[d['id']] = X(x.code, x.ty, lv=self.freeze(x.lv, pre))
            b = self.env[d['id']]
            lv = b.lv
            self.env[d['id']] = (lambda lv=lv: X(lv.read(), lv.ty, lv=lv))
            return
        x = self.coerce(x, t, d)
        if t[0] in ('unknown', 'any'):
            t = x.ty
        v = self.fresh(nm)
        if isconst and not isref or (isref and isconst) or (isref and x.lv is None and isconst):
            pre.append('let %s = %s in' % (v, x.code))
            self.env[d['id']] = X(v, t, node=None, lit=getattr(x, 'lit', None))
            self.scope.append((v, t, False))
        else:
            self.u.check_type(t, self, d)
            pre.append('let ref %s = (%s : %s) in' % (v, x.code, why(t)))
            self.env[d['id']] = X(v, t, lv=LV(v, t))
            self.scope.append((v, t, True))

    def freeze(self, lv, pre):
        """evaluate index/key expressions of an lvalue path once"""
        path = []
        for k, a, t in lv.path:
            if k == 'idx' and not _atom.match(a):
                v = self.tmp()
                pre.append('let %s = %s in' % (v, a))
                a = v
            if k == 'key' and not _atom.match(a):
                v = self.tmp()
                pre.append('let %s = %s in' % (v, a))
                a = v
            if k == 'keyd' and not _atom.match(a[0]):
                v = self.tmp()
                pre.append('let %s = %s in' % (v, a[0]))
                a = (v, None)
            path.append((k, a, t))
        return LV(lv.var, lv.ty, path)

    def declare_iter(self, nm, x, pre, isconst):
        i = self.fresh(nm)
        s = x.it['s']
        if x.it.get('end') and isconst:
            return x
        if not _atom.match(s):
            sv = self.fresh(nm + '_s')
            pre.append('let %s = %s in' % (sv, s))
            s = sv
        pre.append('let ref %s = %s in' % (i, x.it['i']))
        self.scope.append((i, ('int', 64, True), True))
        return X('', x.ty, it=dict(s=s, i=i))

    def decompose(self, d, x, pre):
        bs = [c for c in kids(d) if c['kind'] == 'BindingDecl']
        if x.ty[0] in ('pair', 'tuple'):
            ts = x.ty[1:]
            vs = []
            names = [self.fresh(b.get('name')) for b in bs]
            pre.append('let (%s) = %s in' % (', '.join(names), x.code))
            for b, v, t in zip(bs, names, ts):
                self.env[b['id']] = X(v, t)
                self.scope.append((v, t, False))
            return
        if x.ty[0] == 'insres':
            v = self.fresh(bs[1].get('name'))
            pre.append('let %s = %s in' % (v, x.code))
            self.env[bs[1]['id']] = X(v, ('bool',))
            return
        if x.ty[0] == 'rec':
            fs = self.u.structs[x.ty[1]]['fields']
            tmp = self.tmp()
            pre.append('let %s = %s in' % (tmp, x.code))
            for b, (c, w, ft) in zip(bs, fs):
                v = self.fresh(b.get('name'))
                pre.append('let %s = %s.%s in' % (v, tmp, w))
                self.env[b['id']] = X(v, ft)
            return
        self.err('structured binding of %r' % (x.ty,), d)

    def S_IfStmt(self, n, tail=False, rest=None):
        cs = kids(n)
        i = 0
        pre = []
        saved = dict(self.env)
        if n.get('hasInit'):
            st = cs[i]
            i += 1
            for d in kids(st):
                self.decl(d, pre)
        if n.get('hasVar'):
            st = cs[i]
            i += 1
            for d in kids(st):
                self.decl(d, pre)
            vd = kids(st)[0]
        cond = cs[i]
        then = cs[i + 1]
        els = cs[i + 2] if n.get('hasElse') else None
        if n.get('isConstexpr'):
            ev = const_bool(cond)
            if ev is not None:
                taken = then if ev else els
                if rest is not None:
                    return ' '.join(pre) + ' ' + self.block(([taken] if taken else []) + rest, True)
                if taken is None:
                    return '()'
                return self.S(taken, tail)
        c = self.tobool(self.E(cond), cond)
        if rest is not None:
            # `then` always returns
            a = self.S(then, True)
            b = self.block(([els] if els is not None else []) + rest, True)
            return ' '.join(pre) + '(if %s then %s else begin %s end)' % (c.code, par_block(a), b)
        a = self.S(then, tail)
        if els is not None:
            b = self.S(els, tail)
            out = '(if %s then %s else %s)' % (c.code, par_block(a), par_block(b))
        else:
            out = '(if %s then %s)' % (c.code, par_block(a))
        if pre:
            out = '(%s %s)' % (' '.join(pre), out)
        return out

    def S_ReturnStmt(self, n, tail=False):
        cs = [c for c in kids(n) if c.get('kind')]
        if cs and self.rtype == ('unit',) and skip(cs[0]).get('opcode') == '*' and skip(kids(skip(cs[0]))[0])['kind'] == 'CXXThisExpr':
            cs = []          # *this is the state itself
        mode = self.ret[-1]
        if mode == 'fn':
            rt = self.rtype
            if not cs:
                return 'return ' + self.retval('()')
            x = self.E(cs[0])
            if x.ty[0] == 'any':
                return x.code
            x = self.coerce(x, rt, n)
            return 'return ' + par(self.retval(x.code))
        if mode[0] == 'tail':
            if not cs:
                return '()'
            x = self.coerce(self.E(cs[0]), mode[1], n)
            return x.code
        if mode[0] == 'loop':
            return mode[1]
        if mode[0] == 'exc':
            if not cs:
                return '(raise %s)' % mode[1]
            x = self.coerce(self.E(cs[0]), mode[2], n)
            if x.ty[0] == 'any':
                return x.code
            if mode[2][0] == 'unit':
                return '(begin %s; raise %s end)' % (x.code, mode[1])
            return '(raise (%s %s))' % (mode[1], par(x.code))
        self.err('return', n)

    def retval(self, c):
        return c

    def S_BreakStmt(self, n):
        if self.cont and self.cont[-1][1]:
            return '(raise %s)' % self.cont[-1][1]
        return 'break'

    def S_ContinueStmt(self, n):
        if self.cont and self.cont[-1][0]:
            return '(raise %s)' % self.cont[-1][0]
        return 'continue'

    # ---- loops
    def loopspec(self):
        self.nloop += 1
        return self.nloop

    def invs(self, k, auto):
        sp = self.spec.loops.get(k, {})
        out = []
        for a in auto:
            out.append('invariant { [@expl:auto loop %d] %s }' % (k, a))
        for j, inv in enumerate(sp.get('inv', [])):
            out.append('invariant { [@expl:loop %d invariant %d] %s }' % (k, j + 1, self.subst(inv, k)))
        return '\n    '.join(out)

    def subst(self, text, k=None):
        """$name -> current WhyML name of the C++ local `name`"""
        names = {}
        for v, t, m in self.scope:
            base = v[2:]
            names[base] = v
            names[re.sub(r'_\d+$', '', base)] = v

        wanted = set(re.findall(r'\$([A-Za-z_][A-Za-z0-9_]*)', text))
        taken = set(names[w] for w in wanted if w in names)

        def rep(m):
            nm = m.group(1)
            if nm in names:
                return names[nm]
            alt = self.spec.roles.get(nm)
            if alt:
                return alt(self, k)
            want = (m.group(3) or self.spec.vartypes.get(nm) or '').strip()
            if want:
                def norm(q):
                    return re.sub(r'[()\s]', '', q)
                c = [v for v, t, mu in self.scope if t[0] not in ('unknown', 'any') and norm(whysafe(t)) == norm(want)
                     and v not in taken and mu]
                if c:
                    names[nm] = c[0]
                    taken.add(c[0])
                    return c[0]
            raise ExtractError('%s: no local variable %s for the loop invariant' % (self.spec.name, nm))
        return re.sub(r'\$([A-Za-z_][A-Za-z0-9_]*)(<([^>]*)>)?', rep, text)

    def loop_over_seq(self, seqcode, elty, bind, bodyfn, n, setup=''):
        """generic loop over a fixed sequence"""
        k = self.loopspec()
        it, sq = 'it%d' % k, 'sq%d' % k
        self.scope.append((it, ('int', 64, False), True))
        inv = None
        savedc = self.cont
        self.cont = self.cont + [(None, None)]
        pre = []
        x = X('(at_ %s %s)' % (sq, it), elty)
        bind(x, pre)
        spec = self.spec.loops.get(k, {})
        body = bodyfn()
        self.cont = savedc
        inv = self.invs(k, ['0 <= %s <= len %s' % (it, sq)])
        g0 = self.subst(spec.get('before', ''), k)
        gb = self.subst(spec.get('body', ''), k)
        ge = self.subst(spec.get('end', ''), k)
        ga = self.subst(spec.get('after', ''), k)
        return ('(let %s = %s in let ref %s = 0 in %s\n  while %s < len %s do\n    %s\n    variant { len %s - %s }\n'
                '    %s %s <- %s + 1;\n    %s %s %s\n  done%s)') % (
            sq, seqcode, it, g0, it, sq, inv, sq, it, ' '.join(pre), it, it, gb, par_block(body),
            ('; ' + ge) if ge else '', ('; ' + ga) if ga else '')

    def bindvar(self, d, x, pre):
        """bind loop variable declaration"""
        if d['kind'] == 'DecompositionDecl':
            self.decompose(d, x, pre)
            return
        v = self.fresh(d.get('name'))
        q = d.get('type', {}).get('qualType', '')
        if 'const' not in q and not q.rstrip().endswith('&'):
            pre.append('let ref %s = %s in' % (v, x.code))
            self.env[d['id']] = X(v, x.ty, lv=LV(v, x.ty))
        else:
            pre.append('let %s = %s in' % (v, x.code))
            self.env[d['id']] = X(v, x.ty)
        self.scope.append((v, x.ty, False))

    def iter_seq(self, x, n):
        """sequence iterated by a range loop over container x"""
        t = x.ty
        if t[0] == 'vec':
            return x.code, t[1]
        if t[0] == 'str':
            return x.code, ('char',)
        if t[0] == 'map':
            return '(items %s)' % par(x.code), ('pair', t[1], t[2])
        if t[0] == 'umap':
            return '(uitems %s)' % par(x.code), ('pair', t[1], t[2])
        if t[0] == 'set':
            return '(selems %s)' % par(x.code), t[1]
        if t[0] == 'uset':
            return '(uselems %s)' % par(x.code), t[1]
        if t[0] == 'json':
            return '(j_elems %s)' % par(x.code), ('json',)
        if t[0] == 'jitems':
            return x.code, ('pair', ('str',), ('json',))
        f = self.u.iterseq.get(t[1] if len(t) > 1 else t[0])
        if f:
            return f[0] % par(x.code), f[1]
        self.err('range loop over %r' % (t,), n)

    def S_CXXForRangeStmt(self, n):
        cs = n['inner']
        # [init?, range decl, begin, end, cond, inc, loopvar, body]
        rng, lv, body = cs[1], cs[6], cs[7]
        rd = kids(rng)[0]
        x = self.E(kids(rd)[0])
        d = kids(lv)[0]
        q = d.get('type', {}).get('qualType', '')
        mutable_ref = q.rstrip().endswith('&') and 'const' not in q and d['kind'] == 'VarDecl' and x.lv is not None
        sc = len(self.scope)
        if mutable_ref and x.ty[0] == 'vec':
            return self.loop_mut(x, d, body, n)
        seqc, et = self.iter_seq(x, n)
        self.ret.append(self.ret[-1])
        c = self.loop_over_seq(seqc, et, lambda e, pre: self.bindvar(d, e, pre), lambda: self.S(body), n)
        self.ret.pop()
        del self.scope[sc:]
        return c

    def loop_mut(self, x, d, body, n):
        """for (auto& e : vec) : index loop with write-through"""
        k = self.loopspec()
        it = 'it%d' % k
        self.scope.append((it, ('int', 64, False), True))
        cur = it + 'c'
        lv = x.lv.ext('idx', cur, x.ty[1])
        self.env[d['id']] = lambda: X(lv.read(), lv.ty, lv=lv)
        savedc = self.cont
        self.cont = self.cont + [(None, None)]
        b = self.S(body)
        self.cont = savedc
        inv = self.invs(k, ['0 <= %s <= len %s' % (it, par(x.code))])
        return ('(let ref %s = 0 in while %s < len %s do\n %s\n variant { len %s - %s }\n let %s = %s in %s <- %s + 1; %s done)'
                % (it, it, par(x.code), inv, par(x.code), it, cur, it, it, it, par_block(b)))

    def S_WhileStmt(self, n):
        cs = kids(n)
        k = self.loopspec()
        savedc = self.cont
        self.cont = self.cont + [(None, None)]
        sc = len(self.scope)
        c = self.tobool(self.E(cs[0]), cs[0])
        b = self.S(cs[-1])
        self.cont = savedc
        out = self.whileloop(k, c, b, '')
        del self.scope[sc:]
        return out

    def whileloop(self, k, c, b, inc):
        sp = self.spec.loops.get(k, {})
        inv = self.invs(k, [])
        var = sp.get('variant')
        vt = 'variant { %s }' % self.subst(var, k) if var else ''
        if not var:
            self.u.partial.add(self.spec.name)
        gb = self.subst(sp.get('body', ''), k)
        ge = self.subst(sp.get('end', ''), k)
        ga = self.subst(sp.get('after', ''), k)
        g0 = self.subst(sp.get('before', ''), k)
        return '(%s while %s do\n    %s\n    %s\n    %s %s%s%s\n  done%s)' % (
            g0, c.code, inv, vt, gb, par_block(b), ('; ' + inc) if inc else '', ('; ' + ge) if ge else '',
            ('; ' + ga) if ga else '')

    def S_ForStmt(self, n):
        cs = n['inner']
        init, _cv, cond, inc, body = cs
        pre = []
        sc = len(self.scope)
        post = ''
        if init.get('kind') == 'DeclStmt':
            for d in kids(init):
                self.decl(d, pre)
        elif init.get('kind'):
            post = self.exprstmt(init) + ';'
        k = self.loopspec()
        savedc = self.cont
        needs = has_continue(body)
        self.nexc += 1
        cn = 'C%d' % self.nexc
        self.cont = self.cont + [(cn if needs else None, None)]
        c = self.tobool(self.E(cond), cond) if cond.get('kind') else X('true', ('bool',))
        b = self.S(body)
        self.cont = savedc
        ic = self.exprstmt_multi(inc) if inc.get('kind') else ''
        if needs:
            b = '(exception %s in try %s with %s -> () end)' % (cn, par_block(b), cn)
        out = self.whileloop(k, c, b, ic)
        del self.scope[sc:]
        return '(%s %s %s)' % (' '.join(pre), post, out)

    def exprstmt_multi(self, n):
        s = skip(n)
        if s['kind'] == 'BinaryOperator' and s['opcode'] == ',':
            a, b = kids(s)
            return self.exprstmt_multi(a) + '; ' + self.exprstmt_multi(b)
        return self.exprstmt(n)

    def S_DoStmt(self, n):
        body, cond = kids(n)
        k = self.loopspec()
        first = 'first%d' % k
        savedc = self.cont
        self.cont = self.cont + [(None, None)]
        if has_continue(body):
            self.err('continue in do-while', n)
        b = self.S(body)
        c = self.tobool(self.E(cond), cond)
        self.cont = savedc
        out = self.whileloop(k, X('(%s || %s)' % (first, par(c.code)), ('bool',)), 'begin %s <- false; %s end' % (first, b), '')
        return '(let ref %s = true in %s)' % (first, out)

    def S_SwitchStmt(self, n, tail=False):
        cs = kids(n)
        x = self.E(cs[0])
        body = kids(cs[-1])
        # flatten into (labels, stmts); require each group to end in return/break/throw
        groups = []

        def add(s):
            if s['kind'] == 'CaseStmt':
                ch = kids(s)
                v = self.E(ch[0]).code
                if groups and groups[-1][1] is None:
                    groups[-1][0].append(v)
                else:
                    groups.append([[v], None])
                add_after(ch[-1])
            elif s['kind'] == 'DefaultStmt':
                if groups and groups[-1][1] is None:
                    groups[-1][0].append('default')
                else:
                    groups.append([['default'], None])
                add_after(kids(s)[0])
            else:
                if groups[-1][1] is None:
                    groups[-1][1] = []
                groups[-1][1].append(s)

        def add_after(s):
            if s['kind'] in ('CaseStmt', 'DefaultStmt'):
                add(s)
            else:
                if groups[-1][1] is None:
                    groups[-1][1] = []
                groups[-1][1].append(s)
        for s in body:
            add(s)
        out = None
        default = '()'
        arms = []
        tmp = self.tmp()
        savedc = self.cont
        for gi, (labels, stmts) in enumerate(groups):
            stmts = stmts or []
            last = stmts[-1] if stmts else None
            if last is not None and last['kind'] == 'CompoundStmt' and kids(last):
                inner = kids(last)
                if inner[-1]['kind'] == 'BreakStmt':
                    stmts = stmts[:-1] + inner[:-1]
                    last = None
                    ok = True
            if last is not None and last['kind'] == 'BreakStmt':
                stmts = stmts[:-1]
            elif last is not None and not always_returns(stmts) and gi != len(groups) - 1:
                self.err('switch fall-through', n)
            if any(has_kind(s, 'BreakStmt') for s in stmts):
                self.err('inner break in switch', n)
            c = self.block(stmts)
            if 'default' in labels:
                default = c
            else:
                arms.append((labels, c))
        res = 'begin %s end' % default
        for labels, c in reversed(arms):
            cond = ' || '.join('%s = %s' % (tmp, l) for l in labels)
            res = '(if %s then begin %s end else %s)' % (cond, c, res)
        return '(let %s = %s in %s)' % (tmp, x.code, res)

    def S_CXXTryStmt(self, n, tail=False):
        cs = kids(n)
        body = self.S(cs[0], tail)
        h = cs[1]
        hs = [self.catchbody(c, tail) for c in cs[1:]]
        # one exception constructor is modelled: all handlers must agree, else nondeterministic choice
        uniq = []
        for c in hs:
            if c not in uniq:
                uniq.append(c)
        hc = uniq[0]
        for c in uniq[1:]:
            hc = '(if any bool then %s else %s)' % (par_block(hc), par_block(c))
        return '(try %s with Cxx -> %s end)' % (par_block(body), par_block(hc))

    def catchbody(self, c, tail):
        ch = [d for d in kids(c) if d.get('kind')]
        for d in ch:
            if d['kind'] == 'VarDecl':
                self.env[d['id']] = X('()', ('exc',))
        b = [d for d in ch if d['kind'] == 'CompoundStmt'][0]
        return self.S(b, tail)


def whysafe(t):
    try:
        return why(t)
    except ExtractError:
        return '?'


def par_block(b):
    b = b.strip()
    if b.startswith('begin ') and b.endswith(' end'):
        return b
    return 'begin ' + b + ' end'


def is_throw(s):
    s = skip(s) if s.get('kind') in PASS else s
    return s.get('kind') == 'CXXThrowExpr'


def find_lambda(n):
    while n.get('kind') != 'LambdaExpr':
        ks = [c for c in kids(n) if c.get('kind')]
        if len(ks) != 1 or n['kind'] not in ('ReturnStmt', 'ImplicitCastExpr', 'CXXConstructExpr', 'ExprWithCleanups',
                                             'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'CXXFunctionalCastExpr', 'CXXTemporaryObjectExpr'):
            return None
        n = ks[0]
    return n


def is_lambda(n):
    return find_lambda(n) is not None


def find_returns(n):
    out = []

    def go(m):
        if not isinstance(m, dict):
            return
        if m.get('kind') == 'ReturnStmt':
            out.append(m)
        if m.get('kind') == 'LambdaExpr':
            return
        for c in m.get('inner', []):
            go(c)
    go(n)
    return out


def has_kind(n, k):
    if not isinstance(n, dict):
        return False
    if n.get('kind') == k:
        return True
    if n.get('kind') in ('LambdaExpr', 'ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'DoStmt', 'SwitchStmt'):
        if k in ('BreakStmt', 'ContinueStmt'):
            return False
    if n.get('kind') == 'LambdaExpr':
        return False
    return any(has_kind(c, k) for c in n.get('inner', []))


def has_continue(n):
    return has_kind(n, 'ContinueStmt')


def always_returns(stmts):
    return bool(stmts) and always_returns_stmt(stmts[-1])


def always_returns_stmt(s, thenonly=False):
    k = s.get('kind')
    if k == 'ReturnStmt' or is_throw(s):
        return True
    if k == 'CompoundStmt':
        return always_returns(kids(s))
    if k == 'IfStmt':
        cs = kids(s)
        off = int(bool(s.get('hasInit'))) + int(bool(s.get('hasVar')))
        if thenonly:
            return always_returns_stmt(cs[off + 1]) and (not s.get('hasElse') or not find_returns(cs[off + 2]))
        return bool(s.get('hasElse')) and always_returns_stmt(cs[off + 1]) and always_returns_stmt(cs[off + 2])
    return False


def only_tail_returns(stmts):
    """every return is in tail position after the if-return normalisation of block(tail=True)"""
    if not stmts:
        return True
    s, rest = stmts[0], stmts[1:]
    k = s.get('kind')
    if k == 'ReturnStmt':
        return True
    if not rest:
        if k == 'CompoundStmt':
            return only_tail_returns(kids(s)) and always_returns(kids(s)) or not find_returns(s)
        if k == 'IfStmt' and find_returns(s):
            cs = kids(s)
            off = int(bool(s.get('hasInit'))) + int(bool(s.get('hasVar')))
            return bool(s.get('hasElse')) and all(
                only_tail_returns([c]) and always_returns_stmt(c) for c in cs[off + 1:off + 3])
        return not find_returns(s)
    if k == 'IfStmt' and always_returns_stmt(s, True):
        cs = kids(s)
        off = int(bool(s.get('hasInit'))) + int(bool(s.get('hasVar')))
        return only_tail_returns([cs[off + 1]]) and only_tail_returns(rest) and not s.get('hasElse')
    return not find_returns(s) and only_tail_returns(rest)


def const_bool(n):
    if n.get('kind') == 'ConstantExpr' and 'value' in n:
        return n['value'] in ('true', '1', True)
    s = n
    while s.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'SubstNonTypeTemplateParmExpr'):
        s = [c for c in kids(s) if c.get('kind')][-1]
        if s.get('kind') == 'ConstantExpr' and 'value' in s:
            return s['value'] in ('true', '1', True)
    if s.get('kind') == 'CXXBoolLiteralExpr':
        return s['value'] in (True, 'true')
    return None


def _ekind(self, n):
    s = n
    while s.get('kind') in ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ImplicitCastExpr') and kids(s):
        s = kids(s)[0]
    return 'init' if s.get('kind') == 'InitListExpr' and False else ''


FnTr.E_kind = _ekind
