"""A verification unit: C++ functions of /repo under contract, extracted to one WhyML file."""
import re, os
from . import ast
from .ast import ExtractError
from .types import Types, why, strip_cv
from .tr import FnTr, X, LV, Lits, NeedFn, kids, par, always_returns


class Fn:
    """One function under contract."""

    def __init__(self, name, tu, contract='', loops=None, why=None, pick=None, filter=None, wrap=False, drop=(),
                 ptypes=None, this=(), vartypes=None, roles=None, rtype=None, pre='', fntypes=None, note='', params='',
                 lam=None, decreases=None, calls=True, noexc=False, abstract=False, group=None, thisval=None):
        self.name, self.tu, self.contract = name, tu, contract
        self.loops = loops or {}
        self.why = why or re.sub(r'[^A-Za-z0-9_]', '_', name)
        if self.why[0].isupper():
            self.why = self.why[0].lower() + self.why[1:]
        self.pick = pick
        self.filter = filter or name
        self.wrap = wrap
        self.drop = set(drop)
        self.ptypes_over = ptypes or {}
        self.this = list(this)
        self.thisval = thisval        # (code, type) of *this, for classes that are a single value
        self.vartypes = vartypes or {}
        self.roles = roles or {}
        self.rtype_over = rtype
        self.pre = pre
        self.fntypes = fntypes or {}
        self.note = note
        self.params_extra = params
        self.lam = lam
        self.decreases = decreases
        self.calls = calls
        self.noexc = noexc
        self.group = group            # mutually recursive functions (consecutive) share a group
        self.abstract = abstract      # contract only: the body is verified against it in another unit
        # filled by translation
        self.drop_params, self.ref_params, self.defaults, self.ptypes = set(), set(), {}, {}
        self.callee_params = []
        self.rtype = None


LIT = re.compile(r'([LB])"((?:[^"\\]|\\.)*)"')


class Unit:
    def __init__(self, name, use='Expr', bootstrap=True):
        self.name, self.use = name, use
        self.specs = []
        self.lemmas = []
        self.lemma_texts = {}
        self.fns = []
        self.extra_types = {}
        self.lits = Lits()
        self.dropped, self.partial, self.inlined = set(), set(), set()
        self.streammode = {}
        self.globals = {}
        self.structs = {}
        self.fieldinits = {}          # (record, member) -> value of its default member initialiser
        self.absdefaults, self.absfields, self.absbool, self.absnull, self.absexpr, self.absctor = {}, {}, {}, {}, {}, {}
        self.eqfun, self.cmpfun, self.conv, self.subs, self.opcalls = {}, {}, {}, {}, {}
        self.fnrefs = {}     # functions passed as values: name -> value of the abstract type
        self.fncalls, self.fnvals, self.thiscalls, self.methods, self.iterseq = {}, {}, {}, {}, {}
        self.ptr_opt_fields = False
        self.enums = {}
        self.bootstrap = bootstrap
        self.inline_tus = []          # additional (tu) to look for helpers in
        self.cand = {}
        self.done = {}
        self.decls = {}
        self.externs = []             # contracts assumed for callees outside the unit: (Fn-like, text)
        self.lemma_only = False

    # -- spec building
    def spec(self, text):
        self.specs.append(text)

    def extern(self, nm, why_, ty, args=None, eff=True, of=None):
        """calls of nm (a method of abstract type `of` if given) become calls of the WhyML symbol why_"""
        from .tr import X, par

        def h(tr, *a):
            if of:
                x, cs, n = a
                xs = [x]
            else:
                cs, n = a
                xs = []
            cs = [c for c in cs if c.get('kind') != 'CXXDefaultArgExpr']
            xs += [tr.E(c) for i, c in enumerate(cs) if args is None or i in args]
            return tr.app(why_, xs, ty, eff) if xs else X('(%s ())' % why_, ty, eff)
        if of:
            self.methods[(of, nm)] = h
        else:
            self.fncalls[nm] = h

    def lemma(self, name, formula, proof=''):
        """a fact about the spec functions: proved in a module of its own (proof: WhyML declarations, usually a
        recursive lemma function), then available in the unit with its triggers"""
        self.lemmas.append((name, formula, proof))

    def fn(self, *a, **k):
        f = Fn(*a, **k)
        self.fns.append(f)
        return f

    def rec(self, cname, wname, fields, default=None, ctor=None):
        """C++ aggregate modelled as a WhyML record"""
        cn = [cname] if isinstance(cname, str) else cname
        for c in cn:
            self.extra_types[c] = ('rec', wname)
        self.structs[wname] = {'fields': fields, 'default': default, 'ctor': ctor}

    def abst(self, cname, wname):
        cn = [cname] if isinstance(cname, str) else cname
        for c in cn:
            self.extra_types[c] = ('abs', wname)

    def enum(self, cname, values):
        """values: dict name->int"""
        cn = [cname] if isinstance(cname, str) else cname
        for c in cn:
            self.extra_types[c] = ('enum', cn[0])
        self.enums.update(values)

    # -- services for FnTr
    def enumval(self, r, n):
        nm = r.get('name')
        if nm in self.enums:
            return str(self.enums[nm])
        t = strip_cv(n.get('type', {}).get('qualType', ''))
        raise NeedFn('enum:' + t + ':' + nm)

    def find_contract(self, nm, args, tr, f, method=False):
        for c in self.fns:
            if c is tr.spec and not c.decreases and not c.group:
                continue
            if c.name.split('::')[-1] == nm and c.calls and (c.why in self.done or c is tr.spec or (c.group and c.group == tr.spec.group)):
                if c.lam is not None:
                    continue
                na = len([a for a in args])
                if c.nparams == na and self._sametype(c, f) and self._samedecl(c, f, tr):
                    return c
        return None

    def _samedecl(self, c, f, tr):
        """the call refers to this very function (template instantiations share name and type)"""
        rid = (f or {}).get('referencedDecl', {}).get('id')
        if rid is None:
            return True
        if (c.tu, c.filter) == (tr.spec.tu, tr.spec.filter):
            ids = self.fnids.get((c.tu, c.filter), {})
            if rid in ids:
                return rid in (c.node.get('id'), c.node.get('previousDecl')) or c.node.get('id') == ids[rid]
            return not c.templ
        if c.templ:
            raise ExtractError('%s: call of an instantiation of %s cannot be identified' % (tr.spec.name, c.name))
        return True

    def _sametype(self, c, f):
        if f is None:
            return True
        q = f.get('referencedDecl', {}).get('type', {}).get('qualType')
        if q is None:
            return True
        return q.replace('class ', '') == c.qual or c.qual is None or 'auto' in q or '->' in c.qual

    def call_method(self, tr, c, args, n):
        pre = []
        for (cf, w, ty, mu) in c.this:
            x = tr.env.get('this.' + cf)
            if callable(x):
                x = x()
            pre.append(x)
        r = tr.call_contract(c, args, n)
        code = r.code
        a = ' '.join((p.lv.var if mu else par(p.code)) for p, (cf, w, ty, mu) in zip(pre, c.this))
        assert code.startswith('(' + c.why)  or code.startswith('(let')
        code = code.replace('(' + c.why, '(' + c.why + ' ' + a, 1) if a else code
        return X(code, r.ty, True)

    def lookup_fn(self, nm, nargs, declid, qual):
        cs = self.cand.get(nm)
        if cs is None:
            return None
        if declid:
            for c in cs:
                if c[0].get('id') == declid or c[0].get('previousDecl') == declid:
                    return c
        good = []
        for c in cs:
            ps = [p for p in kids(c[0]) if p['kind'] == 'ParmVarDecl']
            nd = len([p for p in ps if p.get('init')])
            if len(ps) - nd <= nargs <= len(ps) and not c[2]:
                good.append(c)
        if qual:
            g2 = [c for c in good if c[0]['type']['qualType'] == qual]
            if g2:
                return g2[0]
        if len(good) >= 1:
            return good[0]
        raise ExtractError('%s: no body found for %s' % (self.name, nm))

    def check_type(self, t, tr, d):
        why(t)

    # -- extraction
    def requests(self):
        s = set()
        for f in self.fns:
            s.add((f.tu, f.filter, self.bootstrap))
        return s

    def helper_requests(self, need):
        s = set()
        for f in self.fns:
            s.add((f.tu, need, self.bootstrap))
        return s

    def pickfn(self, f, docs):
        base = f.name.split('::')[-1]
        cs = [c for c in ast.functions(docs) if c[0].get('name') == base and not c[2]]
        if '::' in f.name:
            cls = f.name.split('::')[-2]
            cc = [c for c in cs if c[1] and c[1][-1].get('name') == cls]
            if cc:
                cs = cc
        else:
            cc = [c for c in cs if not c[1] and (f.this or c[0]['kind'] == 'FunctionDecl')]
            if cc:
                cs = cc
        if f.pick:
            cs = [c for c in cs if f.pick(c[0])]
        # instantiations of one template with identical bodies: take the first
        if not cs:
            raise ExtractError('%s: function %s not found in %s' % (self.name, f.name, f.tu if '\n' not in f.tu else 'TU'))
        return cs[0]

    def translate(self, docs_of):
        """docs_of(tu, filter) -> list of AST docs (raises NeedFn-like via callback). Returns WhyML text."""
        self.types = Types(self.extra_types)
        out = []
        spec_txt = '\n'.join(self.specs)
        body = []
        chosen = []
        self.fnids = {}
        for f in self.fns:
            fn, chain, _ = self.pickfn(f, docs_of(f.tu, f.filter))
            f.node, f.chain = fn, chain
            f.templ = any(x.get('kind') == 'TemplateArgument' for x in fn.get('inner', []))
            if (f.tu, f.filter) not in self.fnids:
                self.fnids[(f.tu, f.filter)] = {c[0]['id']: c[0]['id'] for c in ast.functions(docs_of(f.tu, f.filter))}
            ps = [c for c in kids(fn) if c['kind'] == 'ParmVarDecl']
            f.nparams = len(ps)
            f.qual = fn['type']['qualType']
        self.done = {}
        for f in self.fns:
            if f.group:
                self.emit(f, True)
        for f in self.fns:
            body.append(self.emit(f))
            self.done[f.why] = True
        spec_txt = self.lit_sub(spec_txt)
        body = [self.lit_sub(b) for b in body]
        self.lemma_texts = {}
        lem = []
        for nm, fo, pf in self.lemmas:
            fo, pf = self.lit_sub(fo), self.lit_sub(pf)
            self.lemma_texts['%s_%s' % (self.name, nm)] = (spec_txt + '\n' + '\n'.join(lem), pf + '\n  lemma %s_goal : %s\n' % (nm, fo))
            lem.append('  axiom %s : %s (* proved in module %s_%s *)' % (nm, fo, self.name, nm))
        for k, (a, b) in self.lemma_texts.items():
            self.lemma_texts[k] = 'module %s\n  use prelude.%s\n%s\n%s\n%s\nend\n' % (k, self.use, self.lits.decls(a + b), a, b)
        spec_txt += '\n' + '\n'.join(lem)
        mod = 'module %s\n  use prelude.%s\n%s\n%s\n%s\nend\n' % (
            self.name, self.use, self.lits.decls(), spec_txt, '\n'.join(body))
        return mod

    def lit_sub(self, t):
        def rep(m):
            b = m.group(2).encode('utf-8').decode('unicode_escape').encode('latin-1')
            return self.lits.get(b, m.group(1) == 'B')
        return LIT.sub(rep, t)

    def ctor(self, tr, f, fn, body, rt):
        """a constructor is a function that gives the new value: the delegated-to one or the record of its members"""
        ini = [c for c in kids(fn) if c['kind'] == 'CXXCtorInitializer']
        if any(c.get('kind') for c in kids(body)):
            raise ExtractError('%s: constructor with statements' % f.name)
        if len(ini) == 1 and 'delegatingInit' in ini[0] or len(ini) == 1 and rt[0] != 'rec':
            return tr.coerce(tr.E(kids(ini[0])[0]), rt).code
        if rt[0] != 'rec' or any('anyInit' not in c for c in ini):
            raise ExtractError('%s: constructor' % f.name)
        got = {c['anyInit']['name']: kids(c)[0] for c in ini}
        decl = {c['name']: c for c in kids(f.chain[-1]) if c.get('kind') == 'FieldDecl'} if f.chain else {}
        xs = []
        fs = self.structs[rt[1]]['fields']
        for c, w, ft in fs:
            e = got.pop(c, None)
            if e is None:
                raise ExtractError('%s: member %s is not initialised' % (f.name, c))
            if e['kind'] == 'CXXDefaultInitExpr':
                di = [d for d in kids(decl.get(c, {})) if d.get('kind') and not d['kind'].endswith('Attr')]
                if not di and (rt[1], c) in self.fieldinits:
                    xs.append(X(self.fieldinits[(rt[1], c)], ft))
                    continue
                if not di:
                    raise ExtractError('%s: default initialiser of %s' % (f.name, c))
                e = di[0]
            xs.append(tr.coerce(tr.E(e), ft))
        if got:
            raise ExtractError('%s: unknown members %s' % (f.name, sorted(got)))
        return tr.seqargs(xs, lambda c: '{ ' + '; '.join('%s = %s' % (fs[i][1], c[i]) for i in range(len(fs))) + ' }')

    def emit(self, f, sigonly=False):
        tr = FnTr(self, f, f.node, f.chain)
        fn = f.node
        pre = []
        params = []
        n = 0
        for (cf, w, ty, mu) in f.this:
            if mu:
                params.append('(ref %s : %s)' % (w, why(ty)))
                tr.env['this.' + cf] = (lambda w=w, ty=ty: X(w, ty, lv=LV(w, ty)))
                tr.mut[w] = ty
            else:
                params.append('(%s : %s)' % (w, why(ty)))
                tr.env['this.' + cf] = X(w, ty)
        f.drop_params, f.ref_params, f.defaults, f.ptypes = set(), set(), {}, {}
        ps = [c for c in kids(fn) if c['kind'] == 'ParmVarDecl']
        for i, p in enumerate(ps):
            q = p.get('type', {}).get('qualType', '')
            t = f.ptypes_over.get(i) or tr.ty(p)
            init = [c for c in kids(p) if c.get('kind') and not c['kind'].endswith('Attr')]
            if init:
                try:
                    f.defaults[i] = par(tr.coerce(tr.E(init[0]), t).code)
                except Exception:
                    pass
            if i in f.drop or t[0] in ('fn', 'unknown', 'evalfn', 'opt') and (
                    t[0] in ('fn', 'evalfn', 'unknown') or t[1][0] == 'fn'):
                f.drop_params.add(i)
                if i in f.drop and t[0] not in ('evalfn',):
                    tr.env[p['id']] = X(p.get('name', 'arg'), f.fntypes.get(i, ('fn',)))
                else:
                    tr.env[p['id']] = X(p.get('name', 'arg'), f.fntypes.get(i, t if t[0] != 'unknown' else ('fn',)))
                continue
            n += 1
            w = 'p%d' % n
            isref = q.rstrip().endswith('&') and not q.startswith('const') and ' const' not in q and not q.rstrip().endswith('&&')
            isptr = (q.rstrip().endswith('*') and ' const' not in q and not q.startswith('const')) or (
                'not_null' in q and 'const' not in re.sub('^const ', '', q).split('*')[0])
            f.ptypes[i] = t
            if isref or isptr:
                f.ref_params.add(i)
                params.append('(ref %s : %s)' % (w, why(t)))
                tr.env[p['id']] = (lambda w=w, t=t: X(w, t, lv=LV(w, t)))
            else:
                params.append('(%s : %s)' % (w, why(t)))
                if not q.startswith('const') and ' const' not in q and not q.rstrip().endswith('&') or q.rstrip().endswith('&&'):
                    v = tr.fresh(p.get('name') or 'arg')
                    pre.append('let ref %s = %s in' % (v, w))
                    tr.env[p['id']] = X(v, t, lv=LV(v, t))
                    tr.scope.append((v, t, True))
                else:
                    tr.env[p['id']] = X(w, t)
                    tr.scope.append((w, t, False))
        f.callee_params = params
        body = [c for c in kids(fn) if c['kind'] in ('CompoundStmt', 'CXXTryStmt')]
        if not body:
            raise ExtractError('%s: no body' % f.name)
        body = body[0]
        rt = f.rtype_over or tr.rettype(fn)
        if rt[0] == 'unknown':
            rt = tr.infer_ret(body)
        f.rtype = tr.rtype = rt
        if sigonly:
            return None
        if fn['kind'] == 'CXXConstructorDecl':
            code = self.ctor(tr, f, fn, body, rt)
        elif body['kind'] == 'CXXTryStmt':
            code = tr.S(body)
        else:
            code = tr.block(kids(body))
        ends = body['kind'] == 'CompoundStmt' and always_returns(kids(body)) or fn['kind'] == 'CXXConstructorDecl'
        if rt[0] != 'unit' and not ends:
            code = code + ';\n absurd'
        div = 'diverges' if f.name in self.partial else ''
        ctr = f.contract
        if 'raises' not in ctr:
            ctr += '\n    raises { Cxx -> [@expl:no exception] false }'
        pars = ' '.join(params) + ' ' + f.params_extra
        if not pars.strip():
            pars = '()'
        if f.abstract:
            return '%s\n  val %s %s : %s\n    %s\n' % (f.pre, f.why, pars, why(rt), ctr)
        head = 'let rec ' if f.decreases else 'let '
        if f.group:
            g = [x for x in self.fns if x.group == f.group]
            head = 'let rec ' if f is g[0] else 'with '
        dec = ('variant { %s }' % f.decreases) if f.decreases else ''
        return '%s\n  %s%s %s : %s\n    %s\n    %s\n    %s\n  = (if false then raise Cxx);\n %s\n %s\n' % (
            f.pre, head, f.why, pars, why(rt), ctr, dec, div, ' '.join(pre), code)


def extract(units, scratch, maxrounds=25):
    """translate all units; fetches ASTs (in parallel) until closed. Returns dict unit->text or ExtractError."""
    cache = {}
    reqs = set()
    for u in units:
        reqs |= u.requests()

    def fetch(rs):
        rs = [r for r in rs if r not in cache]
        if rs:
            from concurrent.futures import ThreadPoolExecutor
            def one(r):
                try:
                    return ast.dump(r[0], r[1], scratch, r[2])
                except ExtractError as e:
                    return e
            with ThreadPoolExecutor(8) as ex:
                for r, d in zip(rs, ex.map(one, rs)):
                    cache[r] = d
    fetch(sorted(reqs))
    res = {}
    pending = list(units)
    for _ in range(maxrounds):
        need = set()
        nxt = []
        for u in pending:
            u.partial = u.partial
            u.dropped.clear()
            u.inlined.clear()
            u.streammode = {}

            def docs_of(tu, flt):
                d = cache[(tu, flt, u.bootstrap)]
                if isinstance(d, ExtractError):
                    raise d
                return d
            try:
                res[u.name] = u.translate(docs_of)
            except NeedFn as e:
                nm = e.name
                key = nm
                if key in u.cand or any(('need', u.name, nm) == k for k in cache):
                    res[u.name] = ExtractError('%s: cannot resolve %s' % (u.name, nm))
                    continue
                cache[('need', u.name, nm)] = True
                if ':' not in nm:
                    have = []
                    for r in sorted(u.requests()):
                        d = cache.get(r)
                        if d is not None and not isinstance(d, ExtractError):
                            have += [c for c in ast.functions(d) if c[0].get('name') == nm and not c[2]]
                    if have:
                        u.cand[nm] = have
                        nxt.append((u, nm, set()))
                        continue
                flt = nm.split(':', 1)[1] if ':' in nm and not '::' in nm.split(':', 1)[0] and nm.split(':')[0] in ('var', 'enum') else nm
                if nm.startswith('enum:'):
                    flt = nm[5:].rsplit(':', 1)[0]
                rs = set()
                for tu in sorted(set(f.tu for f in u.fns)) + u.inline_tus:
                    rs.add((tu, flt, u.bootstrap))
                need |= rs
                nxt.append((u, nm, rs))
            except ExtractError as e:
                res[u.name] = e
            except (KeyError, IndexError, TypeError, AttributeError, ValueError, AssertionError) as e:
                if os.environ.get('VERIF_DEBUG'):
                    raise
                res[u.name] = ExtractError('%s: %s: %s' % (u.name, type(e).__name__, e))
        fetch(sorted(need))
        pending = []
        for u, nm, rs in nxt:
            if not rs:
                pending.append(u)
                continue
            u.cand.setdefault(nm, [])
            for r in rs:
                d = cache[r]
                if isinstance(d, ExtractError):
                    continue
                if nm.startswith('enum:'):
                    add_enum(u, d)
                    u.cand.pop(nm, None)
                elif nm.startswith('var:'):
                    add_var(u, d, nm[4:])
                else:
                    u.cand[nm] += [c for c in ast.functions(d) if c[0].get('name') == nm]
            pending.append(u)
        if not pending:
            break
    for u in pending:
        res.setdefault(u.name, ExtractError('%s: extraction does not terminate' % u.name))
    return res


def add_enum(u, docs):
    def walk(n):
        if isinstance(n, dict):
            if n.get('kind') == 'EnumDecl':
                v = -1
                for c in kids(n):
                    if c['kind'] == 'EnumConstantDecl':
                        val = None
                        for e in kids(c):
                            if e.get('kind') == 'ConstantExpr' and 'value' in e:
                                val = int(e['value'])
                        v = val if val is not None else v + 1
                        u.enums[c['name']] = v
                t = n.get('name')
                if t:
                    u.types.extra.setdefault(t, ('enum', t))
                    u.extra_types.setdefault(t, ('enum', t))
            for c in n.get('inner', []):
                walk(c)
    for d in docs:
        walk(d)


def add_var(u, docs, nm):
    """constants: integer and string constants and static tables become globals"""
    def walk(n):
        if isinstance(n, dict):
            if n.get('kind') == 'VarDecl' and n.get('name') == nm:
                init = [c for c in kids(n) if c.get('kind') and not c['kind'].endswith('Attr')]
                if init and 'ExpressionPtr' in n.get('type', {}).get('qualType', ''):
                    # a constant given by a JSON literal
                    import json
                    from .tr import cstr
                    ls = []

                    def lits(m):
                        if m.get('kind') == 'StringLiteral':
                            ls.append(m)
                        for c in kids(m):
                            lits(c)
                    lits(init[0])
                    if len(ls) == 1:
                        u.globals[nm] = (jsonterm(u, json.loads(cstr(ls[0]['value']))), ('expr',))
                    return
                if init:
                    f = Fn(nm, '')
                    tr = FnTr(u, f, n, [])
                    tr.rtype = ('unit',)
                    x = tr.E(init[0])
                    t = tr.ty(n)
                    if x.ty[0] == 'str' and 'char' in n['type']['qualType']:
                        t = x.ty
                    if t[0] in ('int', 'char', 'bool', 'str', 'float', 'enum'):
                        u.globals[nm] = (par(tr.coerce(x, t).code), t)
                        return
            for c in n.get('inner', []):
                walk(c)
    for d in docs:
        walk(d)


def jsonterm(u, v):
    """the value Expression::FromJson builds from a JSON literal"""
    if v is None:
        return 'e_none'
    if isinstance(v, bool):
        return '(mk_bool %s)' % ('true' if v else 'false')
    if isinstance(v, str):
        return '(mk_str %s)' % u.lits.get(v.encode('utf-8'))
    if isinstance(v, (int, float)):
        if v != int(v):
            raise ExtractError('numeric constant')
        return '(mk_num (num_of_int (%d)))' % int(v)
    if isinstance(v, list):
        t = '(empty : seq expr)'
        for e in v:
            t = '(snoc %s %s)' % (t, jsonterm(u, e))
        return '(mk_list %s)' % t
    t = '(mempty : fmap str expr)'
    for k in sorted(v):
        t = '(mset %s %s %s)' % (t, u.lits.get(k.encode('utf-8')), jsonterm(u, v[k]))
    return '(mk_map %s)' % t
