"""Models of the C++ standard library operations occurring in the verified functions.
Every entry is an assumed contract (see DESIGN.md, trusted base)."""
from .ast import ExtractError
from .types import why
from .tr import X, LV, par, skip, kids, _atom, always_returns, find_returns

I64 = ('int', 64, False)


# ------------------------------------------------------------- free functions
def f_move(tr, args, n):
    if len(args) == 1:
        x = tr.E(args[0])
        return X(x.code, x.ty, x.eff, lv=x.lv, it=x.it, node=x.node, **{k: v for k, v in x.__dict__.items() if k in ('lenv', 'parts', 'fname')})
    return None


f_forward = f_move
f_as_const = f_move
f_ref = f_move
f_cref = f_move


def f_min(tr, args, n):
    return tr.app('imin', tr.Es(args), tr.ty(n))


def f_max(tr, args, n):
    return tr.app('imax', tr.Es(args), tr.ty(n))


def f_make_pair(tr, args, n):
    xs = tr.Es(args)
    if any(x.ty[0] == 'viter' for x in xs):
        return X('', ('piter',), parts=xs)
    t = tr.ty(n)
    if t[0] == 'pair':
        xs = [tr.coerce(x, t[1 + i]) for i, x in enumerate(xs)]
    return X(tr.seqargs(xs, lambda c: '(%s, %s)' % tuple(c)), ('pair', xs[0].ty, xs[1].ty), any(x.eff for x in xs))


def f_make_optional(tr, args, n):
    x = tr.E(args[0])
    return X('(Some %s)' % par(x.code), ('opt', x.ty), x.eff)


def f_make_shared(tr, args, n):
    t = tr.ty(n)
    if t[0] == 'rec':
        cs = [c for c in tr.u.fns if getattr(c, 'node', None) and c.node.get('kind') == 'CXXConstructorDecl' and c.rtype_over == t
              and c.why in tr.u.done and c.nparams == len(args)]
        if len(cs) == 1:
            return tr.call_contract(cs[0], args, n)
    return tr.construct(t, [a for a in args if a['kind'] != 'CXXDefaultArgExpr'], n)


f_make_unique = f_make_shared


def f_to_string(tr, args, n):
    x = tr.E(args[0])
    return X('(int_str %s)' % par(x.code), ('str',), x.eff)


def f_begin(tr, args, n):
    return method(tr, tr.E(args[0]), 'begin', [], n)


def f_end(tr, args, n):
    return method(tr, tr.E(args[0]), 'end', [], n)


def f_isxdigit(tr, args, n):
    return X('(isxdigit %s)' % par(tr.E(args[0]).code), ('int', 32, True))


def f_isdigit(tr, args, n):
    return X('(isdigit %s)' % par(tr.E(args[0]).code), ('int', 32, True))


def f_lround(tr, args, n):
    return X('(num_round %s)' % par(tr.E(args[0]).code), ('int', 64, True), True)


f_llround = f_lround


def f_atol(tr, args, n):
    return X('(str_atol %s)' % par(tr.E(args[0]).code), ('int', 64, True), True)


def f_stoul(tr, args, n):
    xs = [tr.E(a) for a in args if a['kind'] != 'CXXDefaultArgExpr']
    xs = [x for x in xs if x.ty[0] != 'nullptr']
    if len(xs) == 2:
        return tr.app('str_stoul_base', xs, ('int', 64, False), True)
    return tr.app('str_stoul', xs, ('int', 64, False), True)


f_stoull = f_stoul


def f_stoi(tr, args, n):
    return tr.app('str_stoi', [tr.E(args[0])], ('int', 32, True), True)


def f_isfinite(tr, args, n):
    return tr.app('num_isfinite', [tr.E(args[0])], ('bool',))


def f_Expects(tr, args, n):
    x = tr.E(args[0])
    return X('(expects %s)' % par(x.code), ('unit',), True)


f_Ensures = f_Expects


def f___builtin_expect(tr, args, n):
    return tr.E(args[0])


def f_terminate(tr, args, n):
    return X('(expects false)', ('unit',), True)




def f_ExpectsAudit(tr, args, n):
    return X('()', ('unit',))


f_EnsuresAudit = f_ExpectsAudit


def f_format(tr, args, n):
    fs = skip(args[0])
    f = fs
    while f.get('kind') in ('CXXConstructExpr', 'ImplicitCastExpr', 'ConstantExpr', 'ExprWithCleanups'):
        f = skip(kids(f)[0])
    if f.get('kind') != 'StringLiteral':
        return X('(any str)', ('str',), True)
    from .tr import cstr
    b = cstr(f['value'])
    return fmt_build(tr, b, args[1:], n)


def fmt_build(tr, b, args, n):
    pieces = []
    cur = b''
    i = 0
    ai = 0
    while i < len(b):
        c = b[i:i + 1]
        if c == b'{' and b[i + 1:i + 2] == b'{':
            cur += b'{'
            i += 2
        elif c == b'}' and b[i + 1:i + 2] == b'}':
            cur += b'}'
            i += 2
        elif c == b'{':
            j = b.index(b'}', i)
            if cur:
                pieces.append(cur)
                cur = b''
            pieces.append((ai, b[i + 1:j].decode()))
            ai += 1
            i = j + 1
        else:
            cur += c
            i += 1
    if cur:
        pieces.append(cur)
    # arguments are evaluated in order (they are pure in all verified functions)
    try:
        xs = [tr.E(a) for a in args]
    except ExtractError:
        # message formatting only: the text is not part of any contract
        tr.dropped.add('text of a formatted message')
        return X('(any str)', ('str',), True)
    codes = []
    for p in pieces:
        if isinstance(p, bytes):
            codes.append(tr.u.lits.get(p))
            continue
        x = xs[p[0]]
        sp = p[1]
        if sp == '':
            if x.ty[0] == 'str':
                codes.append(x.code)
            elif x.ty[0] == 'char':
                codes.append('(singleton %s)' % par(x.code))
            elif x.ty[0] == 'int':
                codes.append('(int_str %s)' % par(x.code))
            else:
                return X('(any str)', ('str',), True)
        elif sp == ':010d' and x.ty[0] == 'int':
            codes.append('(dec_fmt %s 10 48)' % par(x.code))
        elif sp == ':+24a':
            codes.append('(num_fmt_a %s)' % par(x.code))
        else:
            return X('(any str)', ('str',), True)
    if not codes:
        return X('(empty : str)', ('str',))
    out = codes[0]
    for c in codes[1:]:
        out = '(cat %s %s)' % (par(out), par(c))
    return X(out, ('str',), any(x.eff for x in xs))


# algorithms with lambdas --------------------------------------------------
def _range(tr, a, b, n):
    """(seq code, elem type) of an iterator pair"""
    xa, xb = tr.E(a), tr.E(b)
    if xa.it is None or xb.it is None:
        raise ExtractError('%s: iterator range' % tr.spec.name)
    et = xa.ty[1]
    ia, ib = xa.it, xb.it
    if ia.get('begin') and ib.get('end'):
        return ia['s'], et, ia
    if ib.get('end') and ib['s'] == ia['s']:
        return '(sub %s %s (len %s))' % (par(ia['s']), par(ia['i']), par(ia['s'])), et, ia
    return '(slice_ %s %s %s)' % (par(ia['s']), par(ia['i']), par(ib['i'])), et, ia


def _lambda(tr, a):
    f = tr.E(a)
    if f.ty[0] not in ('lambda', 'fnref', 'fn'):
        raise ExtractError('%s: algorithm with non-lambda' % tr.spec.name)
    return f


def lam_loop(tr, seqc, et, f, body_of_value, n, first=None):
    """loop over seqc applying lambda f; body_of_value(Xresult)->stmt code"""
    holder = {}

    def bind(x, pre):
        v = tr.fresh('el')
        pre.append('let %s = %s in' % (v, x.code))
        holder['x'] = X(v, x.ty)
        tr.scope.append((v, x.ty, False))

    def body():
        r = tr.lambda_apply(f, [holder['x']], n)
        return body_of_value(r, holder['x'])
    return tr.loop_over_seq(seqc, et, bind, body, n)


def f_for_each(tr, args, n):
    seqc, et, _ = _range(tr, args[0], args[1], n)
    f = _lambda(tr, args[2])
    c = lam_loop(tr, seqc, et, f, lambda r, x: r.code if r.ty[0] in ('unit',) else '(let _ = %s in ())' % r.code, n)
    return X(c, ('unit',), True)


def _inserter(tr, a, n):
    q = skip(a)
    while q['kind'] in ('CXXConstructExpr', 'CXXFunctionalCastExpr'):
        q = skip(kids(q)[0])
    if q['kind'] == 'CallExpr':
        nm = skip(kids(q)[0]).get('referencedDecl', {}).get('name')
        if nm in ('back_inserter', 'inserter'):
            x = tr.E(kids(q)[1])
            return nm, x
    # writing through an iterator: std::transform(b, e, v.begin(), ...)
    return None, None


def add_elem(tr, kind, x, v):
    t = x.ty
    if t[0] in ('vec', 'str'):
        return x.lv.write('(snoc %s %s)' % (par(x.lv.read()), par(v)))
    if t[0] in ('set', 'uset'):
        return x.lv.write('(sadd %s %s)' % (par(v), par(x.lv.read())))
    if t[0] in ('map', 'umap'):
        return '(let kv_ = %s in %s)' % (v, x.lv.write('(mins %s (fst_ kv_) (snd_ kv_))' % par(x.lv.read())))
    if t[0] == 'json':
        return x.lv.write('(j_push %s %s)' % (par(x.lv.read()), par(v)))
    raise ExtractError('inserter into %r' % (t,))


def f_array(tr, args, n):
    return X('(mk_jarr empty)', ('json',)) if tr.ty(n) == ('json',) and all(a['kind'] == 'CXXDefaultArgExpr' for a in args) else None


def f_object(tr, args, n):
    return X('(mk_jobj mempty)', ('json',)) if tr.ty(n) == ('json',) and all(a['kind'] == 'CXXDefaultArgExpr' for a in args) else None


def f_transform(tr, args, n):
    if len(args) != 4:
        return None
    seqc, et, _ = _range(tr, args[0], args[1], n)
    kind, x = _inserter(tr, args[2], n)
    if kind is None:
        return None
    f = _lambda(tr, args[3])

    def b(r, el):
        r = tr.coerce(r, x.ty[1], n) if x.ty[0] in ('vec', 'set', 'uset') else r
        if r.eff or True:
            return '(let r_ = %s in %s)' % (r.code, add_elem(tr, kind, x, 'r_'))
    return X(lam_loop(tr, seqc, et, f, b, n), ('unit',), True)


def f_copy(tr, args, n):
    seqc, et, _ = _range(tr, args[0], args[1], n)
    kind, x = _inserter(tr, args[2], n)
    if kind is None:
        return None
    if x.ty[0] in ('vec', 'str'):
        return X('(%s)' % x.lv.write('(cat %s %s)' % (par(x.lv.read()), par(seqc))), ('unit',), True)
    if x.ty[0] in ('set', 'uset'):
        return X('(%s)' % x.lv.write('(sunion %s (set_of_seq %s))' % (par(x.lv.read()), par(seqc))), ('unit',), True)
    return None


def f_copy_if(tr, args, n):
    seqc, et, _ = _range(tr, args[0], args[1], n)
    kind, x = _inserter(tr, args[2], n)
    if kind is None:
        return None
    f = _lambda(tr, args[3])
    return X(lam_loop(tr, seqc, et, f, lambda r, el: '(if %s then %s)' % (r.code, add_elem(tr, kind, x, el.code)), n),
             ('unit',), True)


def f_reverse(tr, args, n):
    xa = tr.E(args[0])
    lv = xa.it.get('lv') if xa.it else None
    xb = tr.E(args[1])
    if lv is None or not xa.it.get('begin') or not xb.it.get('end'):
        return None
    return X('(%s)' % lv.write('(rev %s)' % par(lv.read())), ('unit',), True)


def quant(tr, args, n, op):
    seqc, et, _ = _range(tr, args[0], args[1], n)
    f = _lambda(tr, args[2])
    r = tr.tmp() + 'q'
    tr.scope.append(('v_' + r, ('bool',), True))
    tr.nexc += 1
    init = 'false' if op == 'any' else 'true'

    def b(v, el):
        v = tr.tobool(v, n)
        if op == 'all':
            return '(if not %s then begin %s <- false; break end)' % (par(v.code), r)
        if op == 'any':
            return '(if %s then begin %s <- true; break end)' % (par(v.code), r)
        return '(if %s then begin %s <- false; break end)' % (par(v.code), r)
    tr.scope.append((r, ('bool',), True))
    tr.used_q = r
    c = lam_loop(tr, seqc, et, f, b, n)
    return X('(let ref %s = %s in %s; %s)' % (r, init, c, r), ('bool',), True)


def f_all_of(tr, args, n):
    return quant(tr, args, n, 'all')


def f_any_of(tr, args, n):
    return quant(tr, args, n, 'any')


def f_none_of(tr, args, n):
    return quant(tr, args, n, 'none')


def f_find(tr, args, n):
    if len(args) != 3:
        return None
    seqc, et, it = _range(tr, args[0], args[1], n)
    v = tr.coerce(tr.E(args[2]), et, n)
    if not it.get('begin'):
        return None
    return X('', ('viter', et), it=dict(s=it['s'], i='(seq_find %s %s)' % (par(it['s']), par(v.code))))


def f_sort(tr, args, n):
    if len(args) != 2:
        return None
    xa = tr.E(args[0])
    lv = xa.it.get('lv') if xa.it else None
    if lv is None:
        return None
    return X('(%s)' % lv.write('(sorted_of %s)' % par(lv.read())), ('unit',), True)


def f_getline(tr, args, n):
    s = tr.E(args[0])
    d = tr.E(args[1])
    delim = tr.E(args[2]).code if len(args) > 2 else '10'
    if s.lv is None or s.lv.path or d.lv is None or d.lv.path:
        return None
    return X('(getline %s %s %s)' % (s.lv.var, d.lv.var, delim), ('bool',), True)


def f_endl(tr, args, n):
    return None


def f_Log(tr, args, n):
    return tr.drop_call(n, 'Logger::Log')


def f_hash_combine(tr, args, n):
    return None


def f_distance(tr, args, n):
    a, b = tr.E(args[0]), tr.E(args[1])
    return X('(%s - %s)' % (par(b.it['i']), par(a.it['i'])), ('int', 64, True))


def f_next(tr, args, n):
    a = tr.E(args[0])
    if a.it is None:
        return None
    return X('', a.ty, it=dict(s=a.it['s'], i='(%s + 1)' % a.it['i'], const=True))


def f_prev(tr, args, n):
    a = tr.E(args[0])
    if a.it is None:
        return None
    return X('', a.ty, it=dict(s=a.it['s'], i='(%s - 1)' % a.it['i'], const=True))


def f_get(tr, args, n):
    if not args:
        return None
    x = tr.E(args[0])
    if x.ty[0] == 'var':
        t = tr.ty(n)
        for i, o in enumerate(x.ty[1:]):
            if o == t:
                return X('(get_in%d %s)' % (i + 1, par(x.code)), t, True)
    return None


def f_holds_alternative(tr, args, n):
    return None


def f_swap(tr, args, n):
    a, b = tr.E(args[0]), tr.E(args[1])
    t = tr.tmp()
    return X('(let %s = %s in %s; %s)' % (t, a.code, a.lv.write(b.code), b.lv.write(t)), ('unit',), True)


# ------------------------------------------------------------------- methods
def method(tr, x, nm, args, n):
    t = x.ty
    k = t[0]
    args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
    if nm.startswith('operator '):
        if nm == 'operator bool':
            return tr.tobool(x, n)
        return x
    if k == 'fnref':
        return None
    f = globals().get('m_' + k)
    if nm == 'get' and not args and k not in ('json', 'istream'):
        return x       # reference_wrapper / smart pointer
    if nm == 'IsNotNull' and k == 'expr':
        return X('(e_not_null %s)' % par(x.code), ('bool',), x.eff)
    if k == 'opt':
        r = m_opt(tr, x, nm, args, n)
        if r is not None:
            return r
        if x.ty[1][0] == 'opt':
            return None
        return None
    if f is None:
        return None
    return f(tr, x, nm, args, n)


def m_opt(tr, x, nm, args, n):
    t = x.ty
    if nm == 'has_value':
        return X('(is_some %s)' % par(x.code), ('bool',), x.eff)
    if nm == 'value':
        return X('(oget_or_throw %s)' % par(x.code), t[1], True)
    if nm == 'value_or':
        d = tr.coerce(tr.E(args[0]), t[1], n)
        return tr.app('oget_or', [x, d], t[1])
    if nm in ('reset',):
        return X('(%s)' % x.lv.write('None'), ('unit',), True)
    if nm == 'emplace':
        v = tr.construct(t[1], args, n)
        return X('(%s)' % x.lv.write('(Some %s)' % par(v.code)), ('unit',), True)
    if nm == 'error':
        return X('(any str)', ('str',), True)
    return None


def begins(tr, x, s, et, nm):
    if nm in ('begin', 'cbegin'):
        return X('', ('viter', et), it=dict(s=s, i='0', begin=True, lv=x.lv))
    if nm in ('end', 'cend'):
        return X('', ('viter', et), it=dict(s=s, i='(len %s)' % par(s), end=True, lv=x.lv))
    if nm in ('rbegin', 'crbegin'):
        return X('', ('viter', et), it=dict(s='(rev %s)' % par(s), i='0', begin=True))
    if nm in ('rend', 'crend'):
        return X('', ('viter', et), it=dict(s='(rev %s)' % par(s), i='(len %s)' % par(s), end=True))
    return None


def ensure_lv(tr, x, n):
    if x.lv is None:
        raise ExtractError('%s: mutation of a non-lvalue' % tr.spec.name)
    return x.lv


def m_vec(tr, x, nm, args, n):
    t = x.ty
    et = t[1]
    r = begins(tr, x, x.code, et, nm)
    if r:
        return r
    if nm == 'size':
        return X('(len %s)' % par(x.code), I64, x.eff)
    if nm == 'empty':
        return X('(len %s = 0)' % par(x.code), ('bool',), x.eff)
    if nm in ('reserve', 'shrink_to_fit'):
        for a in args:
            tr.E(a)
        return X('()', ('unit',))
    if nm in ('push_back', 'emplace_back'):
        lv = ensure_lv(tr, x, n)
        if len(args) == 1 and tr.E_kind(args[0]) != 'init':
            v = tr.E(args[0])
            if v.ty != et:
                if et[0] == 'expr' and v.ty[0] != 'expr':
                    v = tr.mkexpr(v, n)
                elif et[0] in ('opt',):
                    v = tr.coerce(v, et, n)
                elif v.ty[0] != et[0] or et[0] in ('rec', 'abs'):
                    v = tr.construct(et, args, n)
        else:
            v = tr.construct(et, args, n) if et[0] != 'rec' else tr.mkrec(et, args, n)
        return X('(let pb_ = %s in %s)' % (v.code, lv.write('(snoc %s pb_)' % par(lv.read()))), ('unit',), True)
    if nm == 'pop_back':
        lv = ensure_lv(tr, x, n)
        return X('(%s)' % lv.write('(pop_back_ %s)' % par(lv.read())), ('unit',), True)
    if nm == 'front':
        return X('(at_ %s 0)' % par(x.code), et, x.eff, lv=x.lv.ext('idx', '0', et) if x.lv else None)
    if nm == 'back':
        c = '(len %s - 1)' % par(x.code)
        return X('(at_ %s %s)' % (par(x.code), c), et, x.eff, lv=x.lv.ext('idx', c, et) if x.lv else None)
    if nm == 'at':
        i = tr.E(args[0])
        return X('(at_thr %s %s)' % (par(x.code), par(i.code)), et, True, lv=x.lv.ext('idx', i.code, et) if x.lv else None)
    if nm == 'clear':
        lv = ensure_lv(tr, x, n)
        return X('(%s)' % lv.write('empty'), ('unit',), True)
    if nm == 'insert' and len(args) == 3:
        p, a, b = tr.Es(args)
        lv = ensure_lv(tr, x, n)
        if p.it and p.it.get('end') and a.ty[0] == 'viter':
            if a.it.get('begin') and b.it.get('end'):
                return X('(%s)' % lv.write('(cat %s %s)' % (par(lv.read()), par(a.it['s']))), ('unit',), True)
            pre = ''
            if a.it['s'] != b.it['s']:
                pre = 'same_container %s %s; ' % (par(a.it['s']), par(b.it['s']))
            return X('(begin %s%s end)' % (pre, lv.write('(cat %s (slice_ %s %s %s))' % (
                par(lv.read()), par(a.it['s']), par(a.it['i']), par(b.it['i'])))), ('unit',), True)
    if nm == 'resize' and len(args) == 1:
        v = tr.E(args[0])
        lv = ensure_lv(tr, x, n)
        return X('(%s)' % lv.write('(resize_ %s %s %s)' % (par(lv.read()), par(v.code), par(tr.default(et).code))), ('unit',), True)
    if nm == 'data':
        return x
    return None


def qual_of_object(n):
    try:
        return n['inner'][0]['inner'][0]['type']['qualType']
    except (KeyError, IndexError, TypeError):
        return ''


def m_str(tr, x, nm, args, n):
    S, C = ('str',), par(x.code)
    if nm in ('begin', 'end') and 'path' in qual_of_object(n):
        r = begins(tr, x, '(path_comps %s)' % C, ('str',), nm)
        if nm == 'begin':
            r.it['first'] = '(path_first %s)' % C
        return r
    r = begins(tr, x, x.code, ('char',), nm)
    if r:
        return r
    if nm in ('size', 'length'):
        return X('(len %s)' % C, I64, x.eff)
    if nm == 'empty':
        return X('(len %s = 0)' % C, ('bool',), x.eff)
    if nm == 'c_str':
        return X(x.code, S, x.eff, lv=x.lv)
    if nm in ('string', 'generic_string', 'native', 'data', 'str', 'u8string'):
        return X(x.code, S, x.eff, lv=x.lv)
    if nm in ('reserve',):
        return X('()', ('unit',))
    if nm == 'front':
        return X('(at_ %s 0)' % C, ('char',), x.eff)
    if nm == 'back':
        return X('(at_ %s (len %s - 1))' % (C, C), ('char',), x.eff)
    if nm == 'substr':
        xs = tr.Es(args)
        if len(xs) == 1:
            return tr.app('substr1_', [x] + xs, S, True)
        return tr.app('substr_', [x] + xs, S, True)
    if nm == 'find':
        xs = tr.Es(args)
        p = xs[0]
        pos = xs[1] if len(xs) > 1 else X('0', I64)
        if p.ty[0] == 'char':
            return tr.app('str_find_char', [x, p, pos], I64)
        return tr.app('str_find', [x, p, pos], I64)
    if nm == 'find_first_of' and len(args) == 1:
        return tr.app('str_find_first_of', [x, tr.E(args[0])], I64)
    if nm in ('starts_with', 'ends_with'):
        p = tr.tostr(tr.E(args[0]))
        return tr.app('str_' + nm, [x, p], ('bool',))
    if nm == 'compare':
        xs = tr.Es(args)
        if len(xs) == 1:
            return tr.app('str_compare', [x, xs[0]], ('int', 32, True))
        return tr.app('str_compare3', [x] + xs, ('int', 32, True), True)
    if nm == 'replace' and len(args) == 3:
        xs = tr.Es(args)
        lv = ensure_lv(tr, x, n)
        return X('(%s)' % lv.write('(str_replace_ %s %s)' % (par(lv.read()), ' '.join(par(a.code) for a in xs))), ('unit',), True)
    if nm in ('append', 'push_back', 'operator+='):
        lv = ensure_lv(tr, x, n)
        v = tr.tostr(tr.E(args[0]))
        return X('(%s)' % lv.write('(cat %s %s)' % (par(lv.read()), par(v.code))), ('unit',), True)
    if nm == 'clear':
        return X('(%s)' % ensure_lv(tr, x, n).write('empty'), ('unit',), True)
    if nm == 'resize':
        v = tr.E(args[0])
        lv = ensure_lv(tr, x, n)
        return X('(%s)' % lv.write('(resize_ %s %s 0)' % (par(lv.read()), par(v.code))), ('unit',), True)
    if nm == 'at':
        i = par(tr.E(args[0]).code)
        return X('(at_thr %s %s)' % (C, i), ('char',), True, elt=(C, i))
    # filesystem::path
    P = {'lexically_normal': 'path_norm', 'parent_path': 'path_parent', 'filename': 'path_filename',
         'stem': 'path_stem', 'extension': 'path_ext', 'relative_path': 'path_relpart'}
    if nm in P:
        return X('(%s %s)' % (P[nm], C), S, x.eff)
    B = {'is_absolute': 'path_is_abs', 'is_relative': 'path_is_rel', 'has_filename': 'path_has_filename',
         'has_parent_path': 'path_has_parent'}
    if nm in B:
        return X('(%s %s)' % (B[nm], C), ('bool',), x.eff)
    if nm == 'lexically_relative':
        return tr.app('path_relative', [x, tr.E(args[0])], S)
    return None


def m_stream(tr, x, nm, args, n):
    if nm == 'str' and not args:
        return X(x.code, ('str',), x.eff)
    return None


def m_istream(tr, x, nm, args, n):
    if nm == 'get' and not args:
        return X('(is_get %s)' % x.lv.var, ('int', 32, True), True)
    return None


def kcoerce(tr, v, t):
    return tr.coerce(v, t)


def m_map(tr, x, nm, args, n):
    t = x.ty
    kt, vt = t[1], t[2]
    C = par(x.code)
    if nm in ('begin', 'end', 'cbegin', 'cend'):
        s = ('(items %s)' if t[0] == 'map' else '(uitems %s)') % C
        X0 = begins(tr, X(x.code, t), s, ('pair', kt, vt), nm)
        if nm in ('end', 'cend'):
            return X('', ('miter', kt), it=dict(end=True, s=s, i='(len %s)' % s, map=x.code))
        return X0
    if nm == 'size':
        return X('(msize %s)' % C, I64, x.eff)
    if nm == 'empty':
        return X('(mis_empty %s)' % C, ('bool',), x.eff)
    if nm in ('contains', 'count'):
        b = tr.app('mhas', [x, kcoerce(tr, tr.E(args[0]), kt)], ('bool',))
        return b if nm == 'contains' else X('(if %s then 1 else 0)' % b.code, I64, b.eff)
    if nm in ('Find',):
        v = tr.E(args[0])
        return tr.app('mget', [x, v], ('opt', vt))
    if nm == 'find':
        v = kcoerce(tr, tr.E(args[0]), kt)
        key = v.code
        return X('', ('miter', kt), it=dict(map=x.code, key=key, kt=kt, vt=vt, found='(mhas %s %s)' % (C, par(key)), lv=x.lv))
    if nm == 'at':
        v = kcoerce(tr, tr.E(args[0]), kt)
        return tr.app('emap_at_', [x, v], vt, True)
    if nm in ('emplace', 'try_emplace', 'insert', 'insert_or_assign'):
        lv = ensure_lv(tr, x, n)
        if nm in ('emplace', 'insert') and len(args) == 1:
            p = tr.E(args[0])
            if p.ty[0] == 'viter':
                return None
            kc, vc = 'fst_ kv_', 'snd_ kv_'
            f = 'mins'
            return X('(let kv_ = %s in let new_ = not (mhas %s (%s)) in %s; new_)' % (
                p.code, par(lv.read()), kc, lv.write('(%s %s (%s) (%s))' % (f, par(lv.read()), kc, vc))), ('insres',), True)
        if len(args) == 2:
            xs = tr.Es(args)
            if any(a.ty[0] == 'viter' for a in xs):
                s = xs[0].it['s']
                return X('(%s)' % lv.write('(mins_all %s %s)' % (par(lv.read()), par(s))), ('unit',), True)
            k0 = kcoerce(tr, xs[0], kt)
            v0 = xs[1]
            if v0.ty != vt:
                v0 = tr.coerce(v0, vt, n)
                if v0.ty != vt and vt[0] in ('rec', 'abs', 'expr', 'vec'):
                    v0 = tr.construct(vt, [args[1]], n)
            f = 'mset' if nm == 'insert_or_assign' else 'mins'
            return X('(let k_ = %s in let v_ = %s in let new_ = not (mhas %s k_) in %s; new_)' % (
                k0.code, v0.code, par(lv.read()), lv.write('(%s %s k_ v_)' % (f, par(lv.read())))), ('insres',), True)
    if nm == 'erase':
        lv = ensure_lv(tr, x, n)
        v = tr.E(args[0])
        if v.ty[0] == 'miter':
            return X('(%s)' % lv.write('(mremove %s %s)' % (par(lv.read()), par(v.it['key']))), ('unit',), True)
        return X('(%s)' % lv.write('(mremove %s %s)' % (par(lv.read()), par(v.code))), ('unit',), True)
    if nm == 'Values':
        return X('(mvalues %s)' % C, ('vec', vt), x.eff)
    if nm == 'Keys':
        return X('(mkeys %s)' % C, ('vec', kt), x.eff)
    if nm == 'Items':
        return X('(items %s)' % C, ('vec', ('pair', kt, vt)), x.eff)
    if nm == 'FindConflictingDuplicate':
        return tr.app('mconflict', [x, tr.E(args[0])], ('opt', kt))
    if nm in ('reserve',):
        return X('()', ('unit',))
    if nm == 'clear':
        return X('(%s)' % ensure_lv(tr, x, n).write('mempty'), ('unit',), True)
    return None


m_umap = m_map


def m_exc(tr, x, nm, args, n):
    if nm == 'what':
        return X('(any str)', ('str',), True)
    if nm == 'InvolvedObjects':
        return X('(any (seq expr))', ('vec', ('expr',)), True)
    return None


def m_set(tr, x, nm, args, n):
    t = x.ty
    et = t[1]
    C = par(x.code)
    if nm in ('contains', 'count'):
        b = tr.app('smem', [kcoerce(tr, tr.E(args[0]), et), x], ('bool',))
        return b if nm == 'contains' else X('(if %s then 1 else 0)' % b.code, I64, b.eff)
    if nm in ('insert', 'emplace'):
        lv = ensure_lv(tr, x, n)
        if len(args) == 1:
            v = kcoerce(tr, tr.E(args[0]), et)
            if v.ty != et and et[0] == 'expr':
                v = tr.mkexpr(v, n)
            return X('(let k_ = %s in let new_ = not (smem k_ %s) in %s; new_)' % (
                v.code, par(lv.read()), lv.write('(sadd k_ %s)' % par(lv.read()))), ('insres',), True)
        xs = tr.Es(args)
        if all(a.ty[0] == 'viter' for a in xs):
            return X('(%s)' % lv.write('(sunion %s (set_of_seq %s))' % (par(lv.read()), par(xs[0].it['s']))), ('unit',), True)
    if nm == 'empty':
        return X('(sis_empty %s)' % C, ('bool',), x.eff)
    if nm == 'size':
        return X('(ssize %s)' % C, I64, x.eff)
    if nm in ('reserve',):
        return X('()', ('unit',))
    if nm == 'clear':
        return X('(%s)' % ensure_lv(tr, x, n).write('sempty'), ('unit',), True)
    if nm in ('begin', 'end', 'cbegin', 'cend'):
        s = ('(selems %s)' if t[0] == 'set' else '(uselems %s)') % C
        return begins(tr, X(x.code, t), s, et, nm)
    if nm == 'erase':
        lv = ensure_lv(tr, x, n)
        return X('(%s)' % lv.write('(sremove %s %s)' % (par(tr.E(args[0]).code), par(lv.read()))), ('unit',), True)
    return None


m_uset = m_set

EKIND = {'IsNone': 'is_none_e', 'IsBool': 'is_bool', 'IsNumber': 'is_num', 'IsString': 'is_string', 'IsName': 'is_name',
         'IsArtifact': 'is_artifact', 'IsResult': 'is_result', 'IsNode': 'is_node', 'IsList': 'is_list', 'IsMap': 'is_map',
         'IsCacheable': 'is_cacheable'}
EGET = {'Bool': ('e_bool', ('bool',)), 'Number': ('e_number', ('float',)), 'String': ('e_string', ('str',)),
        'List': ('e_list', ('vec', ('expr',))), 'Map': ('e_map', ('map', ('str',), ('expr',))),
        'Artifact': ('e_artifact', ('abs', 'artifact_desc')), 'Result': ('e_result', ('abs', 'target_result')),
        'Node': ('e_node', ('abs', 'target_node')), 'Name': ('e_name', ('abs', 'entity_name'))}


def m_expr(tr, x, nm, args, n):
    C = par(x.code)
    if nm in EKIND:
        return X('(%s %s)' % (EKIND[nm], C), ('bool',), x.eff)
    if nm in EGET:
        f, t = EGET[nm]
        if t[0] == 'abs':
            t2 = tr.ty(n)
            t = t2 if t2[0] in ('abs', 'rec') else t
        return X('(%s %s)' % (f, C), t, True)
    if nm == 'At':
        return tr.app('e_at', [x, tr.E(args[0])], ('opt', ('expr',)), True)
    if nm == 'Get':
        k, d = tr.E(args[0]), tr.E(args[1])
        return tr.app('e_get', [x, k, tr.mkexpr(d, n)], ('expr',), True)
    if nm in ('ToString', 'ToAbbrevString'):
        return X('(e_tostring %s)' % C, ('str',), x.eff)
    if nm == 'ToHash':
        return X('(e_hash %s)' % C, ('str',), x.eff)
    if nm == 'ToIdentifier':
        return X('(e_identifier %s)' % C, ('str',), x.eff)
    if nm == 'ToJson':
        return X('(e_json %s)' % C, ('json',), x.eff)
    if nm == 'Value':
        t = tr.ty(n)
        if t[0] == 'opt' and t[1][0] == 'vec':
            return X('(e_value_list %s)' % C, t, x.eff)
        if t[0] == 'opt' and t[1][0] == 'map':
            return X('(e_value_map %s)' % C, t, x.eff)
    return None


def m_cfg(tr, x, nm, args, n):
    C = par(x.code)
    if nm == 'Update':
        xs = tr.Es(args)
        if len(xs) == 2:
            return tr.app('c_update', [x, xs[0], tr.mkexpr(xs[1], n)], ('cfg',), True)
        if xs[0].ty[0] == 'map':
            return tr.app('c_update_map', [x, xs[0]], ('cfg',), True)
        if xs[0].ty[0] == 'expr':
            return tr.app('c_update_expr', [x, xs[0]], ('cfg',), True)
        if xs[0].ty[0] == 'vec':
            return tr.app('c_update_map', [x, X('(map_of_pairs %s)' % par(xs[0].code), ('map', ('str',), ('expr',)))], ('cfg',), True)
    if nm == 'Prune':
        return tr.app('c_prune', [x] + tr.Es(args), ('cfg',), True)
    if nm == 'Expr':
        return X(x.code, ('expr',), x.eff)
    if nm == 'VariableFixed':
        return tr.app('c_fixed', [x] + tr.Es(args), ('bool',), True)
    return None


def m_json(tr, x, nm, args, n):
    C = par(x.code)
    J = {'is_string': 'j_is_string', 'is_array': 'j_is_array', 'is_object': 'j_is_object', 'is_null': 'j_is_null',
         'is_boolean': 'j_is_bool', 'is_number': 'j_is_number', 'empty': 'j_is_empty'}
    if nm in J:
        return X('(%s %s)' % (J[nm], C), ('bool',), x.eff)
    if nm == 'size':
        return X('(j_size %s)' % C, I64, x.eff)
    if nm == 'dump':
        return X('(j_dump %s)' % C, ('str',), x.eff)
    if nm == 'get':
        t = tr.ty(n)
        f = {'str': 'j_get_string', 'bool': 'j_get_bool', 'float': 'j_get_num'}.get(t[0])
        if f:
            return X('(%s %s)' % (f, C), t, True)
        if t == ('vec', ('str',)):
            return X('(j_get_strings %s)' % C, t, True)
        if t == ('map', ('str',), ('str',)):
            return X('(j_get_strmap %s)' % C, t, True)
        if t[0] == 'int':
            return X('(j_get_int %s)' % C, t, True)
    if nm == 'contains':
        return tr.app('j_has', [x, tr.E(args[0])], ('bool',))
    if nm == 'find':
        k = tr.E(args[0])
        return X('', ('miter', ('str',)), it=dict(map='(j_map %s)' % C, key=k.code, kt=('str',), vt=('json',),
                                                  found='(j_has %s %s)' % (C, par(k.code)), json=x.code))
    if nm == 'end':
        return X('', ('miter', ('str',)), it=dict(end=True, s='', i='', map=x.code))
    if nm == 'at':
        k = tr.E(args[0])
        return tr.app('j_at', [x, k], ('json',), True)
    if nm in ('emplace', 'push_back', 'emplace_back'):
        lv = ensure_lv(tr, x, n)
        xs = tr.Es(args)
        xs[-1] = tr.coerce(xs[-1], ('json',), n)
        return X('(%s)' % lv.write(tr.app('j_emplace' if nm == 'emplace' else 'j_push', [X(lv.read(), x.ty)] + xs, x.ty, True).code), ('unit',), True)
    if nm == 'items':
        return X('(j_items %s)' % C, ('jitems',), x.eff)
    if nm == 'begin':
        return X('', ('viter', ('json',)), it=dict(s='(j_elems %s)' % C, i='0', begin=True))
    return None
