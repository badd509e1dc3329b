"""Obtain Clang JSON ASTs of functions of the current /repo tree."""
import json, os, subprocess, hashlib, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'


def pkg_flags():
    global _PK
    try:
        return _PK
    except NameError:
        pass
    r = subprocess.run(['pkg-config', '--cflags', 'libgit2', 'libarchive', 'libcurl'],
                       capture_output=True, text=True)
    _PK = r.stdout.split()
    return _PK


class ExtractError(Exception):
    """The source could not be brought into the verified subset."""


def _load(text):
    d = json.JSONDecoder()
    i, n, out = 0, len(text), []
    while True:
        while i < n and text[i] in ' \n\r\t':
            i += 1
        if i >= n:
            return out
        o, i = d.raw_decode(text, i)
        out.append(o)


def dump(tu, flt, scratch, bootstrap=True):
    """tu: path of a .cpp relative to REPO, or literal C++ source text (contains a newline)."""
    if '\n' in tu:
        h = hashlib.sha1(tu.encode()).hexdigest()[:12]
        path = os.path.join(scratch, 'tu_%s.cpp' % h)
        if not os.path.exists(path):
            tmp = path + '.%d.%s' % (os.getpid(), hashlib.sha1(flt.encode()).hexdigest()[:6])
            with open(tmp, 'w') as f:
                f.write(tu)
            os.replace(tmp, path)
    else:
        path = os.path.join(REPO, tu)
        if not os.path.exists(path):
            raise ExtractError('source file %s does not exist' % tu)
    cmd = [CLANG, '-std=c++20', '-I' + REPO, '-fsyntax-only', '-w'] + pkg_flags()
    if bootstrap:
        cmd.append('-DBOOTSTRAP_BUILD_TOOL')
    cmd += ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + flt, path]
    cache = os.environ.get('VERIF_ASTCACHE')      # development only
    if cache:
        st = subprocess.run('git -C %s rev-parse HEAD; git -C %s diff' % (REPO, REPO), shell=True, capture_output=True).stdout
        k = os.path.join(cache, hashlib.sha1(st + ' '.join(cmd[:-1]).encode() + tu.encode()).hexdigest())
        if os.path.exists(k):
            return _load(open(k).read())
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=REPO)
    if cache and r.returncode == 0:
        with open(k + '.%d' % os.getpid() + flt.replace('/', '_')[:20], 'w') as f:
            f.write(r.stdout)
        os.replace(f.name, k)
    if r.returncode != 0:
        raise ExtractError('clang failed on %s: %s' % (path, r.stderr[-800:]))
    return _load(r.stdout)


def dump_many(reqs, scratch):
    """reqs: set of (tu, filter, bootstrap). Returns dict."""
    reqs = sorted(set(reqs))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda r: dump(r[0], r[1], scratch, r[2]), reqs))
    return dict(zip(reqs, res))


FKINDS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl')


def has_body(n):
    return any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in n.get('inner', []))


def functions(docs):
    """All function declarations with a body in the docs (incl. nested specialisations), with the
    chain of enclosing records."""
    out = []
    seen = set()

    def walk(n, chain, templ):
        if not isinstance(n, dict):
            return
        k = n.get('kind')
        if k in FKINDS and has_body(n):
            if n.get('id') not in seen:
                seen.add(n.get('id'))
                dep = templ and not any(c.get('kind') == 'TemplateArgument' for c in n.get('inner', []))
                out.append((n, chain, dep))
        if k in ('FunctionTemplateDecl',):
            for c in n.get('inner', []):
                walk(c, chain, True)
            return
        if k in ('ClassTemplateDecl',):
            for c in n.get('inner', []):
                if c.get('kind') == 'CXXRecordDecl':
                    for d in c.get('inner', []):
                        walk(d, chain + [c], True)
                else:
                    walk(c, chain, False)
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            for c in n.get('inner', []):
                walk(c, chain + [n], False)
            return
        if k in ('NamespaceDecl', 'LinkageSpecDecl', 'TranslationUnitDecl'):
            for c in n.get('inner', []):
                walk(c, chain, False)
    for d in docs:
        walk(d, [], False)
    return out
