#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  -- see DESIGN.md"""
import sys, os, json, time, tempfile, shutil, subprocess, re, importlib, hashlib, threading, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(10000)
from concurrent.futures import ThreadPoolExecutor
from cxx2why import unit as U, prove as P
from cxx2why.ast import REPO, ExtractError

CXX = 'g++'


def pkg():
    return subprocess.run(['pkg-config', '--cflags', 'libgit2', 'libarchive', 'libcurl'], capture_output=True, text=True).stdout.split()


LIBS = ['-Wl,--unresolved-symbols=ignore-all', '-lfmt', '-lgit2', '-larchive', '-lcurl', '-lcrypto', '-lssl', '-lz', '-pthread']


class Harness:
    """bounded conformance harness on the real code: compiled from /repo's working tree on every run"""

    def __init__(self, spec, scratch):
        self.s, self.scratch = spec, scratch
        self.bin = None
        self.err = None

    def build(self):
        s = self.s
        base = [CXX, '-std=c++20', s.get('opt', '-O0'), '-w', '-pthread', '-I' + REPO, '-I' + os.path.join(HERE, 'harness'),
                '-DBOOTSTRAP_BUILD_TOOL'] + pkg() + s.get('flags', [])
        srcs = [os.path.join(HERE, 'harness', s['src'])] + [os.path.join(REPO, f) for f in s.get('repo', [])]
        objs = []

        def one(f):
            o = os.path.join(self.scratch, hashlib.sha1(f.encode()).hexdigest()[:10] + '.o')
            r = subprocess.run(base + ['-c', f, '-o', o], capture_output=True, text=True)
            return o, (None if r.returncode == 0 else 'compiling %s: %s' % (f, r.stderr[-600:]))
        with ThreadPoolExecutor(6) as ex:
            for o, e in ex.map(one, srcs):
                objs.append(o)
                if e:
                    self.err = e
        if self.err:
            return
        b = os.path.join(self.scratch, 'harness.bin')
        r = subprocess.run([CXX, '-o', b] + objs + s.get('flags', []) + s.get('libs', LIBS), capture_output=True, text=True)
        if r.returncode != 0:
            self.err = 'linking: ' + r.stderr[-600:]
            return
        self.bin = b

    def search(self, seed, secs, procs, dictfile):
        """returns (fail text or None, stats dict)"""
        stats = {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': []}
        if not self.bin:
            return None, stats
        work = tempfile.mkdtemp(dir=self.scratch)
        ps = []
        for i in range(procs):
            d = os.path.join(work, str(i))
            os.makedirs(d)
            env = dict(os.environ, VERIF_DICT=dictfile, TMPDIR=d, HOME=d)
            out = open(os.path.join(d, 'out.txt'), 'w')
            ps.append((subprocess.Popen([self.bin, 'search', str(seed * 1000 + i), str(secs), str(i)], stdout=out,
                                        stderr=subprocess.DEVNULL, cwd=d, env=env), d))
        fail = None
        t0 = time.time()
        for p, d in ps:
            try:
                rc = p.wait(timeout=max(1, secs + 120 - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                rc = None
            txt = open(os.path.join(d, 'out.txt'), errors='replace').read()
            for l in txt.split('\n'):
                m = re.match(r'^STATS evaluations=(\d+) distinct=(\d+)', l)
                if m:
                    stats['evaluations'] += int(m.group(1))
                    stats['distinct_nontrivial'] += int(m.group(2))
                if l.startswith('SAMPLE ') and len(stats['samples']) < 6:
                    stats['samples'].append(l[7:400])
                if l.startswith('KNOWN '):
                    stats.setdefault('known', set()).add(l[6:].strip())
            if 'FAIL ' in txt and fail is None and rc == 1:
                fail = txt[txt.index('FAIL '):][:6000]
        return fail, stats


def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'^KNOWN-FINDING: property=(\S+) (\S+) (.*)$', l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def make_dict(files, path):
    """string and number literals of the sources: inputs the code itself distinguishes"""
    seen = []
    for f in files:
        try:
            t = open(os.path.join(REPO, f), errors='replace').read()
        except OSError:
            continue
        t = re.sub(r'//[^\n]*', '', t)
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', t):
            s = m.group(1)
            if 0 < len(s) <= 40 and s not in seen and not s.endswith('.hpp') and not s.endswith('.h'):
                seen.append(s)
        for m in re.finditer(r"'((?:[^'\\\n]|\\.){1,2})'", t):
            if m.group(1) not in seen:
                seen.append(m.group(1))
        for m in re.finditer(r'(?<![\w.])(\d{1,9})(?![\w.])', t):
            if m.group(1) not in seen:
                seen.append(m.group(1))
    with open(path, 'w') as f:
        for s in seen:
            f.write(s + '\n')


def trusted_scan(texts, prelude):
    """assumed symbols used by the extracted text"""
    ax = re.findall(r'^\s*axiom (\w+)', prelude, re.M)
    vals = re.findall(r'^\s*val (?:function |predicate |constant )?(\w+)', prelude, re.M)
    used = sorted(v for v in set(vals) if any(re.search(r'\b%s\b' % re.escape(v), t) for t in texts))
    return len(ax), used


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    base = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid, dir=base)
    try:
        rc = run(pid, tier, seed, scratch, t0)
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print('scratch kept: ' + scratch)
    sys.exit(rc)


def run(pid, tier, seed, scratch, t0):
    from props.ids import IDS
    mod = importlib.import_module('props.' + IDS.get(pid, pid))
    quick = tier == 'quick'
    verbose = bool(os.environ.get('VERIF_VERBOSE'))
    H = Harness(mod.HARNESS, scratch) if getattr(mod, 'HARNESS', None) else None
    th = None
    eff = P.Effort(40 if quick else 90, t0 + (420 if quick else 3000))
    if H and not os.environ.get('VERIF_NOHARNESS'):
        dictfile = os.path.join(scratch, 'dict.txt')
        make_dict(getattr(mod, 'SOURCES', []), dictfile)
        hs = mod.HARNESS.get('quick_s', 8) if quick else mod.HARNESS.get('thorough_s', 120)
        found = []

        def bounded():
            H.build()
            found.append(H.search(seed, hs, 3 if quick else 4, dictfile))
            if found[0][0] is not None:      # a failing input on the real code decides: stop proving soon
                eff.deadline = min(eff.deadline, max(time.time() + 15, t0 + 45))
        th = threading.Thread(target=bounded)
        th.start()
    units = mod.units()
    ex = U.extract(units, scratch)
    obligations, failed, broken, fnames = [], [], [], []
    texts = []
    if verbose:
        print('extracted %.1f' % (time.time() - t0), flush=True)
    good = []
    for u in units:
        r = ex[u.name]
        if isinstance(r, Exception):
            broken.append('%s: %s' % (u.name, r))
            continue
        path = os.path.join(scratch, u.name + '.mlw')
        with open(path, 'w') as f:
            f.write(r)
        texts.append(r)
        good.append((u, path))
        for nm, txt in u.lemma_texts.items():
            path = os.path.join(scratch, nm + '.mlw')
            with open(path, 'w') as f:
                f.write(txt)
            good.append((u, path))
        fnames += [f.name for f in u.fns if not f.abstract]

    def gen(up):
        try:
            return P.generate(up[1], scratch)
        except P.WhyError as e:
            return e
    log = (lambda r: print('  %s %-10s %5.1fs %s: %s | %s' % ('ok  ' if r['ok'] else 'FAIL', r['by'], r['t'], r['goal'], r['expl'], r['text'][:90]), flush=True)) if verbose else None
    todo = []
    P.conf(scratch)
    with ThreadPoolExecutor(3) as e2:
        for (u, path), r in zip(good, e2.map(gen, good)):
            if isinstance(r, Exception):
                # the extracted text is outside the verifier's language: an extraction break, not a violation
                broken.append('%s: %s' % (u.name, str(r)[-1500:]))
                continue
            if not r:
                broken.append('%s: no obligations generated' % u.name)
            for g, z in r:
                g['unit'] = u.name
            todo += r
    if verbose:
        print('generated %.1f' % (time.time() - t0), flush=True)
    can, canth = {}, None
    if not broken:
        canth = threading.Thread(target=lambda: can.update(canaries(units, ex, scratch)))
        canth.start()
    for g, r in zip(todo, P.solve(todo, eff, 6, log)):
        r['unit'] = g[0]['unit']
        obligations.append(r)
        if not r['ok']:
            failed.append(r)
    if verbose:
        print('solved %.1f' % (time.time() - t0), flush=True)
    if canth:
        canth.join()
    if 0 < len(failed) <= 4 and not (th and found and found[0][0] is not None):
        # again without competition for the cores
        again = [x for x in todo if any(x[0]['goal'] == r['goal'] and x[0]['path'] == r['path'] for r in failed)]
        for r in P.solve(again, P.Effort(60, t0 + 560 if quick else t0 + 3300), 1, log):
            if r['ok']:
                old = [o for o in failed if o['goal'] == r['goal'] and o['path'] == r['path']][0]
                failed.remove(old)
                old.update(ok=True, by=r['by'], t=old['t'] + r['t'])
    if canth:
        if not failed:
            for k, v in can.items():
                if v['reachable'] <= 0:
                    broken.append('vacuous contract or unreachable code: %s %s' % (k, v.get('error', '')))
    if verbose:
        print('canaries %.1f' % (time.time() - t0), flush=True)
    fail, stats = (None, {})
    if th:
        th.join()
        fail, stats = found[0]
        if verbose:
            print('harness done %.1f' % (time.time() - t0), flush=True)
        if fail is None and (failed or broken):
            # an obligation is open: look harder for a concrete input before reporting
            f2, s2 = H.search(seed + 7919, mod.HARNESS.get('hunt_s', 60), 8, dictfile)
            fail = f2
            for k in ('evaluations', 'distinct_nontrivial'):
                stats[k] += s2[k]
    viol = []
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)

    def replay(name, text):
        p = os.path.join(rdir, '%s-%s.txt' % (pid, name))
        with open(p, 'w') as f:
            f.write(text)
        return p
    if fail is not None:
        h = hashlib.sha1(fail.encode('utf-8', 'replace')).hexdigest()[:8]
        obl = '\n'.join('undischarged obligation: %s %s: %s | %s' % (r['unit'], r['goal'], r['expl'], r['text']) for r in failed)
        p = replay('input-' + h, 'property %s\nfailing input on the real code (harness %s, seed %d):\n%s\n%s\n%s\n' % (
            pid, mod.HARNESS['src'], seed, fail, obl, '\n'.join(broken)))
        viol.append('VIOLATION property=%s replay=%s' % (pid, p))
    elif failed:
        r = failed[0]
        h = hashlib.sha1((r['goal'] + r['text']).encode()).hexdigest()[:8]
        body = ''
        for r in failed:
            body += 'obligation %s %s\n  kind: %s\n  formula: %s\n  verifier answers: %s\n\n' % (
                r['unit'], r['goal'], r['expl'], r['text'], json.dumps(r.get('answers')))
        try:
            body += '\nSMT problem of the first one:\n' + open(failed[0]['path']).read()[-3000:]
        except OSError:
            pass
        p = replay('obligation-' + h, 'property %s\nobligations the verifier no longer accepts:\n%s' % (pid, body))
        viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p))
    prelude = open(os.path.join(HERE, 'why', 'prelude.mlw')).read()
    nax, vals = trusted_scan(texts, prelude)
    spec_ax = sum(len(re.findall(r'^\s*axiom (?!lit_)(?!.*proved in module)', t, re.M)) for t in texts)
    spec_vals = sorted(set(v for t in texts for v in re.findall(r'^\s*val (?:function |predicate |constant |ref )?(\w+)', t, re.M) if not v.startswith('lit_')))
    bysolver = {}
    for r in obligations:
        if r['ok']:
            b = bysolver.setdefault(r['by'], {'obligations': 0, 'solver_s': 0.0})
            b['obligations'] += 1
            b['solver_s'] = round(b['solver_s'] + r['t'], 2)
    dropped = sorted(set(d for u in units for d in u.dropped))
    inl = sorted(set(d for u in units for d in u.inlined))
    part = sorted(set(d for u in units for d in u.partial))
    if broken:
        level = 'other'
    else:
        level = 'proof'
    cov = {
        'obligations': len(obligations), 'discharged': sum(1 for r in obligations if r['ok']),
        'checker_cmd': 'why3 prove -a split_vc (WP) + portfolio cvc5 1.1.2 / z3 4.8.12 / z3-new 5.3.2 on the per-goal SMT-LIB files; run: python3 check.py %s %s' % (pid, tier),
        'trusted_base': [
            'why3 1.6.0 VC generation; soundness of cvc5 / z3 unsat answers; clang 18 AST of the current source',
            'cxx2why translation of the Clang AST to WhyML (DESIGN.md section Extraction)',
            'models of the C++ standard library used: ' + ', '.join(vals),
            'prelude theories: %d axioms about sequences, strings, sets, maps, values' % nax,
        ] + ['assumed contract in the unit: ' + v for v in spec_vals] + list(getattr(mod, 'TRUSTED', [])),
        'axioms_in_unit_specs': spec_ax,
        'functions_under_contract': fnames, 'inlined_helpers': inl, 'extraction_drops': dropped,
        'termination_not_proved': part,
        'by_solver': bysolver, 'solver_time_s': round(sum(r['t'] for r in obligations), 1),
        'canaries': can,
        'extraction_failures': broken,
        'bounded_conformance': {
            'label': 'bounded, not proved: the compiled real code compared with an executable oracle of the same contracts',
            'evaluations': stats.get('evaluations', 0), 'distinct_nontrivial': stats.get('distinct_nontrivial', 0),
            'rule': getattr(mod, 'RULE', 'see harness source'), 'samples': stats.get('samples', []),
            'build_error': H.err if H else None,
        },
    }
    if broken:
        cov['explanation'] = ('the current source could not be brought into the verified subset (%s); the bounded conformance '
                              'harness stood in for the functions concerned' % '; '.join(broken)[:800])
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - t0, 1),
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])), 'violations': viol}
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=list)
    for kid, txt in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s %s' % (pid, kid, txt))
    for v in viol:
        print(v)
    print('%s %s: %d/%d obligations discharged, %d conformance cases, %d extraction failures, %.1fs' % (
        pid, tier, cov['discharged'], cov['obligations'], stats.get('evaluations', 0), len(broken), time.time() - t0))
    for b in broken:
        print('  undecided by proof: ' + b[:600])
    if H and H.err:
        print('  harness not built: ' + H.err[:400])
    return 1 if viol else 0


def canary_text(u, t):
    """every function under contract appears as an assumed val plus a copy of its body claiming `false`"""
    ms = []
    for f in u.fns:
        m = re.search(r'\n  (let|with) (?:rec )?%s ([\s\S]*?)\n  = \(if false then raise Cxx\)' % re.escape(f.why), t)
        if m:
            ms.append((m, f.why))
    ms.sort(key=lambda x: x[0].start())
    edits, first = [], None
    for m, why in ms:
        h = m.group(2)
        hv = re.sub(r'\n\s*variant \{[^\n]*\}', '', h)
        refs = re.findall(r'\(ref (\w+) :', h.split('\n')[0])
        wr = '\n    writes { %s }' % ', '.join(refs) if refs else ''    # the effects of the body are not visible in the assumed copy
        e = [m, '\n  val %s %s%s\n' % (why, hv, wr), '\n  let %s__c %s\n    ensures { [@expl:CANARY] false }\n  = (if false then raise Cxx)' % (why, hv)]
        if m.group(1) == 'with' and first is not None:    # mutually recursive: all are declared before the first body
            first[1] += e[1]
            e[1] = ''
        else:
            first = e
        edits.append(e)
    for m, v, c in reversed(edits):
        t = t[:m.start()] + v + c + t[m.end():]
    return re.sub(r'^module (\w+)', r'module Canary\1', t, 1)


def canaries(units, ex, scratch):
    out = {}
    for u in units:
        p = os.path.join(scratch, 'canary_%s.mlw' % u.name)
        with open(p, 'w') as fo:
            fo.write(canary_text(u, ex[u.name]))
        try:
            c = P.canary(p, scratch)
        except P.WhyError as e:
            out[u.name + ':*'] = {'paths': -1, 'reachable': -1, 'error': str(e)[-300:]}
            continue
        for f in [f for f in u.fns if not f.abstract and not re.search(r'ensures \{\s*false\s*\}', f.contract)]:
            out[u.name + ':' + f.why] = c.get(f.why, {'paths': 0, 'reachable': 0})
    return out


if __name__ == '__main__':
    main()
