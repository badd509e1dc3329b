"""Generate the verification conditions with Why3 and discharge them with an SMT portfolio."""
import os, re, shutil, subprocess, time, json, hashlib, threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
WHY = os.path.join(os.path.dirname(HERE), 'why')
DRV = {'cvc5': os.path.join(WHY, 'drivers', 'vcvc5.drv'), 'z3': os.path.join(WHY, 'drivers', 'vz3_487.drv')}
WHY3 = '/usr/bin/why3'


class WhyError(Exception):
    pass


def conf(scratch):
    p = os.path.join(scratch, 'why3.conf')
    if not os.path.exists(p):
        with open(p, 'w') as f:
            f.write('[main]\nmagic = 14\nmemlimit = 1000\nrunning_provers_max = 8\ntimelimit = 5.0\n'
                    '[prover]\ncommand = "/bin/echo unknown"\ndriver = "%s"\neditor = ""\nin_place = false\n'
                    'interactive = false\nname = "Fake"\nshortcut = "fake"\nversion = "1"\n' % DRV['cvc5'])
    return p


def goals_of(mlw, scratch):
    """[(theory, goal)] of a WhyML file"""
    r = subprocess.run([WHY3, 'prove', '-C', conf(scratch), '-L', WHY, '-P', 'fake', mlw], capture_output=True, text=True, timeout=300)
    if r.returncode not in (0, 2):
        raise WhyError('\n'.join(l for l in (r.stderr + r.stdout).split('\n') if not l.startswith('Warning'))[-2500:])
    th = re.findall(r'^module (\w+)', open(mlw).read(), re.M)
    if len(th) != 1:
        raise WhyError('one module expected')
    gs = re.findall(r'^Goal (\S+)\.$', r.stdout, re.M)
    if not gs:
        raise WhyError('no goals: ' + '\n'.join(l for l in (r.stderr + r.stdout).split('\n') if not l.startswith('Warning'))[-2500:])
    if len(set(gs)) != len(gs):
        raise WhyError('duplicate goal names')
    return th[0], gs


def parts(gs, mlw, k):
    """split the goals into k groups of similar size"""
    t = open(mlw).read()

    def size(g):
        b = re.sub(r"'vc$", '', g)
        m = re.search(r'\n  (?:let|with) (?:rec )?(?:lemma )?%s [\s\S]*?(?=\n  (?:let|with|val|goal|lemma) |\nend)' % re.escape(b), t)
        return len(m.group(0)) if m else 1
    out = [[0, []] for _ in range(min(k, len(gs)))]
    for g in sorted(gs, key=size, reverse=True):
        o = min(out, key=lambda o: o[0])
        o[0] += size(g) + 50
        o[1].append(g)
    return [o[1] for o in out if o[1]]


def vcs(mlw, scratch, drv, th, sel, tag):
    """the obligations of the selected goals, printed with one driver"""
    out = mlw[:-4] + '.' + drv + tag
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    cmd = [WHY3, 'prove', '-C', conf(scratch), '-L', WHY, '-a', 'split_vc', '-D', DRV[drv], '-o', out, mlw, '-T', th]
    for g in sel:
        cmd += ['-G', g]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    if r.returncode != 0:
        raise WhyError('\n'.join(l for l in (r.stderr + r.stdout).split('\n') if not l.startswith('Warning'))[-2500:])

    def key(f):
        m = re.match(r'^(.*?)(\d*)\.smt2$', f)
        return (m.group(1), int(m.group(2) or 0))
    gs = []
    for f in sorted((f for f in os.listdir(out) if f.endswith('.smt2') and '.mono.' not in f), key=key):
        p = os.path.join(out, f)
        t = open(p).read()
        i = t.rfind(';; Goal "')
        g = re.match(r';; Goal "([^"]*)"', t[i:]).group(1)
        gs.append({'file': tag + '/' + f, 'goal': g, 'path': p, 'th': th, 'line': 0, 'chars': (0, 0), 'expl': ''})
    if set(g['goal'] for g in gs) != set(sel):
        # a goal that simplifies to true yields no file
        pass
    return gs


def positions(mlw, scratch, th, sel):
    cmd = [WHY3, 'prove', '-C', conf(scratch), '-L', WHY, '-a', 'split_vc', '-P', 'fake', mlw, '-T', th]
    for g in sel:
        cmd += ['-G', g]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
    per = {}
    for m in re.finditer(r'File "([^"]*)", line (\d+), characters? (\d+)(?:-| to line \d+, character )(\d+):\n(?:Sub-goal (.*?)\sof\s+goal|Goal)\s+(\S+?)\.\n', re.sub(r'(Sub-goal[^\n]*[^.\n])\n(?=\S)', r'\1 ', r.stdout)):
        per.setdefault(m.group(6), []).append((m.group(1), int(m.group(2)), int(m.group(3)), int(m.group(4)), m.group(5) or 'Lemma'))
    return per


def locate(gs, per):
    """attach the explanation and source position of every obligation"""
    byg = {}
    for g in gs:
        byg.setdefault(g['goal'], []).append(g)
    for k, lst in byg.items():
        ls = per.get(k, [])
        if len(ls) == len(lst):
            for g, l in zip(lst, ls):
                g['line'], g['chars'], g['expl'] = l[1], (l[2], l[3]), l[4]
                g['src'] = os.path.basename(l[0])
        else:
            raise WhyError('obligations of %s: %d printed, %d reported' % (k, len(lst), len(ls)))
    for k, ls in per.items():
        if k not in byg:
            raise WhyError('obligations of %s are missing' % k)


def multi(mlw, scratch, drvs, k=4):
    """[(printings in the order of drvs)] for all obligations of the file"""
    th, names = goals_of(mlw, scratch)
    ps = parts(names, mlw, k)
    jobs = []
    with ThreadPoolExecutor(8) as ex:
        for n, sel in enumerate(ps):
            jobs.append([ex.submit(vcs, mlw, scratch, d, th, sel, '.%d' % n) for d in drvs] + [ex.submit(positions, mlw, scratch, th, sel)])
        out = []
        for j in jobs:
            r = [x.result() for x in j]
            for g in r[:-1]:
                locate(g, r[-1])
            out += list(zip(*r[:-1]))
            if len(set(len(x) for x in r[:-1])) != 1 or any(len(set(g['file'] for g in z)) != 1 for z in zip(*r[:-1])):
                raise WhyError('the printings differ')
    if set(g[0]['goal'] for g in out) - set(names):
        raise WhyError('unexpected goals')
    return out


def top(s):
    """top-level s-expressions of an SMT-LIB file without comments"""
    out, d, start = [], 0, None
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == ';':
            j = s.find('\n', i)
            i = n if j < 0 else j
            continue
        if c == '"':
            i = s.index('"', i + 1)
        elif c == '|':
            i = s.index('|', i + 1)
        elif c == '(':
            if d == 0:
                start = i
            d += 1
        elif c == ')':
            d -= 1
            if d == 0:
                out.append(s[start:i + 1])
        i += 1
    return out


POLY = re.compile(r'\(forall\s+\(\(\w+\s+ty\)')


def strip(path):
    """drop axioms quantified over types (dropping hypotheses is sound)"""
    q = path[:-5] + '.mono.smt2'
    xs = top(open(path).read())
    keep = [x for x in xs if not (x.startswith('(assert') and POLY.search(x))]
    keep = [re.sub(r';;[^\n]*', '', x) for x in keep if not x.startswith('(get-info')]
    with open(q, 'w') as f:
        f.write('\n'.join(keep) + '\n')
    return q


def cmdline(solver, path, t):
    if solver == 'cvc5':
        return ['cvc5', '--tlimit=%d' % int(t * 1000), path]
    if solver == 'cvc5e':
        return ['cvc5', '--enum-inst', '--tlimit=%d' % int(t * 1000), path]
    if solver == 'z3':
        return ['z3', '-T:%d' % max(1, int(t)), path]
    return ['z3-new', '-T:%d' % max(1, int(t)), path]


def run1(solver, path, t, stop=None):
    t0 = time.time()
    try:
        p = subprocess.Popen(cmdline(solver, path, t), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        while True:
            try:
                o, _ = p.communicate(timeout=0.05 if stop is not None else t + 10)
                break
            except subprocess.TimeoutExpired:
                if (stop is not None and stop.is_set()) or time.time() - t0 > t + 10:
                    p.kill()
                    p.communicate()
                    return 'stopped', time.time() - t0
    except OSError as e:
        return 'error', 0.0
    a = o.strip().split('\n')[0].strip() if o.strip() else 'empty'
    return a, time.time() - t0


def portfolio(paths, t):
    """paths: list of (solver, path). First unsat wins."""
    stop = threading.Event()
    res = {}
    win = []

    def go(sp):
        if stop.is_set():
            return
        a, dt = run1(sp[0], sp[1], t, stop)
        res[sp] = (a, dt)
        if a == 'unsat':
            win.append((sp[0] + ('' if '.mono' in sp[1] else '(full)'), dt))
            stop.set()
    with ThreadPoolExecutor(len(paths)) as ex:
        list(ex.map(go, paths))
    return win[0] if win else None, res


class Effort:
    """effort shared by all obligations of a run: many open obligations (a rewritten function) must not exhaust the time limit"""

    def __init__(self, budget, deadline):
        self.budget, self.deadline, self.fails = budget, deadline, 0

    def left(self):
        return self.deadline - time.time()


def discharge(goal_c, goal_z, eff):
    """one obligation: goal_c / goal_z are the cvc5 and z3 printings"""
    if eff.left() < 1:
        return {'ok': False, 'by': None, 't': 0.0, 'answers': {'not attempted': 'time limit of the run reached'}}
    fc, fz = goal_c['path'], goal_z['path']
    mc, mz = strip(fc), strip(fz)
    tot = 0.0
    a, dt = run1('cvc5', mc, 1.5)
    tot += dt
    if a == 'unsat':
        return {'ok': True, 'by': 'cvc5', 't': tot}
    res = {}
    for i, (t, ps) in enumerate(((3, [('z3-new', mz), ('z3', mz)]),
                  (8, [('cvc5', mc), ('cvc5', fc), ('z3', fz), ('z3-new', fz)]),
                  (eff.budget, [('cvc5', mc), ('cvc5e', mc), ('z3', mz), ('z3-new', mz), ('cvc5', fc), ('z3', fz)]))):
        if i == 2 and eff.fails >= 4:
            break
        t = min(t, eff.left())
        if t < 1:
            break
        t0 = time.time()
        w, res = portfolio(ps, t)
        tot += time.time() - t0
        if w:
            return {'ok': True, 'by': w[0], 't': tot}
    eff.fails += 1
    return {'ok': False, 'by': None, 't': tot, 'answers': {'%s %s' % (k[0], os.path.basename(k[1])): v for k, v in res.items()}}


def generate(mlw, scratch):
    """all obligations of a WhyML file, with both printings and their source text"""
    todo = multi(mlw, scratch, ['cvc5', 'z3'])
    lines = open(mlw).read().split('\n')
    for g, _ in todo:
        g['text'] = ''
        if g['line'] and g.get('src') == os.path.basename(mlw) and g['line'] <= len(lines):
            l = lines[g['line'] - 1]
            g['text'] = (l[g['chars'][0]:g['chars'][1]] if g['chars'][0] < g['chars'][1] <= len(l) else l).strip()[:300]
    return todo


def solve(todo, eff, jobs=6, log=None):
    """todo: list of (cvc5 goal, z3 goal)"""
    def one(gz):
        g, z = gz
        r = discharge(g, z, eff)
        r.update({k: g[k] for k in ('goal', 'text', 'file', 'line', 'path', 'expl', 'th')})
        if log:
            log(r)
        return r
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(one, todo))


def prove(mlw, scratch, budget=40, jobs=4, only=None, log=None):
    todo = [x for x in generate(mlw, scratch) if only is None or only(x[0])]
    return solve(todo, Effort(budget, time.time() + 3600), jobs, log)


def canary(mlw, scratch, jobs=2, t=2):
    """mlw holds for every function a copy named <f>__c that claims `false`; the claim must not be provable
    on at least one path, otherwise the contract or the axioms are vacuous"""
    gs = [g for (g,) in multi(mlw, scratch, ['cvc5'], 3)]
    out = {}
    for g in gs:
        if g['expl'] == 'CANARY':
            out.setdefault(re.sub(r"__c'vc$", '', g['goal']), []).append(g)

    def one(k):
        for n, g in enumerate(reversed(out[k])):
            a, dt = run1('cvc5', strip(g['path']), t)
            if a != 'unsat':
                return k, {'paths': len(out[k]), 'tried': n + 1, 'reachable': 1}
        return k, {'paths': len(out[k]), 'tried': len(out[k]), 'reachable': 0}
    with ThreadPoolExecutor(jobs) as ex:
        return dict(ex.map(one, list(out)))
