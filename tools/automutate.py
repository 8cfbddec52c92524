#!/usr/bin/env python3
"""Random small source mutations of /repo/include/mpc, run against the checks (experiments only; no registered command uses it).
usage: automutate.py OUTDIR COUNT SEED JOBS [FILE-SUBSTRING]      (AM_KIND=rare: changes that need an unusual size to show, and statics)
Writes OUTDIR/log (one line per mutant) and OUTDIR/N.diff for the survivors."""
import os, random, re, subprocess, sys, shutil, threading, tempfile
out, count, seed, jobs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
sub = sys.argv[5] if len(sys.argv) > 5 else ''
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = '/repo/include/mpc'
L = ['L01', 'L02', 'L03', 'L04', 'L05', 'L06', 'L07', 'L08']
GROUP = {
 'NLMPC/Mapping.hpp': ['N01', 'N04', 'N02', 'N03', 'N13', 'N05', 'N11'],
 'NLMPC/Objective.hpp': ['N02', 'N14', 'N06', 'N09', 'N10'],
 'NLMPC/Constraints.hpp': ['N04', 'N03', 'N14', 'N09', 'N06', 'N07', 'N08'],
 'NLMPC/Model.hpp': ['N04', 'N02', 'N14', 'N11', 'N06', 'N09'],
 'NLMPC/Base.hpp': ['N04', 'N02', 'N14', 'N11', 'N06', 'N09'],
 'NLMPC/NLOptimizer.hpp': ['N06', 'N12', 'N05', 'N13', 'N07', 'N11', 'N09', 'N10', 'N08', 'N14', 'U02'],
 'NLMPC.hpp': ['N05', 'N11', 'N09', 'N06', 'N12', 'N07', 'U01', 'N13'],
 'IMPC.hpp': ['N06', 'U01', 'N07', 'L07', 'N09', 'N05', 'N11', 'L04', 'L03', 'U02'],
 'LMPC.hpp': ['L03', 'L01', 'L02', 'L04', 'L06', 'L07', 'L05'],
 'LMPC/LOptimizer.hpp': ['L06', 'L04', 'L01', 'L03', 'L02', 'L07', 'L05'],
 'LMPC/ProblemBuilder.hpp': ['L01', 'L02', 'L03', 'L07', 'L05'],
 'Utils.hpp': ['U04'], 'Integrator.hpp': ['U03'], 'Profiler.hpp': ['U01'], 'Logger.hpp': ['U02'],
 'Dim.hpp': ['U05', 'N09', 'L07'], 'Types.hpp': ['N12', 'L06', 'N09', 'L04', 'N06', 'U05'],
 'IDimensionable.hpp': ['N09', 'L07', 'N06'], 'IComponent.hpp': ['N09', 'L07'], 'IOptimizer.hpp': ['N06', 'L04', 'N13'],
}
SW = [(r'<=', '<'), (r'>=', '>'), (r'(?<= )<(?= )', '<='), (r'(?<= )>(?= )', '>='), (r'==', '!='), (r'!=', '=='),
      (r'&&', '||'), (r'\|\|', '&&'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '),
      (r' - ', ' + '), (r' \* ', ' / '), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\bnx\(\)', 'nu()'), (r'\bnu\(\)', 'nx()'),
      (r'\bph\(\)', 'ch()'), (r'\bch\(\)', 'ph()'), (r'\bny\(\)', 'nx()'), (r'\bndu\(\)', 'nu()'), (r'\bineq\(\)', 'eq()'), (r'\beq\(\)', 'ineq()'),
      (r'\.row\(', '.col('), (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'\+=', '='), (r'!(?=[a-z(])', ''), (r'\bstate', 'input'), (r'\binput', 'state'), (r'\boutput', 'state'),
      (r'Min', 'Max'), (r'Max', 'Min'), (r'\bsucc', 'fail'), (r'\bi\b', 'j'), (r'\bend\b', 'start'), (r'\bstart\b', 'end')]
RARE = os.environ.get('AM_KIND') == 'rare'
DECL = r'(const|auto|int|double|bool|mat<|cvec<|unsigned|size_t|std::|Eigen::)'
CONDS = ['nx() > 1', 'nu() > 1', 'ny() > 1', 'ph() > 3', 'ch() < ph()', 'nx() != nu()', 'ny() != nx()', 'ph() < 6', 'nu() < 3', 'ch() > 1', 'nx() < 3']
def sites():
    r = []
    for f in GROUP:
        if sub not in f: continue
        inblock = False
        for n, l in enumerate(open(f'{INC}/{f}').read().split('\n')):
            s = l.strip()
            if s.startswith('/*'): inblock = True
            if inblock:
                if '*/' in s: inblock = False
                continue
            if not s or s.startswith(('//', '#', 'template', 'namespace', 'using', 'class', 'struct', 'Logger', '<<', 'throw', 'public', 'private', 'protected', 'typename', 'static_assert', 'std::cout')) or '<<' in s: continue
            if RARE:
                ind = re.match(r'\s*', l).group(0)
                if s.endswith(';') and s.count('(') == s.count(')') and not re.match(DECL, s) and not s.startswith(('return', 'break', 'else', 'continue')):
                    for q in CONDS: r.append((f, n, f'{ind}if ({q}) {{ {s} }}'))
                if re.match(DECL, s) and s.endswith(';') and 'static' not in s and '(' in s + '(' and ind and len(ind) >= 12: r.append((f, n, ind + 'static ' + s)); r.append((f, n, ind + 'static ' + s))
                m = re.search(r'(\w+) < (ph|ch|nu|nx|ny|ineq|eq)\(\)', l)
                if m and s.startswith('for'):
                    for lim in (1, 2, 4, 6):
                        r.append((f, n, l[:m.start()] + f'{m.group(1)} < ({m.group(2)}() > {lim} ? {m.group(2)}() - 1 : {m.group(2)}())' + l[m.end():]))
                for m in re.finditer(r'\((\w+), (\w+)\)', l):
                    for w in (f'({m.group(1)}, 0)', f'(0, {m.group(2)})', f'({m.group(2)}, {m.group(1)})'): r.append((f, n, l[:m.start()] + w + l[m.end():]))
                m = re.search(r'1e-(\d+)', l)
                if m: r.append((f, n, l.replace(m.group(0), '1e-%d' % (int(m.group(1)) - 2))))
                continue
            for a, b in SW:
                for m in re.finditer(a, l):
                    if '//' in l[:m.start()]: continue
                    r.append((f, n, l[:m.start()] + b + l[m.end():]))
            if s.endswith(';') and not re.match(r'(return|const|auto|int|double|bool|mat|cvec|unsigned|size_t|break|std::shared)', s) and s.count('(') == s.count(')'):
                r.append((f, n, re.match(r'\s*', l).group(0) + ';'))
    return r
S = sites()
rnd = random.Random(seed)
rnd.shuffle(S)
# spread over the files: at most a proportional number of mutants per line
seen = {}
P = []
for x in S:
    k = x[:2]
    seen[k] = seen.get(k, 0) + 1
    if seen[k] <= 2: P.append(x)
P = P[:count]
os.makedirs(out, exist_ok=True)
lock = threading.Lock()
log = open(f'{out}/log', 'a')
it = iter(enumerate(P))
def one(i, f, n, new):
    d = tempfile.mkdtemp(dir='/tmp', prefix='am.')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', d + '/r'], check=True)
        p = f'{d}/r/include/mpc/{f}'
        t = open(p).read().split('\n')
        old = t[n]; t[n] = new
        open(p, 'w').write('\n'.join(t))
        desc = f'{f}:{n+1}: {old.strip()}  =>  {new.strip()}'
        pr = subprocess.run(['g++', '-std=c++20', '-w', '-fsyntax-only', '-DSHOW_STACKTRACE=0', '-DEIGEN_STACK_ALLOCATION_LIMIT=0', f'-I{V}/harness/fake', f'-I{d}/r/include', '-isystem', '/usr/include/eigen3', f'{V}/harness/probe.cpp'], capture_output=True)
        if pr.returncode: return 'NOCOMPILE', desc
        res = []
        for c in GROUP[f]:
            env = dict(os.environ, VERIF_REPO=d + '/r', VERIF_EVIDENCE=d, PBT_SCALE=os.environ.get('PBT_SCALE', '0.3'), PBT_WORKERS='2', PBT_BUDGET='150', VERIF_REPLAYS=d)
            try: q = subprocess.run([f'{V}/run.sh', c, 'quick'], env=env, capture_output=True, timeout=900)
            except subprocess.TimeoutExpired: res.append(c + '=timeout'); continue
            if q.returncode == 1: return 'CAUGHT ' + ' '.join(res + [c]), desc
            if q.returncode: res.append(f'{c}=rc{q.returncode}')
        q = subprocess.run([f'{V}/tools/stable.sh', d + '/r', d + '/t'], capture_output=True)
        diff = subprocess.run(['git', '-C', d + '/r', 'diff'], capture_output=True, text=True).stdout
        open(f'{out}/{seed}-{i}.diff', 'w').write(diff)
        return ('SURVIVED' if q.returncode == 0 else 'TESTKILLED') + f' {seed}-{i} ' + ' '.join(res), desc
    finally:
        shutil.rmtree(d, ignore_errors=True)
def work():
    while True:
        with lock:
            try: i, x = next(it)
            except StopIteration: return
        try: r, desc = one(i, *x)
        except Exception as e: r, desc = 'ERROR ' + repr(e), str(x)
        with lock: log.write(f'{r} | {desc}\n'); log.flush()
ts = [threading.Thread(target=work) for _ in range(jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
