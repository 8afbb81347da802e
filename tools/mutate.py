#!/usr/bin/env python3
"""mutate.py N SEED WORKERS [FILE...]: sample N small random changes of the code under test, run the relevant quick checks against each
(in scratch copies), print which check notices it; the survivors are written out to be judged by hand."""
import warnings; warnings.simplefilter('ignore')
import ast, os, random, re, shutil, subprocess, sys, json, difflib
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

REPO, VERIF, TMP = '/repo', os.path.dirname(os.path.dirname(os.path.abspath(__file__))), '/tmp/mut'
PY = '/opt/venv/bin/python'
RELEVANT = {
    'common/kinematics.py': 'c25 c28 c15 c16 c21 c05',
    'common/integrators/__init__.py': 'c08 c09 c05 c24',
    'common/integrators/gauss_laguerre.py': 'c08',
    'common/integrators/gauss_legendre.py': 'c08',
    'common/statistics.py': 'c03 c06 c04',
    'common/utils.py': 'c11 c26 c10 c21 c27 c20 c02',
    'common/__init__.py': 'c23 c07 c10 c02 c12 c18 c11 c01 c06',
    'evolution.py': 'c02 c11 c27 c24 c21 c20 c26 c01 c18 c12 c19 c05',
    'environment.py': 'c12 c21 c23',
    'kawano.py': 'c19 c23 c20',
    'semianalytic.py': 'c20',
    'particles/__init__.py': 'c05 c04 c06 c10 c03 c28 c24 c16 c21',
    'particles/NonEqParticle.py': 'c04 c24 c03 c06',
    'particles/DustParticle.py': 'c03 c01 c04',
    'particles/RadiationParticle.py': 'c03 c01 c04',
    'particles/IntermediateParticle.py': 'c03 c01 c04',
    'interactions/__init__.py': 'c13 c22 c26 c14 c16',
    'interactions/boltzmann.py': 'c16 c13 c05 c21 c26',
    'interactions/four_particle/__init__.py': 'c16 c28 c13 c15 c25 c21 c23',
    'interactions/three_particle/__init__.py': 'c16 c28 c13 c15 c25 c21 c23',
    'library/SM.py': 'c22 c13 c28 c18 c15',
    'library/NuMSM.py': 'c22 c13 c18 c21 c25 c15',
    'interactions/four_particle/cpp/integral.cpp': 'c17 c06 c14 c16 c15 c28 c25',
    'interactions/four_particle/cpp/Ds.cpp': 'c14 c16 c15 c17',
    'interactions/three_particle/cpp/integral.cpp': 'c17 c06 c16 c15 c28 c25',
}


def files():
    out = {}
    for f in subprocess.check_output(['git', '-C', REPO, 'ls-files'], text=True).split():
        if f.startswith(('tests/', 'KAWANO/', 'notes')) or f in ('plotting.py', 'numericalunits.py'):
            continue
        if f.endswith('.py') and os.path.getsize(os.path.join(REPO, f)):
            out[f] = 1
        if f in RELEVANT and f.endswith('.cpp'):
            out[f] = 1
    return list(out)


CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}
CMPMUT = {'<': ['<=', '>'], '<=': ['<', '>'], '>': ['>=', '<'], '>=': ['>', '<'], '==': ['!='], '!=': ['=='], 'in': ['not in'], 'not in': ['in'], 'is': ['is not'], 'is not': ['is']}
BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**'}
BINMUT = {'+': ['-'], '-': ['+'], '*': ['/'], '/': ['*'], '**': ['*']}


def python_mutants(text):
    tree = ast.parse(text)
    lines = text.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = text.encode()
    pos = lambda l, c: starts[l - 1] + c
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(id(n.value))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'print':
            for m in ast.walk(n):
                doc.add(id(m))
        if isinstance(n, ast.Assert):
            for m in ast.walk(n):
                doc.add(id(m))

    def between(a, b, old, news, what):
        s, e = span(a)[1], span(b)[0]
        gap = raw[s:e].decode()
        if gap.count(old) == 1:
            i = gap.index(old)
            for new in news:
                out.append((s + len(gap[:i].encode()), s + len(gap[:i].encode()) + len(old), new, what))
    for n in ast.walk(tree):
        if id(n) in doc:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            o = BIN[type(n.op)]
            if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                between(n.left, n.right, o, BINMUT[o], 'arithmetic')
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = CMP[type(n.ops[0])]
            between(n.left, n.comparators[0], o, CMPMUT[o], 'comparison')
        elif isinstance(n, ast.BoolOp):
            o = 'and' if isinstance(n.op, ast.And) else 'or'
            between(n.values[0], n.values[1], o, ['or' if o == 'and' else 'and'], 'logic')
        elif isinstance(n, ast.UnaryOp):
            s, e = span(n)
            a, b = span(n.operand)
            out.append((s, a, '', 'unary'))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            s, e = span(n)
            v = n.value
            if isinstance(v, bool):
                out.append((s, e, str(not v), 'constant'))
            elif isinstance(v, int):
                out += [(s, e, str(v + 1), 'constant'), (s, e, str(v - 1) if v else '2', 'constant')]
            elif isinstance(v, float):
                out += [(s, e, repr(v * 1.1 if v else .1), 'constant'), (s, e, repr(v * 2 if v else 1.), 'constant')]
        elif isinstance(n, (ast.If, ast.IfExp)):
            s, e = span(n.test)
            out += [(s, e, '(not (' + raw[s:e].decode() + '))', 'condition'), (s, e, 'False', 'condition'), (s, e, 'True', 'condition')]
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and id(n.value) not in doc):
            s, e = span(n)
            out.append((s, e, 'pass', 'statement'))
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            (a, b), (c, d) = span(n.args[0]), span(n.args[1])
            if raw[a:b] != raw[c:d]:
                out.append((a, d, raw[c:d].decode() + raw[b:c].decode() + raw[a:b].decode(), 'arguments'))
    res = []
    for s, e, new, what in out:
        t = (raw[:s] + new.encode() + raw[e:]).decode()
        res.append((t, what))
    return res


def cpp_mutants(text):
    out = []
    masked = re.sub(r'//[^\n]*|/\*.*?\*/|#[^\n]*|"[^"\n]*"', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), text, flags=re.S)
    for m in re.finditer(r'(?<=[\w\)\]]) ([-+*/]|<=|>=|==|!=|<|>|&&|\|\|) (?=[\w\(\-])', masked):
        o = m.group(1)
        for new in {'+': ['-'], '-': ['+'], '*': ['/'], '/': ['*'], '<=': ['<', '>'], '>=': ['>', '<'], '<': ['<=', '>'], '>': ['>=', '<'], '==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&']}[o]:
            out.append((m.start(1), m.end(1), new, 'operator'))
    for m in re.finditer(r'(?<![\w.])(\d+\.?\d*(?:e-?\d+)?)(?![\w.])', masked):
        v = m.group(1)
        if '.' in v or 'e' in v:
            new = [repr(float(v) * 1.1 if float(v) else .1)]
        else:
            new = [str(int(v) + 1), str(int(v) - 1) if int(v) else '2']
        for x in new:
            out.append((m.start(1), m.end(1), x, 'constant'))
    for m in re.finditer(r'\n[ \t]+([\w\.\[\]\->]+ *[-+*/]?= *[^;{}\n]+;)', masked):
        out.append((m.start(1), m.end(1), ';', 'statement'))
    for m in re.finditer(r'\bif \(', masked):
        i, d = m.end(), 1
        while d:
            d += {'(': 1, ')': -1}.get(masked[i], 0)
            i += 1
        out += [(m.end(), i - 1, 'false', 'condition'), (m.end(), i - 1, 'true', 'condition')]
    for m in re.finditer(r'\b(min|max)\(', masked):
        out.append((m.start(1), m.end(1), 'max' if m.group(1) == 'min' else 'min', 'minmax'))
    return [(text[:s] + new + text[e:], what) for s, e, new, what in out]


def main():
    n, seed, workers = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
    only = sys.argv[4:]
    rnd = random.Random(seed)
    pool = []
    for f in files():
        if only and not any(f == o or f.startswith(o) for o in only):
            continue
        if f not in RELEVANT:
            print('no checks listed for', f)
            continue
        text = open(os.path.join(REPO, f)).read()
        ms = python_mutants(text) if f.endswith('.py') else cpp_mutants(text)
        pool += [(f, t, w) for t, w in ms]
        print(f, len(ms))
    rnd.shuffle(pool)
    counts = {f: sum(1 for x in pool if x[0] == f) for f in {x[0] for x in pool}}
    quota = {f: -(-n * c ** .5 // sum(c ** .5 for c in counts.values())) for f, c in counts.items()}
    sel = []
    for f, t, w in pool:
        if quota[f] <= 0:
            continue
        quota[f] -= 1
        if f.endswith('.py'):
            try:
                compile(t, f, 'exec')
            except SyntaxError:
                continue
        sel.append((f, t, w))
        if len(sel) == n:
            break
    pool = sel
    q = Queue()
    for k in range(workers):
        d = '{}/w{}_{}'.format(TMP, seed, k)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git', 'figures', '*.nb', '*.pdf', 'output', 'tests', 'KAWANO', '__pycache__'), symlinks=True)
        q.put(d)
    log = open('{}/log{}.jsonl'.format(TMP, seed), 'a')

    def one(job):
        i, (f, t, what) = job
        d = q.get()
        orig = open(os.path.join(REPO, f)).read()
        try:
            with open(os.path.join(d, f), 'w') as o:
                o.write(t)
            res = 'survived'
            for c in RELEVANT[f].split():
                try:
                    p = subprocess.run([PY, 'checks/{}.py'.format(c), '--tier', 'quick', '--no-evidence'], cwd=VERIF, env=dict(os.environ, VP_REPO=d, VP_BUILD=d + '.build'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                    if p.returncode:
                        res = c + ' rc={} '.format(p.returncode) + next((l.strip()[:140] for l in p.stdout.split('\n') if 'violated' in l), p.stdout[-140:])
                        break
                except subprocess.TimeoutExpired:
                    res = c + ' timeout'
                    break
        finally:
            with open(os.path.join(d, f), 'w') as o:
                o.write(orig)
            q.put(d)
        diff = [l for l in difflib.unified_diff(orig.split('\n'), t.split('\n'), lineterm='', n=0)][2:]
        log.write(json.dumps(dict(i=i, file=f, what=what, result=res, diff=diff)) + '\n')
        log.flush()
        print(i, f, what, res, flush=True)
        if res == 'survived':
            print('   ' + '\n   '.join(diff), flush=True)
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, enumerate(pool)))
    for k in range(workers):
        shutil.rmtree('{}/w{}_{}'.format(TMP, seed, k), ignore_errors=True)
        shutil.rmtree('{}/w{}_{}.build'.format(TMP, seed, k), ignore_errors=True)


if __name__ == '__main__':
    main()
