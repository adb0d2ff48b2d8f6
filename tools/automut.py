#!/usr/bin/env python3
"""tools/automut.py N SEED [WORKERS] [FILE...]: N random one-token changes of the sources, each run through the
checks (those that the file matters most to first) until one reports a violation. Development aid; no check uses it."""
import ast, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/src/sunwhere'
FILES = ['libspa/' + x + '.py' for x in ('ne_nrel', 'py_psa', 'ne_psa', 'py_soltrack', 'ne_soltrack', 'py_iqbal', 'ne_iqbal')] + [
    '_base.py', '_core.py', 'utils/validate.py', 'utils/datetime.py', '_cli/position.py', '_cli/main.py', 'usecases.py']
ORDER = {'libspa': 'C04 C02 C01 C05 C03 C07 C06 C08', '_base.py': 'C11 C13 C12 C16 C14 C15 C20 C10 C08 C18 C19 C01',
         '_core.py': 'C08 C09 C11 C10 C01 C07 C18', 'utils/validate.py': 'C09 C10 C08 C01 C11 C18', 'utils/datetime.py': 'C17 C18',
         '_cli/position.py': 'C19', '_cli/main.py': 'C19', 'usecases.py': 'C11 C09 C10 C01 C08 C07 C02 C04'}
CMP = {'<': ['<=', '>'], '<=': ['<', '>='], '>': ['>=', '<'], '>=': ['>', '<='], '==': ['!='], '!=': ['==']}


def number(t, rnd):
    if re.fullmatch(r'\d+', t):
        return str(int(t) + rnd.choice([1, -1]) if int(t) else 1)
    m = re.fullmatch(r'([\d.]+)(e[-+]?\d+)?', t)
    d = m.group(1)
    i = [k for k, c in enumerate(d) if c.isdigit()]
    lead = next((k for k in i if d[k] != '0'), i[-1])
    i = [k for k in i if k >= lead][:5]
    k = rnd.choice(i)
    return d[:k] + rnd.choice([c for c in '0123456789' if c != d[k]]) + d[k + 1:] + (m.group(2) or '')


def docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            out.update(range(n.lineno, n.end_lineno + 1))
    return out


def candidates(text):
    skip = docstrings(ast.parse(text))
    out = []
    for ln, line in enumerate(text.split('\n'), 1):
        code = line.split('#')[0] if "'" not in line.split('#')[0] or line.count("'") % 2 == 0 else line
        if ln in skip or not code.strip() or code.strip().startswith(('import', 'from', 'raise', 'assert', "f'", 'logger', "description", 'units')):
            continue
        for m in re.finditer(r'(?<![\w.\[\]])(\d+\.?\d*(?:e[-+]?\d+)?|\.\d+)(?![\w])', code):
            out.append((ln, m.start(), m.end(), 'num'))
        for m in re.finditer(r' (<=|>=|==|!=|<|>) ', code):
            out.append((ln, m.start(1), m.end(1), 'cmp'))
        for m in re.finditer(r'(?<=[\w)\]]) ?([-+]) ?(?=[\w(])', code):
            out.append((ln, m.start(1), m.end(1), 'pm'))
        for m in re.finditer(r'(?<=[\w)\]]) ?(?<!\*)([*/])(?!\*) ?(?=[\w(])', code):
            out.append((ln, m.start(1), m.end(1), 'md'))
        for m in re.finditer(r'\b(sin|cos|lat|lon|latitude|longitude|True|False|and|or|ndmin|eot|sindec|sinlat|coslat|cosdec|times_utc|times|n_lats|n_lons)\b', code):
            out.append((ln, m.start(1), m.end(1), 'word'))
    return out


WORD = {'sin': 'cos', 'cos': 'sin', 'True': 'False', 'False': 'True', 'and': 'or', 'or': 'and', 'lat': 'lon', 'lon': 'lat',
        'latitude': 'longitude', 'longitude': 'latitude', 'sindec': 'cosdec', 'cosdec': 'sindec', 'sinlat': 'coslat',
        'coslat': 'sinlat', 'n_lats': 'n_lons', 'n_lons': 'n_lats', 'times_utc': 'times', 'times': 'times_utc'}


def mutate(rnd, files):
    while True:
        f = rnd.choice(files)
        text = open(os.path.join(SRC, f)).read()
        c = candidates(text)
        kinds = sorted({k for *_, k in c})
        k = rnd.choice(kinds)
        ln, a, b, kind = rnd.choice([x for x in c if x[3] == k])
        lines = text.split('\n')
        t = lines[ln - 1][a:b]
        n = {'num': lambda: number(t, rnd), 'cmp': lambda: rnd.choice(CMP[t]), 'pm': lambda: '-' if t == '+' else '+',
             'md': lambda: '/' if t == '*' else '*', 'word': lambda: WORD.get(t)}[kind]()
        if n is None or n == t:
            continue
        lines[ln - 1] = lines[ln - 1][:a] + n + lines[ln - 1][b:]
        new = '\n'.join(lines)
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        return f, ln, lines[ln - 1].strip(), '%s -> %s' % (t, n), new


def one(j):
    i, (f, ln, line, what, new) = j
    w, o = '/tmp/amut_%d_%d' % (os.getpid(), i), '/tmp/amut_%d_%d_out' % (os.getpid(), i)
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('.git'))
    open(os.path.join(w, 'src/sunwhere', f), 'w').write(new)
    try:
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=w, capture_output=True,
                           env=dict(os.environ, PYTHONPATH=w + '/src', PYTHONDONTWRITEBYTECODE='1'), timeout=600)
        if r.returncode:
            return i, f, ln, line, what, 'tests', 0, ''
        first = ORDER.get(f) or ORDER['libspa']
        if f.startswith('libspa'):
            first = ' '.join(x for x in first.split() if not ('nrel' in f and x == 'C02') and not ('nrel' not in f and x == 'C04'))
        t = time.time()
        for c in first.split():
            r = subprocess.run(['python3', os.path.join(ROOT, 'check.py'), c], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=w, VERIF_SEED='1', VF_OUT=o))
            if r.returncode:
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                return i, f, ln, line, what, c if v else 'CRASH ' + c + r.stderr[-200:], time.time() - t, 'no-input' if v and 'no-failing' in v[0] else ''
        return i, f, ln, line, what, 'SURVIVED', time.time() - t, ''
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(o, ignore_errors=True)


if __name__ == '__main__':
    n, seed, workers = int(sys.argv[1]), int(sys.argv[2]), int((sys.argv[3:] or ['4'])[0])
    files = sys.argv[4:] or FILES
    rnd = random.Random(seed)
    jobs = [(i, mutate(rnd, files)) for i in range(n)]
    with ThreadPoolExecutor(workers) as ex:
        for i, f, ln, line, what, by, dt, note in ex.map(one, jobs):
            print('%s:%d  %s  [%s]  %s %.0fs %s' % (f, ln, what, line[:110], by, dt, note), flush=True)
