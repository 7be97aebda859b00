#!/usr/bin/env python3
"""Small changes of the library's sources, made at random, to find what the checks miss.

  mutate.py make N SEED      N mutants which compile and pass the stable tests -> WORK/mutants/
  mutate.py check [TIER]     replays every property's scripts into them, compares the traces with those of the
                             unchanged tree and lets TLC judge the ones that differ -> WORK/result.txt

Works on copies under /tmp/mutwork.  What survives is looked at by hand: most of it changes no behaviour."""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seed as seedtool
from seed import sh, tests, VERIF

WORK = '/tmp/mutwork'
MAIN = {'broadcast': 'P08', 'cast': 'P11', 'duplicate': 'P09', 'factories': 'P01', 'index_utils': 'P07', 'reshape': 'P10',
        'squeeze': 'P10', 'slice': 'P09', 'binary_op': 'P12', 'dot': 'P14', 'matmul': 'P13', 'sqrt': 'P18', 'relu': 'P18',
        'sigmoid': 'P18', 'tanh': 'P18', 'batch_norm': 'P17', 'conv': 'P15', 'dropout': 'P20', 'pooling': 'P16',
        'softmax': 'P19', 'types': 'P11', 'utils': 'P07', 'shape': 'P23', 'storage': 'P23'}
CROSS = ['P02', 'P03', 'P04', 'P05', 'P01', 'P06']


def sources(d):
    out = []
    for base in ('basic', 'core', 'math', 'nn'):
        for f in sorted(os.listdir(f'{d}/src/{base}')):
            if f.endswith('.c') or f in ('tensor.h', 'utils.h', 'storage.h', 'shape.h'):
                out.append(f'src/{base}/{f}')
    return out


RULES = [
    (r'(?<![<>=!\-+*/&|])<(?![<=])', ['<=']), (r'<=', ['<']), (r'(?<![->])>(?![>=])', ['>=']), (r'>=', ['>']),
    (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']),
    (r'(?<=[\w\])]) \+ (?=[\w(])', [' - ']), (r'(?<=[\w\])]) - (?=[\w(])', [' + ']),
    (r'(?<=[\w\])]) \* (?=[\w(])', [' / ', ' + ']), (r'(?<=[\w\])]) / (?=[\w(])', [' * ']), (r' % ', [' / ']),
    (r'(?<![\w.])\d+(?![\w.])', ['+1', '-1']),
    (r'\bint64_t\b(?=\s+\w)', ['int']), (r'\bsize_t\b', ['unsigned']), (r'\bdouble\b', ['float']),
    (r'\+\+', ['--']), (r'\+=', ['-=']), (r'\*=', ['+=']), (r'-=', ['+=']),
    (r'!(?=\w)', ['']), (r'\bbreak;', [';']), (r'\bcontinue;', [';']),
]


def candidates(path, text):
    out, comment = [], False
    for n, line in enumerate(text.split('\n')):
        s = line.strip()
        if s.startswith('/*'):
            comment = True
        if comment:
            if '*/' in s:
                comment = False
            continue
        if not s or s.startswith('#') or s.startswith('//'):
            continue
        code = line.split('//')[0]
        for pat, reps in RULES:
            for m in re.finditer(pat, code):
                for r in reps:
                    if r in ('+1', '-1'):
                        r = str(int(m.group()) + int(r))
                    out.append((n, line[:m.start()] + r + line[m.end():]))
        if re.match(r'^\s+[\w>\-\[\]*.()]+ ?(=|\+=|\()[^=].*;\s*\\?\s*$', code) and not re.match(r'^\s*(return|\w+ \w+ ?=)', code):
            out.append((n, (code[:len(code) - len(code.lstrip())] + ';' + ('\\' if code.rstrip().endswith('\\') else ''))))
        ids = re.findall(r'\b[a-z_]\w*[12]\b', code)
        for i in set(ids):
            j = i[:-1] + ('2' if i[-1] == '1' else '1')
            out.append((n, re.sub(r'\b%s\b' % i, j, line, count=1)))
    return out


def make(count, seed):
    r = random.Random(seed)
    os.makedirs(f'{WORK}/mutants', exist_ok=True)
    pool = []
    base = f'{WORK}/base'
    shutil.rmtree(base, ignore_errors=True)
    sh(f'git clone -q --no-hardlinks /repo {base}')
    for f in sources(base):
        text = open(f'{base}/{f}', newline='').read().replace('\r\n', '\n')
        some = [(f, n, new) for n, new in candidates(f, text) if 'NULL, -1' not in new and 'NULL, 1' not in new]
        r.shuffle(some)
        pool += some[:150]
    r.shuffle(pool)
    print(len(pool), 'candidates')

    def worker(k):
        d = f'{WORK}/w{k}/repo'
        shutil.rmtree(f'{WORK}/w{k}', ignore_errors=True)
        os.makedirs(f'{WORK}/w{k}')
        sh(f'git clone -q --no-hardlinks /repo {d}')
        while pool and len(os.listdir(f'{WORK}/mutants')) < count:
            f, n, new = pool.pop()
            sh(f'git -C {d} checkout -q -- .')
            raw = open(f'{d}/{f}', newline='').read()
            crlf = '\r\n' in raw
            lines = raw.replace('\r\n', '\n').split('\n')
            lines[n] = new
            t = '\n'.join(lines)
            open(f'{d}/{f}', 'w', newline='').write(t.replace('\n', '\r\n') if crlf else t)
            p = subprocess.run(['gcc', '-std=gnu11', '-w', '-I.', '-fsyntax-only', f], cwd=d, capture_output=True)
            if p.returncode:
                continue
            try:
                missing, _ = tests(d)
            except Exception:
                continue
            if missing:
                continue
            name = '%s-%d-%04d' % (os.path.basename(f).replace('.', '_'), n + 1, r.randrange(10000))
            diff = subprocess.run(['git', '-C', d, 'diff'], capture_output=True).stdout
            if diff:
                open(f'{WORK}/mutants/{name}.diff', 'wb').write(diff)

    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(worker, range(4)))


def drive(driver, script, trace, reuse):
    env = engine.REUSE_ENV if reuse else engine.DRIVER_ENV
    try:
        return subprocess.run([driver, script, trace, '20'], env=env, capture_output=True, timeout=300).returncode == 0
    except subprocess.TimeoutExpired:
        return False


def build(d, out):
    return subprocess.run(['bash', f'{VERIF}/harness/build.sh', out], env=dict(os.environ, REPO=d),
                          capture_output=True).returncode == 0


def check(tier='quick', workers=4):
    sys.path.insert(0, f'{VERIF}/lib')
    global engine
    import engine
    import plans
    shards = {}
    os.makedirs(f'{WORK}/scripts', exist_ok=True)
    os.makedirs(f'{WORK}/traces', exist_ok=True)

    def prepare(p):
        plan = plans.Plan(p, tier, 1, f'{WORK}/plan-{p}')
        plans.PLANS[p](plan)
        shards[p] = []
        for i, (name, text, aspects, scope) in enumerate(plan.shards):
            f = f'{WORK}/scripts/{p}-{i}-{name}'
            open(f, 'w').write(text)
            shards[p].append((name, f, aspects, scope))

    props = [p for p in plans.PLANS if p not in plans.AUTO]
    for p in props:
        prepare(p)
    base = f'{WORK}/base'
    sh(f'rm -rf {base}; git clone -q --no-hardlinks /repo {base}')
    assert build(base, f'{WORK}/basebuild')
    todo = [(p, s) for p in props for s in shards[p]]

    def first(x):
        p, (name, f, aspects, scope) = x
        t = f'{WORK}/traces/' + os.path.basename(f)
        return drive(f'{WORK}/basebuild/driver', f, t, name.startswith('reuse'))

    with cf.ThreadPoolExecutor(workers) as ex:
        assert all(ex.map(first, todo))
    print(len(todo), 'scripts', flush=True)
    done = {}
    if os.path.exists(f'{WORK}/result.txt'):
        done = dict(l.split(' ', 1) for l in open(f'{WORK}/result.txt').read().splitlines())
    names = [n for n in sorted(os.listdir(f'{WORK}/mutants')) if n not in done]
    random.Random(5).shuffle(names)

    def judge(n, d, w):
        sh(f'git -C {d} checkout -q -- .')
        if sh(f'git -C {d} apply {WORK}/mutants/{n}').returncode:
            return 'OUTDATED'
        if not build(d, f'{w}/build'):
            return 'NOBUILD'
        base = n.split('-')[0].rsplit('_', 1)[0]
        order = ([MAIN[base]] if base in MAIN else []) + CROSS + props
        differ = []
        for p in dict.fromkeys(order):
            for name, f, aspects, scope in shards[p]:
                t = f'{w}/trace'
                if not drive(f'{w}/build/driver', f, t, name.startswith('reuse')):
                    return f'{p}-HANG'
                if not subprocess.run(['cmp', '-s', t, f'{WORK}/traces/' + os.path.basename(f)]).returncode:
                    continue
                differ.append(os.path.basename(f))
                try:
                    v = engine.validate(t, aspects, f'{w}/tlc', scope=scope, module='Trace', timeout=600)
                except Exception as e:
                    return f'{p}-NOANSWER {str(e)[:80]!r}'
                if v.rejects:
                    return p
        return 'SURVIVED ' + ','.join(differ)

    def one(k):
        w = f'{WORK}/c{k}'
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        sh(f'git clone -q --no-hardlinks /repo {w}/repo')
        while names:
            n = names.pop()
            got = judge(n, f'{w}/repo', w)
            with open(f'{WORK}/result.txt', 'a') as o:
                o.write(f'{n} {got}\n')

    with cf.ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, range(workers)))


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(int(sys.argv[2]), int(sys.argv[3]))
    else:
        check(*sys.argv[2:])
