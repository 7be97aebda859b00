#!/usr/bin/env python3
"""Confirms planted bugs and runs checks against them, in scratch copies of /repo and /verif under /tmp.

  seed.py add DEFS.py [ID..]      writes seeded/<id>/ for the definitions in DEFS.py, confirming each
  seed.py check [ID..] [-p P..]   runs the check of each bug's property (or of the properties named)
"""
import json, os, re, shutil, subprocess, sys, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = '/tmp/seedwork'
BASE = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'],
                      capture_output=True, text=True).stdout.strip()

PRELUDE = '''#include <math.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "src/basic/broadcast.h"
#include "src/basic/cast.h"
#include "src/basic/duplicate.h"
#include "src/basic/factories.h"
#include "src/basic/index_utils.h"
#include "src/basic/reshape.h"
#include "src/basic/slice.h"
#include "src/basic/squeeze.h"
#include "src/core/allocator.h"
#include "src/core/tensor.h"
#include "src/core/utils.h"
#include "src/math/binary_op.h"
#include "src/math/dot.h"
#include "src/math/matmul.h"
#include "src/math/sqrt.h"
#include "src/nn/batch_norm.h"
#include "src/nn/conv.h"
#include "src/nn/dropout.h"
#include "src/nn/pooling.h"
#include "src/nn/relu.h"
#include "src/nn/sigmoid.h"
#include "src/nn/softmax.h"
#include "src/nn/tanh.h"

#define CHECK(c)                                              \\
  do {                                                        \\
    if (!(c)) {                                               \\
      printf("FAILED (line %d): %s\\n", __LINE__, #c);         \\
      return 1;                                               \\
    }                                                         \\
  } while (0)
#define DIMS(...) ((int64_t[]){__VA_ARGS__})
#define INTS(...) ((int[]){__VA_ARGS__})

static const Device cpu = {DEVICE_CPU, 0};

static inline Tensor make(DataType type, int64_t ndim, int64_t *dims) {
  Tensor t = NULL;
  if (aitisa_create(type, cpu, dims, ndim, NULL, 0, &t) != STATUS_SUCCESS) abort();
  return t;
}
#define SET(t, ctype, ...) \\
  memcpy(aitisa_tensor_data(t), (ctype[]){__VA_ARGS__}, sizeof((ctype[]){__VA_ARGS__}))
#define AT(t, ctype, i) (((ctype *)aitisa_tensor_data(t))[i])

'''
CPRELUDE = '''#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <utility>
#include <vector>
#include "auto_test/basic.h"
#include "auto_test/sample.h"

using namespace aitisa_api;
#define CHECK(c)                                              \\
  do {                                                        \\
    if (!(c)) {                                               \\
      printf("FAILED (line %d): %s\\n", __LINE__, #c);         \\
      return 1;                                               \\
    }                                                         \\
  } while (0)

'''
CDEMO = '''#!/bin/bash
# Run in the repository's top folder: builds the library's and auto_test's sources with demo.cpp and runs it.
H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
I=0
for f in $(find src -name '*.c'); do
  I=$((I + 1))
  gcc -std=gnu11 -g -w -I. -c "$f" -o "$W/$I.o" || exit 2
done
g++ -std=gnu++14 -g -w %s -I. "$H/demo.cpp" auto_test/*.cpp "$W"/*.o -o "$W/demo" -lgtest -lm -lpthread || exit 2
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$W/demo"
'''
DEMO = '''#!/bin/bash
# Run in the repository's top folder: builds the library's sources with demo.c and runs it.
H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
gcc -std=gnu11 -g -w %s -I. "$H/demo.c" $(find src -name '*.c') -o "$W/demo" -lm -lpthread || exit 2
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$W/demo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def copy_repo(id):
    d = f'{WORK}/{id}/repo'
    shutil.rmtree(f'{WORK}/{id}', ignore_errors=True)
    os.makedirs(f'{WORK}/{id}')
    sh(f'git clone -q --no-hardlinks /repo {d}')
    return d


def tests(d):
    w = os.path.dirname(d)
    for n in ('build.sh', 'test.sh'):
        s = open(f'/opt/vp/{n}').read()
        s = s.replace('/repo', d).replace('/opt/vp/build.sh', f'{w}/build.sh')
        open(f'{w}/{n}', 'w').write(s)
    r = sh(f'bash {w}/test.sh {w}/out.json')
    o = json.load(open(f'{w}/out.json'))
    b = json.load(open('/opt/vp/BASELINE.json'))
    stable = b['stable'] if isinstance(b, dict) else b
    return [t for t in stable if t not in o['passed']], r.stderr[-500:]


def edit(d, edits):
    for f, old, new in edits:
        p = f'{d}/{f}'
        raw = open(p, newline='').read()
        crlf = '\r\n' in raw
        s = raw.replace('\r\n', '\n')
        assert s.count(old) == 1, (f, s.count(old), old)
        s = s.replace(old, new)
        open(p, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)


def original_lines(d, patch_files):
    """Whether every hunk removes at least one line of the original repository."""
    ok = False
    for f in patch_files:
        blame = sh(f'git -C {d} blame -s -l HEAD -- {f}').stdout.splitlines()
        diff = sh(f'git -C {d} diff -U0 -- {f}').stdout
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', diff, re.M):
            a, n = int(m[1]), int(m[2] or 1)
            for k in range(a, a + n):
                if blame[k - 1].lstrip('^').startswith(BASE[:39]):
                    ok = True
    return ok


def add(s):
    id = s['id']
    d = copy_repo(id)
    out = f'{VERIF}/seeded/{id}'
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    cpp = 'auto_test' in s['edits'][0][0]
    open(f'{out}/demo.' + ('cpp' if cpp else 'c'), 'w').write((CPRELUDE if cpp else PRELUDE) + s['demo'].lstrip('\n'))
    open(f'{out}/demo.sh', 'w').write((CDEMO if cpp else DEMO) % s.get('flags', ''))
    os.chmod(f'{out}/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(f'{out}/meta.json', 'w'), indent=1)
    r0 = sh(f'bash {out}/demo.sh', cwd=d)
    try:
        edit(d, s['edits'])
    except AssertionError as e:
        return id, f'EDIT {e}'
    open(f'{out}/patch.diff', 'wb').write(
        subprocess.run(['git', '-C', d, 'diff'], capture_output=True).stdout)
    r1 = sh(f'bash {out}/demo.sh', cwd=d)
    miss, err = tests(d)
    orig = original_lines(d, [e[0] for e in s['edits']])
    good = r0.returncode == 0 and r1.returncode not in (0, 2) and not miss and orig
    msg = 'ok' if good else (f'BAD unpatched={r0.returncode} {r0.stdout[-300:]} {r0.stderr[-600:]} '
                             f'patched={r1.returncode} {r1.stderr[-300:]} tests={miss} {err if miss else ""} original={orig}')
    if not good:
        shutil.rmtree(out)
    shutil.rmtree(f'{WORK}/{id}')
    return id, msg + ' | ' + r1.stdout.strip()[-120:]


def check(id, props, tier='quick', patch=None):
    d = copy_repo('c-' + id)
    v = f'{WORK}/c-{id}/verif'
    patch = patch or f'{VERIF}/seeded/{id}/patch.diff'
    r = sh(f'git -C {d} apply {patch}')
    if r.returncode:
        return id, 'patch: ' + r.stderr
    sh(f'mkdir {v} && cd {VERIF} && cp -r check.py lib spec harness tools known-findings.txt properties.jsonl MANIFEST.json {v}')
    res = []
    for p in props:
        r = sh(f'timeout 900 python3 check.py {p} {tier}', cwd=v, env={**os.environ, 'REPO': d})
        line = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        res.append(f'{p}:{"CAUGHT" if r.returncode == 1 and line else "miss" if r.returncode == 0 else "ERR%d" % r.returncode + r.stderr[-300:]}')
    shutil.rmtree(f'{WORK}/c-{id}')
    return id, ' '.join(res)


def main():
    a = sys.argv[1:]
    if a[0] == 'add':
        g = {}
        exec(open(a[1]).read(), g)
        todo = [s for s in g['SEEDS'] if not a[2:] or s['id'] in a[2:]]
        with cf.ThreadPoolExecutor(6) as ex:
            for id, m in ex.map(add, todo):
                print(id, m, flush=True)
    else:
        props = None
        if '-p' in a:
            i = a.index('-p')
            props = a[i + 1:]
            a = a[:i]
            if props == ['all']:
                props = [f'P{i:02d}' for i in range(1, 23)]
        ids = a[1:] or sorted(os.listdir(f'{VERIF}/seeded'))
        with cf.ThreadPoolExecutor(3) as ex:
            jobs = []
            for id in ids:
                pr = props or [json.load(open(f'{VERIF}/seeded/{id}/meta.json'))['property']]
                jobs.append(ex.submit(check, id, pr))
            for j in jobs:
                print(*j.result(), flush=True)


if __name__ == '__main__':
    main()
