"""C08: generated benchmark code against the kernel it was generated from."""
from . import kgen

ID = 'C08'
TITLE = 'generated benchmark code'
LEVEL = 'exploration'
ASSUMPTIONS = ['constants and element counts are below 2^31', 'names do not collide with those of the template']
BOUNDED = ['get_kernel_header, get_kernel_code, get_main_code: generated kernels of up to 3 loops, 4 arrays and 3 '
           'statements, compiled and executed next to their source']
TRUSTED = ['pycparser', 'gcc']
RULE = ('random kernels compiled together with their own source text: results of every call on random data, memory '
        'touched by the initialization and requested allocations are compared, with guard pages around all arrays; '
        'non-trivial: an array of two or more dimensions')
SHARDS = 6
BUDGET = 60
PROOFS = []


def cases(rng, tier):
    for _ in range(900 if tier == 'quick' else 12000):
        k = kgen.rand(rng, maxit=1500, unary=False)
        if any(size(k, n) > 200000 for n in k['arrays']):
            continue
        for s in k['body']:
            if rng.random() < .2:
                s['r'] = ['u', '-', s['r']]
        if rng.random() < .25:
            p = [[x, y] for x in k['arrays'] for y in k['arrays'] if x < y and size(k, x) == size(k, y)]
            if p:
                k['swaps'] = [rng.choice(p)]
            elif len(k['arrays']) > 1:
                x, y = rng.sample(sorted(k['arrays']), 2)
                k['swaps'] = [[x, y]]
                m = max(size(k, x), size(k, y))
                for n in (x, y):
                    # pad the slowest dimension
                    d, rest = k['arrays'][n][0], size(k, n) // kgen.ev(k['arrays'][n][0], k['consts'])
                    if m % rest:
                        k['swaps'] = []
                    else:
                        k['arrays'][n][0] = m // rest if m // rest != kgen.ev(d, k['consts']) else d
        for n in rng.sample(['UNUSED', 'Z1', 'B0'], rng.choice([0, 0, 1, 2])):
            k['consts'][n] = rng.randint(1, 9)
        yield {'k': k, 'omp': rng.random() < .3, 'cl': rng.choice([64, 64, 128, 32]), 'rep': rng.choice([1, 2, 3]),
               'q': rng.random() < .12}


def trivial(c):
    return not any(len(d) > 1 for d in c['k']['arrays'].values())


def size(k, n):
    s = 1
    for d in k['arrays'][n]:
        s *= kgen.ev(d, k['consts'])
    return s


DRIVER = r'''
#define _GNU_SOURCE
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include <sys/mman.h>
#undef posix_memalign
typedef %(type)s T;
static struct { char *base, *p; size_t size, align; size_t lo, hi; } A[%(na)d + 1];
static int na, blocks, calls_measured, measuring, pos;
int var_false = 1;
static void fail(const char *m, int x) { printf("%%s (%%d)\n", m, x); fflush(stdout); _exit(3); }
int rec_memalign(void **r, size_t align, size_t size) {
  size_t pg = 4096, n = (size + align + pg - 1) / pg * pg + pg;
  char *m = mmap(0, n + 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if(na >= %(na)d) fail("more allocations than arrays", na);
  if(align & (align - 1)) fail("alignment is no power of two", (int)align);
  mprotect(m, pg, PROT_NONE); mprotect(m + n + pg, pg, PROT_NONE);
  char *end = m + n + pg, *p = (char *)(((uintptr_t)(end - size)) & ~(uintptr_t)(align - 1));
  A[na].base = m + pg; A[na].p = p; A[na].size = size; A[na].align = align; A[na].lo = p - (m + pg); A[na].hi = end - (p + size);
  na++;
  *r = p; return 0;
}
static void guards(void) {
  for(int i = 0; i < na; i++) {
    for(size_t j = 0; j < A[i].lo; j++) if(A[i].base[j]) fail("write before array", i);
    for(size_t j = 0; j < A[i].hi; j++) if(A[i].p[A[i].size + j]) fail("write beyond array", i);
  }
}
static void mark_start(void) { measuring = 1; }
static void mark_stop(void) { measuring = 0; }
#define posix_memalign rec_memalign
#define main generated_main
#include "%(main)s"
#undef main
#undef swap
#define swap(a, b)
%(ref)s
static void *P[%(nv)d]; static T *copy[%(nv)d]; static const size_t want[%(nv)d] = {%(sizes)s};
static unsigned seed = 12345;
static double rnd(void) { seed = seed * 1103515245u + 12345u; return 0.1 + (double)(seed >> 8) / (1 << 25); }
static void one_block(void) {
  int i; size_t j;
  guards();
  if(blocks == 0) {
    int n = 0;
    for(i = 0; i < %(nv)d; i++) if(%(isarr)s) {
      int f = -1;
      for(int q = 0; q < na; q++) if(A[q].p == (char *)P[i]) f = q;
      if(f < 0) fail("array is no allocation", i);
      if(A[f].size != want[i] * sizeof(T)) fail("wrong number of bytes allocated for variable", i);
      if(A[f].align %% %(cl)d) fail("allocation not aligned to cache lines", i);
      n++;
    }
    if(n != na) fail("allocations besides the arrays", na - n);
    for(i = 0; i < %(nv)d; i++) copy[i] = calloc(want[i] ? want[i] : 1, sizeof(T));
    mark(%(markargs)s);
    n = 0;
    for(i = 0; i < %(nv)d; i++) if(want[i]) { T *mem = (T *)(%(swaps)d ? A[n++].p : P[i]); for(j = 0; j < want[i]; j++)
      if((mem[j] != 0) != (copy[i][j] != 0)) fail("initialization of other elements than the kernel uses, variable", i); }
  } else {
    ref(%(refargs)s);
    for(i = 0; i < %(nv)d; i++) for(j = 0; j < (want[i] ? want[i] : 1); j++)
      if(memcmp((T *)P[i] + j, copy[i] + j, sizeof(T))) { printf("element %%zu: %%a instead of %%a, kernel call %%d\n", j,
          (double)((T *)P[i])[j], (double)copy[i][j], blocks); fail("different result in variable", i); }
    if(measuring) calls_measured++;
  }
  for(i = 0; i < %(nv)d; i++) for(j = 0; j < (want[i] ? want[i] : 1); j++) {
    copy[i][j] = rnd();
    memcpy((T *)P[i] + j, copy[i] + j, sizeof(T));
  }
  blocks++;
}
void dummy(void *p) {
  if(blocks && P[pos] != p) fail("other variables than before", pos);
  P[pos++] = p;
  if(pos == %(nv)d) { pos = 0; one_block(); }
}
int main(int argc, char **argv) {
  int r = generated_main(argc, argv);
  if(r) fail("main returns", r);
  if(calls_measured != %(rep)d) fail("number of measured calls", calls_measured);
  if(blocks < 2 + %(rep)d) fail("number of calls", blocks);
  printf("ok\n");
  return 0;
}
'''


def check(c):
    import os
    import re
    import shutil
    import tempfile
    d = tempfile.mkdtemp(dir=os.getcwd())
    cwd = os.getcwd()
    try:
        os.chdir(d)
        return run(c, d)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def run(c, d):
    import os
    import re
    import subprocess
    import kerncraft
    from .common import kernel_code, machine
    k = c['k']
    text = kgen.text(k)
    if c['q']:
        text = re.sub(r'^(%s (?=\w+;))' % re.escape(k['type']), r'const \1', text, count=1, flags=re.M)
        text = re.sub(r'^((?:const )?%s \w+)(?=;)' % re.escape(k['type']), r'\1 = 0.5', text, count=1, flags=re.M)
    with open('k.c', 'w') as f:
        f.write(text)
    kc = kernel_code(text, machine(cl=c['cl']), os.path.join(d, 'k.c'), **k['consts'])
    out = {}
    for name, get in (('h', kc.get_kernel_header), ('c', lambda: kc.get_kernel_code(openmp=c['omp'])), ('m', kc.get_main_code)):
        p, lock = get()
        lock.close()
        out[name] = p
    with open(out['c']) as f:
        kernel_c = f.read()
    with open(out['m']) as f:
        main_c = f.read()
    where = '\n%s\n--- kernel.c\n%s\n--- main.c\n%s' % (text, kernel_c, main_c)
    # pragmas
    src = [l.strip() for l in text.split('\n') if l.strip().startswith('#pragma')]
    got = [l.strip() for l in kernel_c.split('\n') if l.strip().startswith('#pragma')]
    if [p for p in got if 'omp' not in p.split()] != [p for p in src if 'omp' not in p.split()]:
        return 'pragmas %r became %r%s' % (src, got, where)
    if any('omp' in p.split() for p in got) != c['omp']:
        return 'OpenMP pragmas %s in code with openmp=%r%s' % (got, c['omp'], where)
    # reference and driver
    order = re.findall(r'^(?:const )?%s (.*?);' % re.escape(k['type']), text, flags=re.M)
    decls = [n for l in order for n in re.findall(r'(?:^|, )(\w+)', re.sub(r'\[.*?\](?=\[|,|$)| = 0.5', '', l))]
    if sorted(decls) != sorted(list(k['arrays']) + k['scalars']):
        raise RuntimeError('names %r in %r' % (decls, text))
    cargs = ''.join(', const %s %s' % (k['itype'], n) for n in k['consts'])
    T = k['type']
    ext = {n: [kgen.itext(x) for x in dims] for n, dims in k['arrays'].items()}
    local = ''
    for n in decls:
        if n in ext:
            local += '%s (*%s)%s = (void *)%s_p;\n' % (T, n, ''.join('[%s]' % x for x in ext[n][1:]), n) \
                if len(ext[n]) > 1 else '%s *%s = %s_p;\n' % (T, n, n)
        else:
            local += '%s %s = *%s_p;\n' % (T, n, n)
    loops = '\n'.join(l for l in text.split('\n') if not re.match(r'(const )?%s ' % re.escape(T), l))
    back = ''.join('*%s_p = %s;\n' % (n, n) for n in decls if n not in ext)
    params = ', '.join('%s *%s_p' % (T, n) for n in decls) + cargs
    ref = 'static void ref(%s) {\n%s%s%s}\n' % (params, local, loops, back)
    rd, wr = kgen.refs(k)
    mk = dict(k, swaps=[], braces=True, body=[{'l': r, 'op': '=', 'r': ['c', '1.0']} for r in rd + wr])
    mtext = '\n'.join(l for l in kgen.text(mk).split('\n') if not re.match(r'%s ' % re.escape(T), l))
    ref += 'static void mark(%s) {\n%s%s}\n' % (params, local, mtext)
    vals = ''.join(', %d' % v for v in k['consts'].values())
    cp = ', '.join('copy[%d]' % i for i in range(len(decls))) + vals
    sub = {'type': T, 'na': len(ext), 'main': out['m'], 'ref': ref, 'nv': len(decls), 'cl': c['cl'], 'rep': c['rep'],
           'sizes': ', '.join(str(size(k, n) if n in ext else 0) for n in decls), 'isarr': 'want[i]', 'swaps': len(k.get('swaps', ())),
           'markargs': cp, 'refargs': cp}
    with open('likwid.h', 'w') as f:
        f.write('#define likwid_markerInit()\n#define likwid_markerClose()\n#define likwid_markerRegisterRegion(x)\n'
                '#define likwid_markerStartRegion(x) mark_start()\n#define likwid_markerStopRegion(x) mark_stop()\n')
    with open('drv.c', 'w') as f:
        f.write(DRIVER % sub)
    inc = os.path.join(os.path.dirname(kerncraft.__file__), 'headers')
    gcc = ['gcc', '-std=gnu99', '-O0', '-w', '-Werror=implicit-function-declaration', '-Werror=incompatible-pointer-types',
           '-Werror=int-conversion', '-I.', '-I' + inc]
    hdr = os.path.join(os.path.dirname(out['c']), 'kernel.h')
    for cmd in (gcc + ['-c', out['c'], '-include', hdr, '-o', 'kernel.o'],
                gcc + ['drv.c', 'kernel.o', '-I' + os.path.dirname(out['m']), '-o', 'drv', '-lm']):
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=60)
        if r.returncode:
            return 'generated code does not compile: %s%s' % (r.stderr[:1500], where)
    # as models/benchmark.py passes them
    r = subprocess.run(['./drv', str(c['rep'])] + [str(v) for v in kc.constants.values()], capture_output=True, text=True,
                       timeout=60)
    if r.returncode or r.stdout != 'ok\n':
        return 'generated program: exit %d, %s (variables %s)%s' % (r.returncode, r.stdout.strip(), decls, where)
    return None
