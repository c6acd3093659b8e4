"""C07: accesses, operations and loops recorded from kernel code."""
from . import kgen

ID = 'C07'
TITLE = 'recorded accesses, operations and loops'
LEVEL = 'exploration'
ASSUMPTIONS = ['kernels are valid C within one block (every name declared, subscripts as many as dimensions)',
               'comparison and shift operators in right hand sides are not judged']
BOUNDED = ['KernelCode on generated kernels of up to 3 loops, 4 arrays of up to 3 dimensions and 3 statements, and on '
           'those kernels with one of the listed constructs outside of the subset put in']
TRUSTED = ['pycparser', 'sympy']
RULE = ('random kernels in many layouts compared with the data they were written from, and each with one of about 90 '
        'constructs outside of the subset; non-trivial: more than one read reference or a construct to refuse')
SHARDS = 6
PROOFS = []

# construct: (what is replaced, by what); {x} are parts of the kernel's text
HEAD = ['i<=N', 'i>N', 'i!=N', 'i>=N', 'N>i', 'N<i', 'i+1<N', 'j<N', 'i<f(N)', 'i<N/2', 'i<N%4', 'i<-N', 'i<(int)N', 'i<N*1.5',
        'i<(N-1)/2', 'i<N && i<M', 'i<a[0]', 'i<N?N:M', '', 'i', 'i<012', 'i<10L', 'i<10u', 'i<N<<1', '!i', 'i<sizeof(N)',
        'i<1e3', "i<'c'", 'i<(N-1, N)', 'i<N|1', 'i<2.0']
NEXT = ['--i', 'i--', 'i-=1', 'i*=2', 'i=i+1', 'i+=N', 'j++', '++j', 'j+=1', '', 'i', 'i++, j++', 'i+=1.5', 'i+=i', '-i',
        'i+=2-1', 'i<<=1', 'a[i]++', 'i+=010', 'i+=-1']
INIT = ['i=0', 'int i=0, j=0', '', 'int i', 'int i=-1', 'int i=f(0)', 'int i=N/2', 'int i=010', 'int i=1.5', 'int j=0',
        'int i=(int)0', 'int i=a[0]', 'int i=N%2']
BODY = ['if(i<3) a[i] = b[i];', 'while(0) a[i] = b[i];', '{ a[i] = b[i]; }', 'double t = b[i];', 'a[i] = f(b[i]);',
        'a[i] = i ? b[i] : s;', 'a[i] = (float)b[i];', 'a[i] = (b[i], s);', 'a[i] = b[i] = s;', '*a = s;', 'a[i] = *b;',
        'a[i] = &s;', 'a[i] = q.x;', 'a[i] = p->x;', 'a[b[i]] = s;', 'a[i] = b[a[i]];', 'a[-i] = s;', 'a[i++] = s;',
        'a[f(i)] = s;', 'a[i] = b[i/2];', 'a[i] = b[i%4];', 'a[i] = !b[i];', 'a[i] = ~b[i];', 'a[i] = +b[i];',
        'a[i] = sizeof(s);', 'i++;', 'a[i]++;', ';', 'break;', 'continue;', 'return;', 'f(a[i]);', 'foo: a[i] = s;',
        'a[i];', 's;', 'a[(int)i] = s;', 'a[i, 0] = s;', 'a[i].x = s;', 'a[i] = b[i]++ + f(s);',
        'a[i] = b[010];', 'a[i] = b[i<<1];', 'a[i<3] = s;', 'a[i] = b[2.0];', '*(a+i) = s;', 'a[i] = (b+i)[0];',
        'double a[3];', 'do { a[i] = s; } while(0);', 'switch(i) { case 0: a[i] = s; }', 'a[i] = -f(s);',
        'a[i] = (s+1)++;', 'for(int q=0; q<3; ++q) a[i] = s; a[i] = s;', 'a[i] = s; for(int q=0; q<3; ++q) a[i] = s;',
        'for(int q=0; q<3; ++q) a[i] = s; for(int r=0; r<3; ++r) a[i] = s;', 'goto x; x: a[i] = s;', '', 'swap(a, b);',
        'a[i=0] = s;', 'a[i] = b[i] += s;', 'a[i] = b[N?1:0];', 'a[i] = s; if(s) a[i] = s;', 'a[i] = (double){0.0};',
        'i = 3;', 'i += 1;', 'a[i] = i++;', 'N = 5; a[i] = s;', 'a[i] = b[i] + --i;']
TOP = ['for(int q=0; q<N; ++q) a[q] = s;', 's = 1.0;', 'if(N) s = 1.0;', 'f(a);', 'double z;', 'int z;', 'while(0);', 'a[0] = s;',
       'return;', '{}', ';', 'copy(a, b);', 'do ; while(0);', 'goto x;', 's;', 'swap;', 's = swap(a, b);']
DECL = ['double *p;', 'int n;', 'long double x;', 'struct q x;', 'double x[];', 'double x[010];', 'double x[N/2];',
        'double x[-N];', 'double *x[N];', 'double x();', 'typedef double T;', 'unsigned u;', 'char c[N];', 'double x[N%3];',
        'double x[f(3)];', 'float x;', 'float y[N];', 'double x[3.0];', 'double x[10L];', 'void *v;', 's = 1.0;', 'f(a);',
        ';', 'struct q { double x; };', 'enum e { A };', 'long x;', 'double x[N<<1];', 'double (*x)[3];', 'double _Complex x;',
        'double x[3], *y;', 'double x[N][M/2];']
BREAK = ['} void g() {', '} int z; void g() {', '} double z = 1.0; void g() { double y;']
TEMPLATE = ('double a[N], b[N], s;\n%(decl)s\n%(pre)s\nfor(%(init)s; %(cond)s; %(next)s) {\n%(body)s\n}\n%(post)s\n')
NESTED = ('double a[N], b[N], s;\n%(decl)s\nfor(int k=0; k<M; ++k) {\n%(pre2)sfor(%(init)s; %(cond)s; %(next)s) '
          '{\n%(body)s\n}\n%(post2)s}\n%(post)s\n')
GOOD = {'decl': '', 'pre': '', 'init': 'int i=0', 'cond': 'i<N', 'next': '++i', 'body': 'a[i] = b[i]*s;', 'post': '',
        'pre2': '', 'post2': ''}


def faults():
    for p, l in (('cond', HEAD), ('next', NEXT), ('init', INIT), ('body', BODY), ('post', TOP), ('decl', DECL)):
        for v in l:
            yield p, v
    for v in TOP:
        if v not in ('double z;', ';', '{}'):
            yield 'pre', v
    for v in BREAK:
        yield 'pre', v
        yield 'post', v
    yield 'pre2', 's = 1.0;\n'
    yield 'pre2', 'double t;\n'
    yield 'post2', 'a[0] = s;\n'
    yield 'post2', 'f(s);\n'
    yield 'pre2', 'for(int q=0; q<3; ++q) a[q] = s;\n'
    yield 'post2', 'for(int q=0; q<3; ++q) a[q] = s;\n'


def cases(rng, tier):
    for p, v in faults():
        yield {'f': p, 'v': v}
    yield {'t': 'double a[N], s;\n'}
    yield {'t': ''}
    yield {'t': 'double a[N];\n#pragma omp for\n'}
    yield {'t': 'for(int i=0; i<N; ++i) a[i] = 1.0'}
    for _ in range(700 if tier == 'quick' else 20000):
        k = kgen.rand(rng)
        if rng.random() < .15 and len(k['arrays']) > 1:
            k['swaps'] = [rng.sample(list(k['arrays']), 2)]
        yield {'k': k}


def trivial(c):
    if 'k' not in c:
        return False
    dst, src, ops = kgen.accesses(c['k'])
    return sum(len(v) for v in src.values()) < 2


def refused(t):
    from .common import kernel_code, machine
    try:
        k = kernel_code(t, machine())
    except BaseException as e:
        if isinstance(e, (SyntaxError, MemoryError, KeyboardInterrupt)):
            raise
        return None
    return k


def check(c):
    from .common import machine, kernel_code
    if 't' in c:
        return None if refused(c['t']) is None else 'accepted: %r' % c['t']
    if 'f' in c:
        for tpl in (TEMPLATE, NESTED):
            if '%%(%s)s' % c['f'] not in tpl:
                continue
            t = tpl % dict(GOOD, **{c['f']: c['v']})
            k = refused(t)
            if k is not None:
                return 'outside of the subset, but accepted: %s\nrecorded: %r %r %r %r' % (
                    t, list(k.get_loop_stack()), k.destinations, k.sources, k._flops)
        return None
    k = c['k']
    t = kgen.text(k)
    kc = kernel_code(t, machine())
    where = '\n' + t
    ls = list(kc.get_loop_stack())
    if len(ls) != len(k['loops']):
        return 'loop nest of depth %d recorded as %r%s' % (len(k['loops']), ls, where)
    for r, l in zip(ls, k['loops']):
        if str(r['index']) != l['i']:
            return 'loop %s recorded as %r%s' % (l['i'], r, where)
        for f, v in (('start', l['s']), ('stop', l['e']), ('increment', l['st'])):
            if kgen.poly_sympy(r[f]) != kgen.poly(v):
                return '%s %s of loop %s recorded as %r%s' % (f, kgen.itext(v), l['i'], r[f], where)
    want = {n: d for n, d in k['arrays'].items()}
    want.update({n: None for n in k['scalars']})
    if set(kc.variables) != set(want):
        return 'variables %s recorded as %s%s' % (sorted(want), sorted(kc.variables), where)
    for n, d in want.items():
        ty, dims = kc.variables[n]
        if ' '.join(ty) != k['type']:
            return '%s of type %s recorded as %r%s' % (n, k['type'], ty, where)
        if (dims is None) != (d is None) or d is not None and \
                [kgen.poly_sympy(x) for x in dims] != [kgen.poly(x) for x in d]:
            return 'extents of %s recorded as %r%s' % (n, dims, where)
    if ' '.join(kc.datatype) != k['type']:
        return 'data type %s recorded as %r%s' % (k['type'], kc.datatype, where)
    dst, src, ops = kgen.accesses(k)
    for name, got, w in (('written', kc.destinations, dst), ('read', kc.sources, src)):
        g = {str(n): {None if a is None else tuple(kgen.frozen(kgen.poly_sympy(x)) for x in a) for a in acc}
             for n, acc in got.items() if acc}
        if g != w:
            return '%s references are %r, recorded as %r%s' % (name, w, got, where)
        for n, acc in got.items():
            # one record per reference, however often it occurs (forms sympy does not unify may remain apart)
            if isinstance(acc, (list, tuple)) and len(set(acc)) != len(acc):
                return '%s references of %s recorded repeatedly: %r%s' % (name, n, acc, where)
    if {o: n for o, n in kc._flops.items() if n} != ops:
        return 'operations %r recorded as %r%s' % (ops, kc._flops, where)
    # flattened form of every reference
    for n, acc in list(kc.sources.items()) + list(kc.destinations.items()):
        if str(n) not in k['arrays']:
            continue
        for a in acc:
            f = kgen.poly_sympy(kc.access_to_sympy(n, a))
            e = 0
            for d, i in zip(k['arrays'][n], a):
                e = e * _sym(d) + i
            if f != kgen.poly_sympy(e):
                return 'flattened reference %s%r recorded as %r%s' % (n, a, kc.access_to_sympy(n, a), where)
    return None


def _sym(e):
    from kerncraft.kernel import symbol_pos_int
    import sympy
    if isinstance(e, int):
        return sympy.Integer(e)
    if isinstance(e, str):
        return symbol_pos_int(e)
    a, b = _sym(e[1]), _sym(e[2])
    return a + b if e[0] == '+' else a - b if e[0] == '-' else a * b
