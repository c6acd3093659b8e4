"""C18: instrumentation of assembly."""
ID = 'C18'
TITLE = 'assembly instrumentation'
LEVEL = 'proof'
ASSUMPTIONS = ['metrics of blocks are comparable like numbers', "OSACA's parser, its loop detection and its markers are trusted; blank lines are not part of the text"]
BOUNDED = ['asm_instrumentation: generated assembly of up to 8 loops, x86 (AT&T) and AArch64, all ways to choose block '
           'and increment']
TRUSTED = ['OSACA parser, find_basic_loop_bodies and get_marker']
RULE = ('generated assembly texts with nested and consecutive loops between other lines, automatic, numbered and manual '
        'choices, increments given, detected, remembered or entered; non-trivial: at least two loops or a failure')
SHARDS = 6
BUDGET = 60

X_INS = ['vmovupd (%rax), %ymm0', 'vaddpd %ymm0, %ymm1, %ymm2', 'vmulpd %xmm0, %xmm1, %xmm2', 'addpd %xmm3, %xmm4',
         'mulsd %xmm0, %xmm1', 'addsd (%rax), %xmm5', 'vfmadd213pd %zmm1, %zmm2, %zmm3', 'vfmadd132sd %xmm1, %xmm2, %xmm3',
         'movq %rbx, %rdx', 'xorl %ecx, %ecx', 'vmovups %zmm7, (%rbx)', 'vdivps %ymm8, %ymm9, %ymm10', 'subpd %xmm1, %xmm2',
         'movupd %xmm6, (%rbx)', 'nop', 'vmovapd %ymm1, %ymm2', 'movapd %xmm1, %xmm2', 'vaddps %zmm11, %zmm12, %zmm13',
         'cmpq %rsi, %rdi', '# a comment', 'vsubpd %ymm14, %ymm15, %ymm14', 'haddpd %xmm0, %xmm1', 'vdivsd %xmm1, %xmm2, %xmm3']
A_INS = ['fmul d0, d1, d2', 'fadd d1, d2, d3', 'fsub d4, d5, d6', 'fdiv d7, d8, d9', 'add x5, x6, 1', 'sub x7, x7, 1',
         'mul x9, x10, x11', 'fadd v0.2d, v1.2d, v2.2d', 'fmla v3.2d, v4.2d, v5.2d', 'ldr q0, [x1]', 'ldr d0, [x1]', 'nop',
         '// a comment', 'mov x12, x13', 'fmul z0.d, z1.d, z2.d', 'fadd z3.d, z4.d, z5.d', 'madd x1, x2, x3, x4', 'cmp x1, x2']


X_NEAR = [
    [['vaddpd %xmm1, %xmm2, %xmm3'], ['vaddpd %ymm1, %ymm2, %ymm3'], ['vaddpd %zmm1, %zmm2, %zmm3']],
    [['addpd %xmm1, %xmm2'], ['vaddpd %xmm1, %xmm2, %xmm2'], ['addsd %xmm1, %xmm2', 'nop', 'nop']],
    [['vmovapd %ymm1, %ymm2'], ['vmovapd %ymm1, %ymm1', 'nop'], ['vmovapd %ymm1, %ymm1', 'vmovapd %ymm1, %ymm1']],
    [['mulpd %xmm1, %xmm2'], ['mulpd %xmm1, %xmm1', 'nop', 'nop'], ['mulsd %xmm3, %xmm4', 'mulsd %xmm5, %xmm6']],
    [['vfmadd231pd %ymm1, %ymm2, %ymm3'], ['vxorpd %ymm1, %ymm2, %ymm3', 'nop'], ['vdivps %ymm1, %ymm2, %ymm3']],
    [['vmovapd %zmm1, %zmm1'], ['vmovapd %ymm1, %ymm2', 'vmovapd %ymm3, %ymm4'], ['vmovapd %xmm1, %xmm2', 'nop', 'nop']]]
A_NEAR = [
    [['fadd d1, d2, d3'], ['fadd v1.2d, v2.2d, v3.2d'], ['add x5, x6, 1', 'nop'], ['nop', 'nop', 'nop', 'nop']],
    [['fmul d1, d2, d3', 'nop'], ['fdiv d1, d2, d3'], ['fsub d1, d2, d3', 'sub x5, x6, 1'], ['mul x5, x6, x7', 'nop', 'nop']],
    [['ldr q0, [x1]', 'nop'], ['ldr d0, [x1]'], ['fmla v3.2d, v4.2d, v5.2d'], ['fadd z3.d, z4.d, z5.d', 'nop']]]


def body(rng, isa):
    n = rng.choice([0, 1, 2, 3, 5, 8])
    return [rng.randrange(len(X_INS if isa == 'x86' else A_INS)) for _ in range(n)]


def cases(rng, tier):
    def blocks(isa, n):
        return [{'b': body(rng, isa), 'st': rng.choice(['adv', 'adv', 'none', 'two']), 'inc': rng.choice([8, 16, 32, 64]),
                 'kind': rng.choice(['loop', 'loop', 'loop', 'cond', 'nest'])} for _ in range(n)]
    for isa in ('x86', 'aarch64'):
        # equally good loops: the first one
        for n in (2, 3):
            yield {'isa': isa, 'L': [{'b': [0, 1, 2], 'st': 'adv', 'inc': 8, 'kind': 'loop'}] * n, 'sel': 'auto', 'pi': 'auto',
                   'out': 'buf'}
        for pi in ('auto', 'auto_with_manual_fallback', 'manual', 24, 0, -8):
            for out in ('file', 'same', 'none', 'buf'):
                for st in ('adv', 'two'):
                    yield {'isa': isa, 'L': [{'b': [3], 'st': st, 'inc': 16, 'kind': 'loop'}], 'sel': 'auto', 'pi': pi,
                           'out': out, 'enter': ['x', '48']}
        yield {'isa': isa, 'L': [{'b': [3], 'st': 'two', 'inc': 16, 'kind': 'loop'}], 'sel': 'auto', 'pi': 'auto',
               'out': 'file', 'remember': 40}
    # loops that differ in one respect only, in both orders
    for isa, groups in (('x86', X_NEAR), ('aarch64', A_NEAR)):
        for g in groups:
            for a in g:
                for b in g:
                    if a != b:
                        yield {'isa': isa, 'L': [{'t': x, 'b': [], 'st': 'adv', 'inc': 8, 'kind': 'loop'} for x in (a, b)],
                               'sel': 'auto', 'pi': 64, 'out': 'none'}
    for k in range(90 if tier == 'quick' else 1500):
        isa = 'aarch64' if k % 2 else 'x86'
        n = rng.choice([1, 2, 3, 4, 6, 8])
        L = blocks(isa, n)
        if rng.random() < .3:
            # almost equal loops
            b = body(rng, isa)
            for x in L:
                x['b'] = list(b)
            rng.choice(L)['b'] = b + [rng.randrange(len(A_INS))]
        sel = rng.choice(['auto', 'auto', 'auto', 'int', 'manual'])
        yield {'isa': isa, 'L': L, 'sel': sel, 'idx': rng.randrange(n), 'pi': rng.choice(
            ['auto', 'auto', 'auto_with_manual_fallback', 'manual', 24, 0, -8, 4096]), 'out': rng.choice(['buf', 'file', 'none']),
            'enter': rng.choice([['48'], ['x', '48'], ['-16'], ['7', '8']]), 'pre': rng.random() < .8,
            'indent': rng.choice(['', '\t', '    ']), 'remember': rng.choice([None, None, 40])}


def trivial(c):
    return len(c['L']) == 1 and c['L'][0]['st'] == 'adv'


def text(c):
    x86 = c['isa'] == 'x86'
    ins = X_INS if x86 else A_INS
    ind = c.get('indent', '\t')
    t = []
    if c.get('pre', True):
        t += ['\t.file "kernel.c"', '\t.text', '', '# header' if x86 else '// header', '\t.globl main', 'main:',
              '\tpushq %rbp' if x86 else '\tstp x29, x30, [sp, -16]!', '']

    def mem(b):
        i = b['inc']
        if x86:
            s = ['movsd %xmm0, (%r12)', 'addq $%d, %%r12' % i]
            if b['st'] == 'two':
                s += ['movsd %xmm0, (%r13)', 'addq $%d, %%r13' % (i + 8)]
        else:
            s = ['str d0, [x20], %d' % i]
            if b['st'] == 'two':
                s += ['str d0, [x21], %d' % (i + 8)]
        return [] if b['st'] == 'none' else s
    for n, b in enumerate(c['L']):
        lab = '.L%d' % (10 + n)
        jmp = ['jl %s'] if x86 else ['bne %s']
        if b['kind'] == 'nest':
            t += ['.LO%d:' % n, ind + ('movq $0, %rcx' if x86 else 'mov x14, 0')]
        if b['kind'] == 'cond':
            t += [ind + ('je .LX%d' if x86 else 'beq .LX%d') % n]
        t.append(lab + ':')
        t += [ind + ins[i % len(ins)] for i in b['b']] + [ind + x for x in b.get('t', [])]
        t += [ind + m for m in mem(b)]
        t += [ind + ('cmpq %r12, %r15' if x86 else 'cmp x20, x22'), ind + jmp[0] % lab]
        if b['kind'] == 'nest':
            t += [ind + ('addq $1, %r8' if x86 else 'add x15, x15, 1'), ind + ('jne .LO%d' if x86 else 'bne .LO%d') % n]
        if b['kind'] == 'cond':
            t += ['.LX%d:' % n, ind + 'nop']
        t += ['', ind + 'nop'] if n % 2 else []
    t += ['\tret', '\t.size main, .-main']
    return '\n'.join(t) + '\n'


def metric(isa, block):
    """Specification of the metric of a loop."""
    import re
    from osaca.parser.register import RegisterOperand
    ins = [l for l in block if l.mnemonic is not None]
    regs = [o for l in ins for o in l.operands if isinstance(o, RegisterOperand)]
    if isa == 'x86':
        packed = [l.mnemonic for l in ins
                  if re.match(r'v?(movu|mul|add|sub|div|fmadd(132|213|231)?)h?p[ds]', l.mnemonic)]
        names = {o.name for o in regs}
        return (len(packed), sum(m.startswith('v') for m in packed)) + tuple(
            sum(n.startswith(p) for n in names) for p in ('zmm', 'ymm', 'xmm')) + (len(ins),)
    return (sum(o.prefix in ('z', 'v') for o in regs if o.prefix),
            sum(l.mnemonic in ('fmul', 'fdiv', 'fadd', 'fsub') for l in ins),
            sum(l.mnemonic in ('add', 'sub', 'mul') for l in ins), len(ins))


def check(c):
    import builtins
    import contextlib
    import io
    import os
    import shutil
    import tempfile
    from kerncraft import incore_model as im
    from .common import fast_osaca
    fast_osaca()
    from osaca.semantics.marker_utils import find_basic_loop_bodies
    isa = c['isa']
    code = text(c)
    parsed = im.parse_asm(code, isa, 'csx' if isa == 'x86' else 'a64fx')
    loops = find_basic_loop_bodies(parsed)
    if not loops:
        return 'internal: no loops'
    tmp = tempfile.mkdtemp(prefix='kc_c18_')
    home, inp = os.environ.get('HOME'), builtins.input
    os.environ['HOME'] = tmp
    prompts = []

    def fake_input(prompt=''):
        prompts.append(prompt)
        if 'block' in prompt:
            return list(loops)[c['idx'] % len(loops)]
        return c['enter'][min(len([p for p in prompts if 'block' not in p]) - 1, len(c['enter']) - 1)]
    try:
        builtins.input = fake_input
        labels = list(loops)
        if c['sel'] == 'auto':
            ms = [metric(isa, loops[l]) for l in labels]
            lab = labels[ms.index(max(ms))]
            sel = 'auto'
        elif c['sel'] == 'int':
            lab = labels[c['idx'] % len(labels)]
            sel = c['idx'] % len(labels)
        else:
            lab = labels[c['idx'] % len(labels)]
            sel = 'manual'
        want = loops[lab]
        if c.get('remember'):
            im.store_increment_to_cache(want, c['remember'])
        detected = im.ISA.get_isa(isa).get_pointer_increment(want)
        path = os.path.join(tmp, 'k.s')
        out = None
        src = io.StringIO(code)
        if c['out'] == 'buf':
            out = io.StringIO()
            out.name = os.path.join(tmp, 'buffer.s')
            open(out.name, 'w').close()
        elif c['out'] == 'file':
            out = open(path, 'w')
        elif c['out'] == 'same':
            with open(path, 'w') as f:
                f.write(code)
            out = src = open(path, 'r+')
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                r = im.asm_instrumentation(src, out, block_selection=sel, pointer_increment=c['pi'], isa=isa)
            except RuntimeError as e:
                r = e
        entered = int(c['enter'][0] if c.get('enter') and c['enter'][0].lstrip('-').isdigit() else 48) \
            if c.get('enter') else None
        if c.get('enter') and not c['enter'][0].lstrip('-').isdigit() and detected is not None and c['pi'] == 'manual':
            entered = detected        # unreadable input: the default
        if isinstance(c['pi'], int):
            inc = c['pi']
        elif c['pi'] == 'auto':
            inc = detected
        elif c['pi'] == 'auto_with_manual_fallback':
            inc = detected if detected is not None else entered
        else:
            inc = entered
        what = 'instrumentation (%s, %s) of\n%s' % (c['sel'], c['pi'], code)
        if isinstance(r, Exception):
            if c['pi'] != 'auto' or detected is not None:
                return '%s\nfailed: %s' % (what, r)
            if out is not None and os.path.exists(out.name):
                return '%s\nfailed, but its output remains' % what
            return None
        if c['pi'] == 'auto' and detected is None:
            return '%s\nreturned %r although nothing is detected' % (what, r[1])
        block, pi = r
        if [l.line for l in block] != [l.line for l in want] or [l.line_number for l in block] != [l.line_number for l in want]:
            return '%s\nselects %r (metric %r) instead of %r (metric %r)' % (
                what, block[0].line, metric(isa, block), want[0].line, metric(isa, want))
        if pi != inc:
            return '%s\nreturns increment %r instead of %r' % (what, pi, inc)
        if out is None:
            return None
        if c['out'] == 'buf':
            got = out.getvalue()
        else:
            out.close()
            got = open(path).read()
        # specification of the output
        ilines = [l for l in code.split('\n') if l.strip()]
        first = len([l for l in code.split('\n')[:want[0].line_number - 1] if l.strip()])
        last = len([l for l in code.split('\n')[:want[-1].line_number] if l.strip()])
        glines = [l for l in got.split('\n') if l.strip()]
        extra = len(glines) - len(ilines)
        if glines[:first] != ilines[:first]:
            return '%s\nchanges the lines before the block:\n%s' % (what, got)
        tail = len(ilines) - last
        if tail and glines[-tail:] != ilines[last:]:
            return '%s\nchanges the lines after the block:\n%s' % (what, got)
        mid = glines[first:len(glines) - tail]
        blk = ilines[first:last]
        pos = [i for i in range(len(mid) - len(blk) + 1) if mid[i:i + len(blk)] == blk]
        if len(pos) != 1:
            return '%s\nchanges the block:\n%s' % (what, got)
        start, end = mid[:pos[0]], mid[pos[0] + len(blk):]
        n1, n2 = ('111', '222')
        if not start or not end or n1 not in start[0] or n2 not in end[0] or any(n2 in l for l in start[:1]):
            return '%s\nlacks markers directly around the block:\n%s' % (what, got)
        if isa == 'x86':
            ok = [l.split('#')[0].split() for l in start if l.split('#')[0].strip()][0][0].startswith('mov') and \
                sum('.byte' in l for l in start) in (1, 3) and sum('.byte' in l for l in end) in (1, 3)
        else:
            ok = 'mov' in start[0] and sum('.byte' in l for l in start) == 1 and sum('.byte' in l for l in end) == 1
        if not ok:
            return '%s\nhas malformed markers:\n%s' % (what, got)
        if not any('pointer_increment=%d' % pi == w for l in start for w in l.replace('#', ' ').replace('//', ' ').split()):
            return '%s\ndoes not record increment %r:\n%s' % (what, pi, got)
        return None
    finally:
        builtins.input = inp
        if home is not None:
            os.environ['HOME'] = home
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------ proofs
class _Blocks(object):
    """Ordered mapping of any number of labels to blocks; labels and blocks are known by their position only."""
    def __init__(self, n):
        self.n = n

    def __bool__(self):
        return bool(self.n > 0)

    def vlen(self):
        return self.n

    def keys(self):
        from engine.core import SAtom, sint
        from engine.cont import VList
        return VList.sym(self.n, lambda i: SAtom(sint(i)))

    __vseq__ = keys

    def values(self):
        from engine.core import mk, sint
        from engine.cont import VList
        return VList.sym(self.n, lambda i: mk(sint(i), 'int'))

    def items(self):
        from engine.core import SAtom, mk, sint
        from engine.cont import VList
        return VList.sym(self.n, lambda i: (SAtom(sint(i)), mk(sint(i), 'int')))

    def __getitem__(self, k):
        from engine.core import mk
        return mk(k.t, 'int')


def proof_select(S):
    """ISA.select_best_block: any number of blocks, any metric (of both instruction sets)."""
    import z3
    from engine import instr
    from engine.core import mk, sint, SAtom
    S.cut_hints.append('select_best_block')
    I, R = z3.IntSort(), z3.RealSort()
    M, K = S.func('metric', I, R), S.func('best', I, I)

    def rec(k):
        for i in (k, z3.simplify(k + 1)):
            S.define(z3.Implies(i == 0, K(i) == 0))
            S.define(z3.Implies(i > 0, K(i) == z3.If(M(i) > M(K(i - 1)), i, K(i - 1))))
            S.define(z3.Implies(i >= 0, z3.And(K(i) >= 0, K(i) <= i)))

    def induction(S):
        k, j = sint(S.int('k')), sint(S.int('j'))
        S.assume(z3.And(k >= 0, j >= 0))
        S.check('base', z3.Implies(z3.And(K(0) == 0, k == 0, j <= k), z3.And(M(j) <= M(K(0)), z3.Not(j < K(0)))))
        S.assume(z3.And(K(k) >= 0, K(k) <= k))
        S.assume(z3.Implies(j <= k, M(j) <= M(K(k))))
        S.assume(z3.Implies(j < K(k), M(j) < M(K(k))))
        S.assume(K(k + 1) == z3.If(M(k + 1) > M(K(k)), k + 1, K(k)))
        S.check('the best is one of the blocks', z3.And(K(k + 1) >= 0, K(k + 1) <= k + 1))
        S.check('no block exceeds it', z3.Implies(j <= k + 1, M(j) <= M(K(k + 1))))
        S.check('every block before it is worse', z3.Implies(j < K(k + 1), M(j) < M(K(k + 1))))
    S.run(induction, 'first best block, by induction')

    def hint(L, slot, i, kind):
        # the blocks seen after kk iterations of a loop over the last L.n blocks
        def f(kk, what):
            k = z3.simplify(kk + total[0] - L.n - 1)
            rec(k)
            return what(K(z3.If(k < 0, 0, k)))
        if kind == 'int':
            return lambda kk: mk(f(kk, lambda b: b), 'int')
        if kind == 'float':
            return lambda kk: mk(f(kk, M), 'float')
        if kind in ('atom', 'str'):
            return lambda kk: SAtom(f(kk, lambda b: b))
    total = [None]

    for isa in ('ISA', 'x86', 'AArch64'):
        def go(S):
            m = instr.load('kerncraft/incore_model.py')
            n = S.int('blocks')
            S.assume(n >= 0)
            cls = getattr(m, isa)
            cls.compute_block_metric = staticmethod(lambda b: mk(M(sint(b)), 'float'))
            total[0] = sint(n)
            S.closed_hints[:] = [hint]
            S.example[:] = [n == 2]
            if bool(n == 0):
                try:
                    cls.select_best_block(_Blocks(n))
                except ValueError:
                    return
                S.fail('no block to choose from, but no error')
                return
            r = cls.select_best_block(_Blocks(n))
            k = sint(n) - 1
            rec(k)
            # the lemma above
            S.define(z3.Implies(z3.And(r.t >= 0, r.t <= k), z3.And(
                M(r.t) <= M(K(k)), z3.Implies(r.t < K(k), M(r.t) < M(K(k))))))
            S.check('the first block whose metric no other exceeds', r == SAtom(K(sint(n) - 1)))
        S.run(go, isa + '.select_best_block')


PROOFS = [('select', proof_select, ['ISA.select_best_block'])]
