"""C19: detected pointer increments against an emulator of the loop body."""
import itertools

ID = 'C19'
TITLE = 'pointer increment detection'
LEVEL = 'proof'
ASSUMPTIONS = ['registers hold values for which no addition wraps around; 8 and 16 bit register operations are not used',
               "OSACA's parser and its classification of read and written operands are trusted",
               'references through different registers do not alias', 'references whose address does not change are not relevant '
               '(AArch64: nor are stores at symbolic offsets; x86: nor are stores relative to the instruction pointer)']
ASSUMPTIONS += ['the proof covers all bodies of one or two array accesses and up to three register updates of the kinds listed in '
                'the contract (with any immediates, offsets and register contents), not longer ones']
BOUNDED = ['get_pointer_increment of x86 and AArch64: generated loop bodies of up to 9 instructions, run by an emulator '
           'on random register contents']
TRUSTED = ['OSACA parser and semantics']
RULE = ('batches of generated loop bodies per instruction set and syntax, each emulated on several random states; every '
        'body is also looked up in a cache with other, outdated and malformed entries')
SHARDS = 6
BUDGET = 60

XR = ['rax', 'rbx', 'rcx', 'rdx', 'rsi', 'rdi', 'r8', 'r9', 'r14']
E32 = {'rax': 'eax', 'rbx': 'ebx', 'rcx': 'ecx', 'rdx': 'edx', 'rsi': 'esi', 'rdi': 'edi', 'r8': 'r8d', 'r9': 'r9d',
       'r14': 'r14d'}
AR = ['x1', 'x2', 'x3', 'x8', 'x9', 'x10', 'x12']

# bodies which have to be detected (documented forms)
SURE = [
    ('x86', [['st', [0, 'rax', None, 1], 0], ['addi', 'rax', 32]], 32),
    ('x86', [['st', [0, 'rax', 'rcx', 8], 0], ['addi', 'rcx', 4]], 32),
    ('x86', [['st', [8, 'rax', 'rcx', 8], 0], ['inc', 'rcx']], 8),
    ('x86', [['st', [8, 'rax', 'rcx', 4], 0], ['dec', 'rcx']], -4),
    ('x86', [['st', [8, 'rax', 'rcx', 1], 0], ['subi', 'rcx', 16]], -16),
    ('x86', [['st', [0, 'rax', None, 1], 0], ['lea', 'rax', [24, 'rax', None, 1]]], 24),
    ('x86', [['ld', [0, 'rax', None, 1], 0], ['addi', 'rax', 64]], 64),
    ('x86', [['ld', [0, 'rbx', None, 1], 0], ['st', [0, 'rax', None, 1], 0], ['addi', 'rax', 64], ['addi', 'rbx', 8]], 64),
    ('x86', [['st', [0, 'rax', 'rdx', 1], 0], ['addi', 'rax', 64], ['addi', 'rdx', 8]], 72),
    ('aarch64', [['st', {'b': 'x1'}], ['addi', 'x1', 'x1', 16]], 16),
    ('aarch64', [['st', {'b': 'x1', 'post': 8}]], 8),
    ('aarch64', [['st', {'b': 'x1', 'o': 8, 'pre': True}]], 8),
    ('aarch64', [['st', {'b': 'x1', 'x': 'x2', 's': 3}], ['addi', 'x2', 'x2', 2]], 16),
    ('aarch64', [['ld', {'b': 'x1', 'x': 'x2', 's': 3}], ['addi', 'x2', 'x2', 1]], 8),
    ('aarch64', [['st', {'b': 'x1', 'x': 'x2'}], ['addi', 'x2', 'x2', 8]], 8),
]


def xmem(rng, regs):
    r = rng.random()
    off = rng.choice([0, 0, 8, -8, 16, 64, -2400, 1024])
    if r < .45:
        return [off, rng.choice(regs), None, 1]
    if r < .9:
        return [off, rng.choice(regs), rng.choice(regs), rng.choice([1, 1, 2, 4, 8, 8])]
    if r < .95:
        return [off, None, rng.choice(regs), rng.choice([1, 4, 8])]
    return [off, 'rsp', None, 1]


def xbody(rng):
    regs = rng.sample(XR, rng.choice([1, 2, 2, 3, 4]))
    body = []
    mems = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        m = xmem(rng, regs)
        if mems and rng.random() < .3:
            m = list(rng.choice(mems))
            m[0] += 8
        mems.append(m)
        r = rng.random()
        body.append(['st', m, rng.randrange(4)] if r < .5 else ['ld', m, rng.randrange(4)] if r < .75 else
                    ['vop', m, rng.randrange(4)] if r < .9 else ['rmw', m, rng.choice([1, 5])])
    imm = rng.choice([1, 2, 4, 8, 16, 32, 64, 100, -8, -1, 0x40])
    for reg in regs:
        if rng.random() < .75:
            i = imm if rng.random() < .6 else rng.choice([1, 2, 8, 16, 32, -4])
            body.append(rng.choice([['addi', reg, i], ['addi', reg, i], ['addi', reg, i], ['subi', reg, i], ['inc', reg],
                                    ['dec', reg], ['lea', reg, [i, reg, None, 1]], ['lea', reg, [i, None, reg, 1]],
                                    ['addi32', reg, abs(i)], ['inc32', reg]]))
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        a, b = rng.choice(regs), rng.choice(XR)
        c = rng.choice(XR)
        body.append(rng.choice([
            ['addi', a, 8], ['addr', a, b], ['movr', a, b], ['movr', b, a], ['lea', a, [8, b, None, 1]],
            ['lea', a, [0, a, b, 8]], ['lea', a, [8, a, a, 1]], ['lea', a, [8, None, a, 2]], ['shl', a, 1], ['xor', b, c],
            ['imul', a, 3], ['cmp', a, b], ['ldg', b, [8, 'rsp', None, 1]], ['ldg', a, [16, 'rsp', None, 1]],
            ['stg', [8, 'rsp', None, 1], b], ['stg', [16, 'rsp', None, 1], a], ['ldg', a, [0, a, None, 1]],
            ['subi', a, 8], ['inc', a], ['addr', b, a], ['ldg', a, [0, 'rip', None, 1]], ['rmw', [16, 'rsp', None, 1], 8],
            ['sti', [0, 'rip', None, 1], 0], ['and', a, -8], ['subr', a, b], ['addm', a, [8, 'rsp', None, 1]],
            ['lea', b, [0, a, None, 1]], ['movi', a, 5], ['xor', a, a]]))
    rng.shuffle(body)
    return body


def amem(rng, regs):
    r = rng.random()
    b = rng.choice(regs)
    if r < .3:
        return {'b': b, 'o': rng.choice([0, 8, 16, -8])}
    if r < .6:
        return {'b': b, 'x': rng.choice(regs), 's': rng.choice([0, 2, 3, 3])}
    if r < .8:
        return {'b': b, 'post': rng.choice([8, 16, -8, 32])}
    if r < .95:
        return {'b': b, 'o': rng.choice([8, 16, -8, 32]), 'pre': True}
    return {'b': b}


def abody(rng):
    regs = rng.sample(AR, rng.choice([1, 2, 2, 3]))
    body = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        m = amem(rng, regs)
        body.append([rng.choice(['st', 'st', 'ld', 'stp', 'ldp'] if 'x' not in m else ['st', 'ld']), m])
    imm = rng.choice([1, 2, 8, 16, 32, 64])
    for reg in regs:
        if rng.random() < .6:
            i = imm if rng.random() < .6 else rng.choice([1, 8, 16, 32])
            body.append(rng.choice([['addi', reg, reg, i], ['addi', reg, reg, i], ['subi', reg, reg, i],
                                    ['adds', reg, reg, i]]))
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        a, b, c = rng.choice(regs), rng.choice(AR), rng.choice(AR)
        body.append(rng.choice([
            ['addi', a, a, 8], ['addi', a, b, 8], ['addr', a, b, c], ['addr', a, a, c], ['subr', a, b, c], ['subr', a, c, b],
            ['lsl', a, b, 3], ['lsl', a, a, 1], ['lsl', b, a, 3], ['mov', a, b], ['mov', b, a], ['ldx', a, {'b': 'sp', 'o': 8}],
            ['ldx', b, {'b': 'sp', 'o': 8}], ['stx', a, {'b': 'sp', 'o': 8}], ['stx', b, {'b': 'sp', 'o': 16}],
            ['addlsl', a, b, c, 3], ['addlsl', a, a, c, 3], ['cmp', a, b], ['subi', a, a, 8], ['movi', a, 5],
            ['addr', b, a, c], ['addr', a, b, b], ['ldx', a, {'b': a, 'o': 0}], ['subi', b, b, 1], ['lsl', a, b, 2],
            ['stx', a, {'b': a, 'post': 8}]]))
    rng.shuffle(body)
    return body


def cases(rng, tier):
    yield {'isa': 'x86', 'syn': 'att', 'bodies': [b for i, b, _ in SURE if i == 'x86'],
           'sure': [d for i, b, d in SURE if i == 'x86']}
    yield {'isa': 'x86', 'syn': 'intel', 'bodies': [b for i, b, _ in SURE if i == 'x86'],
           'sure': [d for i, b, d in SURE if i == 'x86']}
    yield {'isa': 'aarch64', 'syn': '', 'bodies': [b for i, b, _ in SURE if i != 'x86'],
           'sure': [d for i, b, d in SURE if i != 'x86']}
    for k in range(18 if tier == 'quick' else 300):
        if k % 3 == 2:
            yield {'isa': 'x86', 'syn': 'att' if k % 2 else 'intel', 'bodies': [xbody(rng) for _ in range(60)]}
        else:
            yield {'isa': 'aarch64' if k % 3 else 'x86', 'syn': 'att',
                   'bodies': [(abody if k % 3 else xbody)(rng) for _ in range(80)]}


# ---------------------------------------------------------------- text and emulation
def xtext(i, syn):
    att = syn == 'att'

    def R(r):
        return '%' + r if att else r

    def I(v):
        return '$%d' % v if att else '%d' % v

    def M(m, size='QWORD'):
        off, b, x, s = m
        if att:
            if b == 'rip':
                return 'var(%rip)'
            t = str(off) if off else ''
            if x is None:
                return '%s(%%%s)' % (t, b)
            return '%s(%s,%%%s%s)' % (t, '%' + b if b else '', x, ',%d' % s if s != 1 or not b else '')
        if b == 'rip':
            return '%s PTR var[rip]' % size
        e = [b] if b else []
        if x:
            e.append('%s*%d' % (x, s))
        return '%s PTR [%s%s]' % (size, '+'.join(e), '%+d' % off if off else '')

    def O(mn, *ops, sfx='q'):
        # operands given destination last
        ops = list(ops)
        if not att:
            ops.reverse()
        return '%s%s %s' % (mn, sfx if att else '', ', '.join(ops))
    o = i[0]
    V = lambda n: R('ymm%d' % n)
    if o == 'addi':
        return O('add', I(i[2]), R(i[1]))
    if o == 'subi':
        return O('sub', I(i[2]), R(i[1]))
    if o == 'addi32':
        return O('add', I(i[2]), R(E32[i[1]]), sfx='l')
    if o == 'inc32':
        return O('inc', R(E32[i[1]]), sfx='l')
    if o in ('inc', 'dec'):
        return O(o, R(i[1]))
    if o == 'lea':
        return O('lea', M(i[2]) if att else M(i[2])[len('QWORD PTR '):], R(i[1]))
    if o == 'movr':
        return O('mov', R(i[2]), R(i[1]))
    if o == 'movi':
        return O('mov', I(i[2]), R(i[1]))
    if o in ('addr', 'subr'):
        return O(o[:3], R(i[2]), R(i[1]))
    if o == 'addm':
        return O('add', M(i[2]), R(i[1]))
    if o == 'xor':
        return O('xor', R(i[2]), R(i[1]))
    if o == 'and':
        return O('and', I(i[2]), R(i[1]))
    if o == 'shl':
        return O('shl' if att else 'shl', I(i[2]), R(i[1]))
    if o == 'imul':
        return O('imul', I(i[2]), R(i[1]), R(i[1]))
    if o == 'cmp':
        return O('cmp', R(i[2]), R(i[1]))
    if o == 'ldg':
        return O('mov', M(i[2]), R(i[1]))
    if o == 'stg':
        return O('mov', R(i[2]), M(i[1]))
    if o == 'rmw':
        return O('add', I(i[2]), M(i[1]))
    if o in ('st', 'sti'):
        return O('vmovupd', V(i[2]), M(i[1], 'YMMWORD'), sfx='')
    if o == 'ld':
        return O('vmovupd', M(i[1], 'YMMWORD'), V(i[2]), sfx='')
    if o == 'vop':
        return O('vaddpd', M(i[1], 'YMMWORD'), V(i[2]), V(i[2]), sfx='')
    raise AssertionError(o)


def atext(i):
    def M(m):
        if 'post' in m:
            return '[%s], %d' % (m['b'], m['post'])
        if m.get('pre'):
            return '[%s, %d]!' % (m['b'], m['o'])
        if 'x' in m:
            return '[%s, %s%s]' % (m['b'], m['x'], ', lsl %d' % m['s'] if m.get('s') else '')
        return '[%s%s]' % (m['b'], ', %d' % m['o'] if m.get('o') else '')
    o = i[0]
    if o in ('addi', 'adds', 'subi'):
        return '%s %s, %s, %d' % ({'addi': 'add', 'adds': 'adds', 'subi': 'sub'}[o], i[1], i[2], i[3])
    if o in ('addr', 'subr'):
        return '%s %s, %s, %s' % (o[:3], i[1], i[2], i[3])
    if o == 'addlsl':
        return 'add %s, %s, %s, lsl %d' % tuple(i[1:5])
    if o == 'lsl':
        return 'lsl %s, %s, %d' % (i[1], i[2], i[3])
    if o == 'mov':
        return 'mov %s, %s' % (i[1], i[2])
    if o == 'movi':
        return 'mov %s, %d' % (i[1], i[2])
    if o == 'cmp':
        return 'cmp %s, %s' % (i[1], i[2])
    if o in ('st', 'ld'):
        return '%sr d0, %s' % (o, M(i[1]))
    if o in ('stp', 'ldp'):
        return '%s d0, d1, %s' % (o, M(i[1]))
    if o in ('ldx', 'stx'):
        return '%sr %s, %s' % (o[:2], i[1], M(i[2]))
    raise AssertionError(o)


class State(object):
    def __init__(self, seed):
        self.seed, self.r, self.mem = seed, {}, {}
        self.acc = []
        self.bases = []

    def h(self, *k):
        from .common import hash_
        return 2 ** 33 + hash_(repr((self.seed,) + k)) * 8

    def g(self, r):
        return self.r.setdefault(r, self.h('reg', r))

    def load(self, a):
        return self.mem.setdefault(a, self.h('mem', a))


def xstep(s, n, i, log):
    def addr(m):
        off, b, x, sc = m
        if b == 'rip':
            return ('rip', off)
        return off + (s.g(b) if b else 0) + (s.g(x) * sc if x else 0)

    def ref(kind, m):
        a = addr(m)
        log.append((kind, n, a, [r for r in (m[1], m[2]) if r]))
        return a
    o = i[0]
    if o in ('addi', 'addi32'):
        s.r[i[1]] = s.g(i[1]) + i[2]
    elif o == 'subi':
        s.r[i[1]] = s.g(i[1]) - i[2]
    elif o in ('inc', 'inc32'):
        s.r[i[1]] = s.g(i[1]) + 1
    elif o == 'dec':
        s.r[i[1]] = s.g(i[1]) - 1
    elif o == 'lea':
        s.r[i[1]] = addr(i[2])
    elif o == 'movr':
        s.r[i[1]] = s.g(i[2])
    elif o == 'movi':
        s.r[i[1]] = i[2]
    elif o == 'addr':
        s.r[i[1]] = s.g(i[1]) + s.g(i[2])
    elif o == 'subr':
        s.r[i[1]] = s.g(i[1]) - s.g(i[2])
    elif o == 'addm':
        s.r[i[1]] = s.g(i[1]) + s.load(ref('l', i[2]))
    elif o == 'xor':
        s.r[i[1]] = s.g(i[1]) ^ s.g(i[2])
    elif o == 'and':
        s.r[i[1]] = s.g(i[1]) & i[2]
    elif o == 'shl':
        s.r[i[1]] = s.g(i[1]) << i[2]
    elif o == 'imul':
        s.r[i[1]] = s.g(i[1]) * i[2]
    elif o == 'ldg':
        s.r[i[1]] = s.load(ref('l', i[2]))
    elif o == 'stg':
        s.mem[ref('s', i[1])] = s.g(i[2])
    elif o == 'rmw':
        a = ref('s', i[1])
        s.mem[a] = s.load(a) + i[2]
    elif o in ('st', 'sti'):
        s.mem[ref('s', i[1])] = s.h('vec', n, len(log))
    elif o in ('ld', 'vop'):
        ref('l', i[1])


def astep(s, n, i, log):
    def ref(kind, m):
        b = s.g(m['b'])
        if 'post' in m:
            a = b
            s.r[m['b']] = b + m['post']
        else:
            a = b + m.get('o', 0) + (s.g(m['x']) * 2 ** m.get('s', 0) if 'x' in m else 0)
            if m.get('pre'):
                s.r[m['b']] = a
        log.append((kind, n, a, [r for r in (m['b'], m.get('x')) if r]))
        return a
    o = i[0]
    if o in ('addi', 'adds'):
        s.r[i[1]] = s.g(i[2]) + i[3]
    elif o == 'subi':
        s.r[i[1]] = s.g(i[2]) - i[3]
    elif o == 'addr':
        s.r[i[1]] = s.g(i[2]) + s.g(i[3])
    elif o == 'subr':
        s.r[i[1]] = s.g(i[2]) - s.g(i[3])
    elif o == 'addlsl':
        s.r[i[1]] = s.g(i[2]) + s.g(i[3]) * 2 ** i[4]
    elif o == 'lsl':
        s.r[i[1]] = s.g(i[2]) * 2 ** i[3]
    elif o == 'mov':
        s.r[i[1]] = s.g(i[2])
    elif o == 'movi':
        s.r[i[1]] = i[2]
    elif o in ('st', 'stp'):
        s.mem[ref('s', i[1])] = s.h('vec', n, len(log))
    elif o in ('ld', 'ldp'):
        ref('l', i[1])
    elif o == 'ldx':
        b = ref('l', i[2])
        s.r[i[1]] = s.load(b)
    elif o == 'stx':
        v = s.g(i[1])
        s.mem[ref('s', i[2])] = v


XW = ('addi', 'addi32', 'inc32', 'subi', 'inc', 'dec', 'lea', 'movr', 'movi', 'addr', 'subr', 'addm', 'xor', 'and', 'shl',
      'imul', 'ldg')


def writes(isa, body):
    w = {}
    simple = {}
    for i in body:
        o = i[0]
        if isa == 'x86':
            if o in XW:
                w[i[1]] = w.get(i[1], 0) + 1
        else:
            if o in ('addi', 'adds', 'subi', 'addr', 'subr', 'addlsl', 'lsl', 'mov', 'movi', 'ldx'):
                w[i[1]] = w.get(i[1], 0) + 1
                simple[i[1]] = simple.get(i[1], True) and o not in ('addr', 'subr', 'addlsl')
            m = i[1] if isinstance(i[1], dict) else i[2] if len(i) > 2 and isinstance(i[2], dict) else None
            if m and ('post' in m or m.get('pre')):
                w[m['b']] = w.get(m['b'], 0) + 1
    return w, simple


def relevant(isa, body):
    """[(position, [advance per state], registers)] of the relevant references.

    The advance is that between the second and third execution of the body (and third and fourth), after
    registers computed in the loop have settled; all have to agree.
    """
    step = xstep if isa == 'x86' else astep
    res = {}
    for seed in range(3):
        s = State(seed)
        logs = []
        for _ in range(4):
            log = []
            for n, i in enumerate(body):
                step(s, n, i, log)
            logs.append(log)
        for l1, l2 in zip(logs[1:], logs[2:]):
            for j, (x, y) in enumerate(zip(l1, l2)):
                adv = 0 if isinstance(x[2], tuple) else y[2] - x[2]
                res.setdefault((j, x[0], x[1]), [[], x[3], isinstance(x[2], tuple)])[0].append(adv)
    w, simple = writes(isa, body)
    refs = [(k, v) for k, v in res.items()]
    if isa == 'x86':
        stores = [(k, v) for k, v in refs if k[1] == 's' and not v[2]]
    else:
        stores = [(k, v) for k, v in refs if k[1] == 's' and any(r in w for r in v[1])]
    return stores or [(k, v) for k, v in refs if k[1] == 'l'], w, simple


def check(c):
    import os
    import shutil
    import tempfile
    from kerncraft import incore_model as im
    from .common import fast_osaca
    fast_osaca()
    isa, syn = c['isa'], c['syn']
    lines = []
    for n, b in enumerate(c['bodies']):
        lines.append('.L%d:' % n)
        lines += [xtext(i, syn) if isa == 'x86' else atext(i) for i in b]
    text = '\n'.join(lines) + '\n'
    parsed = im.parse_asm(text, isa, 'csx' if isa == 'x86' else 'a64fx')
    blocks, cur = [], None
    for l in parsed:
        if l.label is not None:
            cur = [l]
            blocks.append(cur)
        elif cur is not None:
            cur.append(l)
    if len(blocks) != len(c['bodies']):
        return 'internal: %d blocks of %d' % (len(blocks), len(c['bodies']))
    home = os.environ.get('HOME')
    tmp = tempfile.mkdtemp(prefix='kc_c19_')
    os.environ['HOME'] = tmp
    get = im.ISA.get_isa(isa).get_pointer_increment
    hits = 0
    try:
        for n, (b, blk) in enumerate(zip(c['bodies'], blocks)):
            body_text = '; '.join(l.line for l in blk)
            d = get(blk)
            if 'sure' in c and d != c['sure'][n]:
                return 'increment of %s is %r instead of %r' % (body_text, d, c['sure'][n])
            if d is not None:
                hits += 1
                if not isinstance(d, int):
                    return 'increment of %s is %r' % (body_text, d)
                refs, w, simple = relevant(isa, b)
                moving = [(k, v) for k, v in refs if any(v[0])]
                for k, v in moving:
                    if any(a != d for a in v[0]):
                        return 'increment of %s detected as %r, but the address of instruction %d (%s) advances by %r' % (
                            body_text, d, k[2], blk[k[2] + 1].line, v[0][0])
                if not moving:
                    return 'increment of %s detected as %r, but no relevant address advances' % (body_text, d)
                for k, v in refs:
                    for r in v[1]:
                        if w.get(r, 0) > 1 and (isa == 'x86' or simple.get(r, True)):
                            return 'increment of %s detected as %r although %s is changed %d times' % (
                                body_text, d, r, w[r])
            if d is None or n % 5 == 0:
                # remembered increments: of this very body only, the latest one, malformed lines skipped
                other = blocks[(n + 1) % len(blocks)]
                im.store_increment_to_cache(other, 1111)
                if [l.line for l in other] != [l.line for l in blk] and get(blk) != d:
                    return 'increment %r remembered for another body is used for %s' % (get(blk), body_text)
                im.store_increment_to_cache(blk, 2222, comment='first')
                with open(os.path.join(tmp, '.kerncraft', 'increment_cache'), 'a') as f:
                    f.write('\n%s\n# comment\n%s abc\n' % (im.hashblock(blk), im.hashblock(blk)))
                im.store_increment_to_cache(other, 5555)
                if [l.line for l in other] != [l.line for l in blk] and get(blk) != (2222 if d is None else d):
                    return 'remembered increment 2222 of %s: %r is used' % (body_text, get(blk))
                im.store_increment_to_cache(blk, 3333)
                if get(blk) != (3333 if d is None else d):
                    return 'increment of %s (detected: %r) after remembering 2222, then 3333: %r' % (body_text, d, get(blk))
                shutil.rmtree(os.path.join(tmp, '.kerncraft'))
        if not hits and 'sure' not in c and 'one' not in c:
            return 'internal: nothing detected in %d bodies' % len(blocks)
        return None
    finally:
        if home is not None:
            os.environ['HOME'] = home
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------ proofs
IMM = 7001               # placeholders replaced by arbitrary numbers: 7001, 7002, ...
PARSED = {}
TEXTS = {}


def concretize(name, detail):
    """The loop body of a failed obligation with the numbers of the verifier's counterexample."""
    text = name.partition(': ')[2]
    if text not in TEXTS or not isinstance(detail, dict):
        return None
    isa, raw = TEXTS[text]
    body, holes = _placeholders(raw)
    model = detail.get('model') or {}
    vals = {h: int(model.get('number_%d' % (h - IMM), 8)) for h in holes}
    # numbers an instruction can hold
    vals = {h: v if abs(v) < 1000 else 8 + h - IMM for h, v in vals.items()}
    return {'isa': isa, 'syn': 'att', 'bodies': [_fill_body(body, vals)], 'one': True}


def _parsed(isa, text):
    from kerncraft import incore_model as im
    from .common import fast_osaca
    fast_osaca()
    if (isa, text) not in PARSED:
        p = [l for l in im.parse_asm('.L1:\n%s\n' % text, isa, 'csx' if isa == 'x86' else 'a64fx') if l.mnemonic is not None]
        assert len(p) == 1, text
        PARSED[isa, text] = p[0]
    return PARSED[isa, text]


def _filled(x, vals):
    """The parsed line with the placeholders replaced."""
    import copy
    from osaca.parser.immediate import ImmediateOperand
    if isinstance(x, (list, tuple)):
        return type(x)(_filled(y, vals) for y in x)
    if isinstance(x, dict):
        return {k: _filled(v, vals) for k, v in x.items()}
    if type(x).__module__.startswith('osaca'):
        r = copy.copy(x)
        for k in list(getattr(x, '__dict__', {})):
            v = getattr(x, k)
            if isinstance(v, (list, tuple, dict)) or type(v).__module__.startswith('osaca'):
                setattr(r, k, _filled(v, vals))
            elif k in ('_value', 'value') and not isinstance(v, bool) and str(v).lstrip('-').isdigit() and int(v) in vals:
                setattr(r, k, vals[int(v)])
        return r
    if not isinstance(x, bool) and isinstance(x, (int, str)) and str(x).isdigit() and int(x) in vals:
        return vals[int(x)]
    return x


class Stack(dict):
    def __setitem__(self, a, v):
        if isinstance(a, int):
            dict.__setitem__(self, a, v)


class SymState(object):
    """State of the emulator with arbitrary contents; memory is addressed by constant offsets to the stack pointer."""
    def __init__(self, S):
        self.S, self.r, self.mem = S, {}, Stack()

    def h(self, *k):
        return None

    def g(self, r):
        if r in ('rsp', 'sp'):
            return 0
        if r not in self.r:
            self.r[r] = self.S.int('initial_' + r)
        return self.r[r]

    def load(self, a):
        if not isinstance(a, int):
            return 0       # only rmw of an array: what it stores is of no interest
        return self.mem.setdefault(a, self.S.int('stack_%d' % a))


def _fill_body(x, vals):
    if isinstance(x, list):
        return [_fill_body(y, vals) for y in x]
    if isinstance(x, dict):
        return {k: _fill_body(v, vals) for k, v in x.items()}
    return vals.get(x, x) if isinstance(x, int) and not isinstance(x, bool) else x


def _placeholders(body):
    """Numbers written as None become placeholders."""
    n = [IMM]

    def go(x):
        if isinstance(x, list):
            return [go(y) for y in x]
        if isinstance(x, dict):
            return {k: go(v) for k, v in x.items()}
        if x == 'IMM':
            n[0] += 1
            return n[0] - 1
        return x
    return [go(i) for i in body], list(range(IMM, n[0]))


def _advance(S, isa, body):
    step = xstep if isa == 'x86' else astep
    s = SymState(S)
    logs = []
    for _ in range(4):
        log = []
        for n, i in enumerate(body):
            step(s, n, i, log)
        logs.append(log)
    return [(x[0], x[1], x[3], [logs[2][j][2] - x[2], logs[3][j][2] - logs[2][j][2]]) for j, x in enumerate(logs[1])
            if not isinstance(x[2], tuple)]


def _prove_bodies(S, isa, shapes, label):
    """get_pointer_increment on each body of shapes; numbers and register contents arbitrary."""
    from engine import instr
    from engine.core import SNum, SBool, zb
    import z3

    def go(S, raw):
        TEXTS['; '.join(xtext(i, 'att') if isa == 'x86' else atext(i) for i in _placeholders(raw)[0])] = (isa, raw)
        body, holes = _placeholders(raw)
        vals = {h: S.int('number_%d' % (h - IMM)) for h in holes}
        lines = [_filled(_parsed(isa, xtext(i, 'att') if isa == 'x86' else atext(i)), vals) for i in body]
        m = instr.load('kerncraft/incore_model.py')
        asked = []

        def remembered(block, *a, **k):
            S.check('the increment remembered for this very body', bool(block is lines and not a and not k))
            asked.append(1)
            return 424242
        m.find_increment_in_cache = remembered
        d = m.ISA.get_isa(isa).get_pointer_increment(lines)
        S.check('asked once at most', bool(len(asked) <= 1))
        if asked:
            S.check('the remembered increment is used', bool(d == 424242))
            return
        S.check('an increment is detected or looked up', bool(isinstance(d, (int, SNum)) and not isinstance(d, bool)))
        real = _fill_body(body, vals)
        adv = _advance(S, isa, real)
        w, simple = writes(isa, body)
        stores = [a for a in adv if a[0] == 's' and (isa == 'x86' or any(r in w for r in a[2]))]
        refs = stores or [a for a in adv if a[0] == 'l']
        text = '; '.join(l.line for l in lines)
        some = []
        for k, n, regs, a in refs:
            for x in a:
                S.check('the address of each relevant reference advances by it, if at all: %s' % text, z3.Or(zb(x == 0), zb(x == d)))
                some.append(zb(x != 0))
            if isa == 'x86' or all(simple.get(r, True) for r in regs):
                # registers of a moving reference are changed once
                if any(w.get(r, 0) > 1 for r in regs):
                    S.check('nothing is detected if a register is changed repeatedly: %s' % text, zb(a[0] == 0))
        S.check('an address advances: %s' % text, z3.Or(*some) if some else False)
    for raw in shapes:
        S.run(lambda S: go(S, raw), label)


def _x_updates(a, b):
    return [['addi', a, 'IMM'], ['subi', a, 'IMM'], ['inc', a], ['dec', a], ['lea', a, ['IMM', a, None, 1]],
            ['lea', a, ['IMM', None, a, 1]], ['lea', a, ['IMM', None, a, 2]], ['lea', a, ['IMM', b, None, 1]],
            ['lea', a, ['IMM', a, b, 8]], ['movr', a, b], ['addr', a, b], ['ldg', a, [8, 'rsp', None, 1]],
            ['stg', [8, 'rsp', None, 1], a], ['movi', a, 'IMM'], ['addi32', a, 'IMM']]


def _x_mems(a, b, kinds):
    out = []
    for m in ([0, a, None, 1], ['IMM', a, b, 8], [16, a, a, 1], [8, None, a, 4]):
        for k in kinds:
            out.append([k, m, 0])
    return out


def _x86_two(S, kind):
    """One access and two updates, in any order."""
    S.max_paths = 100000
    A, B = 'rax', 'rcx'
    ups = _x_updates(A, B) + _x_updates(B, A)
    for mem in _x_mems(A, B, [kind]):
        shapes = [[mem, u] for u in ups] + [[u, mem] for u in ups]
        shapes += [[u, mem, v] for u in ups for v in ups] if mem[0] == 'st' else [[mem, u, v] for u in ups for v in ups]
        _prove_bodies(S, 'x86', shapes, 'x86: %s %s with two updates' % (mem[0], mem[1]))


def proof_x86_stores(S):
    """A store and two updates."""
    _x86_two(S, 'st')


def proof_x86_loads(S):
    """A load and two updates."""
    _x86_two(S, 'ld')


def proof_x86_refs(S):
    """Two accesses and an update of each of two registers."""
    S.max_paths = 100000
    A, B = 'rax', 'rcx'
    ups = [['addi', A, 'IMM'], ['subi', A, 'IMM'], ['inc', A], ['addi', B, 'IMM'], ['dec', B], ['lea', B, ['IMM', B, None, 1]],
           ['movr', A, B], ['ldg', B, [8, 'rsp', None, 1]]]
    mems = _x_mems(A, B, ['st', 'ld', 'vop', 'rmw']) + _x_mems(B, A, ['st', 'ld'])
    for mem in _x_mems(A, B, ['st', 'ld']):
        shapes = [[mem, n, u] for n in mems for u in ups] + [[n, u, mem, v] for n in mems[:8] for u in ups for v in ups
                                                            if u[1] != v[1] and u[0] < v[0]]
        _prove_bodies(S, 'x86', shapes, 'x86: %s %s with another access' % (mem[0], mem[1]))


def _a_updates(a, b, c):
    return [['addi', a, a, 'IMM'], ['adds', a, a, 'IMM'], ['subi', a, a, 'IMM'], ['addi', a, b, 'IMM'], ['addr', a, b, c],
            ['addr', a, c, b], ['addr', a, a, c], ['addr', a, b, b], ['subr', a, b, c], ['subr', a, c, b], ['subr', a, a, c],
            ['lsl', a, b, 3], ['lsl', a, a, 1], ['mov', a, b], ['movi', a, 'IMM'], ['addlsl', a, b, c, 3],
            ['ldx', a, {'b': 'sp', 'o': 8}], ['stx', a, {'b': 'sp', 'o': 8}]]


def _a_mems(a, b, kinds):
    out = []
    for m in ({'b': a}, {'b': a, 'o': 'IMM'}, {'b': a, 'x': b, 's': 3}, {'b': b, 'x': a}, {'b': a, 'post': 'IMM'},
              {'b': a, 'o': 'IMM', 'pre': True}):
        for k in kinds:
            out.append([k, m])
    return out


def _arm_two(S, kind, part):
    S.max_paths = 100000
    A, B, C = 'x1', 'x2', 'x9'
    ups = _a_updates(A, B, C) + _a_updates(B, A, C)
    for mem in _a_mems(A, B, [kind])[part::2]:
        shapes = [[mem]] + [[mem, u] for u in ups] + [[u, mem] for u in ups] + [[u, v, mem] for u in ups for v in ups]
        _prove_bodies(S, 'aarch64', shapes, 'AArch64: %s %s with two updates' % (mem[0], mem[1]))


def proof_arm_stores(S):
    """A store (at the register, two registers, post-indexed) and two updates."""
    _arm_two(S, 'st', 0)


def proof_arm_stores2(S):
    """A store (at an offset, a scaled register, pre-indexed) and two updates."""
    _arm_two(S, 'st', 1)


def proof_arm_loads(S):
    """A load (at the register, two registers, post-indexed) and two updates."""
    _arm_two(S, 'ld', 0)


def proof_arm_loads2(S):
    """A load (at an offset, a scaled register, pre-indexed) and two updates."""
    _arm_two(S, 'ld', 1)


def proof_arm_chains(S):
    """A store through registers computed in up to three steps from a changed one."""
    _arm_chains(S, [[['st', {'b': 'x1'}]], [['st', {'b': 'x3'}]], [['st', {'b': 'x9', 'x': 'x3', 's': 3}]]])


def proof_arm_chains2(S):
    """Two accesses through registers computed in up to three steps from a changed one."""
    _arm_chains(S, [[['st', {'b': 'x9', 'x': 'x1', 's': 3}], ['st', {'b': 'x3'}]], [['ld', {'b': 'x1'}], ['st', {'b': 'x3'}]],
                    [['st', {'b': 'x2'}], ['st', {'b': 'x1'}]], [['ld', {'b': 'x3'}], ['ld', {'b': 'x2', 'post': 'IMM'}]]])


def proof_arm_chains3(S):
    """Registers computed from a changed one through a register that is changed otherwise, too (four updates)."""
    S.max_paths = 100000
    A, B, C, D = 'x1', 'x2', 'x9', 'x3'
    others = [['mov', D, C], ['movi', D, 'IMM'], ['addi', D, D, 'IMM'], ['subi', B, B, 'IMM'], ['ldx', D, {'b': 'sp', 'o': 8}],
              ['lsl', D, D, 1], ['addr', D, D, C], ['subr', D, C, D], ['addi', D, B, 'IMM'], ['addi', C, C, 'IMM'],
              ['lsl', D, B, 2], ['stx', D, {'b': 'sp', 'o': 8}]]
    for mem in (['st', {'b': A}], ['ld', {'b': C, 'x': A, 's': 3}]):
        shapes = []
        for x in others:
            for u in ([['lsl', D, B, 3]], [['addr', D, B, C]], [['subr', D, C, B]]):
                for v in (['addr', A, C, D], ['subr', A, C, D], ['addr', A, A, D], ['lsl', A, D, 1]):
                    f = ['addi', B, B, 'IMM']
                    shapes += [[f] + u + [x, v, mem], [f, x] + u + [v, mem]]
        _prove_bodies(S, 'aarch64', shapes, 'AArch64: %s with long chains' % (mem,))


def _arm_chains(S, accesses):
    S.max_paths = 100000
    A, B, C = 'x1', 'x2', 'x9'
    first = [['addi', B, B, 'IMM'], ['subi', B, B, 'IMM'], ['adds', B, B, 'IMM'], ['ldx', B, {'b': 'sp', 'o': 8}]]
    D = 'x3'
    second = [['addr', A, B, C], ['addr', A, C, B], ['subr', A, B, C], ['subr', A, C, B], ['lsl', A, B, 3], ['lsl', A, B, 1],
              ['addr', A, A, B], ['addr', A, B, B], ['mov', A, B], ['addlsl', A, C, B, 3], ['addr', A, B, D]]
    third = [['lsl', D, A, 3], ['lsl', D, B, 2], ['addr', D, C, A], ['subr', D, C, A], ['addr', D, B, A], ['addr', A, B, C],
             ['subr', A, C, B], ['lsl', A, B, 3], ['lsl', A, A, 1], ['mov', D, A], ['addi', B, B, 'IMM'], ['addi', D, D, 'IMM']]
    for mems in accesses:
        shapes = [[f, s] + mems + [t] for f in first for s in second for t in third]
        shapes += [[f, s] + mems for f in first for s in second] + [[f, t, s] + mems for f in first[:2] for s in second for t in third]
        _prove_bodies(S, 'aarch64', shapes, 'AArch64: %s with chains' % (mems,))


_X = ['x86.get_pointer_increment', 'ISA.get_common_increment', 'ISA.is_constant_reload', 'x86.normalize_to_register_str']
_A = ['AArch64.get_pointer_increment', 'ISA.get_common_increment', 'ISA.is_constant_reload', 'AArch64.normalize_to_register_str']
PROOFS = [('x86 stores', proof_x86_stores, _X), ('x86 loads', proof_x86_loads, _X), ('x86 references', proof_x86_refs, _X),
          ('AArch64 stores', proof_arm_stores, _A), ('AArch64 loads', proof_arm_loads, _A),
          ('AArch64 stores at offsets', proof_arm_stores2, _A), ('AArch64 loads at offsets', proof_arm_loads2, _A),
          ('AArch64 chains', proof_arm_chains, _A), ('AArch64 chains with two accesses', proof_arm_chains2, _A),
          ('AArch64 long chains', proof_arm_chains3, _A)]
