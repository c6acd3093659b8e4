"""C09: stripping of comments, macros and pragmas."""
import itertools

ID = 'C09'
TITLE = 'comment and macro stripping'
LEVEL = 'exploration'
ASSUMPTIONS = ['texts with string literals, continued line comments, CR line ends and white space between # and the '
               'directive name are outside the contract']
BOUNDED = ['clean_code: all texts over / * newline and a letter up to 6 (thorough: 8) characters, and random longer ones']
TRUSTED = []
RULE = ('all texts over {/, *, newline, a} up to length 6, random comment-rich and directive-rich texts of up to some '
        'thousand characters; non-trivial: contains a comment opener or a directive')
SHARDS = 4
PROOFS = []


def cases(rng, tier):
    L = 6 if tier == 'quick' else 8
    for l in range(L + 1):
        for first in itertools.product('/*\na', repeat=min(l, 2)):
            yield {'k': 'all', 'p': ''.join(first), 'l': l - len(first)}
    frag = ['/', '*', '//', '/*', '*/', '\n', '\n\n', ' ', 'a', 'x = y', '/**/', '/*/', '*/*', '//*', '/* c\n d */',
            '// c\n', '//\n', ';', '{', '}', '\t', 'int i', '/***/', '//**/', '/*//*/', '**/']
    for _ in range(1500 if tier == 'quick' else 40000):
        n = rng.choice([1, 2, 3, 5, 8, 13, 30, 200])
        yield {'k': 'c', 't': ''.join(rng.choice(frag) for _ in range(n))}
    # long comments, last characters
    for t in ('/*' + 'x' * 3000 + '*/y', '//' + 'x' * 3000, '/*\n*/' * 500, '//\n' * 500, 'a/**/' * 300, '/*a*/',
              'x//', 'x/*', 'x/* *', '/*/', '/**/', '//', '/* */ // c\n/* d */', 'a /* b // c */ d', 'a // b /* c\nd */ e',
              '/* * / */x', '/*x*//*y*/z', '/*x*/\n//y\nz'):
        yield {'k': 'c', 't': t}
    d = ['#define N 5', '#pragma omp parallel for', '#include <x.h>', 'int i;', '  #define M \\', '    3 + 4', '',
         '  #pragma ivdep', 'a = b # c;', '#pragma omp \\', 'parallel \\', 'x\\', '#if 0', '#endif', '#', '#pragma',
         '\t#undef N', 'y = 2;', '#define LONG(a) \\', 'z']
    for _ in range(800 if tier == 'quick' else 20000):
        lines = []
        for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 20])):
            l = rng.choice(d)
            if lines and lines[-1].endswith('\\') and l.strip().startswith('#'):
                l = 'z'
            lines.append(l)
        com = rng.random() < .4
        if com:
            for j in range(len(lines)):
                if rng.random() < .3 and '#' not in lines[j] and not (j and lines[j - 1].endswith('\\')) \
                        and not lines[j].endswith('\\'):
                    lines[j] += rng.choice(['// c', ' /* c */ d', '/**/', ' // /* d'])
        yield {'k': 'd', 't': '\n'.join(lines), 'macros': rng.random() < .6, 'pragmas': rng.random() < .6, 'comments': com}


def trivial(c):
    return c['k'] != 'all' and '/*' not in c['t'] and '//' not in c['t'] and '#' not in c['t']


def strip_comments(t):
    """Specification: one left to right scan."""
    out, i = [], 0
    while i < len(t):
        if t.startswith('//', i):
            e = t.find('\n', i)
            i = len(t) if e < 0 else e
        elif t.startswith('/*', i):
            e = t.find('*/', i + 2)
            if e < 0:
                out.append(t[i:])       # not terminated: no comment
                i = len(t)
            else:
                out.append('\n' * t.count('\n', i, e))
                i = e + 2
        else:
            out.append(t[i])
            i += 1
    return ''.join(out)


def strip_directives(t, macros, pragmas):
    out, kind = [], None
    for l in t.split('\n'):
        s = l.strip()
        cur = kind or ('p' if s.startswith('#pragma') else 'm' if s.startswith('#') else None)
        out.append('' if (cur == 'p' and pragmas) or (cur == 'm' and macros) else l)
        kind = cur if cur and s.endswith('\\') else None
    return '\n'.join(out)


def check(c):
    from kerncraft.pycparser_utils import clean_code
    if c['k'] == 'all':
        for s in itertools.product('/*\na', repeat=c['l']):
            t = c['p'] + ''.join(s)
            r = clean_code(t)
            if r != strip_comments(t):
                return 'clean_code(%r) gives %r instead of %r' % (t, r, strip_comments(t))
        return None
    if c['k'] == 'c':
        t = c['t']
        r = clean_code(t)
        if r != strip_comments(t):
            return 'clean_code(%r) gives %r instead of %r' % (t[:300], r[:300], strip_comments(t)[:300])
        if r != clean_code(t, macros=False, pragmas=False, comments=True):
            return 'defaults of clean_code do not mean comments only'
        if clean_code(t, comments=False) != t:
            return 'clean_code(%r, comments=False) changes the text' % t[:300]
        return None
    t = c['t']
    want = strip_directives(t, c['macros'], c['pragmas'])
    if c['comments']:
        want = strip_comments(want)
    r = clean_code(t, comments=c['comments'], macros=c['macros'], pragmas=c['pragmas'])
    if r != want:
        return 'clean_code(%r, comments=%r, macros=%r, pragmas=%r) gives %r instead of %r' % (
            t, c['comments'], c['macros'], c['pragmas'], r, want)
    return None
