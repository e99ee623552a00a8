"""Regular languages over characters: ECMAScript patterns, derivatives, and exploration of products."""


class Unsupported(Exception):
    pass


EMPTY, EPS = ('0',), ('e',)
LINE = frozenset('\n\r\u2028\u2029')


def cls(chars, neg=False):
    return ('c', neg, frozenset(chars))


ANY = cls(LINE, True)
ALL = cls((), True)


def cat(a, b):
    if a == EMPTY or b == EMPTY:
        return EMPTY
    if a == EPS:
        return b
    if b == EPS:
        return a
    if a[0] == '.':
        return ('.', a[1], cat(a[2], b))
    return ('.', a, b)


def alt(*xs):
    s = set()
    for x in xs:
        if x[0] == '|':
            s |= x[1]
        elif x != EMPTY:
            s.add(x)
    if not s:
        return EMPTY
    return s.pop() if len(s) == 1 else ('|', frozenset(s))


def star(a):
    return EPS if a in (EMPTY, EPS) else a if a[0] == '*' else ('*', a)


def word(s):
    r = EPS
    for c in reversed(s):
        r = cat(cls(c), r)
    return r


def nullable(r):
    k = r[0]
    return k == 'e' or k == '*' or (k == '.' and nullable(r[1]) and nullable(r[2])) or (k == '|' and any(nullable(x) for x in r[1]))


def deriv(r, c):
    k = r[0]
    if k in '0e':
        return EMPTY
    if k == 'c':
        return EPS if (c in r[2]) != r[1] else EMPTY
    if k == '|':
        return alt(*[deriv(x, c) for x in r[1]])
    if k == '*':
        return cat(deriv(r[1], c), r)
    d = cat(deriv(r[1], c), r[2])
    return alt(d, deriv(r[2], c)) if nullable(r[1]) else d


def letters(r, out):
    if r[0] == 'c':
        out |= r[2]
    elif r[0] == '.':
        letters(r[1], out)
        letters(r[2], out)
    elif r[0] == '*':
        letters(r[1], out)
    elif r[0] == '|':
        for x in r[1]:
            letters(x, out)
    return out


def alphabet(rs):
    """one representative of every class of characters the languages tell apart"""
    out = set()
    for r in rs:
        letters(r, out)
    other = next(chr(i) for i in range(0x41, 0x2000) if chr(i) not in out)
    return sorted(out) + [other]


def explore(rs, ignore=LINE, limit=20000):
    """-> every reachable vector of languages, with a shortest word that leads to it"""
    start = tuple(rs)
    seen = {start: ''}
    todo = [start]
    abc = [c for c in alphabet(rs) if c not in ignore]
    while todo:
        nxt = []
        for v in todo:
            for c in abc:
                w = tuple(deriv(r, c) for r in v)
                if w not in seen:
                    seen[w] = seen[v] + c
                    if len(seen) > limit:
                        raise Unsupported('too many states')
                    nxt.append(w)
        todo = nxt
    return seen


DIGIT = frozenset('0123456789')
WORD = DIGIT | frozenset('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_')
SPACE = frozenset(' \t\n\v\f\r')


def parse(s):
    """a pattern that has to match the whole of a string"""
    pos = 0

    def peek():
        return s[pos] if pos < len(s) else ''

    def take():
        nonlocal pos
        pos += 1
        return s[pos - 1]

    def escape():
        c = take()
        if c in 'dws':
            return {'d': DIGIT, 'w': WORD, 's': SPACE}[c], False
        if c in 'DWS':
            return {'D': DIGIT, 'W': WORD, 'S': SPACE}[c], True
        if c in 'nrtfv0':
            return frozenset({'n': '\n', 'r': '\r', 't': '\t', 'f': '\f', 'v': '\v', '0': '\0'}[c]), False
        if c.isalnum():
            raise Unsupported('\\' + c)
        return frozenset(c), False

    def bracket():
        neg = False
        if peek() == '^':
            take()
            neg = True
        out = set()
        while peek() != ']':
            if not peek() or s.startswith('[:', pos) or s.startswith('[.', pos) or s.startswith('[=', pos):
                raise Unsupported(s)
            c = take()
            if c == '\\':
                cs, n = escape()
                if n:
                    raise Unsupported(s)
                if len(cs) > 1:
                    out |= cs
                    continue
                c = next(iter(cs))
            if peek() == '-' and pos + 1 < len(s) and s[pos + 1] != ']':
                take()
                d = take()
                if d == '\\':
                    raise Unsupported(s)
                out |= {chr(i) for i in range(ord(c), ord(d) + 1)}
            else:
                out.add(c)
        take()
        return cls(out, neg)

    def atom():
        c = take()
        if c == '.':
            return ANY
        if c == '[':
            return bracket()
        if c == '\\':
            cs, n = escape()
            return cls(cs, n)
        if c == '(':
            if s.startswith('?:', pos):
                take()
                take()
            elif peek() == '?':
                raise Unsupported(s)
            r = union()
            if peek() != ')':
                raise Unsupported(s)
            take()
            return r
        if c in ')*+?{}^$|':
            raise Unsupported(s)
        return cls(c)

    def rep():
        r = atom()
        while peek() and peek() in '*+?{':
            c = take()
            if c == '*':
                r = star(r)
            elif c == '+':
                r = cat(r, star(r))
            elif c == '?':
                r = alt(r, EPS)
            else:
                e = s.index('}', pos)
                lo, _, hi = s[pos:e].partition(',')
                ranged = ',' in s[pos:e]
                pos_set(e + 1)
                lo = int(lo)
                x = EPS
                for _ in range(lo):
                    x = cat(x, r)
                if ranged and not hi:
                    x = cat(x, star(r))
                elif ranged:
                    y = EPS
                    for _ in range(int(hi) - lo):
                        y = alt(EPS, cat(r, y))
                    x = cat(x, y)
                r = x
            if peek() == '?':
                take()      # laziness changes captures only
        return r

    def pos_set(p):
        nonlocal pos
        pos = p

    def seq():
        nonlocal pos
        if peek() == '^':
            take()
        xs = []
        while peek() and peek() not in '|)':
            if peek() == '$' and (pos + 1 == len(s) or s[pos + 1] in '|)'):
                take()
                break
            xs.append(rep())
        r = EPS
        for x in reversed(xs):
            r = cat(x, r)
        return r

    def union():
        xs = [seq()]
        while peek() == '|':
            take()
            xs.append(seq())
        return alt(*xs)

    try:
        r = union()
    except (IndexError, ValueError):
        raise Unsupported(s)
    if pos != len(s):
        raise Unsupported(s)
    return r
