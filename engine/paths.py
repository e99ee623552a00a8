"""Queries over abstract paths: loops, ordering, provenance."""
from .interp import V, A, C, S, mk, isc, contains, show


class Loop:
    __slots__ = ('key', 'where', 'iters', 'heads', 'exit', 'exitn', 'i0', 'i1', 'iterated')

    def __init__(self, key, where):
        self.key, self.where = key, where
        self.iters = []     # (n, [events])
        self.heads = {}     # n -> meta
        self.iterated = []  # containers advanced over by iterator
        self.exit = None
        self.exitn = None
        self.i0 = self.i1 = None


def loops(evs):
    """dynamic loop instances along a path, in order"""
    out = []
    live = {}
    cur = {}
    for i, e in enumerate(evs):
        if e.kind in ('loopiter', 'loophead', 'loopexit'):
            key = (e.ctx[0], e.ctx[2])
            n = e.ctx[1]
            lp = live.get(key)
            if lp is None or (e.kind != 'loophead' and n == 0 and lp.iters and e.kind == 'loopiter'):
                lp = live[key] = Loop(key, e.where)
                lp.i0 = i
                out.append(lp)
            if e.kind == 'loopiter':
                cur[key] = []
                lp.iters.append((n, cur[key]))
            elif e.kind == 'loophead':
                lp.heads[n] = e.ctx[3]
                lp.iterated += [c for c in e.vals if c.k == 'p']
                cur.pop(key, None)
            else:
                lp.exit, lp.exitn = e.name, n
                lp.i1 = i
                cur.pop(key, None)
                live.pop(key, None)
        for k, seg in cur.items():
            if not (e.kind in ('loopiter', 'loophead', 'loopexit') and (e.ctx[0], e.ctx[2]) == k):
                seg.append(e)
    return out


def lin(v):
    if isc(v) and isinstance(v.a[0], int):
        return (None, v.a[0])
    if v.k == 'a' and v.a[0] == '+' and isc(v.a[1][1]):
        return (v.a[1][0], v.a[1][1].a[0])
    return (v, 0)


def is_size(v):
    return v is not None and v.k == 'a' and v.a[0] == 'size'


def lv_meta(lp, lv):
    for n, meta in lp.heads.items():
        for loc, a, b, l in meta:
            if l is lv:
                return n, loc, a, b
            # records (iterators) widen field-wise: meta already holds leaves
    return None


def coverage(lp, facts, idxof, sizeof=is_size):
    """Does this loop path visit every index?  idxof(n) -> index term visited in iteration n.
    -> ('full'|'partial'|'unknown', why)"""
    n = len(lp.iters)
    if lp.exit is None:
        return 'unknown', 'loop leaves by exception'

    def fact(pred):
        for f, val in facts.items():
            r = pred(f, val)
            if r:
                return True
        return False

    def at_end(v):
        """facts say index v has reached the size"""
        t, c = lin(v)

        def p(f, val):
            if f.k != 'a' or f.a[0] not in ('==', '<') or len(f.a[1]) != 2:
                return False
            x, y = f.a[1]
            if f.a[0] == '==':
                if not val:
                    return False
                lx, ly = lin(x), lin(y)
                for a, b in ((lx, ly), (ly, lx)):
                    if sizeof(b[0]) and a[0] is t and a[1] - b[1] == c:
                        return True
                return False
            # x < y false, y = size
            if val:
                return False
            lx, ly = lin(x), lin(y)
            return sizeof(ly[0]) and lx[0] is t and lx[1] - ly[1] == c
        return fact(p)

    def at_zero(v):
        t, c = lin(v)
        if t is None:
            return c == 0

        def p(f, val):
            if f.k == 'a' and f.a[0] == '==' and val:
                lx, ly = lin(f.a[1][0]), lin(f.a[1][1])
                for a, b in ((lx, ly), (ly, lx)):
                    if a[0] is t and b[0] is None and b[1] - a[1] + c == 0:
                        return True
            if f.k == 'a' and f.a[0] == '<' and not val:
                x, y = f.a[1]
                lx, ly = lin(x), lin(y)
                # 0 < v false
                if lx[0] is None and ly[0] is t and lx[1] - ly[1] + c == 0:
                    return True
            return False
        return fact(p)

    if n == 0:
        if at_end(C(0)):
            return 'full', ''
        return 'unknown', 'loop not entered'
    first = idxof(0)
    if first is None:
        return 'unknown', 'no index'
    t, c = lin(first)
    if t is None:
        if c > 0:
            return 'partial', 'starts at element %d' % c
        step = 1
    elif sizeof(t):
        if c == -1:
            step = -1
        else:
            return 'partial', 'starts %d from the end' % -c
    else:
        return 'unknown', 'start'
    if n == 1:
        nxt = C(1) if step == 1 else None
        # which variable is exit compared with
        metas = lp.heads.get(1, ())
        lvs = [m for m in metas]
        if lp.exitn == 1:
            for loc, a, b, l in metas:
                if step == 1 and at_end(l):
                    if lin(a)[0] is None and lin(b)[0] is None and lin(b)[1] - lin(a)[1] == 1:
                        return 'full', ''
                    return 'partial', 'steps over elements'
                if step == -1 and (at_zero(l)):
                    return 'full', ''
            if lp.exit in ('break', 'return'):
                return 'partial', 'loop is left early by %s' % lp.exit
            return 'unknown', 'exit condition'
        # left during first iteration
        if lp.exit in ('break', 'return'):
            if at_end(C(1)):
                return 'full', ''
            return 'partial', 'loop is left early by %s' % lp.exit
        return 'unknown', 'exit'
    # generic iteration present
    idx = idxof(1)
    if idx is None:
        return 'unknown', 'no generic index'
    lv, k = lin(idx)
    m = lv_meta(lp, lv) if lv is not None else None
    if m is None:
        return 'unknown', 'index is not a loop variable'
    _, loc, a, b = m
    la, lb = lin(a), lin(b)
    if la[0] is lb[0]:
        d = lb[1] - la[1]
        if d != step:
            if abs(d) == 1:
                return 'unknown', 'direction'
            return 'partial', 'index advances by %d' % d
    if lp.exitn == 2:
        for loc2, a2, b2, l2 in lp.heads.get(2, ()):
            if loc2 == loc:
                d2 = None
                lb2 = lin(b2)
                if lb2[0] is lv:
                    d2 = lb2[1]
                if d2 is not None and d2 != step:
                    return 'partial', 'index advances by %d' % d2
                if step == 1 and at_end(l2):
                    return 'full', ''
                if step == -1 and (at_zero(l2)):
                    return 'full', ''
        if lp.exit in ('break', 'return'):
            return 'partial', 'loop is left early by %s' % lp.exit
        return 'unknown', 'exit condition'
    if lp.exit in ('break', 'return'):
        return 'partial', 'loop is left early by %s' % lp.exit
    return 'unknown', 'exit'


def strip_after(v):
    """content term -> (original, [mutations])"""
    hist = []
    while v.k == 'a' and v.a[0] == 'after':
        hist.append(v.a[1][0].a[0])
        v = v.a[1][1]
    return v, hist
