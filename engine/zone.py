"""Difference bounds over the counting terms of one path."""
from .interp import isc


class Zone:
    def __init__(self, it, facts=()):
        self.it = it
        self.up = {}        # (x, y) -> k:  x - y <= k
        self.ne = []
        self.terms = {None}
        for f, b in dict(facts).items():
            self.fact(f, b)

    def term(self, v):
        if v in self.terms:
            return
        self.terms.add(v)
        self.edge(None, v, 0)
        if v is not None and v.k == 'a' and v.a[0] == 'size':
            c = v.a[1][0]
            if c.k == 'a' and c.a[0] == 'take':
                h, n = self.lin(self.it.size(c.a[1][0])), self.lin(c.a[1][1])
                self.edge(v, h[0], h[1])
                self.edge(v, n[0], n[1])

    def given(self, a, b, k=0):
        """this path where also a <= b + k"""
        z = Zone(self.it)
        z.up, z.ne, z.terms = dict(self.up), list(self.ne), set(self.terms)
        z.le(a, b, k)
        return z

    def lin(self, v):
        t, k = self.it.lin(v)
        self.term(t)
        return t, k

    def edge(self, x, y, k):
        if k < self.up.get((x, y), 1 << 60):
            self.up[(x, y)] = k

    def le(self, a, b, k=0):
        """assume a <= b + k"""
        (x, i), (y, j) = self.lin(a), self.lin(b)
        self.edge(x, y, j + k - i)

    def fact(self, f, b):
        if f.k == 'a' and f.a[0] == '!':
            return self.fact(f.a[1][0], not b)
        if f.k == 'a' and f.a[0] == '<':
            x, y = f.a[1]
            if b:
                self.le(x, y, -1)
            else:
                self.le(y, x)
        elif f.k == 'a' and f.a[0] == '==':
            x, y = f.a[1]
            if b:
                self.le(x, y)
                self.le(y, x)
            else:
                self.ne.append((self.lin(x), self.lin(y)))
        elif f.k in 'sf' or f.k == 'lv' or f.k == 'a' and f.a[0] in ('size', '+'):
            t = self.lin(f)
            if b:
                self.ne.append((t, (None, 0)))
            else:
                self.edge(t[0], None, -t[1])

    def bound(self, x, y):
        """least k with x - y <= k"""
        d = {x: 0}
        for _ in range(len(self.terms) + 1):
            more = False
            for (a, b), k in self.up.items():
                if a in d and d[a] + k < d.get(b, 1 << 50):
                    d[b] = d[a] + k
                    more = True
            if not more:
                break
        return d.get(y, 1 << 50)

    def settle(self):
        for _ in range(4):
            n = dict(self.up)
            for (x, i), (y, j) in self.ne:
                # x + i != y + j
                if self.bound(x, y) == j - i:
                    self.edge(x, y, j - i - 1)
                if self.bound(y, x) == i - j:
                    self.edge(y, x, i - j - 1)
            for t in list(self.terms):
                if t is not None and t.k == 'a' and t.a[0] == 'size':
                    c = t.a[1][0]
                    if c.k == 'a' and c.a[0] == 'take':
                        h, m = self.lin(self.it.size(c.a[1][0])), self.lin(c.a[1][1])
                        if self.bound(m[0], h[0]) <= h[1] - m[1]:
                            self.edge(m[0], t, -m[1])
                        if self.bound(h[0], m[0]) <= m[1] - h[1]:
                            self.edge(h[0], t, -h[1])
            if n == self.up:
                break

    def proves(self, a, b, k=0):
        """a <= b + k on every state of the path"""
        (x, i), (y, j) = self.lin(a), self.lin(b)
        self.settle()
        return self.bound(x, y) <= j + k - i or self.impossible()

    def equal(self, a, b):
        return self.proves(a, b) and self.proves(b, a)

    def impossible(self):
        self.settle()
        return any(self.bound(t, t) < 0 for t in self.terms)
