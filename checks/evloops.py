"""Queues of the event loops: an inductive argument over the drain loop.

Every queue starts with arbitrary content.  A *position* is the place of a task in the sequence of
tasks ever posted to a queue; the content of a queue is tracked as "the sequence from position x on"
through moves, swaps, erasures and growth (any task may post more work; other threads may post whenever
they can take the lock).  The rules compare the position of every invocation with the number of tasks
executed so far, and what is left in the queues on every exit with that number.
"""
from engine import kit
from engine.interp import *
from engine.paths import lin

QUEUES = ('std::vector', 'std::deque', 'std::list', 'std::queue')
LOOPS = {'manual': 'lager::with_manual_event_loop', 'queue': 'lager::queue_event_loop', 'safe': 'lager::safe_queue_event_loop'}
SELF = ('o', 'self')


class Snap:
    """memory and facts at a call"""

    def __init__(self, st):
        self.st = st.copy()
        self.st.trace = None

    def state(self):
        return self.st.copy()


class Evloops:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = P_ = kit.export('loops.cpp')
        self.it = it = Interp(P_)
        self.fns = {f['short']: f for f in P_.fnrefs.values() if f['bname'].startswith('W::') and f['id'] in P_.functions}
        self.rec, self.queues, self.mutex, self.tids = {}, {}, {}, {}
        for k, n in LOOPS.items():
            rs = [r for r in P_.records if r['bname'] == n and r.get('def')]
            if len(rs) != 1:
                raise kit.Broken('event loop %s not found' % n)
            self.rec[k] = rs[0]['i']
            fs = P_.all_fields(rs[0]['i'])
            isrec = lambda x, ns: P_.isrec(x['t']) and P_.rec_of_type(x['t'])['bname'] in ns
            self.queues[k] = [x['id'] for x in fs if isrec(x, QUEUES)]
            self.mutex[k] = [x['id'] for x in fs if 'mutex' in P_.tname(x['t'])]
            self.tids[k] = [x['id'] for x in fs if isrec(x, ('std::thread::id',))]
            if not self.queues[k]:
                raise kit.Broken('no queue in event loop %s' % n)
        it.may_throw = lambda e: e.kind == 'invoke' or e.name == 'W::Fn::operator()'
        it.nonneg = lambda t: t is not None and (t.k in ('lv', 'f') or t.k == 'a' and t.a[0] == 'size')
        it.snap = Snap
        it.after_call = self.grow
        it.on_lock = self.locked
        self.cur = None
        self.ngrown = 0
        self.shared = {}
        self.cache = {}
        self.idles = {}

    # ---- environment
    def grow_q(self, st, q):
        v = self.it.read(st, (SELF, (q,)))
        self.ngrown += 1
        self.it.write(st, (SELF, (q,)), A('grown', v, C(self.ngrown)), '?', None)

    def grow(self, st, ev):
        """a task may post more work from the thread it runs on"""
        if self.cur is None or not self.it.may_throw(ev):
            return
        for q in self.queues[self.cur]:
            if q in self.shared.get(self.cur, ()):
                continue
            self.grow_q(st, q)

    def locked(self, st, mutex):
        """other threads may have posted before the lock was taken"""
        if self.cur is None:
            return
        for q in self.shared.get(self.cur, ()):
            self.grow_q(st, q)

    # ---- states
    def idle(self, k):
        """fields of a new event loop, with arbitrary content of its queues"""
        it = self.it
        if k in self.idles:
            return self.idles[k]
        keep = set(self.queues[k] + self.mutex[k] + self.tids[k])
        d = {}
        done = False
        for c in self.P.fnrefs.values():
            if c.get('ctor') and c.get('rec') == self.rec[k] and not c['params'] and c['id'] in self.P.functions:
                st = St()
                st.mem[SELF] = REC(self.rec[k], S('raw'), {})
                fr = Frame(it.fid(0, 'top'), None, None, None, 0, None)
                for s in it.ctor_call(c, (SELF, ()), [], [], st, fr, ('ctor', c['id']), '?'):
                    done = True
                    for x in self.P.all_fields(self.rec[k]):
                        if x['id'] not in keep:
                            d[x['id']] = it.read(s, (SELF, (x['id'],)))
        if not done:
            raise kit.Broken('cannot construct event loop ' + k)
        self.idles[k] = d
        return d

    def start(self, k, fields, mem=None, facts=None):
        st = St()
        st.mem[SELF] = REC(self.rec[k], S('self'), fields)
        return st

    def call(self, name, k, st, task='task'):
        f = self.fns.get(name)
        if f is None:
            raise kit.Broken('witness %s not instantiated' % name)
        args = []
        for i, p in enumerate(f['params']):
            r = self.P.rec_of_type(p['t'])
            if r is not None and r['i'] == self.rec[k]:
                args.append(P(SELF))
            elif r is not None and r['bname'].startswith('lager::with_'):
                fl = self.P.all_fields(r['i'])
                st.mem[('o', 'with')] = REC(r['i'], None, {fl[0]['id']: P(SELF)})
                args.append(P(('o', 'with')))
            else:
                args.append(S(task))
        fr = Frame(self.it.fid(0, 'top'), None, None, None, 0, None)
        self.cur = k
        try:
            rs = self.it.call(f, None, args, st, fr, ('run', f['id'], task), '?')
        finally:
            self.cur = None
        self.ctx.paths += len(rs)
        return [s for s, v in rs]

    def find_shared(self):
        """queues that post() touches without having checked the thread"""
        k = 'safe'
        self.it.watch = set(self.queues[k])
        conf, seen = set(self.queues[k]), set()
        for s in self.call('safe_post', k, self.start(k, self.idle(k))):
            mine = self.on_thread(k, s)
            for e in s.events():
                q = self.queue_of(k, e)
                if q is not None:
                    seen.add(q)
                    if mine is not True:
                        conf.discard(q)
        self.shared[k] = [q for q in self.queues[k] if q not in conf]
        return self.shared[k]

    def on_thread(self, k, s):
        for f, v in s.facts.items():
            if f.k == 'a' and f.a[0] == '==' and len(f.a[1]) == 2:
                a = [x for x in f.a[1] if contains(x, lambda y: y.k == 'f' and y.a[1] in self.tids[k])]
                b = [x for x in f.a[1] if contains(x, lambda y: y.k == 'a' and 'get_id' in str(y.a[0]))]
                if a and b:
                    return v
        return None

    def queue_of(self, k, e):
        if e.kind in ('M',) and e.this is not None and e.this.k == 'p' and e.this.a[0] == SELF and e.this.a[1] \
                and e.this.a[1][0] in self.queues[k]:
            return e.this.a[1][0]
        return None

    def fname(self, q):
        return self.P.fieldname.get(q, str(q))


# ---------------------------------------------------------------- positions
class Pos:
    """positions along one abstract path"""

    def __init__(self, g, k, s):
        self.g, self.k, self.s = g, k, s
        self.cut = set()
        self.stale = set()
        self.meta = {}
        for e in s.events():
            if e.kind == 'loophead':
                for loc, a, b, l in e.ctx[3]:
                    self.meta[l] = (loc, a, b)

    def frm(self, v, depth=0):
        """content -> (base, sym, const): the sequence `base` from that position on; 'empty'; None unknown"""
        if depth > 40:
            return None
        r = lambda x: self.frm(x, depth + 1)
        if v.k == 'r' and v.a[1] is not None:
            return r(v.a[1])
        if v.k == 'mv':
            return 'empty'
        if v.k == 'f' and v.a[1] in self.g.queues[self.k] and v.a[0] is S('self'):
            return (v, None, 0)
        if v.k == 'lv':
            m = self.meta.get(v)
            if m is None:
                return None
            a, b = r(m[1]), r(m[2])
            if a is None or b is None:
                return None
            if a == b:
                return a
            if a == 'empty' and b != 'empty' and b[1:] == (None, 0):
                # filled only while draining something else
                return (b[0], None, 0)
            if a == 'empty' or b == 'empty' or a[0] is not b[0]:
                return None
            return (a[0], v, 0)
        if v.k != 'a':
            return None
        op, x = v.a[0], v.a[1]
        if op == 'vec':
            return 'empty' if not x else None
        if op in ('grown', 'push'):
            y = r(x[0])
            return (v, None, 0) if y == 'empty' else y
        if op == 'popf':
            y = r(x[0])
            return y if y is None or y == 'empty' else (y[0], y[1], y[2] + 1)
        if op == 'shifted':
            # moved to the front, with what they were moved from left behind
            self.stale.add(v)
            return r(A('erase', x[0], A('itx', C(0)), A('itx', x[1])))
        if op == 'resize' and x[0].k == 'a' and x[0].a[0] == 'shifted':
            lo = x[0].a[1][1]
            t, c = lin(x[1])
            k, c0 = lin(self.g.it.arith('-', self.g.it.size(x[0]), lo))
            if t is not k or c == c0:
                return None
            (self.cut if c < c0 else self.stale).add(v)
            return r(A('erase', x[0].a[1][0], A('itx', C(0)), A('itx', lo)))
        if op == 'resize' or op == 'popb' or op == 'erase' and len(x) == 3 and x[1].k == 'a' and x[1].a[0] == 'itx' \
                and self.at_end(x[2], x[0]) and lin(x[1].a[1][0]) != (None, 0):
            n = x[1] if op == 'resize' else self.g.it.add(self.g.it.size(x[0]), -1) if op == 'popb' else x[1].a[1][0]
            if self.cuts(x[0], n):
                self.cut.add(v)
                return r(x[0])
            return None
        if op == 'range' and x[1] is A('itx', C(0)):
            if self.cuts(x[0], x[2].a[1][0]):
                self.cut.add(v)
                return r(x[0])
            return None
        if op == 'range':
            # the rest, cut at the same place
            if self.cuts(x[0], x[2].a[1][0]):
                self.cut.add(v)
                return r(A('erase', x[0], A('itx', C(0)), x[1]))
            return None
        if op == 'erase' and len(x) == 3 and all(z.k == 'a' and z.a[0] == 'itx' for z in x[1:]):
            y = r(x[0])
            lo, hi = lin(x[1].a[1][0]), lin(x[2].a[1][0])
            if y is None or y == 'empty' or lo != (None, 0):
                return None
            if hi[1] == 0 and hi[0] is not None and hi[0].k == 'a' and hi[0].a[0] == 'size' and \
                    strip(hi[0].a[1][0]) is strip(x[0]):
                return 'empty'
            if y[1] is not None and hi[0] is not None:
                return None
            return (y[0], y[1] if hi[0] is None else hi[0], y[2] + hi[1])
        return None

    def at_end(self, i, content):
        if i.k != 'a' or i.a[0] != 'itx':
            return False
        t, c = lin(i.a[1][0])
        return c == 0 and t is not None and t.k == 'a' and t.a[0] == 'size' and strip(t.a[1][0]) is strip(content)

    def cuts(self, content, n):
        """truncating the content to n elements takes some away: n is (at most) the size of a version of it
        to which more was added since"""
        t, c = lin(n)
        if t is None or t.k != 'a' or t.a[0] != 'size':
            return False
        w, x, grown = strip(t.a[1][0]), strip(content), False
        for _ in range(40):
            if x is w:
                return c <= 0 and (grown or c < 0)
            if x.k == 'a' and x.a[0] in ('grown', 'push'):
                grown = True
                x = strip(x.a[1][0])
            else:
                return False
        return False

    def size_fact(self, idx, content):
        """facts decide that position idx is past the end of this very content"""
        t, c = lin(idx)
        size = lin(self.g.it.size(content))

        def same(x):
            return x[0] is not None and x[0].k == 'a' and x[0].a[0] == 'size' and size[0] is not None and \
                strip(x[0].a[1][0]) is strip(size[0].a[1][0])
        for f, val in self.s.facts.items():
            if f.k != 'a' or f.a[0] not in ('==', '<') or len(f.a[1]) != 2:
                continue
            x, y = lin(f.a[1][0]), lin(f.a[1][1])
            if f.a[0] == '<' and not val and same(y) and x[0] is t and c - x[1] >= size[1] - y[1]:
                return True
            if f.a[0] == '==' and val:
                for a, b in ((x, y), (y, x)):
                    if same(a) and b[0] is t and c - b[1] == size[1] - a[1]:
                        return True
        return False

    def sizes(self):
        """contents whose size was compared on the path, with the index terms they were compared with"""
        out = []
        for f, val in self.s.facts.items():
            if f.k == 'a' and f.a[0] in ('==', '<') and len(f.a[1]) == 2:
                for a in f.a[1]:
                    t = lin(a)[0]
                    if t is not None and t.k == 'a' and t.a[0] == 'size':
                        out.append(t.a[1][0])
        return out


def strip(v):
    while v.k == 'r' and v.a[1] is not None:
        v = v.a[1]
    return v


def chain(v):
    while v.k == 'r' and v.a[1] is not None or v.k == 'a' and v.a[0] in ('grown', 'push', 'resize', 'erase', 'popf'):
        yield v
        v = v.a[1] if v.k == 'r' else v.a[1][0]
    yield v


def elem(v):
    """invoked value -> (content, index) of the queue element it is"""
    while v.k == 'mv' or v.k == 'a' and v.a[0] in ('wrapfn',):
        v = v.a[0] if v.k == 'mv' else v.a[1][0]
    if v.k == 'f' and isinstance(v.a[1], tuple) and v.a[1][0] == 'i':
        return v.a[0], v.a[1][1]
    return None


class Drain:
    """what one path executes and leaves"""

    def __init__(self, g, k, s):
        self.g, self.k, self.s = g, k, s
        self.p = p = Pos(g, k, s)
        self.bad = []           # (rule, message, where)
        self.unknown = []
        self.E = {}             # base -> executed so far, as a set of equal (sym, const)
        self.last = {}          # base -> last content derived from it
        self.runs = []
        self.where = ''
        for q in g.queues[k]:
            self.see(g.it.read(g.start(k, {}), (SELF, (q,))))
        for e in s.events():
            if e.where.startswith(kit.REPO):
                self.where = e.where
            if e.kind == 'W' and e.this.k == 'p' and e.this.a[0] == SELF and e.this.a[1] and e.this.a[1][0] in g.queues[k]:
                if len(e.this.a[1]) == 1:
                    self.see(e.args[0])
            elif e.kind == 'loophead':
                self.head(e)
            elif e.kind == 'invoke' or (e.kind == 'call' and e.name == 'W::Fn::operator()'):
                self.invoke(e)

    def see(self, v):
        f = self.p.frm(v)
        if f is not None and f != 'empty':
            self.E.setdefault(f[0], {(None, 0)})
            self.last[f[0]] = v

    def head(self, e):
        for b, reps in list(self.E.items()):
            new = set()
            for loc, a, bb, l in e.ctx[3]:
                y = lin(bb) if bb.k != 'r' else None
                if y is not None and y in reps:
                    new.add((l, 0))
                f = self.p.frm(bb)
                if f is not None and f != 'empty' and f[0] is b and f[1:] in reps:
                    g = self.p.frm(l)
                    if g is not None and g != 'empty':
                        new.add(g[1:])
            # unchanged by this pass
            touched = any(r['iter'] for r in self.runs if r['base'] is b and r['new'])
            for r in self.runs:
                if r['base'] is b:
                    r['new'] = False
            if not touched:
                new |= reps
            elif not new:
                new = set()
            self.E[b] = new
        for loc, a, bb, l in e.ctx[3]:
            f = self.p.frm(l)
            if f is not None and f != 'empty':
                self.E.setdefault(f[0], {(None, 0)})
                self.last[f[0]] = l

    def invoke(self, e):
        c = elem(e.vals[0]) if e.vals else None
        run = {'ev': e, 'base': None, 'iter': True, 'new': True}
        self.runs.append(run)
        if e.vals and e.vals[0].k == 'mv':
            self.bad.append(('runs-once', 'a task that was already taken out of the queue is run', e.where))
        if c is None:
            self.unknown.append('runs something that is not an element of a queue: %s' % show(e.vals[0] if e.vals else VOID, 3))
            return
        x, i = c
        f = self.p.frm(x)
        t, n = lin(i)
        if t is not None and t.k == 'a' and t.a[0] == 'size':
            self.bad.append(('in-order', 'the last task of the queue is run first', e.where))
            return
        if f is None or f == 'empty' or (f[1] is not None and t is not None):
            self.unknown.append('position of the task that is run')
            return
        pos = (f[1] if t is None else t, f[2] + n)
        run['base'], run['pos'] = f[0], pos
        reps = self.E.setdefault(f[0], {(None, 0)})
        if pos not in reps:
            d = self.diff(pos, reps)
            if d is None:
                self.unknown.append('position of the task that is run, relative to those run before')
            elif d > 0:
                self.bad.append(('runs-once', 'a task is skipped', e.where))
            else:
                self.bad.append(('runs-once', 'a task is run again', e.where))
        self.E[f[0]] = {(pos[0], pos[1] + 1)}
        at = e.at if e.at is not None else e.this
        if at is not None and at.k == 'p' and at.a[0] == SELF:
            q = at.a[1][0] if at.a[1] else None
            if q in self.g.queues[self.k]:
                fld = [z for z in self.g.P.all_fields(self.g.rec[self.k]) if z['id'] == q][0]
                if self.g.P.rec_of_type(fld['t'])['bname'] == 'std::vector':
                    self.bad.append(('runs-outside-the-queue', 'the task is run inside the vector it lives in, which moves when it posts more work', e.where))

    def diff(self, pos, reps):
        """pos - executed, when comparable"""
        for r in reps:
            if r[0] is pos[0]:
                return pos[1] - r[1]
        # both as values at the end of the pass before
        for r in reps:
            for a, b in ((pos, r), (r, pos)):
                m = self.p.meta.get(a[0]) if a[0] is not None else None
                if m is not None:
                    y = lin(m[2]) if m[2].k != 'r' else None
                    if y is not None and y[0] is b[0]:
                        d = y[1] + a[1] - b[1]
                        return d if a is pos else -d
        return None

    def remaining(self):
        """base -> position from which it is still in a queue of the loop"""
        out = {}
        for q in self.g.queues[self.k]:
            v = self.g.it.read(self.s, (SELF, (q,)))
            f = self.p.frm(v)
            if f is None:
                self.unknown.append('content left in %s: %s' % (self.g.fname(q), show(v, 3)))
                out[None] = v
            elif f != 'empty':
                out[f[0]] = (f[1:], v)
        return out

    def finished(self, b, any_version=False):
        """facts say everything of the sequence was executed"""
        vs = [c for c in self.p.sizes() if (self.p.frm(c) or ('',))[0] is b]
        for c in vs:
            if not any_version and not self.same_size(c, self.last[b]):
                continue
            f = self.p.frm(c)
            for r in self.E[b]:
                # executed == from + index  <=>  index == executed - from
                if f[1] is None:
                    idx = self.g.it.unlin(r[0], r[1] - f[2])
                elif f[1] is r[0]:
                    idx = C(r[1] - f[2])
                else:
                    continue
                if self.p.size_fact(idx, c):
                    return True
        return False

    def same_size(self, c, d):
        """versions of one content: nothing was added between c and d"""
        while True:
            c, d = strip(c), strip(d)
            if c is d:
                return True
            if d.k == 'a' and d.a[0] in ('popf', 'popb', 'erase'):
                d = d.a[1][0]
            else:
                return False

    def leftovers(self, must_empty, label):
        """conservation: what was not executed is still there, exactly"""
        exc = self.s.exc is not None
        rem = self.remaining()
        if None in rem:
            return
        for b, reps in self.E.items():
            if b in rem:
                x, v = rem[b]
                if any(z in self.p.stale for z in chain(v)):
                    self.bad.append(('runs-once', 'tasks moved to the front of the queue leave copies or empty functions behind', self.where))
                if self.p.cut:
                    self.bad.append(('nothing-lost', 'work %s is taken away from the end of the queue' % (
                        'posted before a task throws' if exc else 'posted while draining'), self.where))
                if not reps:
                    self.unknown.append('number of executed tasks')
                    continue
                if x not in reps:
                    d = self.diff(x, reps)
                    if d is None:
                        self.unknown.append('what is left, relative to what was executed')
                    elif d > 0:
                        self.bad.append(('nothing-lost', 'a task that was not run is removed', self.where))
                    else:
                        self.bad.append(('runs-once', 'a task that was run stays in the queue', self.where))
                if must_empty and not exc and not self.finished(b) and not self.empty(v):
                    self.bad.append(('drained', 'posted work is left behind', self.where))
                elif not exc and not self.finished(b, True) and not must_empty and b.k == 'f' and not self.empty(v):
                    self.bad.append(('drained', 'work posted before is not run', self.where))
            else:
                if not reps:
                    self.unknown.append('number of executed tasks')
                    continue
                if not self.finished(b):
                    self.bad.append(('nothing-lost', 'work %s is dropped' % (
                        'left when a task throws' if exc else 'not yet run' if b.k == 'f' else 'posted while draining'), self.where))

    def empty(self, v):
        return self.p.size_fact(C(0), v)


def T(g, s):
    return kit.trace_lines(g.it, s)


def report(ctx, g, label, d, rules):
    for r in rules:
        bs = [b for b in d.bad if b[0] == r]
        ctx.ob(r, label, not bs, bs[0][1] if bs else '', bs[0][2] if bs else '', T(g, d.s))
    for u in d.unknown:
        ctx.note('%s: not decided on a path: %s' % (label, u))


def drains(g, k):
    """all paths of the function that drains the loop"""
    if k in g.cache:
        return g.cache[k]
    name = {'manual': 'manual_post', 'queue': 'queue_step', 'safe': 'safe_step'}[k]
    names = [name] + (['manual_postm'] if k == 'manual' else [])
    out = []
    todo = [g.idle(k)]
    seen = []
    while todo and len(seen) < 6:
        d0 = todo.pop()
        if d0 in seen:
            continue
        seen.append(d0)
        for n in names:
            for s in g.call(n, k, g.start(k, d0)):
                out.append((n, s, Drain(g, k, s), d0))
                v = g.it.read(s, (SELF, ()))
                if not any(e.kind == 'throw' and e.name not in ('rethrow',) for e in s.events()):
                    d1 = {x: g.it.field(v, x) for x in d0}
                    if d1 not in seen and d1 not in todo:
                        todo.append(d1)
    g.cache[k] = out
    return out


ORDER = ('in-order', 'runs-once', 'runs-outside-the-queue')


def rule_drain(ctx, g, k):
    """in order, once, nothing lost, on normal exits"""
    for n, s, d, d0 in drains(g, k):
        if s.exc is not None:
            report(ctx, g, n, d, ORDER)
            continue
        d.leftovers(k == 'manual', n)
        report(ctx, g, n, d, ORDER + ('nothing-lost', 'drained'))
        if k == 'manual':
            ctx.ob('drained', n + ' idle loop', bool(d.runs), 'work posted to an idle loop is not run', d.where, T(g, s))


def rule_throw(ctx, g, k):
    """after a task throws: the exception propagates, nothing else is lost, the loop stays usable"""
    n0 = 0
    for n, s, d, d0 in drains(g, k):
        threw = [e for e in s.events() if e.kind == 'threw']
        if not threw:
            if s.exc is None and d0 != g.idle(k):
                # a path from the state an earlier failure or run left behind
                d.leftovers(k == 'manual', n)
                report(ctx, g, n + ' again', d, ORDER + ('nothing-lost', 'drained'))
                if k == 'manual':
                    ctx.ob('usable-after', n, bool(d.runs), 'the loop does not run work posted later', d.where, T(g, s))
            continue
        n0 += 1
        ctx.ob('exception-propagates', n, s.exc is not None, 'the exception of a task does not reach the caller', threw[0].where, T(g, s))
        d.leftovers(False, n)
        report(ctx, g, n + ' throwing', d, ORDER + ('nothing-lost',))
        m = g.mutex[k]
        ctx.ob('usable-after', n + ' unlocked', not s.held, 'a lock is kept when a task throws', threw[0].where, T(g, s))
    if not n0:
        ctx.note('%s: no path on which a task throws' % k)


def rule_post(ctx, g, k, names):
    """posting appends the task once"""
    for n in names:
        for s in g.call(n, k, g.start(k, g.idle(k))):
            if s.exc is not None:
                continue
            pushes = [e for e in s.events() if e.kind == 'cont' and e.name in ('push_back', 'push_front', 'insert', 'emplace')]
            runs = [e for e in s.events() if e.kind == 'invoke' or e.name == 'W::Fn::operator()']
            w = pushes[0].where if pushes else ''
            got = [e for e in pushes if any(contains(x, lambda y: y is S('task')) for x in e.args)]
            if k != 'manual':
                ctx.ob('post-only-enqueues', n, not runs, 'posting runs work', runs[0].where if runs else w, T(g, s))
                fin = [g.it.read(s, (SELF, (q,))) for q in g.queues[k]]
                has = [v for v in fin if contains(v, lambda y: y is S('task'))]
                ok = len(has) == 1
                ctx.ob('posted-once', n, ok, 'the task is put into %d queues' % len(has), w, T(g, s))
                if ok:
                    v = has[0]
                    if v.k == 'a' and v.a[0] == 'push' and contains(v.a[1][1], lambda y: y is S('task')):
                        v0 = v.a[1][0]
                        ok = not contains(v0, lambda y: y is S('task'))
                        ctx.ob('posted-once', n + ' last', ok, 'the task is appended twice', w, T(g, s))
                        f = Pos(g, k, s).frm(v0)
                        ctx.ob('post-keeps-work', n, f is not None and f != 'empty' and f[1:] == (None, 0),
                               'posting drops work already posted', w, T(g, s))
                    elif v.k == 'a' and v.a[0] in ('pushf', 'insert'):
                        ctx.ob('posted-last', n, False, 'the task is put in front of work posted before', w, T(g, s))
                    else:
                        ctx.note('%s: how the task is enqueued is not understood: %s' % (n, show(v, 3)))
            else:
                ctx.ob('posted-once', n, len(got) <= 1, 'the task is appended twice', w, T(g, s))
                front = [e for e in got if e.name == 'push_front']
                ctx.ob('posted-last', n, not front, 'the task is put in front of work posted before', w, T(g, s))
                first = next((i for i, e in enumerate(s.events()) if e.kind == 'invoke'), None)
                put = next((i for i, e in enumerate(s.events()) if e in got), None)
                # everything that runs comes from the queue, so the task must be there first
                ctx.ob('posted-once', n + ' before draining', put is not None and (first is None or put < first),
                       'the task is not enqueued before work is run', w, T(g, s))
    ctx.absorb(g.it)


def rule_nested(ctx, g, k='manual'):
    """posting from inside running work only enqueues"""
    for n, s, d, d0 in drains(g, k):
        for r in d.runs:
            e = r['ev']
            if e.snap is None:
                continue
            st = e.snap.state()
            before = g.it.read(st, (SELF, (g.queues[k][0],)))
            for s2 in g.call(n, k, st, 'nested'):
                runs = [x for x in s2.events() if x.kind == 'invoke' or x.name == 'W::Fn::operator()']
                ctx.ob('never-nested', n, not runs, 'work posted from inside running work is run at once', runs[0].where if runs else '',
                       T(g, s2))
                if runs:
                    continue
                fin = [g.it.read(s2, (SELF, (q,))) for q in g.queues[k]]
                has = [v for v in fin if contains(v, lambda y: y is S('nested'))]
                ctx.ob('posted-once', n + ' nested', len(has) == 1, 'work posted from inside running work is not enqueued', e.where, T(g, s2))
                d1 = {x: g.it.read(s2, (SELF, (x,))) for x in d0}
                d2 = {x: g.it.read(st, (SELF, (x,))) for x in d0}
                for x in d0:
                    if d1[x] is not d2[x]:
                        ctx.note('posting from inside running work changes %s' % g.fname(x))


def rule_locks(ctx, g):
    k = 'safe'
    shared = g.find_shared()
    if not g.mutex[k]:
        raise kit.Broken('no lock in the thread-safe queue')
    ctx.note('queues other threads post to: %s' % ', '.join(g.fname(q) for q in shared))
    ms = [P(SELF, (m,)) for m in g.mutex[k]]
    idle = g.idle(k)
    for n in ('safe_post', 'safe_postw', 'safe_step', 'safe_adopt'):
        for s in g.call(n, k, g.start(k, idle)):
            for e in s.events():
                q = g.queue_of(k, e)
                if q in shared:
                    ctx.ob('shared-under-lock', '%s %s' % (n, g.fname(q)), any(m in e.ctx for m in ms),
                           'work of other threads is accessed without the lock', e.where, T(g, s))
                elif q is not None and n in ('safe_post', 'safe_postw'):
                    ctx.ob('immediate-on-own-thread', '%s %s' % (n, g.fname(q)), g.on_thread(k, s) is True,
                           'the queue of the adopting thread is used by another thread', e.where, T(g, s))
                if e.kind == 'invoke' or e.name == 'W::Fn::operator()':
                    ctx.ob('no-task-under-lock', n, not e.ctx, 'a task runs while the lock is held', e.where, T(g, s))
            ctx.ob('lock-released', n, not s.held, 'the lock is kept', '', T(g, s))
            if n == 'safe_post':
                ctx.ob('posts-somewhere', n, any(g.queue_of(k, e) is not None for e in s.events()), 'a task is dropped', '', T(g, s))
    # between taking shared work out and the next look at it, the lock may be released; but a look and the
    # change it decides must be one critical section
    for n in ('safe_post', 'safe_step'):
        for s in g.call(n, k, g.start(k, idle)):
            evs = s.events()
            for i, e in enumerate(evs):
                if e.kind == 'W' and e.this.k == 'p' and e.this.a[0] == SELF and e.this.a[1] and e.this.a[1][0] in shared \
                        and e.args and e.args[0].k == 'a' and e.args[0].a[0] != 'grown':
                    ctx.ob('shared-under-lock', n + ' write', any(m in e.ctx for m in ms), 'work of other threads is changed without the lock',
                           e.where, T(g, s))
    ctx.absorb(g.it)


def rule_adopt(ctx, g):
    """adopting only changes which thread drains the queue"""
    k = 'safe'
    for s in g.call('safe_adopt', k, g.start(k, g.idle(k))):
        if s.exc is not None:
            continue
        for q in g.queues[k]:
            v = g.it.read(s, (SELF, (q,)))
            ctx.ob('adopt-keeps-work', g.fname(q), Pos(g, k, s).frm(v) == (mk('f', S('self'), q), None, 0) or q in g.shared.get(k, ()),
                   'adopting drops posted work', '', T(g, s))
        t = [g.it.read(s, (SELF, (x,))) for x in g.tids[k]]
        ctx.ob('adopts-the-caller', 'adopt()', bool(t) and all(contains(x, lambda y: y.k == 'a' and 'get_id' in str(y.a[0])) for x in t),
               'adopt() does not make the calling thread the one that drains', '', T(g, s))
