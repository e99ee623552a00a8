"""Path-sensitive typestate / value-provenance dataflow over the exported program.

Abstract values are hash-consed terms (a Herbrand / value-numbering domain), the
abstract store maps abstract locations to values, branch conditions become facts,
loops are widened to a generic iteration.  Everything user supplied or outside
the library is opaque: a call to it is an event in the abstract trace.
"""
import sys
from collections import namedtuple

sys.setrecursionlimit(20000)


class V:
    __slots__ = ('k', 'a', 'n')

    def __repr__(self):
        return show(self, 6)


_intern = {}


def mk(k, *a):
    key = (k,) + a
    v = _intern.get(key)
    if v is None:
        v = V()
        v.k = k
        v.a = a
        v.n = len(_intern)
        _intern[key] = v
    return v


VOID = mk('void')
NULL = mk('c', None)
TRUE = mk('c', 1)
FALSE = mk('c', 0)


def C(x):
    return mk('c', x)


def S(name):
    return mk('s', name)


def A(op, *args):
    return mk('a', op, tuple(args))


def P(base, path=()):
    if base[0] == 'x' and not path:
        return base[1]
    return mk('p', base, path)


def REC(rec, base, fields):
    return mk('r', rec, base, tuple(sorted(fields.items(), key=lambda kv: str(kv[0]))))


def isc(v):
    return v.k == 'c'


def show(v, d=6):
    if not isinstance(v, V):
        return repr(v)
    if d == 0:
        return '..'
    k, a = v.k, v.a
    if k == 'c':
        return repr(a[0]) if a[0] is not None else 'null'
    if k == 's':
        return str(a[0])
    if k == 'a':
        return '%s(%s)' % (a[0], ', '.join(show(x, d - 1) for x in a[1]))
    if k == 'p':
        return '&' + showloc(a, d - 1)
    if k == 'r':
        return '{%s%s}' % ((show(a[1], d - 1) + '|') if a[1] is not None else '#%s ' % a[0],
                           ', '.join('%s=%s' % (fname(f), show(x, d - 1)) for f, x in a[2]))
    if k == 'mv':
        return 'MOVED(%s)' % show(a[0], d - 1)
    if k == 'f':
        return '%s.%s' % (show(a[0], d - 1), fname(a[1]))
    if k == 'd':
        return '*%s' % show(a[0], d - 1)
    if k == 'lv':
        return 'lv%s#%s' % (a[1], a[2])
    return '%s%r' % (k, a)


FIELDNAMES = {}


def fname(k):
    if isinstance(k, tuple):
        return '[%s]' % ','.join(show(x, 4) for x in k)
    return FIELDNAMES.get(k, str(k))


def showloc(loc, d=6):
    b, p = loc
    if b[0] == 'x':
        s = '(*%s)' % show(b[1], d)
    else:
        s = '/'.join(str(x) for x in b)
    return s + ''.join('.' + fname(k) for k in p)


Ev = namedtuple('Ev', 'kind name this args where res fid ctx vals snap at', defaults=((), None, None))
# kind: call vcall invoke W(rite) F(act) lock unlock throw loop dtor new ...


def contains(v, pred, seen=None):
    """Any subterm satisfying pred (through values, pointers' bases)."""
    seen = set() if seen is None else seen
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, V):
            if x in seen:
                continue
            seen.add(x)
            if pred(x):
                return True
            stack.extend(x.a)
        elif isinstance(x, tuple):
            stack.extend(x)
    return False


def has_moved(v):
    return contains(v, lambda x: x.k == 'mv')


class Budget(Exception):
    pass


class St:
    __slots__ = ('mem', 'facts', 'trace', 'exc', 'held')

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.trace = None
        self.exc = None
        self.held = ()

    def copy(self):
        s = St()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.exc = self.exc
        s.held = self.held
        return s

    def events(self):
        out = []
        t = self.trace
        while t is not None:
            t, e = t
            out.append(e)
        out.reverse()
        return out


class Frame:
    __slots__ = ('fid', 'this', 'fn', 'cl', 'depth', 'parent', 'args')

    def __init__(self, fid, this, fn, cl, depth, parent):
        self.fid = fid
        self.this = this
        self.fn = fn
        self.cl = cl
        self.depth = depth
        self.parent = parent


SMARTS = ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr', 'std::__shared_ptr',
          'std::__weak_ptr', 'std::__shared_ptr_access', 'std::__uniq_ptr_impl',
          'boost::intrusive_ptr', 'QPointer')
LOCKS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')
CONTAINERS = ('std::vector', 'std::deque', 'std::list', 'boost::intrusive::list',
              'boost::intrusive::list_impl', 'immer::vector', 'immer::flex_vector',
              'immer::array', 'immer::vector_transient', 'immer::flex_vector_transient',
              'immer::array_transient', 'std::array', 'std::queue', 'std::basic_string',
              'std::basic_string_view', 'std::map', 'std::unordered_map', 'immer::map',
              'std::set', 'immer::set', 'immer::map_transient', 'immer::set_transient',
              'std::initializer_list')
ITERS = ('__gnu_cxx::__normal_iterator', 'std::_Deque_iterator', 'std::_List_iterator',
         'std::_List_const_iterator', 'boost::intrusive::list_iterator',
         'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::reverse_iterator')


class Interp:
    def __init__(self, prog, max_depth=60, max_paths=6000):
        self.P = prog
        FIELDNAMES.update(prog.fieldname)
        self.max_depth = max_depth
        self.max_paths = max_paths
        self.fids = {}
        self.nsteps = 0
        self.opaque = lambda f: False       # fnref -> treat as opaque event?
        self.enter_event = lambda f: None   # fnref -> name: emit an 'enter' event
        self.may_throw = lambda ev: False   # opaque event may raise?
        self.hook = lambda it, f, this, args, st, fr, e: None  # full override
        self.exec_fns = set()               # functions analysed (ids)
        self.calls_seen = 0
        self.unknown = {}                   # unmodelled constructs -> count
        self.globcache = {}
        self.dtor_events = lambda rec: False
        self.pure_statics = False  # local statics only ever hold what their initialisers yield
        self.keeps_args = lambda f: False   # opaque callee leaves its reference arguments alone
        self.log_temps = False              # report the end of temporaries
        self.short_temps = set()            # temporaries that no reference extends
        self.preds = {}                     # search -> (generic element, paths of its predicate)
        self.snap = None                    # state snapshot attached to call events
        self.fresh = 0
        self.at_head = lambda st, sid, n: st    # judge and forget what led to the head of a loop
        self.max_heads = 400                # states kept at the head of a loop
        self.after_call = lambda st, ev: None   # effects of an opaque call on the state
        self.on_lock = lambda st, mutex: None
        self.watch = ()                     # field ids whose accesses are logged

    # ---------------------------------------------------------------- memory
    def init_base(self, base):
        b = base[0]
        if b == 'x':
            return mk('d', base[1])
        if b == 'o':
            return S(base[1])
        if b == 'g':
            if base in self.globcache:
                return self.globcache[base]
            g = self.P.globals.get(base[1])
            v = None
            if g and 'cv' in g:
                v = C(g['cv'])
            elif g and g.get('init') is not None:
                self.globcache[base] = A('glob', S(g['name']))
                st = St()
                fr = Frame(self.fid(0, ('glob', base[1])), None, None, None, 0, None)
                try:
                    if self.P.isrec(g['t']):
                        rs = self.ev_into(g['init'], st, fr, (base, ()))
                        if len(rs) == 1:
                            v = rs[0].mem.get(base)
                    else:
                        rs = self.ev(g['init'], st, fr)
                        if len(rs) == 1:
                            v = rs[0][1]
                except Budget:
                    raise
            if v is None:
                v = A('glob', S(g['name'] if g else str(base[1])))
            self.globcache[base] = v
            return v
        return A('uninit', S(str(base)))

    def field(self, v, k):
        if v.k == 'r':
            for f, x in v.a[2]:
                if f == k:
                    return x
            if v.a[1] is not None:
                return self.field(v.a[1], k)
            return A('unset', S(str(k)))
        if v.k == 'mv':
            x = self.field(v.a[0], k)
            return x if x.k == 'c' else mk('mv', x)
        if v.k == 'a':
            op, args = v.a
            if op == 'some' and k == 'val' or op == 'box' and k == 'box':
                return args[0]
            if isinstance(k, tuple) and k[0] == 'i':
                if op == 'push':
                    sz = self.size(args[0])
                    if k[1] is sz:
                        return args[1]
                    if isc(k[1]) and isc(sz) and k[1].a[0] != sz.a[0]:
                        return self.field(args[0], k)
            if isinstance(k, tuple) and k[0] == 'alt' and op == 'alt':
                if args[0] is k[1]:
                    return args[1]
        if v.k == 'il' and isinstance(k, tuple) and k[0] == 'i' and isc(k[1]):
            if 0 <= k[1].a[0] < len(v.a[0]):
                return v.a[0][k[1].a[0]]
        return mk('f', v, k)

    def setpath(self, v, path, val):
        if not path:
            return val
        k = path[0]
        sub = self.field(v, k)
        new = self.setpath(sub, path[1:], val)
        if new is sub and v.k != 'mv':
            return v
        if v.k == 'a' and (v.a[0] == 'some' and k == 'val' or v.a[0] == 'box' and k == 'box'):
            return A(v.a[0], new)
        if v.k == 'r':
            d = dict(v.a[2])
            d[k] = new
            return REC(v.a[0], v.a[1], d)
        return REC(None, v, {k: new})

    def read(self, st, loc):
        base, path = loc
        v = st.mem.get(base)
        if v is None:
            v = self.init_base(base)
        for k in path:
            v = self.field(v, k)
        return v

    def write(self, st, loc, val, where='?', fr=None, quiet=False):
        base, path = loc
        if path:
            v = st.mem.get(base)
            if v is None:
                v = self.init_base(base)
            val2 = self.setpath(v, path, val)
        else:
            val2 = val
        st.mem[base] = val2
        if not quiet and base[0] in ('o', 'x', 'g', 'h'):
            self.event(st, 'W', '', P(base, path), (val,), where, None, fr)

    def event(self, st, kind, name, this, args, where, res, fr, ctx=None, vals=(), at=None):
        e = Ev(kind, name, this, tuple(args), where, res, fr.fid if fr else 0,
               ctx if ctx is not None else st.held, tuple(vals),
               self.snap(st) if self.snap and kind in ('call', 'vcall', 'invoke') else None, at)
        st.trace = (st.trace, e)
        return e

    def addr(self, v):
        if v.k == 'p':
            return v.a
        return (('x', v), ())

    def load(self, st, v):
        return self.read(st, self.addr(v))

    def store(self, st, v, val, where='?', fr=None):
        self.write(st, self.addr(v), val, where, fr)

    def fid(self, parent, sid):
        key = (parent, sid)
        f = self.fids.get(key)
        if f is None:
            f = self.fids[key] = len(self.fids) + 1
        return f

    # ------------------------------------------------------------ arithmetic
    def size(self, v):
        if v.k == 'a':
            op, args = v.a
            if op == 'push' or op == 'pushf':
                return self.add(self.size(args[0]), 1)
            if op == 'vec':
                return C(0)
            if op == 'shifted':
                return self.size(args[0])
        if v.k == 'il':
            return C(len(v.a[0]))
        if v.k == 'c' and isinstance(v.a[0], str):
            return C(len(v.a[0]))
        if v.k == 'r' and v.a[1] is not None:
            return self.size(v.a[1])
        if v.k == 'r' and v.a[0] is not None:
            return A('size', v)
        if v.k == 'mv':
            return A('size', v)
        return A('size', v)

    def lin(self, v):
        """term + const"""
        if isc(v) and isinstance(v.a[0], int):
            return (None, v.a[0])
        if v.k == 'a' and v.a[0] == '+' and isc(v.a[1][1]):
            return (v.a[1][0], v.a[1][1].a[0])
        return (v, 0)

    def unlin(self, t, n):
        if t is None:
            return C(n)
        if n == 0:
            return t
        return A('+', t, C(n))

    def add(self, v, n):
        t, m = self.lin(v)
        return self.unlin(t, m + n)

    def arith(self, op, a, b):
        la, lb = self.lin(a), self.lin(b)
        if op == '+':
            if lb[0] is None:
                return self.unlin(la[0], la[1] + lb[1])
            if la[0] is None:
                return self.unlin(lb[0], la[1] + lb[1])
        if op == '-':
            if lb[0] is None:
                return self.unlin(la[0], la[1] - lb[1])
            if la[0] is lb[0]:
                return C(la[1] - lb[1])
        if isc(a) and isc(b) and isinstance(a.a[0], int) and isinstance(b.a[0], int):
            x, y = a.a[0], b.a[0]
            try:
                r = {'*': lambda: x * y, '/': lambda: int(x / y), '%': lambda: x % y,
                     '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
                     '<<': lambda: x << y, '>>': lambda: x >> y}[op]()
                return C(r)
            except (KeyError, ZeroDivisionError):
                pass
        if op == '|' or op == '&':
            if isc(a) and not isc(b):
                a, b = b, a
            if isc(b) and isinstance(b.a[0], int):
                if op == '|' and b.a[0] == 0:
                    return a
                if op == '&' and b.a[0] == 0:
                    return C(0)
        if op == '+' or op == '*':
            if a.n > b.n:
                a, b = b, a
        return A(op, a, b)

    def mknot(self, v):
        if isc(v):
            return C(0 if v.a[0] else 1)
        if v.k in ('p', 'fn'):
            return FALSE
        if v.k == 'a' and v.a[0] == '!':
            return v.a[1][0]
        return A('!', v)

    def nonneg(self, t):
        return t is not None and t.k == 'a' and t.a[0] in ('size',)

    def mkeq(self, a, b, fold=True):
        if isc(a) and isc(b):
            return C(1 if a.a[0] == b.a[0] else 0)
        if a is b and fold:
            return TRUE
        if isc(b) and b.a[0] is None:
            return self.mknot(a)
        if isc(a) and a.a[0] is None:
            return self.mknot(b)
        if a.k == b.k == 'r' and a.a[0] == b.a[0] == '$it':
            x, y = dict(a.a[2]), dict(b.a[2])
            if x['c'] is y['c']:
                return self.mkeq(x['i'], y['i'], fold)
        if a.k == 'p' and b.k == 'p' and fold:
            if a.a[0][0] != 'x' and b.a[0][0] != 'x':
                return FALSE
        if fold:
            la, lb = self.lin(a), self.lin(b)
            if la[0] is lb[0]:
                return C(1 if la[1] == lb[1] else 0)
            # size + k == c with k > c
            for x, y in ((la, lb), (lb, la)):
                if self.nonneg(x[0]) and y[0] is None and x[1] > y[1]:
                    return FALSE
            if la[1] and lb[1]:
                m = min(la[1], lb[1])
                a, b = self.unlin(la[0], la[1] - m), self.unlin(lb[0], lb[1] - m)
            elif lb[0] is None and la[1]:
                a, b = la[0], C(lb[1] - la[1])
            elif la[0] is None and lb[1]:
                a, b = lb[0], C(la[1] - lb[1])
            # booleans
            if isc(b) and b.a[0] in (0, 1) and a.k == 'a' and a.a[0] in ('!', '==', '<'):
                return a if b.a[0] else self.mknot(a)
        if isc(a) or (not isc(b) and a.n > b.n):
            a, b = b, a
        return A('==', a, b)

    def unsigned(self, e):
        t = e.get('t', -1) if e else -1
        return t is not None and t >= 0 and self.P.decay(t).replace('const ', '').startswith('unsigned')

    def mklt(self, a, b):
        if isc(a) and isc(b):
            try:
                return C(1 if a.a[0] < b.a[0] else 0)
            except TypeError:
                pass
        la, lb = self.lin(a), self.lin(b)
        if la[0] is lb[0]:
            return C(1 if la[1] < lb[1] else 0)
        if la[0] is None and self.nonneg(lb[0]):
            # c < size + k
            d = la[1] - lb[1]
            if d < 0:
                return TRUE
            if d == 0:
                return self.mknot(self.mkeq(lb[0], C(0)))
        if lb[0] is None and self.nonneg(la[0]):
            d = lb[1] - la[1]   # size < d
            if d <= 0:
                return FALSE
            if d == 1:
                return self.mkeq(la[0], C(0))
        if la[1] and lb[1]:
            m = min(la[1], lb[1])
            a, b = self.unlin(la[0], la[1] - m), self.unlin(lb[0], lb[1] - m)
        return A('<', a, b)

    def truth(self, st, v, where='?', fr=None):
        """-> list of (st, bool)"""
        if isc(v):
            return [(st, bool(v.a[0]))]
        if v.k in ('p', 'fn') or v.k == 's' and str(v.a[0] if isinstance(v.a, tuple) else v.a).startswith("'"):
            return [(st, True)]        # (a quoted symbol is the text of a literal)
        if v.k == 'r' and isinstance(v.a[0], int) and self.is_callable_rec(v):
            return [(st, True)]
        if v.k == 'a' and v.a[0] == '!':
            return [(s, not b) for s, b in self.truth(st, v.a[1][0], where, fr)]
        if v.k == 'a' and v.a[0] == 'some':
            return [(st, True)]
        if v.k == 'a' and v.a[0] == 'weak':
            return self.truth(st, v.a[1][0], where, fr)
        if v.k == 'a' and v.a[0] == 'ite':
            c, x, y = v.a[1]
            out = []
            for s, b in self.truth(st, c, where, fr):
                out += self.truth(s, x if b else y, where, fr)
            return out
        if v.k == 'a' and v.a[0] == '&':
            pass
        if v in st.facts:
            if v.k == 'a' and v.a[0] == 'lock':
                self.event(st, 'K', '', v, (C(1 if st.facts[v] else 0),), where, None, fr)
            return [(st, st.facts[v])]
        imp = self.implied(st, v)
        if imp is not None:
            return [(st, imp)]
        a = st.copy()
        b = st.copy()
        a.facts[v] = True
        b.facts[v] = False
        self.event(a, 'F', '', v, (TRUE,), where, None, fr)
        self.event(b, 'F', '', v, (FALSE,), where, None, fr)
        return [(a, True), (b, False)]

    def implied(self, st, v):
        if v.k != 'a':
            return None
        op, args = v.a
        if op == '==':
            x, y = args
            # x == c known different constant
            if isc(y):
                for f, val in st.facts.items():
                    if val and f.k == 'a' and f.a[0] == '==' and f.a[1][0] is x and isc(f.a[1][1]) \
                            and f.a[1][1] is not y:
                        return False
            # i < n  => i != n
            if A('<', x, y) in st.facts and st.facts[A('<', x, y)]:
                return False
            if A('<', y, x) in st.facts and st.facts[A('<', y, x)]:
                return False
        if op == '<':
            x, y = args
            r = A('<', y, x)
            if st.facts.get(r) is True:
                return False
            e = self.mkeq(x, y)
            if not isc(e) and st.facts.get(e) is True:
                return False
            # i != n and loop counters ascending from 0: handled by rules
            if isc(y) and isinstance(y.a[0], int):
                for f, val in st.facts.items():
                    if f.k == 'a' and f.a[0] == '<' and f.a[1][0] is x and isc(f.a[1][1]):
                        c = f.a[1][1].a[0]
                        if val and c <= y.a[0]:
                            return True
                        if not val and c >= y.a[0]:
                            return False
                    if val and f.k == 'a' and f.a[0] == '==' and f.a[1][0] is x and isc(f.a[1][1]):
                        try:
                            return f.a[1][1].a[0] < y.a[0]
                        except TypeError:
                            pass
        return None

    def is_callable_rec(self, v):
        r = self.P.records[v.a[0]] if isinstance(v.a[0], int) else None
        if r is None:
            return False
        if r.get('lambda'):
            return True
        return any(f['short'] == 'operator()' for f in self.P.fnrefs.values()
                   if f.get('rec') == v.a[0])

    # ------------------------------------------------------------- expressions
    def note(self, what):
        self.unknown[what] = self.unknown.get(what, 0) + 1

    def evs(self, es, st, fr):
        outs = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in outs:
                if s.exc is not None:
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(e, s, fr):
                    nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def ev(self, e, st, fr):
        self.nsteps += 1
        if self.nsteps > 2000000:
            raise Budget('steps')
        if e is None:
            return [(st, VOID)]
        if st.exc is not None:
            return [(st, VOID)]
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            self.note('expr:' + e['k'])
            return [(s, A('unknown', S(e['k']))) for s, _ in self.evs(e.get('c', []), st, fr)]
        return m(e, st, fr)

    def e_int(self, e, st, fr):
        return [(st, C(e['v']))]

    e_bool = e_int

    def e_str(self, e, st, fr):
        return [(st, C(e['v']))]

    def e_float(self, e, st, fr):
        return [(st, C(float(e['v'])))]

    def e_null(self, e, st, fr):
        return [(st, NULL)]

    def e_zeroinit(self, e, st, fr):
        k = self.P.tk(e['t'])
        if k in ('int', 'bool', 'enum', 'float'):
            return [(st, C(0))]
        if k in ('ptr', 'nullptr'):
            return [(st, NULL)]
        if k == 'rec':
            r = self.P.types[e['t']]['rec']
            v = self.default_of(r)
            return [(st, v)]
        return [(st, A('zero', S(self.P.tname(e['t']))))]

    def default_of(self, rid):
        r = self.P.records[rid]
        b = r['bname']
        if b in SMARTS or b in ('std::function', 'std::optional'):
            return NULL
        if b in CONTAINERS:
            return A('vec')
        return A('new', S(r['full']))

    def e_this(self, e, st, fr):
        return [(st, self.get_this(st, fr))]

    def get_this(self, st, fr):
        if fr.fn is not None and 'rec' in fr.fn and self.P.records[fr.fn['rec']].get('lambda'):
            cl = fr.this
            v = self.field(self.load(st, cl), 'this')
            return v
        return fr.this

    def e_fnref(self, e, st, fr):
        return [(st, mk('fn', e['fn']))]

    def e_mfnref(self, e, st, fr):
        out = []
        for s, vs in self.evs(e['c'], st, fr):
            out.append((s, mk('fn', e['fn'])))
        return out

    def e_typeid(self, e, st, fr):
        return [(st, A('typeid', S(self.P.decay(e['of'] if 'of' in e else e['e']['t']))))]

    def var_ptr(self, d, e, st, fr):
        """address of a variable / capture"""
        f = fr
        while f is not None:
            base = ('v', f.fid, d)
            if base in st.mem:
                return P(base)
            # look for capture
            if f.fn is not None and 'rec' in f.fn and self.P.records[f.fn['rec']].get('lambda') and f.this is not None:
                caps = self.P.records[f.fn['rec']].get('caps', [])
                for c in caps:
                    if c.get('var') == d:
                        b, p = self.addr(f.this)
                        if c['byref']:
                            return self.read(st, (b, p + (d,)))
                        return P(b, p + (d,))
            break
        return P(('v', fr.fid, d))

    def e_ref(self, e, st, fr):
        d = e['d']
        if e.get('field'):
            return [(st, mk('mp', d))]
        if e.get('global') and not e.get('staticlocal'):
            g = self.P.globals.get(d)
            p = P(('g', d))
            if g and self.P.isref(g['t']):
                return [(st, self.load(st, p))]
            return [(st, p)]
        p = self.var_ptr(d, e, st, fr)
        if e.get('staticlocal') and self.addr(p)[0] not in st.mem:
            p = P(('g', d))
        t = self.P.vartypes.get(d)
        if e.get('binding'):
            # bindings are aliases; captured by-copy bindings hold the value
            base = self.addr(p)[0]
            if base[0] == 'v' and base[2] == d:
                return [(st, self.load(st, p))]
            return [(st, p)]
        if t is not None and self.P.isref(t):
            base = self.addr(p)[0]
            # captured-by-copy reference variable: capture holds the value
            if base[0] == 'v' and base[2] == d and not self.addr(p)[1]:
                return [(st, self.load(st, p))]
            if self.is_initcap_ref(d, fr):
                return [(st, self.load(st, p))]
            return [(st, p)]
        if not (e.get('lv') or e.get('xv')):
            return [(st, self.load(st, p))]
        return [(st, p)]

    def is_initcap_ref(self, d, fr):
        return False

    def e_member(self, e, st, fr):
        out = []
        key = e['d']
        if key not in self.P.fieldname or True:
            rn = self.P.records[e['rec']]['bname'] if 'rec' in e else ''
            if rn in ('std::pair', 'std::__pair_base') and e['name'] in ('first', 'second'):
                key = 'e0' if e['name'] == 'first' else 'e1'
        for s, v in self.ev(e['c'][0], st, fr):
            if s.exc is not None:
                out.append((s, VOID))
                continue
            c = e['c'][0]
            if e.get('arrow') or c.get('lv') or c.get('xv'):
                b, p = self.addr(v)
                loc = (b, p + (key,))
                if key in self.watch:
                    self.event(s, 'M', e['name'], P(*loc), (), self.P.loc(e["l"]), None, fr)
                if 'ft' in e and self.P.isref(e['ft']):
                    out.append((s, self.read(s, loc)))
                else:
                    out.append((s, P(*loc)))
            else:
                x = self.field(v, key)
                out.append((s, x))
        return out

    def e_cast(self, e, st, fr):
        ck = e['ck']
        out = []
        for s, v in self.ev(e['c'][0], st, fr):
            if s.exc is not None:
                out.append((s, VOID))
            elif ck == 'LValueToRValue':
                out.append((s, self.load(s, v)))
            elif ck in ('PointerToBoolean', 'IntegralToBoolean', 'MemberPointerToBoolean'):
                if isc(v):
                    out.append((s, C(1 if v.a[0] else 0)))
                elif v.k in ('p', 'fn'):
                    out.append((s, TRUE))
                elif ck == 'IntegralToBoolean' and not (v.k == 'a' and v.a[0] in ('==', '<', '!')):
                    out.append((s, self.mknot(self.mkeq(v, C(0)))))
                else:
                    out.append((s, v))
            elif ck in ('NullToPointer', 'NullToMemberPointer'):
                out.append((s, NULL))
            elif ck == 'ToVoid':
                out.append((s, VOID))
            elif ck in ('DerivedToBase', 'UncheckedDerivedToBase') and v.k == 'p':
                sub = self.funbase(e['c'][0]['t'], e['t'])
                if sub:
                    b, p = self.addr(v)
                    v = P(b, p + sub)
                out.append((s, v))
            else:
                out.append((s, v))
        return out

    def funbase(self, derived, base):
        """path of one of several std::function bases of a class"""
        br = self.pointee_rec(base)
        if br is None or not self.funlike(br):
            return ()
        dr = self.pointee_rec(derived)
        if dr is None or not self.many_funs(dr['i']):
            return ()
        return (('fb', br['i']),)

    def many_funs(self, rid):
        return sum(self.funlike(self.P.records[b]) for b in self.P.bases_of(rid)) > 1

    def funlike(self, r):
        return r['bname'] == 'std::function' or bool(r.get('lambda'))

    def baseloc(self, rid, base, loc):
        if self.funlike(self.P.records[base]) and self.many_funs(rid):
            return (loc[0], loc[1] + (('fb', base),))
        return loc

    def pointee_rec(self, t):
        ty = self.P.types[t]
        while ty['k'] in ('lref', 'rref', 'ptr'):
            ty = self.P.types[ty['to']]
        return self.P.records[ty['rec']] if ty['k'] == 'rec' else None

    def e_cleanups(self, e, st, fr):
        return self.ev(e['c'][0], st, fr)

    def e_bindtemp(self, e, st, fr):
        return self.ev(e['c'][0], st, fr)

    def e_mat(self, e, st, fr):
        loc = (('t', fr.fid, e['sid']), ())
        out = []
        if self.log_temps and not e.get('ext'):
            self.short_temps.add(loc[0])
        for s in self.ev_into(e['c'][0], st, fr, loc):
            out.append((s, P(*loc)))
        return out

    def e_stdinit(self, e, st, fr):
        out = []
        c = e['c'][0]
        # unwrap to the initlist
        while c['k'] in ('mat', 'cleanups', 'bindtemp', 'cast'):
            c = c['c'][0]
        if c['k'] == 'initlist':
            for s, vs in self.evs(c['c'], st, fr):
                out.append((s, mk('il', tuple(vs))))
            return out
        return [(s, A('il?')) for s, v in self.ev(c, st, fr)]

    def e_initlist(self, e, st, fr):
        k = self.P.tk(e['t'])
        if k == 'rec':
            loc = (('t', fr.fid, ('il', id(e))), ())
            return [(s, self.read(s, loc) if s.exc is None else VOID)
                    for s in self.ev_into(e, st, fr, loc)]
        if not e['c']:
            return self.e_zeroinit(e, st, fr)
        if k in ('array',):
            return [(s, mk('il', tuple(vs))) for s, vs in self.evs(e['c'], st, fr)]
        return self.ev(e['c'][0], st, fr)

    def e_other(self, e, st, fr):
        cls = e.get('cls', '')
        out = []
        for s, vs in self.evs(e.get('c', []), st, fr):
            if cls in ('ArrayInitLoopExpr',):
                out.append((s, vs[0] if vs else VOID))
            elif cls in ('PseudoObjectExpr', 'FullExpr', 'CXXFoldExpr', 'PackExpansionExpr'):
                out.append((s, vs[-1] if vs else VOID))
            elif cls in ('CXXPseudoDestructorExpr',):
                out.append((s, VOID))
            else:
                self.note('other:' + cls)
                out.append((s, A('other:' + cls, *vs)))
        return out

    def e_stmtexpr(self, e, st, fr):
        return [(s, VOID) for k, s, v in self.exec(e['s'], st, fr)]

    def e_lambda(self, e, st, fr):
        r = self.P.records[e['rec']]
        caps = r.get('caps', [])
        outs = [(st, {})]
        for i, ce in enumerate(e['caps']):
            nxt = []
            c = caps[i]
            for s, d in outs:
                if s.exc is not None:
                    nxt.append((s, d))
                    continue
                if c.get('this'):
                    th = self.get_this(s, fr)
                    d2 = dict(d)
                    d2['this'] = th
                    nxt.append((s, d2))
                    continue
                key = c.get('var', ('cap', i))
                if c.get('byref'):
                    for s2, v in self.ev(ce, s, fr):
                        d2 = dict(d)
                        d2[key] = v
                        nxt.append((s2, d2))
                else:
                    for s2, v in self.ev_val(ce, s, fr):
                        d2 = dict(d)
                        d2[key] = v
                        nxt.append((s2, d2))
            outs = nxt
        return [(s, REC(e['rec'], None, d)) for s, d in outs]

    def ev_val(self, e, st, fr):
        """evaluate to a value; glvalues are loaded (capture / decay copies)."""
        out = []
        for s, v in self.ev(e, st, fr):
            if s.exc is None and (e.get('lv') or e.get('xv')):
                v = self.load(s, v)
            out.append((s, v))
        return out

    def e_cond(self, e, st, fr):
        out = []
        for s, c in self.ev(e['c'][0], st, fr):
            if s.exc is not None:
                out.append((s, VOID))
                continue
            for s2, b in self.truth(s, c, self.P.loc(e['l']), fr):
                out += self.ev(e['c'][1 if b else 2], s2, fr)
        return out

    def e_un(self, e, st, fr):
        op = e['op']
        c = e['c'][0]
        if op == '&' and c['k'] == 'ref' and c.get('field'):
            return [(st, mk('mp', c['d']))]
        out = []
        for s, v in self.ev(c, st, fr):
            if s.exc is not None:
                out.append((s, VOID))
                continue
            if op == '*':
                if v.k == 'r' and v.a[0] == '$it':
                    d = dict(v.a[2])
                    b, p = self.addr(d['c'])
                    v = P(b, p + (('i', d['i']),))
                out.append((s, v))
            elif op == '&':
                out.append((s, v))
            elif op == '!':
                out.append((s, self.mknot(v)))
            elif op in ('++', '--'):
                old = self.load(s, v)
                if old.k == 'r' and old.a[0] == '$it':
                    d = dict(old.a[2])
                    new = REC('$it', None, {'c': d['c'], 'i': self.add(d['i'], 1 if op == '++' else -1)})
                else:
                    new = self.add(old, 1 if op == '++' else -1)
                s = s.copy()
                self.store(s, v, new, self.P.loc(e['l']), fr)
                out.append((s, old if e.get('post') else v))
            elif op == '-':
                if isc(v) and isinstance(v.a[0], (int, float)):
                    out.append((s, C(-v.a[0])))
                else:
                    out.append((s, A('neg', v)))
            elif op == '+':
                out.append((s, v))
            else:
                out.append((s, A('un' + op, v)))
        return out

    def e_bin(self, e, st, fr):
        op = e['op']
        l, r = e['c']
        where = self.P.loc(e['l'])
        out = []
        if op in ('&&', '||'):
            for s, a in self.ev(l, st, fr):
                if s.exc is not None:
                    out.append((s, VOID))
                    continue
                for s2, b in self.truth(s, a, where, fr):
                    if b == (op == '||'):
                        out.append((s2, TRUE if b else FALSE))
                    else:
                        for s3, v in self.ev(r, s2, fr):
                            if s3.exc is not None:
                                out.append((s3, VOID))
                                continue
                            out.append((s3, v))
            return out
        if op == '=':
            for s, (rv, lvp) in [(s, (vs + [VOID, VOID])[:2]) for s, vs in self.evs([r, l], st, fr)]:
                if s.exc is not None:
                    out.append((s, VOID))
                    continue
                s = s.copy()
                self.store(s, lvp, rv, where, fr)
                out.append((s, lvp))
            return out
        for s, vs in self.evs([l, r], st, fr):
            if s.exc is not None:
                out.append((s, VOID))
                continue
            a, b = vs
            if op in ('<', '>=') and isc(b) and b.a[0] == 0 and self.unsigned(l):
                out.append((s, TRUE if op == '>=' else FALSE))
                continue
            if op == ',':
                out.append((s, b))
            elif op in ('.*', '->*'):
                if b.k == 'mp':
                    base, p = self.addr(a)
                    out.append((s, P(base, p + (b.a[0],))))
                elif b.k == 'fn':
                    out.append((s, mk('bm', a, b)))
                else:
                    out.append((s, A('ref:.*', self.load(s, a), b)))
            elif op == '==':
                out.append((s, self.mkeq(a, b)))
            elif op == '!=':
                out.append((s, self.mknot(self.mkeq(a, b))))
            elif op == '<':
                out.append((s, self.mklt(a, b)))
            elif op == '>':
                out.append((s, self.mklt(b, a)))
            elif op == '<=':
                out.append((s, self.mknot(self.mklt(b, a))))
            elif op == '>=':
                out.append((s, self.mknot(self.mklt(a, b))))
            elif op.endswith('=') and op[:-1] in ('+', '-', '*', '/', '|', '&', '^', '%', '<<', '>>'):
                old = self.load(s, a)
                s = s.copy()
                self.store(s, a, self.arith(op[:-1], old, b), where, fr)
                out.append((s, a))
            else:
                out.append((s, self.arith(op, a, b)))
        return out

    def e_subscript(self, e, st, fr):
        out = []
        for s, vs in self.evs(e['c'], st, fr):
            if s.exc is not None:
                out.append((s, VOID))
                continue
            b, p = self.addr(vs[0])
            out.append((s, P(b, p + (('i', vs[1]),))))
        return out

    def e_throw(self, e, st, fr):
        out = []
        for s, vs in self.evs(e['c'], st, fr):
            if s.exc is not None:
                out.append((s, VOID))
                continue
            s = s.copy()
            t = self.P.tname(e['c'][0]['t']) if e['c'] else 'rethrow'
            self.event(s, 'throw', t, None, vs, self.P.loc(e['l']), None, fr)
            s.exc = A('exc', S(t))
            if vs:
                s.mem[('thrown', t)] = self.load(s, vs[0]) if vs[0].k == 'p' and self.P.isrec(e['c'][0]['t']) else vs[0]
            out.append((s, VOID))
        return out

    def e_new(self, e, st, fr):
        where = self.P.loc(e['l'])
        loc = (('h', fr.fid, e['sid']), ())
        out = []
        init = e['c'][0]
        if init is None:
            s = st.copy()
            s.mem[loc[0]] = A('new', S(self.P.tname(e['at'])))
            self.event(s, 'new', self.P.tname(e['at']), P(*loc), (), where, None, fr)
            return [(s, P(*loc))]
        for s in self.ev_into(init, st, fr, loc):
            if s.exc is None:
                s = s.copy()
                self.event(s, 'new', self.P.tname(e['at']), P(*loc), (), where, None, fr)
            out.append((s, P(*loc)))
        return out

    def e_delete(self, e, st, fr):
        out = []
        for s, vs in self.evs(e['c'], st, fr):
            if s.exc is None:
                s = s.copy()
                self.event(s, 'delete', '', vs[0], (), self.P.loc(e['l']), None, fr)
            out.append((s, VOID))
        return out

    # -------------------------------------------------- class prvalues into loc
    def ev_into(self, e, st, fr, loc):
        """Initialise loc with prvalue (or glvalue copy) e -> list of states"""
        k = e['k']
        if k in ('bindtemp', 'cleanups') or (
                k == 'cast' and e['ck'] in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion')
                and not (e.get('lv') or e.get('xv')) and self.P.isrec(e['t'])):
            return self.ev_into(e['c'][0], st, fr, loc)
        if k == 'ctor':
            return self.construct(e, st, fr, loc)
        if k == 'initlist' and self.P.isrec(e['t']):
            rid = self.P.types[e['t']]['rec']
            rec = self.P.records[rid]
            if len(e['c']) == 1 and self.P.isrec(e['c'][0]['t']) and self.P.types[e['c'][0]['t']].get('rec') == rid:
                return self.ev_into(e['c'][0], st, fr, loc)      # T{x} with x a T
            if rec['bname'] in ('std::array',):
                out = []
                for s, vs in self.evs(e['c'], st, fr):
                    if s.exc is None:
                        s = s.copy()
                        v = vs[0] if len(vs) == 1 and vs[0].k == 'il' else mk('il', tuple(vs))
                        self.write(s, loc, v, quiet=True)
                    out.append(s)
                return out
            s = st.copy()
            self.write(s, loc, REC(rid, None, {}), quiet=True)
            outs = [s]
            nb = len(rec.get('bases', []))
            items = e['c']
            # aggregate: bases first, then fields
            fields = rec.get('fields', [])
            for i, it in enumerate(items):
                nxt = []
                for s in outs:
                    if s.exc is not None:
                        nxt.append(s)
                        continue
                    if i < nb:
                        nxt += self.init_sub(it, s, fr, self.baseloc(rec['i'], rec['bases'][i], loc), rec['bases'][i])
                    elif i - nb < len(fields):
                        f = fields[i - nb]
                        nxt += self.init_field(it, s, fr, loc, f['id'], f['t'])
                    else:
                        nxt += [s2 for s2, _ in self.ev(it, s, fr)]
                outs = nxt
            return outs
        if k == 'cond' and self.P.isrec(e['t']) and not (e.get('lv') or e.get('xv')):
            out = []
            for s, c in self.ev(e['c'][0], st, fr):
                if s.exc is not None:
                    out.append(s)
                    continue
                for s2, b in self.truth(s, c, self.P.loc(e['l']), fr):
                    out += self.ev_into(e['c'][1 if b else 2], s2, fr, loc)
            return out
        if k == 'inhctor':
            return self.inhctor(e, st, fr, loc)
        out = []
        for s, v in self.ev(e, st, fr):
            if s.exc is None:
                if (e.get('lv') or e.get('xv')) and self.P.isrec(e['t']):
                    v = self.load(s, v)
                s = s.copy()
                self.write(s, loc, v, quiet=loc[0][0] not in ('o', 'x'))
            out.append(s)
        return out

    def init_field(self, e, st, fr, loc, fid, ft):
        floc = (loc[0], loc[1] + (fid,))
        if self.P.isref(ft):
            out = []
            for s, v in self.ev(e, st, fr):
                if s.exc is None:
                    s = s.copy()
                    self.write(s, floc, v, quiet=True)
                out.append(s)
            return out
        if self.P.isrec(ft):
            return self.ev_into(e, st, fr, floc)
        out = []
        for s, v in self.ev(e, st, fr):
            if s.exc is None:
                s = s.copy()
                self.write(s, floc, v, quiet=True)
            out.append(s)
        return out

    def init_sub(self, e, st, fr, loc, brec):
        """initialise base subobject"""
        b = e
        while b['k'] in ('bindtemp', 'cleanups') or (b['k'] == 'cast' and b['ck'] in (
                'NoOp', 'ConstructorConversion', 'UserDefinedConversion')):
            b = b['c'][0]
        if b['k'] == 'ctor':
            return self.construct(b, st, fr, loc, base=True)
        if b['k'] == 'inhctor':
            return self.inhctor(b, st, fr, loc)
        if b['k'] == 'initlist':
            rec = self.P.records[brec]
            outs = [st]
            nb = len(rec.get('bases', []))
            for i, it in enumerate(b['c']):
                nxt = []
                for s in outs:
                    if i < nb:
                        nxt += self.init_sub(it, s, fr, self.baseloc(rec['i'], rec['bases'][i], loc), rec['bases'][i])
                    elif i - nb < len(rec.get('fields', [])):
                        f = rec['fields'][i - nb]
                        nxt += self.init_field(it, s, fr, loc, f['id'], f['t'])
                outs = nxt
            return outs
        out = []
        for s, v in self.ev(e, st, fr):
            if s.exc is None:
                s = s.copy()
                if e.get('lv') or e.get('xv'):
                    v = self.load(s, v)
                self.set_base(s, loc, v)
            out.append(s)
        return out

    def set_base(self, s, loc, v):
        """store the value of an opaque base class into a record"""
        if v.k == 'r' and set(dict(v.a[2])) == {'B'}:
            v = dict(v.a[2])['B']
        if loc[1] and isinstance(loc[1][-1], tuple) and loc[1][-1][0] == 'fb':
            self.write(s, loc, v, quiet=True)
            return
        if v.k == 'r' and (not isinstance(v.a[0], int) or not self.P.records[v.a[0]].get('lambda')) and \
                all(isinstance(f, int) or f in ('e0', 'e1', 'e2', 'e3', 'e4') for f, _ in v.a[2]) and v.a[2]:
            for f, x in v.a[2]:
                self.write(s, (loc[0], loc[1] + (f,)), x, quiet=True)
        else:
            self.write(s, (loc[0], loc[1] + ('B',)), v, quiet=True)

    def slice_fields(self, rec):
        """fields making up a base subobject, None when its contents are opaque"""
        if rec['bname'] in ('std::tuple', 'std::pair'):
            return ['e%d' % i for i in range(len(rec.get('targs') or ()))] or None
        if not rec.get('def') or not rec['bname'].startswith(('lager::', 'zug::', 'boost::hana::', '_hana::')):
            return None
        out = [f['id'] for f in rec.get('fields', [])]
        for b in rec.get('bases', []):
            sub = self.slice_fields(self.P.records[b])
            if sub is None:
                if self.P.records[b]['bname'].startswith(('boost::', 'std::')):
                    continue
                return None
            out += sub
        return out

    def inhctor(self, e, st, fr, loc):
        f = self.P.fnrefs[e['fn']]
        # forward parameters of the enclosing (inheriting) constructor
        args = []
        for p in fr.fn['params']:
            args.append(self.load(st, P(('v', fr.fid, p['id']))))
        return self.ctor_call(f, loc, args, [p['t'] for p in fr.fn['params']], st, fr,
                              ('inh', e['fn']), '?', base=True)

    def construct(self, e, st, fr, loc, base=False):
        f = self.P.fnrefs[e['fn']]
        out = []
        for s, vs in self.evs(e['c'], st, fr):
            if s.exc is not None:
                out.append(s)
                continue
            out += self.ctor_call(f, loc, vs, [c['t'] if c else -1 for c in e['c']], s, fr,
                                  e['sid'], self.P.loc(e['l']), base=base)
        return out

    def e_ctor(self, e, st, fr):
        loc = (('t', fr.fid, e['sid']), ())
        out = []
        for s in self.construct(e, st, fr, loc):
            if s.exc is not None:
                out.append((s, VOID))
            else:
                v = self.read(s, loc)
                out.append((s, v))
        return out

    def e_inhctor(self, e, st, fr):
        self.note('inhctor-expr')
        return [(st, A('inhctor'))]

    # ------------------------------------------------------------ moves
    def after_move(self, v, rec):
        """what is left in a moved-from object of class rec"""
        b = rec['bname'] if rec else ''
        if b in SMARTS:
            return NULL
        if b in ('std::reference_wrapper', 'std::integral_constant') or 'iterator' in b:
            return v
        return self.moved(v)

    def moved(self, v):
        if v.k in ('c', 'mv', 'fn', 'p', 'mp', 'void'):
            return v
        if v.k == 'r' and v.a[1] is None:
            rec = self.P.records[v.a[0]] if isinstance(v.a[0], int) else None
            if not v.a[2]:
                return v
            d = {}
            for f, x in v.a[2]:
                d[f] = self.moved_field(x, f, rec)
            return REC(v.a[0], None, d)
        return mk('mv', v)

    def moved_field(self, x, f, rec):
        t = None
        if isinstance(f, int) and f in self.P.fieldtype:
            t = self.P.fieldtype[f]
        elif rec is not None and rec.get('lambda'):
            for c in rec.get('caps', []):
                if c.get('var') == f or (f == 'this' and c.get('this')):
                    t = c.get('t')
        elif isinstance(f, str) and f[0] == 'e' and rec is not None and rec.get('targs'):
            try:
                t = rec['targs'][int(f[1:])].get('t')
            except (ValueError, IndexError):
                t = None
        if t is not None and t >= 0:
            k = self.P.tk(t)
            if k == 'rec':
                return self.after_move(x, self.P.rec_of_type(t))
            return x
        return self.moved(x)

    def take(self, st, ptr, t, rec=None):
        """consume argument passed by reference type t -> (value); marks moved if rvalue"""
        v = self.load(st, ptr)
        if self.P.tk(t) == 'rref' and not self.P.tname(t).startswith('const '):
            r = rec or self.P.rec_of_type(t)
            nv = self.after_move(v, r) if r else v
            if nv is not v:
                self.write(st, self.addr(ptr), nv, quiet=True)
        return v

    # ------------------------------------------------------------ constructors
    def ctor_call(self, f, loc, args, atypes, st, fr, sid, where, base=False):
        rec = self.P.records[f['rec']]
        st = st.copy()
        h = self.hook(self, f, P(*loc), args, st, fr, where)
        if h is not None:
            return [s for s, v in h]
        special = f.get('copy') or f.get('move')
        if rec['bname'] == 'std::__pair_base':
            return [st]
        if special and args and (f['id'] not in self.P.functions or rec.get('lambda')
                                 or (f.get('defaulted') and not self.P.functions[f['id']].get('inits'))):
            v = self.load(st, args[0])
            parts = self.slice_fields(rec) if base else None
            if parts is not None:
                used = []
                for k in parts:
                    x = self.field(v, k)
                    if has_mv_shallow(x):
                        used.append(x)
                    self.write(st, (loc[0], loc[1] + (k,)), x, quiet=True)
                    if f.get('move'):
                        nx = self.moved_field(x, k, rec)
                        if nx is not x:
                            b, pth = self.addr(args[0])
                            self.write(st, (b, pth + (k,)), nx, quiet=True)
                for x in used[:1]:
                    self.event(st, 'usemoved', rec['full'], args[0], (x,), where, None, fr)
                return [st]
            if f.get('move'):
                nv = self.after_move(v, rec)
                if nv is not v:
                    self.write(st, self.addr(args[0]), nv, quiet=True)
            if has_mv_shallow(v):
                self.event(st, 'usemoved', rec['full'], args[0], (v,), where, None, fr)
            if base:
                self.set_base(st, loc, v)
            else:
                self.write(st, loc, v, quiet=True)
            return [st]
        m = self.model_ctor(f, rec, loc, args, atypes, st, fr, sid, where, base)
        if m is not None:
            return m
        if f['id'] in self.P.functions and not self.opaque(f):
            if not base:
                self.write(st, loc, REC(f['rec'], None, {}), quiet=True)
            res = self.run(f, P(*loc), args, st, fr, sid, where)
            return [s for s, v in res]
        # opaque or trivial constructor
        if not f['params'] and (f.get('defaulted') or f.get('default')):
            if base:
                return [st]
            if rec.get('def') and not rec.get('fields') and not rec.get('bases') and f.get('defaulted'):
                self.write(st, loc, REC(f['rec'], None, {}), quiet=True)
            elif f.get('defaulted') and rec.get('aggregate') and f.get('root'):
                self.write(st, loc, REC(f['rec'], None, {}), quiet=True)
            else:
                self.write(st, loc, A('new', S(rec['full'])), quiet=True)
            return [st]
        targs = self.termargs(st, args, f)
        v = A('new', S(rec['full']), *targs)
        self.event(st, 'ctor', rec['full'], P(*loc), args, where, v, fr)
        self.consume_refs(st, f, args)
        if base:
            self.set_base(st, loc, v)
        else:
            self.write(st, loc, v, quiet=True)
        return self.throwing(st, [st])

    def throwing(self, st, outs):
        return outs

    def termargs(self, st, args, f):
        out = []
        ps = f['params'] if f else []
        for i, a in enumerate(args):
            t = ps[i]['t'] if i < len(ps) else None
            if t is not None and self.P.isref(t):
                out.append(self.load(st, a))
            else:
                out.append(a)
        return out

    def consume_refs(self, st, f, args):
        """effects of an opaque callee on its reference arguments"""
        for i, a in enumerate(args):
            if i >= len(f['params']):
                continue
            t = f['params'][i]['t']
            k = self.P.tk(t)
            if k == 'rref':
                to = self.P.types[self.P.types[t]['to']]
                if to.get('const'):
                    continue
                v = self.load(st, a)
                r = self.P.rec_of_type(t)
                nv = self.after_move(v, r) if r else v
                if nv is not v:
                    self.write(st, self.addr(a), nv, quiet=True)
            elif k == 'lref':
                to = self.P.types[self.P.types[t]['to']]
                if to.get('const') or to['k'] == 'fn':
                    continue
                v = self.load(st, a)
                if v.k in ('fn',) or (v.k == 'r' and isinstance(v.a[0], int) and self.P.records[v.a[0]].get('lambda')):
                    continue
                b = self.addr(a)[0]
                if b[0] in ('g',):
                    continue
                self.fresh += 1
                self.write(st, self.addr(a), A('after', S(f['bname']), v, C(i)), quiet=True)

    # ------------------------------------------------------------ calls
    def e_call(self, e, st, fr):
        where = self.P.loc(e['l'])
        if 'fn' in e:
            f = self.P.fnrefs[e['fn']]
            out = []
            for s, vs in self.evs(e['c'], st, fr):
                if s.exc is not None:
                    out.append((s, VOID))
                    continue
                out += self.call(f, None, vs, s, fr, e['sid'], where, [c['t'] for c in e['c']], e)
            return out
        out = []
        for s, fv in self.ev(e['fe'], st, fr):
            for s2, vs in self.evs(e['c'], s, fr):
                if s2.exc is not None:
                    out.append((s2, VOID))
                    continue
                if fv.k == 'bm':
                    f = self.P.fnrefs[fv.a[1].a[0]]
                    out += self.call(f, fv.a[0], vs, s2, fr, e['sid'], where, [c['t'] for c in e['c']], e,
                                     virt=f.get('virtual'))
                    continue
                if fv.k == 'p':
                    fv = self.load(s2, fv)
                out += self.invoke_value(fv, None, vs, s2, fr, e['sid'], where, [c['t'] for c in e['c']])
        return out

    def e_mcall(self, e, st, fr):
        where = self.P.loc(e['l'])
        out = []
        if 'fn' not in e:
            for s, ov in self.ev(e['obj'], st, fr):
                for s2, vs in self.evs(e['c'], s, fr):
                    if s2.exc is not None:
                        out.append((s2, VOID))
                        continue
                    if ov.k == 'bm':
                        f = self.P.fnrefs[ov.a[1].a[0]]
                        out += self.call(f, ov.a[0], vs, s2, fr, e['sid'], where,
                                         [c['t'] for c in e['c']], e, virt=f.get('virtual'))
                    else:
                        out += self.invoke_value(ov, None, vs, s2, fr, e['sid'], where, [c['t'] for c in e['c']])
            return out
        f = self.P.fnrefs[e['fn']]
        for s, ov in self.ev(e['obj'], st, fr):
            if s.exc is not None:
                out.append((s, VOID))
                continue
            o = e['obj']
            if not e.get('arrow') and not (o.get('lv') or o.get('xv')):
                # prvalue object: spill
                loc = (('t', fr.fid, ('obj', e['sid'])), ())
                s = s.copy()
                self.write(s, loc, ov, quiet=True)
                ov = P(*loc)
            for s2, vs in self.evs(e['c'], s, fr):
                if s2.exc is not None:
                    out.append((s2, VOID))
                    continue
                out += self.call(f, ov, vs, s2, fr, e['sid'], where, [c['t'] for c in e['c']], e,
                                 virt=e.get('virtual'))
        return out

    def stack_has(self, fr, fid):
        n = 0
        while fr is not None:
            if fr.fn is not None and fr.fn['id'] == fid:
                n += 1
            fr = fr.parent
        return n

    def call(self, f, this, args, st, fr, sid, where, atypes=None, e=None, virt=False):
        self.calls_seen += 1
        h = self.hook(self, f, this, args, st, fr, where)
        if h is not None:
            return h
        if virt:
            o = self.load(st, this)
            rid = self.dyn(o)
            tgt = None
            if rid is not None:
                m = self.P.overrider(rid, f['id'])
                if m is not None:
                    tgt = self.P.fnrefs.get(m)
            if tgt is not None and not tgt.get('pure'):
                f = tgt
                h = self.hook(self, f, this, args, st, fr, where)
                if h is not None:
                    return h
            else:
                return self.opaque_call('vcall', f, this, args, st, fr, where)
        m = self.model(f, this, args, st, fr, sid, where, atypes, e)
        if m is not None:
            return m
        if f['id'] in self.P.functions and not self.opaque(f) and fr.depth < self.max_depth \
                and self.stack_has(fr, f['id']) < 3:
            body = self.P.functions[f['id']].get('body')
            if f.get('defaulted') and (f.get('copyassign') or f.get('moveassign')) and (
                    body is None or not body.get('s') or 'rec' in f and self.P.records[f['rec']].get('lambda')):
                pass
            else:
                return self.run(f, this, args, st, fr, sid, where)
        if (f.get('copyassign') or f.get('moveassign')) and this is not None:
            st = st.copy()
            v = self.load(st, args[0])
            if has_mv_shallow(v):
                self.event(st, 'usemoved', f['name'], args[0], (v,), where, None, fr)
            if f.get('moveassign'):
                nv = self.after_move(v, self.P.records[f['rec']])
                if nv is not v:
                    self.write(st, self.addr(args[0]), nv, quiet=True)
            self.store(st, this, v, where, fr)
            return [(st, this)]
        return self.opaque_call('call', f, this, args, st, fr, where)

    def dyn(self, o):
        while o is not None:
            if o.k == 'r' and isinstance(o.a[0], int):
                return o.a[0]
            if o.k == 'r':
                o = o.a[1]
                continue
            return None
        return None

    def opaque_call(self, kind, f, this, args, st, fr, where):
        st = st.copy()
        targs = self.termargs(st, args, f)
        tv = [self.load(st, this)] if this is not None else []
        name = f['bname']
        short = f['short']
        rk = self.P.tk(f['ret'])
        for i, t in enumerate(targs):
            if t.k == 'mv':
                self.event(st, 'usemoved', name, this, (t,), where, None, fr)
        if this is not None and tv[0].k == 'mv' and short not in ('operator=', 'clear', 'assign', 'reset', 'emplace'):
            self.event(st, 'usemoved', name, this, (tv[0],), where, None, fr)
        ops = tv + targs
        if short == 'operator==' and len(ops) == 2:
            res = self.mkeq(ops[0], ops[1], fold=False)
        elif short == 'operator!=' and len(ops) == 2:
            res = self.mknot(self.mkeq(ops[0], ops[1], fold=False))
        elif short == 'operator<' and len(ops) == 2:
            res = A('<', ops[0], ops[1])
        elif rk == 'void':
            res = VOID
        else:
            res = A(name, *ops)
        if short in ('operator==', 'operator!=', 'operator<') or f.get('conv') and False:
            ev = self.event(st, 'call', name, this, args, where, res, fr, vals=ops)
            return self.maybe_throw(st, ev, [(st, res)])
        ev = self.event(st, kind, name, this, args, where, res, fr, vals=ops)
        if not self.keeps_args(f):
            self.consume_refs(st, f, args)
        if this is not None and not f.get('const') and not f.get('static') and not f.get('ctor') and not f.get('dtor'):
            b, p = self.addr(this)
            old = tv[0]
            callable_obj = short == 'operator()'
            if not callable_obj:
                if f.get('rq') and kind == 'call':
                    self.write(st, (b, p), self.moved(old), quiet=True)
                else:
                    self.write(st, (b, p), self.havoc(old, A('after', S(name), old, *targs)), quiet=True)
        if f.get('noreturn'):
            st.exc = A('exc', S('noreturn ' + name))
            return [(st, VOID)]
        return self.maybe_throw(st, ev, [(st, res)])

    def havoc(self, old, new):
        """object state after an opaque non-const call; keep dynamic type and self pointers"""
        if old.k == 'r' and old.a[0] is not None:
            d = {}
            for f, x in old.a[2]:
                if x.k == 'p':
                    d[f] = x
                else:
                    d[f] = mk('f', new, f)
            return REC(old.a[0], new, d)
        return new

    def maybe_throw(self, st, ev, outs):
        self.after_call(outs[0][0], ev)
        if self.may_throw(ev):
            s = outs[0][0].copy()
            s.trace = (s.trace, Ev('threw', ev.name, ev.this, ev.args, ev.where, None, ev.fid, s.held))
            s.exc = A('exc', S('from ' + ev.name))
            return outs + [(s, VOID)]
        return outs

    def run(self, f, this, args, st, fr, sid, where):
        """inline an exported function body"""
        F = self.P.functions[f['id']]
        self.exec_fns.add(f['id'])
        nfid = self.fid(fr.fid if fr else 0, (sid, f['id']))
        nf = Frame(nfid, this, f, None, (fr.depth if fr else 0) + 1, fr)
        st = st.copy()
        # recursion guard against re-using locals of an active frame is given by call strings
        for p, a in zip(f['params'], args):
            st.mem[('v', nfid, p['id'])] = a
        nm = self.enter_event(f)
        if nm:
            self.event(st, 'enter', nm, this, args, where, None, nf)
        outs = [st]
        for ini in F.get('inits', ()):
            nxt = []
            for s in outs:
                if s.exc is not None:
                    nxt.append(s)
                    continue
                nxt += self.run_init(ini, s, nf)
            outs = nxt
        res = []
        for s in outs:
            if s.exc is not None:
                res.append(('x', s, VOID))
            elif F.get('body') is None:
                res.append(('n', s, VOID))
            else:
                res += self.exec(F['body'], s, nf)
        final = []
        if len(res) > self.max_paths:
            raise Budget('paths in ' + f['name'])
        for k, s, v in res:
            s = self.leave(s, nf, v)
            if nm:
                self.event(s, 'leave', nm, this, args, where, v, nf)
            if s.exc is not None and f.get('noexcept'):
                self.event(s, 'terminate', f['bname'], this, (), where, None, nf)
            final.append((s, v if k == 'r' else VOID))
        return final

    def leave(self, s, nf, v):
        fid = nf.fid
        dead = [b for b in s.mem if b[0] in ('v', 't') and b[1] == fid]
        if dead:
            if s.exc is None and v is not None:
                # keep temporaries the returned value points into
                keep = set()
                contains(v, lambda x: x.k == 'p' and x.a[0][0] == 't' and (keep.add(x.a[0]) or False))
                dead = [b for b in dead if b not in keep]
            s = s.copy()
            for b in dead:
                del s.mem[b]
        else:
            s = s.copy()
        return s

    def run_init(self, ini, s, nf):
        loc = self.addr(nf.this)
        if 'field' in ini:
            key = ini['field']
            if nf.fn and nf.fn.get('rname', '').split('<')[0] == 'std::pair':
                key = {'first': 'e0', 'second': 'e1'}.get(ini.get('name'), key)
            return self.init_field(ini['e'], s, nf, loc, key, ini['ft'])
        if 'base' in ini:
            r = self.P.types[ini['base']]['rec']
            if nf.fn.get('rec') is not None:
                loc = self.baseloc(nf.fn['rec'], r, loc)
            return self.init_sub(ini['e'], s, nf, loc, r)
        # delegating
        b = ini['e']
        while b['k'] in ('bindtemp', 'cleanups'):
            b = b['c'][0]
        if b['k'] == 'ctor':
            return self.construct(b, s, nf, loc, base=True)
        return [s2 for s2, v in self.ev(b, s, nf)]

    # ------------------------------------------------------------ callables
    def callop(self, rid, atypes, nargs):
        """choose operator() of class rid for the given argument types"""
        r = self.P.records[rid]
        cands = []
        if r.get('lambda'):
            cands = [self.P.fnrefs[i] for i in r.get('callops', []) if i in self.P.fnrefs]
        if not cands:
            rs = set(self.P.bases_of(rid))
            cands = [f for f in self.P.fnrefs.values() if f.get('rec') in rs and f['short'] == 'operator()']
            ids = {f['id'] for f in cands}
            for b in rs:
                if self.P.records[b].get('lambda'):
                    cands += [self.P.fnrefs[i] for i in self.P.records[b].get('callops', []) if i in self.P.fnrefs and i not in ids]
        cands = [f for f in cands if len(f['params']) == nargs]
        if len(cands) == 1:
            return cands[0]
        if not cands:
            return None
        best, bs = None, -1
        for f in cands:
            sc = 0
            for p, t in zip(f['params'], atypes or []):
                if t is None or t < 0:
                    continue
                if self.P.decay(p['t']) == self.P.decay(t):
                    sc += 2
                    pk = self.P.tk(p['t'])
                    if p['t'] == t:
                        sc += 1
            if f['id'] in self.P.functions:
                sc += 0.5
            if sc > bs:
                best, bs = f, sc
        return best

    def invoke_value(self, fv, fptr, args, st, fr, sid, where, atypes=None, ret=None, refs=False, at=None):
        """call a callable value with already evaluated arguments"""
        from .models import unB
        while fv.k == 'a' and fv.a[0] == 'wrapfn':
            # a function object kept in one of another type
            args = list(args)
            if len(fv.a[1]) > 1 and len(args) == 1:
                a = self.load(st, args[0]) if args[0].k == 'p' else args[0]
                args[0] = A('alt', fv.a[1][1], a)
            fv = unB(fv.a[1][0])
        if fv.k == 'r' and isinstance(fv.a[0], int):
            b = dict(fv.a[2]).get('B')
            if b is not None and not self.P.records[fv.a[0]].get('lambda') and not self.many_funs(fv.a[0]):
                return self.invoke_value(b, None, args, st, fr, sid, where, atypes, ret, refs, at=at or fptr)
            f = self.callop(fv.a[0], atypes, len(args))
            if f is not None:
                if fptr is None:
                    loc = (('t', fr.fid if fr else 0, ('cl', sid, fv.a[0])), ())
                    st = st.copy()
                    self.write(st, loc, fv, quiet=True)
                    fptr = P(*loc)
                if f.get('rec') != fv.a[0]:
                    fptr = P(*self.baseloc(fv.a[0], f['rec'], self.addr(fptr)))
                args2, st = self.fit_args(f, args, st, fr, sid, atypes, refs)
                return self.call(f, fptr, args2, st, fr, sid, where, atypes)
        if fv.k == 'fn':
            f = self.P.fnrefs[fv.a[0]]
            if 'rec' in f and not f.get('static') and not f.get('ctor'):
                return self.call(f, args[0], args[1:], st, fr, sid, where, atypes, virt=f.get('virtual'))
            args2, st = self.fit_args(f, args, st, fr, sid)
            return self.call(f, None, args2, st, fr, sid, where, atypes)
        if fv.k == 'mp':
            b, p = self.addr(args[0])
            return [(st, P(b, p + (fv.a[0],)))]
        st = st.copy()
        if isc(fv) and fv.a[0] is None or fv.k in 'saf' and st.facts.get(fv) is False:
            self.event(st, 'nullcall', '', None, args, where, None, fr)
            st.exc = A('exc', S('std::bad_function_call'))
            return [(st, VOID)]
        targs = []
        for i, a in enumerate(args):
            t = atypes[i] if atypes and i < len(atypes) else None
            targs.append(self.load(st, a) if (a.k == 'p') else a)
        for t in targs:
            if t.k == 'mv':
                self.event(st, 'usemoved', 'invoke', None, (t,), where, None, fr)
        res = A('invoke', fv, *targs)
        ev = self.event(st, 'invoke', '', fv, args, where, res, fr, vals=(fv,) + tuple(targs), at=at or fptr)
        return self.maybe_throw(st, ev, [(st, res)])

    def fit_args(self, f, args, st, fr, sid, atypes=None, refs=False):
        """adapt evaluated arguments: one passed by value bound to a reference becomes an object"""
        out = []
        for i, p in enumerate(f['params']):
            if i >= len(args):
                break
            a = args[i]
            if a.k in 'saf' and atypes and i < len(atypes) and self.P.isref(p['t']) and self.P.tk(atypes[i]) == 'rec':
                loc = (('t', fr.fid if fr else 0, ('fa', sid, i)), ())
                st = st.copy()
                self.write(st, loc, a, quiet=True)
                a = P(*loc)
            if refs and a.k == 'p' and not self.P.isref(p['t']):
                a = self.load(st, a)
            out.append(a)
        return out, st

    def call_closure(self, fv, args, st, fr=None, sid='entry', where='entry', atypes=None):
        if fr is None:
            fr = Frame(self.fid(0, ('top', sid)), None, None, None, 0, None)
        return self.invoke_value(fv, None, args, st, fr, sid, where, atypes)

    # ------------------------------------------------------------ statements
    def exec(self, s, st, fr):
        if s is None:
            return [('n', st, VOID)]
        if st.exc is not None:
            return [('x', st, VOID)]
        m = getattr(self, 's_' + s['k'], None)
        if m is None:
            self.note('stmt:' + s['k'])
            return [('n', st, VOID)]
        r = m(s, st, fr)
        if len(r) > self.max_paths:
            raise Budget('paths')
        return r

    def s_nop(self, s, st, fr):
        return [('n', st, VOID)]

    def s_expr(self, s, st, fr):
        out = []
        for s2, v in self.ev(s['e'], st, fr):
            s2 = self.end_temps(s['e'], s2, fr)
            out.append(('x' if s2.exc is not None else 'n', s2, VOID))
        return out

    def end_temps(self, e, s2, fr):
        """destructors of lock-like temporaries at the end of the full expression"""
        if e is None or e['k'] != 'cleanups':
            return s2
        if self.log_temps:
            for b in [b for b in s2.mem if b[0] == 't' and b[1] == fr.fid and b in self.short_temps]:
                s2 = s2.copy()
                self.event(s2, 'tempend', '', P(b), (), self.P.loc(e.get('l')), None, fr)
        for b in [b for b in s2.mem if b[0] == 't' and b[1] == fr.fid]:
            v = s2.mem[b]
            if v.k == 'r' and isinstance(v.a[0], int):
                rec = self.P.records[v.a[0]]
                if rec['bname'] in LOCKS or rec.get('dtor'):
                    s2 = s2.copy()
                    exc, s2.exc = s2.exc, None
                    s2 = self.destroy(s2, P(b), v.a[0], fr, '?')
                    s2.exc = exc or s2.exc
                    del s2.mem[b]
        return s2

    def s_block(self, s, st, fr):
        scope = []
        cur = [('n', st, VOID)]
        outs = []
        for c in s['s']:
            nxt = []
            for k, s1, v in cur:
                if k != 'n':
                    outs.append((k, s1, v))
                else:
                    nxt += self.exec(c, s1, fr)
            cur = nxt
            if c and c['k'] == 'decl':
                for w in c['vars']:
                    scope.append(w)
        outs += cur
        if scope:
            outs = [(k, self.unscope(scope, s1, fr), v) for k, s1, v in outs]
        return outs

    def unscope(self, scope, s1, fr):
        for w in reversed(scope):
            t = w['t']
            if self.P.isrec(t):
                b = ('v', fr.fid, w['id'])
                if b in s1.mem:
                    rid = self.P.types[t]['rec']
                    if self.needs_dtor(rid):
                        s1 = s1.copy()
                        exc, s1.exc = s1.exc, None
                        s1 = self.destroy(s1, P(b), rid, fr, self.P.loc(w['l']))
                        s1.exc = exc or s1.exc
        return s1

    def needs_dtor(self, rid, d=0):
        r = self.P.records[rid]
        if r['bname'] in LOCKS or self.dtor_events(r):
            return True
        if r.get('dtor') and r['dtor'] in self.P.functions:
            return True
        if d > 4:
            return False
        for f in r.get('fields', ()):
            if self.P.isrec(f['t']) and self.needs_dtor(self.P.types[f['t']]['rec'], d + 1):
                return True
        for b in r.get('bases', ()):
            if self.needs_dtor(b, d + 1):
                return True
        return False

    def destroy(self, st, ptr, rid, fr, where, sid='dtor'):
        r = self.P.records[rid]
        if r['bname'] in LOCKS:
            return self.unlock(st, ptr, fr, where)
        if self.dtor_events(r):
            st = st.copy()
            self.event(st, 'dtor', r['full'], ptr, (self.load(st, ptr),), where, None, fr)
        if r.get('dtor') and r['dtor'] in self.P.functions:
            f = self.P.fnrefs[r['dtor']]
            rs = self.run(f, ptr, [], st, fr, (sid, where), where)
            st = rs[0][0]
        for f in reversed(r.get('fields', ())):
            if self.P.isrec(f['t']):
                fr2 = self.P.types[f['t']]['rec']
                if self.needs_dtor(fr2):
                    b, p = self.addr(ptr)
                    st = self.destroy(st, P(b, p + (f['id'],)), fr2, fr, where, sid)
        for b in reversed(r.get('bases', ())):
            if self.needs_dtor(b):
                st = self.destroy(st, ptr, b, fr, where, sid)
        return st

    # locks
    def lock(self, st, guard, mutex, fr, where):
        st.held = st.held + (mutex,)
        self.on_lock(st, mutex)
        self.event(st, 'lock', '', mutex, (), where, None, fr)

    def unlock(self, st, guard, fr, where):
        v = self.load(st, guard)
        st = st.copy()
        own = self.field(v, 'own')
        mtx = self.field(v, 'm')
        if own is TRUE:
            held = list(st.held)
            ms = mtx.a[0] if mtx.k == 'il' else (mtx,)
            for m in ms:
                if m in held:
                    held.remove(m)
            st.held = tuple(held)
            for m in ms:
                self.event(st, 'unlock', '', m, (), where, None, fr)
            b, p = self.addr(guard)
            self.write(st, (b, p + ('own',)), FALSE, quiet=True)
        return st

    def s_decl(self, s, st, fr):
        outs = [st]
        for w in s['vars']:
            nxt = []
            for s1 in outs:
                if s1.exc is not None:
                    nxt.append(s1)
                else:
                    nxt += self.declare(w, s1, fr)
            outs = nxt
        return [('x' if s1.exc is not None else 'n', s1, VOID) for s1 in outs]

    def declare(self, w, st, fr):
        base = ('v', fr.fid, w['id'])
        t = w['t']
        out = []
        if w.get('static'):
            # initialised by this path already, by an earlier call (any value), or now
            base = ('g', w['id'])
            if base in st.mem:
                return [st]
            if w.get('init') is not None:
                old = st.copy()
                old.mem[base] = A('static', S(w['name']), C(w['id']))
                if not self.pure_statics:
                    out.append(old)
                w = dict(w)
                w.pop('static')
                w['at'] = base
                return out + self.declare(w, st, fr)
        base = w.get('at', base)
        if w.get('init') is None:
            s = st.copy()
            if self.P.isrec(t):
                s.mem[base] = self.default_of(self.P.types[t]['rec'])
            else:
                s.mem[base] = A('uninit', S(w['name']))
            out = [s]
        elif self.P.isref(t):
            for s, v in self.ev(w['init'], st, fr):
                if s.exc is None:
                    s = s.copy()
                    s.mem[base] = v
                out.append(s)
        elif self.P.isrec(t):
            out = self.ev_into(w['init'], st, fr, (base, ()))
        else:
            for s, v in self.ev(w['init'], st, fr):
                if s.exc is None:
                    s = s.copy()
                    s.mem[base] = v
                out.append(s)
        out = [self.end_temps(w['init'], s, fr) for s in out]
        for b in w.get('bindings', ()):
            nxt = []
            for s in out:
                if s.exc is not None:
                    nxt.append(s)
                    continue
                e = b['e']
                if e and e['k'] == 'hold':
                    for s2 in self.declare(e['v'], s, fr):
                        if s2.exc is None:
                            hv = s2.mem[('v', fr.fid, e['v']['id'])]
                            if not self.P.isref(e['v']['t']):
                                hv = P(('v', fr.fid, e['v']['id']))
                            s2.mem[('v', fr.fid, b['id'])] = hv
                        nxt.append(s2)
                elif e:
                    for s2, v in self.ev(e, s, fr):
                        s2 = s2.copy()
                        s2.mem[('v', fr.fid, b['id'])] = v
                        nxt.append(s2)
                else:
                    nxt.append(s)
            out = nxt
        return out

    def s_return(self, s, st, fr):
        if s['e'] is None:
            return [('r', st, VOID)]
        out = []
        for s2, v in self.ev(s['e'], st, fr):
            if s2.exc is None:
                # a by-value return of a glvalue record/scalar
                e = s['e']
                if (e.get('lv') or e.get('xv')) and fr.fn is not None and not self.P.isref(fr.fn['ret']):
                    v = self.load(s2, v)
            s2 = self.end_temps(s['e'], s2, fr)
            out.append(('x' if s2.exc is not None else 'r', s2, v))
        return out

    def s_break(self, s, st, fr):
        return [('b', st, VOID)]

    def s_continue(self, s, st, fr):
        return [('c', st, VOID)]

    def cond_states(self, s, st, fr):
        """evaluate condition (with optional declared variable) -> [(st,bool)]"""
        out = []
        outs = [st]
        if s.get('var'):
            outs = self.declare(s['var'], st, fr)
        for s1 in outs:
            if s1.exc is not None:
                out.append((s1, None))
                continue
            if s.get('cond') is None:
                out.append((s1, True))
                continue
            for s2, c in self.ev(s['cond'], s1, fr):
                if s2.exc is not None:
                    out.append((s2, None))
                    continue
                s2 = self.end_temps(s['cond'], s2, fr)
                out += self.truth(s2, c, self.P.loc(s['cond']['l']), fr)
        return out

    def s_if(self, s, st, fr):
        out = []
        ini = self.exec(s['init'], st, fr) if s.get('init') else [('n', st, VOID)]
        scope = list(s['init']['vars']) if s.get('init') and s['init']['k'] == 'decl' else []
        if s.get('var'):
            scope.append(s['var'])
        for k, s0, v in ini:
            if k != 'n':
                out.append((k, s0, v))
                continue
            for s1, b in self.cond_states(s, s0, fr):
                if b is None:
                    out.append(('x', s1, VOID))
                elif b:
                    out += self.exec(s['then'], s1, fr)
                else:
                    out += self.exec(s['else'], s1, fr)
        if scope:
            out = [(k, self.unscope(scope, s1, fr), v) for k, s1, v in out]
        return out

    def s_switch(self, s, st, fr):
        out = []
        ini = self.exec(s['init'], st, fr) if s.get('init') else [('n', st, VOID)]
        body = s['body']
        stmts = body['s'] if body and body['k'] == 'block' else [body]
        # flatten labels
        flat = []   # (labels, stmt)
        for x in stmts:
            labels = []
            while x is not None and x['k'] in ('case', 'default'):
                labels.append(x['e'] if x['k'] == 'case' else 'default')
                x = x['s']
            flat.append((labels, x))
        for k, s0, v in ini:
            for s1, c in self.ev(s['cond'], s0, fr):
                if s1.exc is not None:
                    out.append(('x', s1, VOID))
                    continue
                starts = []
                cur = [s1]
                dflt = None
                for i, (labels, x) in enumerate(flat):
                    for lb in labels:
                        if lb == 'default':
                            dflt = i
                            continue
                        nxt = []
                        for s2 in cur:
                            for s3, cv in self.ev(lb, s2, fr):
                                for s4, b in self.truth(s3, self.mkeq(c, cv), self.P.loc(s['l']), fr):
                                    if b:
                                        starts.append((i, s4))
                                    else:
                                        nxt.append(s4)
                        cur = nxt
                for s2 in cur:
                    starts.append((dflt if dflt is not None else len(flat), s2))
                for i, s2 in starts:
                    cs = [('n', s2, VOID)]
                    for labels, x in flat[i:]:
                        nxt = []
                        for k2, s3, v2 in cs:
                            if k2 == 'n':
                                nxt += self.exec(x, s3, fr)
                            elif k2 == 'b':
                                out.append(('n', s3, VOID))
                            else:
                                out.append((k2, s3, v2))
                        cs = nxt
                    for k2, s3, v2 in cs:
                        out.append(('n' if k2 == 'b' else k2, s3, v2))
        return out

    def s_case(self, s, st, fr):
        return self.exec(s['s'], st, fr)

    s_default = s_case
    s_label = s_case

    def s_try(self, s, st, fr):
        out = []
        for k, s1, v in self.exec(s['body'], st, fr):
            if s1.exc is None:
                out.append((k, s1, v))
                continue
            exc = s1.exc
            live = [s1]
            for h in s['handlers']:
                if not live:
                    break
                nlive = []
                for s2 in live:
                    m = self.matches(exc, h)
                    if m in ('yes', 'maybe'):
                        s3 = s2.copy()
                        s3.exc = None
                        self.event(s3, 'catch', self.P.tname(h['t']) if h['t'] >= 0 else '...', None, (exc,),
                                   self.P.loc(s['l']), None, fr)
                        if h.get('var'):
                            thrown = ('thrown', self.P.decay(h['t']))
                            if exc is A('exc', S(thrown[1])) and thrown in s3.mem:
                                val = P(thrown) if self.P.isref(h['t']) else s3.mem[thrown]
                            else:
                                val = exc
                            s3.mem[('v', fr.fid, h['var']['id'])] = val
                        for k3, s4, v3 in self.exec(h['body'], s3, fr):
                            if s4.exc is not None and s4.exc is A('exc', S('rethrow')):
                                s4.exc = exc
                            out.append((k3, s4, v3))
                    if m in ('no', 'maybe'):
                        nlive.append(s2)
                live = nlive
            for s2 in live:
                out.append(('x', s2, VOID))
        return out

    def matches(self, exc, h):
        if h['t'] < 0:
            return 'yes'
        t = self.P.decay(h['t'])
        name = exc.a[1][0].a[0] if exc.k == 'a' else '?'
        if name.startswith('from ') or name.startswith('noreturn '):
            return 'maybe'
        if name == t:
            return 'yes'
        if t == 'std::exception' and name.startswith('std::'):
            return 'yes'
        if self.std_derives(name, t):
            return 'yes'
        # look for record inheritance
        for r in self.P.records:
            if r['full'] == name:
                for b in self.P.bases_of(r['i']):
                    if self.P.records[b]['full'] == t:
                        return 'yes'
        return 'no'

    def std_derives(self, a, b):
        par = {'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error',
               'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception',
               'std::bad_function_call': 'std::exception', 'std::bad_variant_access': 'std::exception',
               'std::bad_optional_access': 'std::exception', 'std::range_error': 'std::runtime_error'}
        while a in par:
            a = par[a]
            if a == b:
                return True
        return False

    # ------------------------------------------------------------ loops
    def s_for(self, s, st, fr):
        out = []
        scope = list(s['init']['vars']) if s.get('init') and s['init']['k'] == 'decl' else []
        for k, s0, v in self.exec(s.get('init'), st, fr):
            if k != 'n':
                out.append((k, s0, v))
                continue
            out += self.loop(s, s0, fr, s['body'], s.get('inc'), False)
        if scope:
            out = [(k, self.unscope(scope, s1, fr), v) for k, s1, v in out]
        return out

    def s_while(self, s, st, fr):
        return self.loop(s, st, fr, s['body'], None, False)

    def s_do(self, s, st, fr):
        return self.loop(s, st, fr, s['body'], None, True)

    def s_rfor(self, s, st, fr):
        outs = [('n', st, VOID)]
        for part in ('init', 'range', 'begin', 'end'):
            nxt = []
            for k, s1, v in outs:
                nxt += self.exec(s.get(part), s1, fr) if k == 'n' else [(k, s1, v)]
            outs = nxt
        out = []
        body = {'k': 'block', 'l': s['l'], 's': [s['loopvar'], s['body']]}
        for k, s1, v in outs:
            if k != 'n':
                out.append((k, s1, v))
            else:
                out += self.loop(s, s1, fr, body, s.get('inc'), False)
        return out

    def loop(self, s, st, fr, body, inc, dofirst):
        sid = s['sid']
        where = self.P.loc(s['l'])
        out = []
        heads = [st]
        st0 = st
        meta = ()
        for n in range(3):
            # n: completed body passes on this path (2 = only the exit is explored)
            nxt = []
            for h in heads:
                if n == 0 and dofirst:
                    conds = [(h, True)]
                else:
                    conds = self.cond_states(s, h, fr)
                for s1, b in conds:
                    if b is None:
                        out.append(('x', s1, VOID))
                        continue
                    if not b:
                        s1 = s1.copy()
                        self.event(s1, 'loopexit', 'cond', None, (), where, None, fr,
                                   ctx=(sid, n, fr.fid))
                        out.append(('n', s1, VOID))
                        continue
                    if n == 2:
                        continue
                    if n > 0 and s1.facts is not None:
                        pass
                    s1 = s1.copy()
                    self.event(s1, 'loopiter', '', None, (), where, None, fr, ctx=(sid, n, fr.fid))
                    for k, s2, v in self.exec(body, s1, fr):
                        if k in ('n', 'c'):
                            if inc is not None:
                                for s3, _ in self.ev(inc, s2, fr):
                                    nxt.append(s3)
                            else:
                                nxt.append(s2)
                        elif k == 'b':
                            s2 = s2.copy()
                            self.event(s2, 'loopexit', 'break', None, (), where, None, fr,
                                       ctx=(sid, n, fr.fid))
                            out.append(('n', s2, VOID))
                        else:
                            if k == 'r':
                                s2 = s2.copy()
                                self.event(s2, 'loopexit', 'return', None, (), where, None, fr,
                                           ctx=(sid, n, fr.fid))
                            out.append((k, s2, v))
            if not nxt:
                break
            # widen
            heads = []
            seen = set()
            for s2 in nxt:
                if s2.exc is not None:
                    out.append(('x', s2, VOID))
                    continue
                w = self.at_head(self.widen(st0, s2, sid, n + 1, fr, where), sid, n + 1)
                key = (tuple(sorted(((str(k), v.n) for k, v in w.mem.items()))), w.trace, tuple(sorted((k.n, v) for k, v in w.facts.items())))
                if key in seen:
                    continue
                seen.add(key)
                heads.append(w)
            if len(heads) > self.max_heads:
                raise Budget('loop heads')
        return out

    def widen(self, st0, s, sid, n, fr, where):
        w = s.copy()
        meta = []

        def wv(a, b, base, path):
            if a is b:
                return b
            if a is not None and a.k == 'r' and b.k == 'r' and a.a[0] == b.a[0] and a.a[1] is b.a[1]:
                da, db = dict(a.a[2]), dict(b.a[2])
                d = {}
                for k in db:
                    if k in da:
                        d[k] = wv(da[k], db[k], base, path + (k,))
                    elif isc(db[k]) and db[k].a[0] in (0, 1, None):
                        d[k] = db[k]
                    else:
                        d[k] = wv(self.field(a, k), db[k], base, path + (k,))
                return REC(b.a[0], b.a[1], d)
            lv = mk('lv', (sid, fr.fid), (base, path), n)
            meta.append(((base, path), a, b, lv))
            return lv
        for base, v in list(s.mem.items()):
            v0 = st0.mem.get(base)
            if v0 is None:
                if base[0] in ('o', 'x', 'g'):
                    v0 = self.init_base(base)
                else:
                    # created inside the body
                    if base[0] in ('t', 'v'):
                        if base[1] == fr.fid or True:
                            pass
                    continue
            if v0 is v:
                continue
            # constant flags stay constants: keep small finite values precise
            if isc(v) and isc(v0) and v.a[0] in (0, 1, None) and v0.a[0] in (0, 1, None) and \
                    not self.is_counter(base, v0, v):
                continue
            w.mem[base] = wv(v0, v, base, ())
        # drop facts over older loop variables of the same generation
        cs = tuple(self.read(s, (loc[0], loc[1][:-1] + ('c',))) for loc, a, b, l in meta if loc[1] and loc[1][-1] == 'i')
        self.event(w, 'loophead', '', None, tuple(), where, None, fr, ctx=(sid, n, fr.fid, tuple(meta)), vals=cs)
        return w

    def is_counter(self, base, v0, v):
        if base[0] == 'v':
            t = self.P.vartypes.get(base[2])
            return t is not None and self.P.tk(t) == 'int'
        return False

    # ------------------------------------------------------------ models
    def model_ctor(self, f, rec, loc, args, atypes, st, fr, sid, where, base):
        from . import models
        return models.ctor(self, f, rec, loc, args, atypes, st, fr, sid, where, base)

    def model(self, f, this, args, st, fr, sid, where, atypes, e):
        from . import models
        return models.call(self, f, this, args, st, fr, sid, where, atypes, e)


def has_mv_shallow(v):
    """moved-from content about to be copied"""
    if v.k == 'mv':
        return True
    if v.k == 'r':
        return any(has_mv_shallow(x) for _, x in v.a[2]) or (v.a[1] is not None and has_mv_shallow(v.a[1]))
    return False
