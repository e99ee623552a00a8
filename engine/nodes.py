"""Abstract model of the propagation graph's node classes."""
import itertools

from .interp import *
from .paths import *

NS = 'lager::detail::'


class NodeClass:
    """One concrete node class and a generic (arbitrary state) object of it."""

    def __init__(self, it, rec):
        self.it, self.P, self.rec = it, it.P, rec
        P_ = it.P
        self.name = rec['full']
        self.kind = rec['bname'].rsplit('::', 1)[-1]
        self.base = ('o', 'node')
        self.this = P(self.base)
        self.fr = Frame(it.fid(0, 'top'), None, None, None, 0, None)
        self.initial = None
        self.ctors = []
        for c in P_.fnrefs.values():
            if c.get('ctor') and c.get('rec') == rec['i'] and not c.get('copy') and not c.get('move') \
                    and not c.get('deleted'):
                args, mem = self.args(c)
                st = St()
                st.mem.update(mem)
                paths = it.ctor_call(c, (self.base, ()), args, [p['t'] for p in c['params']], st, self.fr,
                                     ('ctor', c['id']), '?')
                self.ctors.append((c, paths))
        selfp = {}
        for c, paths in self.ctors:
            for s in paths:
                if s.exc is None:
                    node = s.mem.get(self.base)
                    if node is not None and node.k == 'r':
                        for f, x in node.a[2]:
                            if x.k == 'p' and x.a[0] == self.base:
                                selfp[f] = x
        self.obj = REC(rec['i'], S('node'), selfp)
        self.cur = self.role('current')
        self.last = self.role('last')
        self.parent_kind = None
        self.flags, self.enums = [], []
        self.find_marks(P_.all_fields(rec['i']), ())
        self.markof = {f['id']: f for f in self.flags}
        self.children = [f['id'] for f in P_.all_fields(rec['i'])
                         if P_.isrec(f['t']) and 'weak_ptr' in P_.tname(f['t'])
                         and P_.rec_of_type(f['t'])['bname'].startswith('std::')]

    def find_marks(self, fields, path):
        """boolean members (also of nested structs), and for small enumerations every set of enumerators, as marks"""
        P_ = self.P
        for f in fields:
            q = path + (f['id'],)
            k = P_.tk(f['t'])
            if k == 'bool':
                self.flags.append({'id': q[0] if len(q) == 1 else q, 'path': q})
            elif k == 'enum' and len(self.enums) < 2:
                consts = P_.enumerators(f['t'])
                if consts and 2 <= len(consts) <= 4:
                    self.enums.append((q, consts))
                    for n in range(1, len(consts)):
                        for c in itertools.combinations(consts, n):
                            self.flags.append({'id': ('in', q, c), 'path': q, 'in': c})
            elif P_.isrec(f['t']) and len(path) < 2:
                r = P_.rec_of_type(f['t'])
                if r['bname'].startswith('lager::') and not r.get('lambda'):
                    self.find_marks(P_.all_fields(r['i']), q)

    def mark_path(self, fid):
        return self.markof[fid]['path']

    def field0(self, path):
        t = S('node')
        for x in path:
            t = mk('f', t, x)
        return t

    def mark0(self, fid):
        m = self.markof[fid]
        return S('mark:%s' % (fid,)) if 'in' in m else self.field0(m['path'])

    def mark_of(self, v, fid):
        """value of a mark, given that of its member"""
        m = self.markof[fid]
        if 'in' not in m:
            return v
        if isc(v):
            return TRUE if v.a[0] in m['in'] else FALSE
        return self.mark0(fid) if v is self.field0(m['path']) else v

    def it_eq(self, st, x, k):
        for a, b in ((x, C(k)), (C(k), x)):
            r = st.facts.get(A('==', a, b))
            if r is not None:
                return r
        return None

    def args(self, c):
        args, mem = [], {}
        for i, p in enumerate(c['params']):
            if self.P.isref(p['t']):
                b = ('o', 'arg%d' % i)
                args.append(P(b))
                mem[b] = S('arg%d' % i)
            else:
                args.append(S('arg%d' % i))
        return args, mem

    def method(self, short, pred=None):
        rs = self.P.bases_of(self.rec['i'])
        out = []
        for f in self.P.fnrefs.values():
            if f['short'] == short and f.get('rec') in rs and f['id'] in self.P.functions:
                o = self.P.overrider(self.rec['i'], f['id'])
                if f.get('virtual') and o is not None and o != f['id']:
                    continue
                if pred is None or pred(f):
                    out.append(f)
        return out

    def role(self, acc):
        for f in self.method(acc):
            if f['params']:
                continue
            rs = self.run(f, [])
            if len(rs) == 1 and rs[0][1].k == 'p' and rs[0][1].a[0] == self.base:
                return rs[0][1].a[1]
        return None

    def run(self, f, args, mem=None):
        st = St()
        st.mem[self.base] = self.obj
        if mem:
            st.mem.update(mem)
        return self.it.call(f, self.this, args, st, self.fr, ('run', f['id']), '?')

    def run_value(self, f):
        """call a method taking one value"""
        t = f['params'][0]['t']
        if self.P.isref(t):
            return self.run(f, [P(('o', 'val'))], {('o', 'val'): S('val')})
        return self.run(f, [S('val')])

    def fld(self, st, fid):
        return self.it.read(st, (self.base, (fid,)))

    def get(self, st, role):
        return self.it.read(st, (self.base, role))

    def init(self, role):
        st = St()
        st.mem[self.base] = self.obj
        return self.it.read(st, (self.base, role))


def concrete(P_, base=NS + 'reader_node_base'):
    return [r for r in P_.records if r.get('def') and not r.get('abstract')
            and any(P_.records[b]['bname'] == base for b in P_.bases_of(r['i']))
            and not r.get('dependent')]


def same(st, a, b):
    """values known equal on this path"""
    if a is b:
        return True
    e = A('==', a, b)
    e2 = A('==', b, a)
    if st.facts.get(e) is True or st.facts.get(e2) is True:
        return True
    if a.k == 'r' and b.k == 'r' and a.a[1] is None and b.a[1] is None:
        da, db = dict(a.a[2]), dict(b.a[2])
        if da.keys() == db.keys() and da:
            return all(same(st, da[k], db[k]) for k in da)
    return False
