"""Properties of Qt objects: what reading, writing and changing them does, and what is declared to Qt."""
import re
import subprocess

from engine import kit
from engine.interp import *
from engine.pairs import witness_fns, run_fn
from checks.toolkits import FLAGS, mentions, is_closure, lastrepo, need


class Props:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = kit.export('qtprops.cpp', flags=FLAGS, follow=['ctor:pair'])
        self.it = Interp(self.P)
        rs = [r for r in self.P.records if r['bname'] == 'W::Q' and r.get('def')]
        if not rs:
            raise kit.Broken('the witness object was not found')
        self.rec = rs[0]
        # the member that a property stands on: a handle, in the order of the constructor's initialisers
        self.member = {}
        for x in self.P.all_fields(rs[0]['i']):
            n = self.P.fieldname[x['id']]
            r = self.P.rec_of_type(x['t']) if self.P.isrec(x['t']) else None
            b = r['bname'] if r else ''
            k = 'rd' if b == 'lager::reader' else 'wr' if b == 'lager::cursor' else 'konst' if b == 'W::T' else None
            if k:
                if k in self.member:
                    raise kit.Broken('property %s has several members' % k)
                self.member[k] = x['id']
        for k in ('rd', 'wr', 'konst'):
            if k not in self.member:
                raise kit.Broken('property %s has no member' % k)


def runs(ctx, g, f, args=None):
    rs = run_fn(g.it, f, args=args)
    ctx.paths += len(rs)
    return rs


def doing(st):
    return [(e.kind, e.name, e.this, tuple(e.vals)) for e in st.events() if e.kind in ('call', 'vcall', 'invoke')]


def norm(g, rs):
    out = []
    for st, v in rs:
        val = v
        if st.exc is None and v.k == 'p':
            val = g.it.load(st, v)
        out.append((frozenset((t, b) for t, b in st.facts.items()), st.exc is not None, val if st.exc is None else None, tuple(doing(st))))
    return set(out)


def rule_access(ctx, g):
    it = g.it
    rd, wr = witness_fns(g.P, 'read_'), witness_fns(g.P, 'write_')
    plain = witness_fns(g.P, 'plain_')
    at = lambda k: P(('o', 'arg0'), (g.member[k],))
    for k, orac in (('rd', 'reader'), ('wr', 'cursor')):
        f = need(rd, k)
        have, want = norm(g, runs(ctx, g, f)), norm(g, runs(ctx, g, need(plain, orac), [at(k)]))
        st = runs(ctx, g, f)[0][0]
        ctx.ob('reads-current', 'LAGER_QT_%s' % ('READER' if k == 'rd' else 'CURSOR'), have == want, 'reading the property is not reading the %s it stands for' % orac,
               lastrepo(st, g.P.loc(f.get('loc'))), kit.trace_lines(it, st))
    f = need(rd, 'konst')
    for st, v in runs(ctx, g, f):
        val = it.load(st, v) if v.k == 'p' else v
        ctx.ob('reads-current', 'LAGER_QT_CONST', st.exc is None and val is it.field(S('arg0'), g.member['konst']), 'reading the property does not give its member',
               lastrepo(st, g.P.loc(f.get('loc'))), kit.trace_lines(it, st))
    f = need(wr, 'wr')
    have = norm(g, runs(ctx, g, f))
    want = norm(g, runs(ctx, g, need(plain, 'set'), [at('wr'), P(('o', 'arg1'))]))
    st = runs(ctx, g, f)[0][0]
    ctx.ob('writes-set', 'LAGER_QT_CURSOR', have == want, 'writing the property is not setting its cursor to the value',
           lastrepo(st, g.P.loc(f.get('loc'))), kit.trace_lines(it, st))


def rule_signal(ctx, g):
    """a new object watches each of its handles once, and a change emits the signal once, with the new value"""
    it = g.it
    f = need(witness_fns(g.P, 'm'), 'ake')
    for st, v in runs(ctx, g, f):
        if st.exc is not None:
            continue
        tr = kit.trace_lines(it, st)
        site = lastrepo(st, g.P.loc(f.get('loc')))
        me = [e.this for e in st.events() if e.kind == 'new' and e.name == 'W::Q']
        if len(me) != 1:
            raise kit.Broken('the witness object is not constructed')
        base = it.addr(me[0])[0]
        slots = [e.this for e in st.events() if e.kind == 'new' and '::slot<' in e.name]
        for k, arg in (('rd', 'arg0'), ('wr', 'arg1')):
            mem = it.read(st, (base, (g.member[k],)))
            mine = [s for s in slots if mentions(mem, lambda x: x is s)]
            ctx.ob('signals-changes', '%s: watched' % k, len(mine) == 1, 'a new object watches the handle of a property %d times' % len(mine), site, tr)
            for s in mine:
                cl = []
                closures(g, it.load(st, s), cl)
                if len(cl) != 1:
                    raise kit.Broken('callback of a property not found')
                n = len(st.events())
                s1 = st.copy()
                s1.mem[('o', 'now')] = S('now')
                for s2, _ in it.call_closure(cl[0], [P(('o', 'now'))], s1, sid=('emit', k)):
                    evs = [e for e in s2.events()[n:] if e.kind in ('call', 'vcall', 'invoke')]
                    sig = [e for e in evs if e.name.endswith('Changed')]
                    ok = len(sig) == 1 and sig[0].name.split('::')[-1] == k + 'Changed' and sig[0].this is not None and it.addr(sig[0].this)[0] == base \
                        and (sig[0].vals[-1] is S('now') or sig[0].vals[-1].k == 'f' and g.P.fieldname.get(sig[0].vals[-1].a[1]) == 'last_view_')
                    ctx.ob('signals-changes', '%s: emitted' % k, ok,
                           'a change emits %s' % (', '.join('%s(%s)' % (e.name.split('::')[-1], show(e.vals[-1], 3)) for e in sig) or 'nothing'), site, tr)
            node = None
            for fid, x in mem.a[2] if mem.k == 'r' else ():
                if g.P.fieldname.get(fid) == 'node_':
                    node = x
            if node is not None:
                linked = [e for e in st.events() if e.kind == 'cont' and e.name in ('push_back', 'push_front', 'insert') and e.this is not None
                          and it.addr(e.this)[0][0] == 'x' and any(it.addr(x)[0] == base and it.addr(x)[1][:1] == (g.member[k],) for x in e.args if x.k == 'p')]
                null = any((not b) and t is node for t, b in st.facts.items()) or node is NULL or any(t.k == 'a' and node in t.a[1] and b for t, b in st.facts.items() if t.k == 'a' and t.a[0] == '==' and NULL in t.a[1])
                ctx.ob('signals-changes', '%s: linked' % k, len(linked) == 1 or null and not linked, 'a new object is linked %d times to the value of a property' % len(linked), site, tr)


def closures(g, v, out):
    if is_closure(g, v):
        out.append(v)
        return
    if v.k == 'r':
        for _, x in v.a[2]:
            closures(g, x, out)
        if v.a[1] is not None:
            closures(g, v.a[1], out)


def rule_declared(ctx, g):
    """what Qt's meta-object compiler is told: accessors that exist, for the right property"""
    src = kit.VERIF + '/witness/qtprops.cpp'
    r = subprocess.run(['clang++', '-E', '-P', '-std=c++17', '-I' + kit.REPO, '-I' + kit.VERIF + '/witness'] + FLAGS + ['-x', 'c++', '-'],
                       input='#include <QObject>\n#undef Q_PROPERTY\n#define Q_PROPERTY(...) SAW_PROPERTY[__VA_ARGS__]\n#include "%s"\n' % src, capture_output=True, text=True)
    if r.returncode:
        raise kit.Broken('qtprops.cpp does not preprocess: ' + r.stderr[:200])
    saw = {}
    for m in re.finditer(r'SAW_PROPERTY\[\s*(.*?)\s*\]', r.stdout):
        w = m.group(1).split()
        if len(w) >= 2:
            saw.setdefault(w[1], []).append((w[0], w[2:]))
    names = {f['short'] for f in g.P.fnrefs.values() if f['bname'].startswith('W::Q::')}
    want = {'konst': {'READ': 'konst', 'CONSTANT': ''}, 'rd': {'READ': 'rd', 'NOTIFY': 'rdChanged'}, 'wr': {'READ': 'wr', 'WRITE': 'setwr', 'NOTIFY': 'wrChanged'}}
    site = kit.REPO + '/lager/extra/qt.hpp'
    for k, w in sorted(want.items()):
        ds = saw.get(k, [])
        bad = []
        if len(ds) != 1:
            bad.append('it is declared %d times' % len(ds))
        for t, toks in ds:
            if t != 'T':
                bad.append('its type is declared as %s' % t)
            d = {}
            i = 0
            while i < len(toks):
                if toks[i] in ('READ', 'WRITE', 'NOTIFY', 'MEMBER', 'RESET') and i + 1 < len(toks):
                    d[toks[i]] = toks[i + 1]
                    i += 2
                else:
                    d[toks[i]] = ''
                    i += 1
            for a, b in w.items():
                if a not in d:
                    bad.append('%s is not declared' % a)
                elif d[a] != b:
                    bad.append('%s is declared as %s' % (a, d[a]))
            if 'WRITE' in d and 'WRITE' not in w:
                bad.append('it is declared writable')
            if 'CONSTANT' in d and 'CONSTANT' not in w:
                bad.append('it is declared constant')
        ctx.ob('declared-to-qt', k, not bad, 'property %s: %s' % (k, '; '.join(bad)), site)
