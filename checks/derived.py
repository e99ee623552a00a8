"""Derived operations: equality, hashing, archiving and enums of declared members."""
import re
from engine import kit
from engine.interp import *
from engine.models import unB
from engine.pairs import run_fn
from checks.archives import Archives, TAPE
from checks.lenses import same


class Derived(Archives):
    def __init__(self, ctx):
        super().__init__(ctx, 'derived.cpp', namespaces=('boost', '_hana', 'cereal'))
        self.it.pure_statics = True
        self.it.dtor_events = lambda r: r['full'] == 'cereal::JSONOutputArchive'

    def hook(self, it, f, this, args, st, fr, where):
        b = f['bname']
        if b == 'boost::hana::string::c_str':
            rec = self.P.records[f['rec']]['full']
            return [(st, S("'%s'" % ''.join(re.findall(r"'(\\?.)'", rec))))]
        if b == 'lager::detail::to_camel_case':
            return [(st, A('camel', self.text(st, args[0])))]
        if b in ('boost::core::demangle',):
            return [(st, A('demangle', self.text(st, args[0])))]
        if b == 'std::type_info::name':
            return [(st, A('typename', self.val(st, this)))]
        if b in ('std::basic_string::c_str', 'std::basic_string::data'):
            return [(st, self.val(st, this))]
        return super().hook(it, f, this, args, st, fr, where)

    def text(self, st, v):
        v = self.val(st, v)
        while v.k == 'a' and v.a[0] == 'new' and len(v.a[1]) >= 2 and v.a[1][0].k == 's' and 'basic_string' in str(v.a[1][0].a):
            v = v.a[1][1]
        return v

    def nvp(self, st, x):
        """-> name, value"""
        if x.k == 'a' and x.a[0] in ('make_nvp', 'NameValuePair'):
            return show(self.text(st, x.a[1][0]), 9), x.a[1][1]
        return None, x

    def trace(self, st, kind):
        return [self.nvp(st, x) for e in st.events() if e.kind == kind for x in e.vals]


# struct: ((declared name, index-path of the field), ...), with the operations derived
LISTED = {
    'none': (), 'one': ('alpha',), 'three': ('alpha', 'beta_gamma', 'delta'), 'twins': ('alpha', 'beta'),
    'eight': tuple('m%d' % i for i in range(1, 9)),
    'outer': ('inner', 'rest'), 'two': ('first', 'second'), 'nested': ('left', 'right'),
    'plain': ('alpha', 'beta_gamma'), 'plain_two': ('alpha', 'beta_gamma'), 'camel': ('alpha', 'beta_gamma'),
}
LEAVES = {'outer': (('inner', 'alpha'), ('inner', 'beta_gamma'), ('inner', 'delta'), ('rest',))}
FILES = {'eq': 'eq.hpp', 'hash': 'hash.hpp', 'archive': 'cereal.hpp', 'hana': 'hana.hpp'}


class Struct:
    def __init__(self, d, short, f, i=0):
        """the struct a witness function takes as its i-th parameter"""
        self.d, self.short = d, short
        t = d.P.types[f['params'][i]['t']]
        while t['k'] in ('lref', 'rref'):
            t = d.P.types[t['to']]
        self.rec = d.P.records[t['rec']] if 'rec' in t else d.P.records[d.P.isrec(t)]

    def ids(self, path, rec=None):
        out = []
        rec = rec or self.rec
        for nm in path:
            fl = next(x for x in rec['fields'] if x['name'] == nm)
            out.append(fl['id'])
            t = self.d.P.types[fl['t']]
            rec = self.d.P.records[t['rec']] if 'rec' in t else None
        return out

    def value(self, base, path):
        v = base
        for i in self.ids(path):
            v = self.d.it.field(v, i)
        return v


def leaves(short):
    return LEAVES.get(short) or tuple((m,) for m in LISTED[short])


def runs(ctx, d, name, rule, what, where):
    f = d.fns.get(name)
    if f is None:
        raise kit.Broken('no ' + name)
    rs = run_fn(d.it, f)
    ctx.paths += len(rs)
    if not rs:
        raise kit.Broken('no path through ' + name)
    return f, rs


def rule_eq(ctx, d):
    it = d.it
    where = kit.REPO + '/lager/extra/derive/eq.hpp'
    for short in LISTED:
        for op, want in (('eq', True), ('ne', False)):
            f, rs = runs(ctx, d, '%s_%s' % (op, short), 'eq', short, where)
            sv = Struct(d, short, f)
            what = '%s of %s' % ('==' if want else '!=', sv.rec['full'])
            for st, v in rs:
                tr = kit.trace_lines(it, st)
                if not ctx.ob('every-member-compared', what, st.exc is None, 'throws', where, tr):
                    continue
                for s2, r in it.truth(st, v, '', None):
                    eqs = [(p, s2.facts.get(it.mkeq(sv.value(S('arg0'), p), sv.value(S('arg1'), p)))) for p in leaves(short)]
                    if r is want:
                        bad = ['.'.join(p) for p, x in eqs if x is not True]
                        ctx.ob('every-member-compared', what, not bad, 'says equal without having found %s equal' % ', '.join(bad), where, tr)
                    else:
                        ctx.ob('unequal-only-for-a-difference', what, any(x is False for p, x in eqs),
                               'says unequal with no member found to differ', where, tr)


def rule_hash(ctx, d):
    it = d.it
    where = kit.REPO + '/lager/extra/derive/hash.hpp'
    for short in ('one', 'three', 'eight', 'twins', 'outer', 'two'):
        f, rs = runs(ctx, d, 'hash_%s' % short, 'hash', short, where)
        sv = Struct(d, short, f)
        what = 'std::hash of %s' % sv.rec['full']
        for st, v in rs:
            tr = kit.trace_lines(it, st)
            if not ctx.ob('every-member-hashed', what, st.exc is None, 'throws', where, tr):
                continue
            hs, other = {}, []
            members = [sv.value(S('arg0'), p) for p in leaves(short)]

            def walk(x):
                if x.k == 'a' and x.a[0] == 'std::hash::operator()' and len(x.a[1]) == 2 and x.a[1][1] in members:
                    hs[x.a[1][1]] = hs.get(x.a[1][1], 0) + 1
                    return
                if x.k == 'a':
                    if x.a[0] in ('typeid', 'typename'):
                        return
                    for y in x.a[1]:
                        walk(y)
                elif x.k == 'f':
                    other.append(x)
                elif x.k in ('s', 'p', 'mv') and x is not S('size_t'):
                    other.append(x)
            walk(v)
            bad = ['.'.join(p) for p, m in zip(leaves(short), members) if m not in hs]
            ctx.ob('every-member-hashed', what, not bad, 'does not depend on %s' % ', '.join(bad), where, tr)
            ctx.ob('equal-values-hash-equal', what, not other, 'depends on %s' % ', '.join(show(x, 5) for x in other[:3]), where, tr)


def rule_archive(ctx, d):
    it = d.it
    for pre, way, names in (('', 'derive/cereal.hpp', ('none', 'one', 'three', 'eight', 'twins', 'outer', 'two', 'nested', 'plain', 'plain_two', 'camel')),
                            ('h', 'cereal/struct.hpp', ('none', 'one', 'three', 'eight', 'twins', 'two', 'nested'))):
        for short in names:
            w = kit.REPO + '/lager/extra/' + ('cereal/struct.hpp' if short in ('plain', 'plain_two', 'camel') else way)
            for kind in ('save', 'load'):
                f, rs = runs(ctx, d, '%s%s_%s' % (pre, kind, short), 'archive', short, w)
                sv = Struct(d, short, f, 1)
                what = '%s of %s through %s' % (kind, sv.rec['full'], w.split('extra/')[1])
                for st, v in rs:
                    tr = kit.trace_lines(it, st)
                    if not ctx.ob('every-member-archived', what, st.exc is None, 'throws', w, tr):
                        continue
                    got = d.trace(st, kind + ('d' if kind == 'save' else 'ed'))
                    want = ['camel(\'%s\')' % m if short == 'camel' else "'%s'" % m for m in LISTED[short]]
                    if not ctx.ob('every-member-archived', what, [g[0] for g in got] == want,
                                  'archives %s' % ', '.join(str(g[0]) for g in got), w, tr):
                        continue
                    final = it.load(st, P(('o', 'arg1')))
                    for (nm, x), m in zip(got, LISTED[short]):
                        cur = sv.value(S('arg1') if kind == 'save' else final, (m,))
                        ctx.ob('under-its-own-name', what, same(it, st, x, cur),
                               '%s is %s' % (m, show(cur, 4)) if kind == 'load' else 'saves %s as %s' % (show(x, 4), m), w, tr)


def rule_tuple(ctx, d):
    it = d.it
    w = kit.REPO + '/lager/extra/cereal/tuple.hpp'
    for short, n in (('tuple0', 0), ('tuple3', 3), ('tuple6', 6)):
        for kind in ('save', 'load'):
            f, rs = runs(ctx, d, '%s_%s' % (kind, short), 'tuple', short, w)
            what = '%s of a tuple of %d' % (kind, n)
            for st, v in rs:
                tr = kit.trace_lines(it, st)
                if not ctx.ob('every-element-in-order', what, st.exc is None, 'throws', w, tr):
                    continue
                got = [x for nm, x in d.trace(st, kind + ('d' if kind == 'save' else 'ed'))]
                head = got[:1]
                ok = len(head) == 1 and head[0].k == 'a' and (head[0] is A('make_size_tag', C(n)) if kind == 'save' else head[0].a[0] == 'size?')
                ctx.ob('count-first', what, ok, 'starts with %s' % [show(x, 4) for x in head], w, tr)
                final = S('arg1') if kind == 'save' else it.load(st, P(('o', 'arg1')))
                ok = len(got) == n + 1 and all(same(it, st, x, it.field(final, 'e%d' % i)) for i, x in enumerate(got[1:]))
                if kind == 'load':
                    tape = [x.a[1][0] if x.k == 'a' and x.a[0] == 'saved' else None for x in got[1:]]
                    ok = ok and all(t is it.add(S('archive'), i) for i, t in enumerate(tape))
                ctx.ob('every-element-in-order', what, ok, 'archives %s' % ', '.join(show(x, 4) for x in got[1:]), w, tr)


ALTS = ('W::Val<0>', 'W::Val<1>', 'int')


def rule_variant(ctx, d):
    it = d.it
    w = kit.REPO + '/lager/extra/cereal/variant_with_name.hpp'
    what = 'save of a variant'
    f, rs = runs(ctx, d, 'save_either', 'variant', '', w)
    named, keys = {}, set()
    for st, v in rs:
        tr = kit.trace_lines(it, st)
        if st.exc is not None:
            none = all(st.facts.get(A('holds', S('arg1'), S(T))) is False for T in ALTS)
            ctx.ob('alternative-named', what, none, 'throws', w, tr)
            continue
        T = [T for T in ALTS if st.facts.get(A('holds', S('arg1'), S(T))) is True]
        if not T and sum(1 for T in ALTS if st.facts.get(A('holds', S('arg1'), S(T))) is False) == len(ALTS):
            continue
        got = d.trace(st, 'saved')
        if not ctx.ob('alternative-named', what, len(T) == 1 and len(got) == 2 and None not in (got[0][0], got[1][0]),
                      'saves %s' % [(n, show(x, 4)) for n, x in got], w, tr):
            continue
        keys.add((got[0][0], got[1][0]))
        named.setdefault(T[0], set()).add(d.text(st, got[0][1]))
        ctx.ob('alternative-saved', what, is_alt(got[1][1], T[0]), 'saves %s as the data of a %s' % (show(got[1][1], 5), T[0]), w, tr)
    for T in ALTS:
        ctx.ob('alternative-named', what, len(named.get(T, ())) == 1, '%s has the names %s' % (T, [show(x, 6) for x in named.get(T, ())]), w)
    allnames = [x for T in named for x in named[T]]
    ctx.ob('names-differ', what, len(set(allnames)) == len(allnames), 'two alternatives share a name', w)
    ctx.ob('same-keys', what, len(keys) == 1, 'uses the keys %s' % sorted(keys), w)
    what = 'load of a variant'
    f, rs = runs(ctx, d, 'load_either', 'variant', '', w)
    back = set()
    for st, v in rs:
        tr = kit.trace_lines(it, st)
        read = [e for e in st.events() if e.kind == 'loaded']
        got = d.trace(st, 'loaded')
        if not ctx.ob('alternative-restored', what, bool(got) and (not keys or got[0][0] in [k[0] for k in keys]),
                      'starts by loading %s' % [n for n, x in got], w, tr):
            continue
        name = got[0][1]
        hit = [T for T in ALTS for x in named.get(T, ()) if st.facts.get(it.mkeq(x, name)) is True]
        miss = [T for T in ALTS for x in named.get(T, ()) if st.facts.get(it.mkeq(x, name)) is False]
        if st.exc is not None:
            ctx.ob('known-names-accepted', what, len(miss) == len(ALTS), 'throws without having compared the name with those of %s' %
                   ', '.join(T for T in ALTS if T not in miss), w, tr)
            continue
        final = it.load(st, P(('o', 'arg1')))
        if not ctx.ob('alternative-restored', what, len(hit) == 1 and len(got) == 2 and (not keys or got[1][0] in [k[1] for k in keys]),
                      'ends as %s for the names of %s' % (show(final, 5), hit), w, tr):
            continue
        back.add(hit[0])
        ok = final.k == 'a' and final.a[0] == 'alt' and final.a[1][0] is S(hit[0]) and same(it, st, final.a[1][1], got[1][1])
        ctx.ob('alternative-restored', what, ok, 'the name of %s gives %s' % (hit[0], show(final, 5)), w, tr)
    ctx.ob('known-names-accepted', what, back == set(ALTS), 'never restores %s' % ', '.join(T for T in ALTS if T not in back), w)


def is_alt(x, T):
    return x.k == 'a' and x.a[0] in ('get', 'alt', 'unalt', 'altval') and any(y is S(T) for y in x.a[1]) or \
        x.k == 'f' and T in str(x.a)


ENUMS = {'kind': {'good': 0, 'bad': 1, 'ugly': 7}, 'plain_kind': {'big': 0, 'small': 1}}


def rule_enum(ctx, d):
    it = d.it
    w = kit.REPO + '/lager/extra/enum.hpp'
    for short, vals in ENUMS.items():
        f, rs = runs(ctx, d, 'save_' + short, 'enum', short, w)
        what = 'save of enum D::' + short
        seen = set()
        for st, v in rs:
            tr = kit.trace_lines(it, st)
            is_ = {n: st.facts.get(it.mkeq(S('arg1'), C(x))) for n, x in vals.items()}
            if st.exc is not None:
                ctx.ob('declared-values-named', what, all(x is False for x in is_.values()), 'throws for a value that may be declared', w, tr)
                continue
            nm = show(d.text(st, v), 6).strip("'")
            ctx.ob('named-as-declared', what, is_.get(nm) is True, 'gives %s when %s' % (nm, is_), w, tr)
            seen.add(nm)
        ctx.ob('declared-values-named', what, seen == set(vals), 'never gives %s' % ', '.join(set(vals) - seen), w)
        f, rs = runs(ctx, d, 'load_' + short, 'enum', short, w)
        what = 'load of enum D::' + short
        seen = set()
        for st, v in rs:
            tr = kit.trace_lines(it, st)
            is_ = {}
            for k, b in st.facts.items():
                if k.k == 'a' and k.a[0] == '==' and S('arg2') in k.a[1]:
                    other = k.a[1][0] if k.a[1][1] is S('arg2') else k.a[1][1]
                    is_[show(d.text(st, other), 6).strip("'")] = b
            if st.exc is not None:
                ctx.ob('declared-names-known', what, all(is_.get(n) is False for n in vals), 'throws for a name that may be declared', w, tr)
                continue
            final = it.load(st, P(('o', 'arg1')))
            hit = [n for n, x in vals.items() if final is C(x)]
            ctx.ob('valued-as-declared', what, len(hit) == 1 and is_.get(hit[0]) is True, 'gives %s when %s' % (show(final, 5), is_), w, tr)
            seen.update(hit)
        ctx.ob('declared-names-known', what, seen == set(vals), 'never gives %s' % ', '.join(set(vals) - seen), w)


def rule_inline(ctx, d):
    it = d.it
    w = kit.REPO + '/lager/extra/cereal/inline.hpp'
    for short, fs in (('both_in', ('D::both_in::serialize',) * 2), ('both_out', ('D::serialize',) * 2),
                      ('each_in', ('D::each_in::save', 'D::each_in::load')), ('each_out', ('D::save', 'D::load'))):
        for kind, fn in zip(('save', 'load'), fs):
            f, rs = runs(ctx, d, 'inline_%s_%s' % (kind, short), 'inline', short, w)
            what = 'inline %s through %s' % (kind, fn)
            for st, v in rs:
                tr = kit.trace_lines(it, st)
                cs = [e for e in st.events() if e.kind in ('call', 'vcall') and e.name.startswith('D::')]
                ok = st.exc is None and len(cs) == 1 and cs[0].name == fn
                if ok:
                    got = [cs[0].this] + list(cs[0].args) if fn.count('::') > 1 else list(cs[0].args)[::-1]
                    ok = got == [P(('o', 'arg1')), P(('o', 'arg0'))]
                ctx.ob('inline-once', what, ok, 'calls %s' % [e.name for e in cs], w, tr)
    w = kit.REPO + '/lager/extra/cereal/json.hpp'
    f, rs = runs(ctx, d, 'json_save', 'json', '', w)
    for st, v in rs:
        tr = kit.trace_lines(it, st)
        ev = [e for e in st.events() if e.kind in ('call', 'vcall', 'dtor')]
        saves = [i for i, e in enumerate(ev) if e.name == 'D::save']
        closed = [i for i, e in enumerate(ev) if e.kind == 'dtor']
        strs = [i for i, e in enumerate(ev) if e.name.endswith('stringstream::str')]
        ok = st.exc is None and len(saves) == 1 and len(closed) == 1 and len(strs) >= 1 and saves[0] < closed[0] < strs[-1] and \
            S('arg0') is it.load(st, ev[saves[0]].args[1]) and contains(v, ev[strs[-1]].res)
        ctx.ob('json-complete', 'to_json', ok, 'the text is not taken after the archive has been finished', w, tr)
    f, rs = runs(ctx, d, 'json_load', 'json', '', w)
    for st, v in rs:
        tr = kit.trace_lines(it, st)
        loads = [e for e in st.events() if e.name == 'D::load']
        src = [e for e in st.events() if e.kind == 'ctor' and 'stringstream' in e.name and e.args and
               hasattr(e.res, 'k') and contains(e.res, S('arg0'))]
        ok = st.exc is None and len(loads) == 1 and bool(src) and loads[0].args[0].k == 'p' and v.k == 'a' and v.a[0] == 'after'
        ctx.ob('json-loaded', 'from_json', ok, 'does not return what it loaded from its argument', w, tr)


def contains(v, x):
    if v is x:
        return True
    if v.k == 'a':
        return any(contains(y, x) for y in v.a[1])
    if v.k in ('f', 'mv') and v.a and hasattr(v.a[0], 'k'):
        return contains(v.a[0], x)
    return False


def rule_optional(ctx, d):
    it = d.it
    w = kit.REPO + '/lager/extra/cereal/optional_nvp.hpp'
    for kind in ('save', 'load'):
        f, rs = runs(ctx, d, 'optional_' + kind, 'optional', '', w)
        what = 'serialize_optional_nvp when %sing' % kind.rstrip('e')
        took = set()
        for st, v in rs:
            tr = kit.trace_lines(it, st)
            calls = [e for e in st.events() if e.kind in ('call', 'vcall') and e.name.endswith('::operator()') and e.name.startswith('D::Text')]
            has = [b for k, b in st.facts.items() if k.k == 'a' and k.a[0] == 'D::TextIn::hasName']
            named = all("'it'" in show(k, 9) for k, b in st.facts.items() if k.k == 'a' and k.a[0] == 'D::TextIn::hasName')
            skip = kind == 'load' and has == [False] and named
            took.add(bool(calls))
            r = v is not C(0) if isc(v) else st.facts.get(v)
            ok = st.exc is None and len(calls) == (0 if skip else 1) and r is not skip and r is not None
            if ok and calls:
                x = calls[0].res
                x = x.a[1][1] if x is not None and x.k == 'a' and len(x.a[1]) == 2 else VOID
                nm, val = d.nvp(st, x)
                ok = nm == "'it'" and val is P(('o', 'arg1'))
            ctx.ob('archived-unless-absent', what, ok, 'archives %d values and returns %s' % (len(calls), show(v, 4)), w, tr)
        ctx.ob('archived-unless-absent', what, True in took, 'never archives', w)


RULES = (rule_eq, rule_hash, rule_archive, rule_tuple, rule_variant, rule_enum, rule_inline, rule_optional)


def rule_all(ctx):
    d = Derived(ctx)
    for r in RULES:
        r(ctx, d)
    ctx.absorb(d.it)


PRE = '#include <lager/extra/struct.hpp>\nnamespace n { struct s { int a; int b; }; }\n'


def rule_rejects(ctx):
    """a member left out of LAGER_STRUCT does not compile, where Boost.PFR is there to tell"""
    if not any(__import__('os').path.exists(p + '/boost/pfr/tuple_size.hpp') for p in ('/usr/include', '/usr/local/include')):
        ctx.note('no Boost.PFR: nothing to reject')
        return
    w = kit.REPO + '/lager/extra/derive/size_check.hpp'
    good = kit.compiles(PRE + 'LAGER_STRUCT(n, s, a, b);')
    if not good[0]:
        raise kit.Broken('LAGER_STRUCT does not compile: ' + good[1][:500])
    ctx.ob('left-out-members-rejected', 'LAGER_STRUCT', not kit.compiles(PRE + 'LAGER_STRUCT(n, s, a);')[0],
           'accepts a struct with a member that is not listed', w)
