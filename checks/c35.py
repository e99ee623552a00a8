"""C35 Every public header can be used on its own, anywhere, more than once.

For every header under lager/ outside detail/ (enumerated from the tree on every run):
 - `stands-alone`: the type checker accepts a translation unit that contains nothing but it (two front ends, two
   language versions), and one that includes it twice;
 - `usable-alone`: a small use of the header's entities type-checks with it as the only include, and leaves no
   function of the library declared but never defined;
 - `no-strong-definitions`: no function or variable that a library header (or a macro of one) puts in the compiler's
   intermediate representation has strong external linkage, so any set of translation units links;
 - `no-exceptions`: the core headers and their uses type-check with exceptions disabled;
 - `any-order`: all headers together type-check in both orders.
"""
import concurrent.futures as cf
import os
import re
import subprocess

from checks import typed
from checks.toolkits import FLAGS
from engine import kit

S = 'struct M { int a; float b; }; template <class T> T& obj(); struct F { template <class... X> int operator()(X&&...) const { return 0; } }; struct V { template <class... X> void operator()(X&&...) const {} };\n'

USE = {
    'lager/reader.hpp': 'lager::reader<M> f(lager::reader<M> r) { (void) r.get().a; (void) (*r).a; (void) r->a; r.watch(V{}); r.bind(V{}); r.nudge(); r.unbind(); lager::reader<M> s = r; s = r; lager::reader<int> x = r[&M::a]; (void) r.make(); return s; }',
    'lager/writer.hpp': 'lager::writer<M> f(lager::writer<M> r) { r.set(M{}); r.update([](M m) { return m; }); lager::writer<M> s = r; lager::writer<int> x = r[&M::a]; x.set(2); return s; }',
    'lager/cursor.hpp': 'lager::cursor<M> f(lager::cursor<M> r) { r.set(M{}); r.update([](M m) { return m; }); (void) r.get(); r.watch(V{}); lager::cursor<M> s = r; lager::cursor<int> x = r[&M::a]; x.set(2); lager::reader<M> q = r; lager::writer<M> w = r; lager::reader<int> y = r.map([](M m) { return m.a; }); return s; }',
    'lager/state.hpp': 'void f() { lager::state<M> s; lager::state<int, lager::automatic_tag> t{3}; s.set(M{}); (void) *t; lager::cursor<int> c = s[&M::a]; auto u = lager::make_state(3); lager::commit(s, u); t.watch(V{}); }',
    'lager/sensor.hpp': 'void f() { auto s = lager::make_sensor([] { return 1; }); lager::commit(s); lager::reader<int> r = s; (void) s.get(); }',
    'lager/constant.hpp': 'void f() { auto s = lager::make_constant(1); lager::reader<int> r = s; (void) s.get(); }',
    'lager/setter.hpp': 'void f(lager::reader<int> r) { auto c = lager::with_setter(r, V{}); c.set(2); (void) *c; auto d = lager::with_setter(r, V{}, lager::automatic_tag{}); d.set(3); }',
    'lager/commit.hpp': 'template <class R> void f(R& r) { lager::commit(r); }',
    'lager/with.hpp': 'template <class R> auto f(R& r) { return lager::with(r, r).map(F{}); }',
    'lager/watch.hpp': 'template <class R> void f(R& r) { lager::watch(r, V{}); }',
    'lager/store.hpp': 'struct A {}; int g(int m, A) { return m; } struct L { template <class X> void post(X&&) {} template <class X> void async(X&&) {} void finish() {} void pause() {} void resume() {} }; void f() { auto s = lager::make_store<A>(1, L{}, lager::with_reducer(g)); s.dispatch(A{}); lager::reader<int> r = s; auto t = lager::make_store<A, lager::transactional_tag>(1, L{}, lager::with_reducer(g), lager::with_deps(3.f), lager::with_futures); t.dispatch(A{}); lager::commit(t); }',
    'lager/context.hpp': 'struct A {}; void f(lager::context<A> c) { c.dispatch(A{}); c.loop().post([] {}); c.loop().async([] {}); c.loop().finish(); lager::context<> d = c; }',
    'lager/effect.hpp': 'struct A {}; lager::effect<A> f(lager::effect<A> a, lager::effect<A> b) { (void) lager::is_empty_effect(a); lager::result<int, A> r{1, a}; lager::effect<A> n = lager::noop; return lager::sequence(a, b); }',
    'lager/future.hpp': 'lager::future f() { auto p = lager::promise::with_post([](auto fn) { fn(); }); p.first(); (void) lager::promise::invalid(); lager::future g = std::move(p.second); auto h = std::move(g).then(V{}); lager::future x = std::move(h).also(lager::future{}); return x; }',
    'lager/deps.hpp': 'float f() { int i = 0; auto d = lager::make_deps(1.f, std::ref(i)); lager::deps<float> e = d; if (lager::has<float>(e)) return lager::get<float>(d.merge(e)); return e.get<float>(); }',
    'lager/util.hpp': 'struct X { int a; }; int f(int i) { return LAGER_FWD(i) + lager::identity(i); } auto g() { return lager::visitor{[](int) { return 0; }, [](float) { return 1; }}; }',
    'lager/lens.hpp': 'struct L { template <class W> int operator()(W&&) const; };',
    'lager/lenses.hpp': 'auto l() { return lager::lenses::getset([](M m) { return m.a; }, [](M m, int x) { m.a = x; return m; }); } int f(M m) { return lager::view(l(), m) + lager::view(l(), lager::set(l(), m, 3)) + lager::over(l(), m, F{}).a; }',
    'lager/lenses/attr.hpp': '#include <lager/lenses.hpp>\nint f(M m) { auto l = lager::lenses::attr(&M::a); return lager::view(l, lager::set(l, m, 3)); }',
    'lager/lenses/at.hpp': '#include <lager/lenses.hpp>\n#include <vector>\n#include <map>\nvoid f(std::vector<int> v, std::map<int, int> m) { (void) lager::view(lager::lenses::at(1), v); (void) lager::set(lager::lenses::at(1), m, 2); }',
    'lager/lenses/at_or.hpp': '#include <lager/lenses.hpp>\n#include <vector>\n#include <map>\nvoid f(std::vector<int> v, std::map<int, int> m) { (void) lager::view(lager::lenses::at_or(1), v); (void) lager::set(lager::lenses::at_or(1, 7), m, 2); }',
    'lager/lenses/optional.hpp': '#include <lager/lenses.hpp>\nauto l() { return lager::lenses::getset([](M m) { return m.a; }, [](M m, int x) { m.a = x; return m; }); } void f(std::optional<M> m) { (void) lager::view(lager::lenses::with_opt(l()), m); (void) lager::view(lager::lenses::map_opt(l()), m); (void) lager::view(lager::lenses::value_or(3), std::optional<int>{}); (void) lager::set(lager::lenses::with_opt(l()), m, 3); }',
    'lager/lenses/tuple.hpp': '#include <lager/lenses.hpp>\nvoid f(std::pair<int, float> p, std::tuple<int, M> t) { (void) lager::view(lager::lenses::first, p); (void) lager::set(lager::lenses::second, p, 2.f); (void) lager::view(lager::lenses::element<1>, t); (void) lager::view(lager::lenses::zip(lager::lenses::first, lager::lenses::second), std::make_tuple(p, p)); (void) lager::view(lager::lenses::fan(lager::lenses::first, lager::lenses::second), p); (void) lager::view(lager::lenses::attr(&M::a, &M::b), M{}); }',
    'lager/lenses/unbox.hpp': '#include <lager/lenses.hpp>\n#include <immer/box.hpp>\nvoid f(immer::box<int> b) { (void) lager::view(lager::lenses::unbox, b); (void) lager::set(lager::lenses::unbox, b, 3); }',
    'lager/lenses/variant.hpp': '#include <lager/lenses.hpp>\nvoid f(std::variant<int, float> v) { (void) lager::view(lager::lenses::alternative<int>, v); (void) lager::set(lager::lenses::alternative<int>, v, 3); }',
    'lager/event_loop/manual.hpp': 'void f() { lager::with_manual_event_loop l; l.post(V{}); l.async(V{}); l.finish(); l.pause(); l.resume(); }',
    'lager/event_loop/queue.hpp': 'void f() { lager::queue_event_loop q; lager::with_queue_event_loop l{q}; l.post(V{}); l.async(V{}); q.step(); }',
    'lager/event_loop/safe_queue.hpp': 'void f() { lager::safe_queue_event_loop q; lager::with_safe_queue_event_loop l{q}; l.post(V{}); q.adopt(); q.step(); }',
    'lager/event_loop/boost_asio.hpp': 'void f(boost::asio::io_context& io) { lager::with_boost_asio_event_loop<boost::asio::io_context::executor_type> l{io.get_executor()}; l.post(V{}); l.finish(); }',
    'lager/event_loop/sdl.hpp': 'void f() { lager::sdl_event_loop q; lager::with_sdl_event_loop l{q}; l.post(V{}); l.finish(); q.run([](const SDL_Event&) { return true; }); q.run([](const SDL_Event&) { return true; }, [](float) { return true; }); }',
    'lager/event_loop/qt.hpp': 'void f(QObject& o) { lager::with_qt_event_loop l{o}; l.post(V{}); l.async(V{}); l.finish(); }',
    'lager/event_loop/qml.hpp': 'void f(lager::event_loop_quick_item& o) { lager::with_qml_event_loop l{o}; l.post(V{}); }',
    'lager/extra/thunk.hpp': 'auto f() { return lager::with_thunk(); }',
    'lager/extra/enum.hpp': '#include <string>\nnamespace ns { enum class E { one, two }; } LAGER_ENUM(ns, E, one, two) const char* f(ns::E e) { return lager::to_string(lager::to_enum<ns::E>(lager::to_string(e))); }',
    'lager/extra/struct.hpp': 'namespace ns { struct X { int a; float b; }; template <class T> struct Y { T t; }; struct Z { int q; LAGER_STRUCT_NESTED(Z, q); }; } LAGER_STRUCT(ns, X, a, b); LAGER_STRUCT_TEMPLATE(ns, (typename T), (Y<T>), t); bool f(ns::X a, ns::Y<int> b, ns::Z c) { return a == a && b == b && c == c && a != a; }',
    'lager/extra/derive/eq.hpp': '#include <lager/extra/derive.hpp>\nnamespace ns { struct X { int a; float b; }; template <class T> struct Y { T t; }; struct Z { int q; LAGER_DERIVE_NESTED((EQ), Z, q); }; } LAGER_DERIVE((EQ), ns, X, a, b); LAGER_DERIVE_TEMPLATE((EQ), ns, (typename T), (Y<T>), t); bool f(ns::X a, ns::Y<int> b, ns::Z c) { return a == a && b == b && c == c && a != a; }',
    'lager/extra/derive/hash.hpp': '#include <lager/extra/derive.hpp>\nnamespace ns { struct X { int a; float b; }; template <class T> struct Y { T t; }; } LAGER_DERIVE((HASH), ns, X, a, b); LAGER_DERIVE_TEMPLATE((HASH), ns, (typename T), (Y<T>), t); auto f(ns::X a, ns::Y<int> b) { return std::hash<ns::X>{}(a) + std::hash<ns::Y<int>>{}(b); }',
    'lager/extra/derive/hana.hpp': '#include <lager/extra/derive.hpp>\nnamespace ns { struct X { int a; float b; }; template <class T> struct Y { T t; }; struct Z { int q; LAGER_DERIVE_NESTED((HANA), Z, q); }; } LAGER_DERIVE((HANA), ns, X, a, b); LAGER_DERIVE_TEMPLATE((HANA), ns, (typename T), (Y<T>), t); void f() { (void) boost::hana::accessors<ns::X>(); (void) boost::hana::accessors<ns::Y<int>>(); (void) boost::hana::accessors<ns::Z>(); }',
    'lager/extra/derive/cereal.hpp': '#include <lager/extra/derive.hpp>\nnamespace ns { struct X { int a; float b; }; template <class T> struct Y { T t; }; struct Z { int q; LAGER_DERIVE_NESTED((CEREAL), Z, q); }; struct E {}; } LAGER_DERIVE((CEREAL), ns, X, a, b); LAGER_DERIVE_TEMPLATE((CEREAL), ns, (typename T), (Y<T>), t); struct Ar { template <class... A> void operator()(A&&...); }; void f(Ar& ar, ns::X x, ns::Y<int> y, ns::Z z) { serialize(ar, x); serialize(ar, y); serialize(ar, z); }',
    'lager/extra/qt.hpp': '#include <QObject>\nstruct Q : QObject { LAGER_QT_CONST(float, c) LAGER_QT_READER(int, a); LAGER_QT_CURSOR(int, b); }; int f(Q& q) { q.setb(q.a()); return q.b() + q.c(); }',
}
CORE = re.compile(r'lager/(?:[a-z_]+|lenses/[a-z_]+|event_loop/(?:manual|queue|safe_queue))\.hpp$')
FRONTS = [('clang++', 'c++17'), ('g++', 'c++20'), ('clang++', 'c++20'), ('g++', 'c++17')]


def headers():
    out = []
    for d, _, fs in os.walk(os.path.join(kit.REPO, 'lager')):
        for f in fs:
            h = os.path.relpath(os.path.join(d, f), kit.REPO)
            if h.endswith('.hpp') and not h.startswith('lager/detail/'):
                out.append(h)
    return sorted(out)


def cc(code, compiler, std, *flags):
    ok, diag = typed.compile_(code, tuple(FLAGS) + flags, std, compiler)
    return ok, (typed.errors(diag) or [diag[:300]])[0], diag


def third_party(diag):
    """the only thing missing is a header that is not the library's"""
    m = re.search(r"fatal error: '?([^':]+?)'?(?: file not found|: No such file)", diag)
    return m.group(1) if m and not m.group(1).startswith('lager/') else None


def ir(code, std='c++17', *flags):
    r = subprocess.run(['clang++', '-x', 'c++', '-std=' + std, '-I' + kit.REPO, *FLAGS, '-w', '-g', '-O0', '-S', '-emit-llvm', '-o', '-', '-'] + list(flags),
                       input=code, capture_output=True, text=True)
    return r.stdout if r.returncode == 0 else None


WEAK = re.compile(r'\b(linkonce|linkonce_odr|weak|weak_odr|private|internal|available_externally|appending|common|extern_weak|external)\b')


def strong(mod):
    """(defined strongly, declared by the library and never defined): names with their place in a library header"""
    md = dict(re.findall(r'^(!\d+) = (?:distinct )?(!.*)$', mod, re.M))

    def fld(n, k):
        m = re.search(r'\b%s: (!\d+|"[^"]*"|\d+)' % k, md.get(n, ''))
        return m.group(1).strip('"') if m else ''

    def file_(n):
        f = fld(n, 'file')
        p = fld(f, 'filename')
        return p if p.startswith('/') else os.path.join(fld(f, 'directory'), p)
    out = []
    for m in re.finditer(r'^define ([^@]*)@("[^"]+"|[\w.$]+)\([^\n]*$', mod, re.M):
        line = m.group(0)
        if WEAK.search(m.group(1)):
            continue
        d = re.search(r'!dbg (!\d+) \{', line)
        if d:
            f = file_(d.group(1))
            if f.startswith(kit.REPO) or (f.endswith('<stdin>') and not re.match(r'_Z1[fgl]', m.group(2))):
                out.append(('function', m.group(2), '%s:%s' % (f, fld(d.group(1), 'line'))))
    for m in re.finditer(r'^@("[^"]+"|[\w.$]+) = ([^\n]*)$', mod, re.M):
        head = m.group(2).split('{')[0]
        if WEAK.search(head.split(' global ')[0].split(' constant ')[0]) or not re.search(r'\b(global|constant)\b', head):
            continue
        d = re.search(r'!dbg (!\d+)', m.group(2))
        if d:
            var = fld(d.group(1), 'var') or d.group(1)
            f = file_(var)
            if f.startswith(kit.REPO) or f.endswith('<stdin>'):
                out.append(('variable', m.group(1), '%s:%s' % (f, fld(var, 'line'))))
    undef = [m for m in re.findall(r'^declare [^@]*@([\w.$]+)\(', mod, re.M) if re.match(r'_Z(?:N[VKRO]*)?5lager', m)]
    return out, undef


def strong_gcc(code, std='c++17'):
    """names of the library that the other compiler gives strong linkage (variables of closure type are internal for clang)"""
    r = subprocess.run(['g++', '-x', 'c++', '-std=' + std, '-I' + kit.REPO, *[f for f in FLAGS], '-w', '-O0', '-S', '-o', '-', '-'],
                       input=code, capture_output=True, text=True)
    if r.returncode:
        return None
    out = set(re.findall(r'^\t\.globl\t(\S+)$', r.stdout, re.M)) - set(re.findall(r'^\t\.weak\t(\S+)$', r.stdout, re.M))
    return sorted(x for x in out if re.match(r'_Z(?:T[VTISC])?(?:N[VKRO]*)?(?:5lager|2ns)', x))


def demangle(n):
    r = subprocess.run(['c++filt', n], capture_output=True, text=True)
    return r.stdout.strip() or n


def run(ctx):
    hs = headers()
    if len(hs) < 20:
        raise kit.Broken('only %d headers found' % len(hs))
    jobs = []
    for h in hs:
        inc = '#include <%s>\n' % h
        for c, s in FRONTS:
            jobs.append((h, 'alone', c, s, inc, ()))
        jobs.append((h, 'twice', 'clang++', 'c++17', inc + inc, ()))
        if h in USE:
            code = inc + S + USE[h]
            jobs.append((h, 'use', 'clang++', 'c++17', code, ()))
            jobs.append((h, 'use', 'g++', 'c++17', code, ()))
        if CORE.match(h):
            jobs.append((h, 'noexc', 'clang++', 'c++17', inc + S + USE.get(h, ''), ('-fno-exceptions',)))
            jobs.append((h, 'noexc', 'g++', 'c++17', inc + S + USE.get(h, ''), ('-fno-exceptions',)))
    every = [h for h in hs]
    jobs.append(('all headers in order', 'order', 'clang++', 'c++17', ''.join('#include <%s>\n' % h for h in every), ()))
    jobs.append(('all headers in reverse order', 'order', 'clang++', 'c++17', ''.join('#include <%s>\n' % h for h in reversed(every)), ()))
    odr = [(h, '#include <%s>\n' % h + '') for h in hs] + \
          [(h + ' and a use of it', '#include <%s>\n%s%s' % (h, S, USE[h])) for h in hs if h in USE]
    with cf.ThreadPoolExecutor(typed.JOBS) as ex:
        res = list(ex.map(lambda j: (j, cc(j[4], j[2], j[3], *j[5])), jobs))
        mods = list(ex.map(lambda o: (o, ir(o[1])), odr))
        asm = list(ex.map(lambda o: (o, strong_gcc(o[1])), odr))
    missing = set()
    name = {'alone': ('stands-alone', 'as the only include'), 'twice': ('stands-alone', 'included twice'), 'use': ('usable-alone', 'used with no other include'),
            'noexc': ('no-exceptions', 'with exceptions disabled'), 'order': ('any-order', '')}
    for (h, kind, c, s, code, fl), (ok, err, diag) in res:
        tp = None if ok else third_party(diag)
        if tp:
            missing.add((h, tp))
            continue
        if kind == 'noexc' and not ok and not re.search(r'^(?:<stdin>|%s)[^\n]*error:' % re.escape(kit.REPO), diag, re.M):
            ctx.notes.append('%s cannot be judged with exceptions disabled (%s): a header it includes does not allow it' % (h, c))
            continue
        rule, what = name[kind]
        ctx.ob(rule, ('%s %s (%s, %s)' % (h, what, c, s)).replace('  ', ' '), ok, 'does not compile: %s' % err[:240],
               typed.repo_where(diag) or '%s/%s' % (kit.REPO, h) if kind != 'order' else kit.REPO)
    for (n, code), mod in mods:
        if mod is None:
            continue          # reported above
        st, undef = strong(mod)
        ctx.ob('no-strong-definitions', n, not st, '; '.join('%s %s is defined with strong linkage in a header' % (k, demangle(x.strip('"'))) for k, x, w in st[:3]),
               st[0][2] if st else '%s/%s' % (kit.REPO, n.split()[0]))
        if ' and a use' in n:
            ctx.ob('usable-alone', n + ' leaves nothing undefined', not undef, 'declared but not defined: %s' % ', '.join(demangle(u) for u in undef[:3]), '%s/%s' % (kit.REPO, n.split()[0]))
    for (n, code), st in asm:
        if st is not None:
            ctx.ob('no-strong-definitions', n + ' (g++)', not st, '%s is defined with strong linkage in a header' % ', '.join(demangle(x) for x in st[:3]),
                   '%s/%s' % (kit.REPO, n.split()[0]))
    for h, tp in sorted(missing):
        ctx.notes.append('%s needs %s, which is not installed here' % (h, tp))
    ctx.functions_n = len(hs)
