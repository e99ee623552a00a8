"""The debug server: which requests reach which handler, what a handler touches and answers, and who keeps what alive.

Handlers are the closures found in the route table the server is started with; each is entered from the state after
initialisation with an arbitrary request.  Route patterns are compared as languages, for every target there is.
"""
from engine import kit, lang
from engine.interp import *
from engine.pairs import witness_fns, run_fn
from checks.contexts import root

IMPL = 'lager::detail::http_debug_server_impl'
HTTP = 'lager::detail::http::'
FILES = ('std::basic_ifstream', 'std::basic_fstream', 'std::basic_filebuf', 'std::basic_ofstream', 'boost::beast::file',
         'boost::beast::file_posix', 'boost::beast::file_stdio')
OPENS = ('fopen', 'open', 'openat', 'freopen', 'std::fopen')


class Server:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = kit.export('server.cpp', follow=['ctor:pair'])
        self.it = it = Interp(self.P)
        it.log_temps = True
        it.dtor_events = lambda r: r['bname'] == 'cereal::JSONOutputArchive'
        it.opaque = lambda f: 'mime' in f['short'].lower()
        it.keeps_args = lambda f: f['name'].startswith(('boost::', 'std::', 'cereal::')) and f['short'] in KEEP
        self.fns = witness_fns(self.P, '')
        for n in ('create', 'made', 'start', 'handle', 'converse', 'listen', 'serve'):
            if n not in self.fns:
                raise kit.Broken('witness function %s not found' % n)
        self.impl = self.rec(IMPL)
        self.fields = {self.P.fieldname[x['id']]: x for x in self.P.all_fields(self.impl['i'])}
        self.ids = {x['id']: n for n, x in self.fields.items()}
        # which member is which: by what the constructor puts into it
        self.port = self.path = self.program = None
        for st, v in run_fn(it, self.fns['create'])[:1]:
            impl = next((e.this for e in st.events() if e.kind == 'new' and e.name.startswith(IMPL)), None)
            val = it.load(st, impl) if impl is not None else None
            for k in self.ids if val is not None else ():
                x = text(it.field(val, k))
                if x is S('arg2'):
                    self.port = k
                elif x is S('arg3'):
                    self.path = k
            strs = [x for x in self.typed('std::basic_string') if x != self.path]
            self.program = strs[0] if len(strs) == 1 else self.fields['program_']['id'] if 'program_' in self.fields else None
        if self.port is None:
            self.port = self.fields.get('port_', {}).get('id')
        if self.path is None:
            self.path = self.fields.get('resources_path_', {}).get('id')
        if self.port is None or self.path is None:
            raise kit.Broken('where the port and the path of the resources are kept was not found')

    def rec(self, bname):
        rs = [r for r in self.P.records if r['bname'] == bname and r.get('def') and not r.get('lambda')]
        if not rs:
            raise kit.Broken('%s not found' % bname)
        return rs[0]

    def typed(self, bname, rec=None):
        """the members of a class that have this type, in order"""
        out = []
        for x in self.P.all_fields((rec or self.impl)['i']):
            r = self.P.rec_of_type(x['t']) if self.P.isrec(x['t']) else None
            if r and r['bname'] == bname:
                out.append(x['id'])
        return out

    def one(self, bname, what, rec=None):
        xs = self.typed(bname, rec)
        if len(xs) != 1:
            raise kit.Broken('%s: %d members of type %s' % (what, len(xs), bname))
        return xs[0]


KEEP = ('is_open', 'good', 'eof', 'empty', 'size', 'method', 'target', 'begin', 'end', 'str')


# ---- terms
def walk(v, seen=None):
    seen = set() if seen is None else seen
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, V) and x not in seen:
            seen.add(x)
            yield x
            todo.extend(x.a)


def named(v, *names):
    return v.k == 'a' and any(str(v.a[0]) == n or str(v.a[0]).endswith('::' + n) for n in names)


def made(v, bname):
    """arguments of the constructor call that produced v"""
    if v.k == 'a' and v.a[0] == 'new' and v.a[1] and v.a[1][0].k == 's' and str(v.a[1][0].a[0]).startswith(bname):
        return v.a[1][1:]
    return None


def text(v):
    """strip the copies and views that keep the characters of a string"""
    while True:
        v = root(v) if v.k == 'r' else v
        for n in ('std::basic_string<', 'std::basic_string_view<', 'boost::core::basic_string_view<', 'std::filesystem::path'):
            a = made(v, n)
            a = [x for x in a if made(x, 'std::allocator<') is None] if a is not None else []
            if len(a) == 1:
                v = a[0]
                break
        else:
            if v.k == 'd' and isinstance(v.a[0], V) and v.a[0].k == 'a':
                v = v.a[0]
                continue
            if v.k == 'a' and len(v.a[1]) == 1 and str(v.a[0]).rsplit('::', 1)[-1] in ('to_string', 'c_str', 'data', 'move', 'string') or \
                    (v.k == 'a' and '::operator ' in str(v.a[0]) and len(v.a[1]) == 1):
                v = v.a[1][0]
                continue
            return v


def parts(v):
    """the pieces a string was concatenated from"""
    v = text(v)
    if v.k == 'a' and str(v.a[0]).endswith('operator+') and len(v.a[1]) == 2:
        return parts(v.a[1][0]) + parts(v.a[1][1])
    if v.k == 'a' and v.a[0] == 'after' and len(v.a[1]) >= 3:
        n = str(v.a[1][0].a[0])
        if n.endswith(('basic_string::operator+=', 'basic_string::append', 'basic_string::push_back')) and len(v.a[1]) == 3:
            return parts(v.a[1][1]) + parts(v.a[1][2])
        if n.rsplit('::', 1)[-1] in ('is_open', 'c_str', 'data', 'find', 'size', 'empty', 'rfind', 'basic_ifstream'):
            return parts(v.a[1][1])
    return [v]


def is_target(v, req):
    v = text(v)
    return named(v, 'target') and len(v.a[1]) == 1 and req(v.a[1][0])


def tainted(v):
    return any(named(x, 'header::target', 'target') for x in walk(v))


# ---- set-up
class Init:
    """the server as it is after initialisation, on one path"""

    def __init__(self, g, st):
        it, P_ = g.it, g.P
        self.st = st
        self.n = len(st.events())
        self.this = ('o', 'arg0')
        sv = g.one('std::optional', IMPL)
        ws = [(i, e) for i, e in enumerate(st.events()) if e.kind == 'W' and e.this.k == 'p' and e.this.a[1] and e.this.a[1][-1] == sv and e.this.a[0] == self.this]
        self.started = [i for i, e in ws]
        v = it.read(st, (self.this, (sv,)))
        self.value = v
        res = g.rec(HTTP + 'router::resource_t') if any(r['bname'] == HTTP + 'router::resource_t' for r in P_.records) else None
        pushes = [x for x in walk(v) if x.k == 'a' and x.a[0] == 'push']
        if not pushes:
            raise kit.Broken('the route table was not found')
        pushes.sort(key=lambda x: -len([y for y in walk(x) if y.k == 'a' and y.a[0] == 'push']))
        top, items = pushes[0], []
        while top.k == 'a' and top.a[0] == 'push':
            items.append(top.a[1][1])
            top = top.a[1][0]
        if top.k == 'a' and top.a[0] != 'vec' or top.k != 'a':
            raise kit.Broken('the route table does not start empty')
        items.reverse()
        rec = P_.records[items[0].a[0]] if items[0].k == 'r' and isinstance(items[0].a[0], int) else res
        if rec is None:
            raise kit.Broken('routes are not records')
        self.routes = []
        hs = [x['id'] for x in P_.all_fields(rec['i']) if P_.isrec(x['t']) and P_.rec_of_type(x['t'])['bname'] == 'std::function']
        ts = [x['id'] for x in P_.all_fields(rec['i']) if P_.isrec(x['t']) and P_.rec_of_type(x['t'])['bname'] == 'std::basic_regex']
        ms = [x['id'] for x in P_.all_fields(rec['i']) if 'verb' in P_.tname(x['t'])]
        if len(hs) != 1 or len(ts) != 1 or len(ms) != 1:
            raise kit.Broken('a route is not a method, a pattern and a handler')
        self.key = (ms[0], ts[0], hs[0])
        for x in items:
            m, t, h = (it.field(x, k) for k in self.key)
            a = made(t, 'std::basic_regex')
            if a is None or not isc(text(a[0])) or not isinstance(text(a[0]).a[0], str):
                raise kit.Broken('a route has no constant pattern: ' + show(t))
            flags = a[1:]
            if any(isc(f) and f.a[0] not in (16, 16 | 2, 16 | 4, 16 | 6) for f in flags):       # ECMAScript | optimize | nosubs
                raise kit.Broken('a pattern has another grammar: ' + show(t))
            self.routes.append((m, text(a[0]).a[0], h))

    def same(self, o):
        return self.routes == o.routes


def starts(ctx, g):
    rs = run_fn(g.it, g.fns['start'])
    ctx.paths += len(rs)
    out = [Init(g, st) for st, v in rs if st.exc is None]
    if not out:
        raise kit.Broken('the server never starts')
    for o in out[1:]:
        if not o.same(out[0]):
            raise kit.Broken('the route table depends on the state of the application')
    return out


def enter(ctx, g, ini, h, n):
    """runs of one handler for an arbitrary request, as (new events, state, value)"""
    it = g.it
    h = root(h) if h.k != 'r' else h
    w = h
    while w.k == 'r' and 'B' in dict(w.a[2]):
        w = dict(w.a[2])['B']
    st = ini.st.copy()
    st.mem[('o', 'req')] = S('req')
    out = []
    n0 = len(st.events())
    for s, v in it.call_closure(w, [P(('o', 'req'))], st, sid=('handler', n)):
        out.append((s.events()[n0:], s, v))
    ctx.paths += len(out)
    if not out:
        raise kit.Broken('a handler could not be entered')
    return out


REQ = lambda v: any(x is S('req') for x in walk(v))


def opened(e):
    """the path a file is opened with at this event"""
    if e.kind == 'ctor' and any(e.name.startswith(x) for x in FILES):
        a = next((made(e.res, x) for x in FILES if e.res is not None and made(e.res, x) is not None), None)
        return a[0] if a else None
    if e.kind == 'call' and (e.name in OPENS or e.name.rsplit('::', 1)[0] in FILES and e.name.endswith('::open')):
        return e.vals[1 if e.this is not None else 0]
    if e.kind == 'call' and e.name.startswith('std::filesystem::') and e.vals and e.name.rsplit('::', 1)[1] in (
            'exists', 'is_regular_file', 'is_directory', 'file_size', 'directory_iterator', 'copy', 'copy_file', 'remove', 'remove_all', 'rename'):
        return e.vals[0]
    return None


def sent(evs, disp):
    """actions dispatched on this path"""
    return [e for e in evs if e.kind in ('invoke', 'nullcall') and e.vals and disp(e.vals[0])]


def outermost(v):
    while v.k == 'r' and 'B' in dict(v.a[2]):
        v = dict(v.a[2])['B']
    return v


# ---- what a handler is for
GET, POST = 2, 4
DOC = [(GET, '/api/', 'status'), (GET, '/api/step/[0-9]+', 'step'), (POST, '/api/goto/[0-9]+', 'goto_action'), (POST, '/api/undo', 'undo_action'),
       (POST, '/api/redo', 'redo_action'), (POST, '/api/pause', 'pause_action'), (POST, '/api/resume', 'resume_action')]


def disp_of(g, ini):
    """is this the dispatcher of the context the server was started with?"""
    c = S('arg1')
    return lambda v: any(x is c for x in walk(v))


def action_of(e):
    """(type, value) of the dispatched action"""
    v = outermost(e.vals[1]) if len(e.vals) > 1 else None
    if v is not None and v.k == 'a' and v.a[0] == 'alt':
        return str(v.a[1][0].a[0]).rsplit('::', 1)[-1], v.a[1][1]
    return None, v


def kinds(g, ini, runs):
    ks = set()
    disp = disp_of(g, ini)
    for evs, st, v in runs:
        k = set()
        for e in sent(evs, disp):
            k.add(action_of(e)[0] or 'unknown action')
        if any(opened(e) is not None for e in evs):
            k.add('file')
        if any(e.name == 'W::Dbg::model::lookup' for e in evs):
            k.add('step')
        if any(e.name == 'W::Dbg::model::summary' for e in evs):
            k.add('status')
        ks |= k
    return ks


def rule_routes(ctx, g, ini, hs):
    """for every target, the first route that matches it is the one the documentation gives it"""
    methods = {GET, POST} | {m.a[0] for m, _, _ in ini.routes if isc(m)}
    if any(not isc(m) for m, _, _ in ini.routes):
        raise kit.Broken('a route has no constant method')
    states = 0
    for m in sorted(methods):
        mine = [(n, p) for n, (v, p, h) in enumerate(ini.routes) if v.a[0] == m]
        docs = [(p, k) for dm, p, k in DOC if dm == m]
        try:
            ls = [lang.parse(p) for _, p in mine] + [lang.parse(p) for p, _ in docs] + [lang.parse(p.rstrip('/') + '/?') for p, _ in docs] + [lang.parse('/.*')]
            vs = lang.explore(ls)
        except lang.Unsupported as x:
            raise kit.Broken('pattern not understood: %s' % x)
        states += len(vs)
        bad = {}
        for v, w in vs.items():
            yes = [lang.nullable(x) for x in v]
            first = next((i for i in range(len(mine)) if yes[i]), None)
            have = hs[mine[first][0]][0] if first is not None else set()
            d = next((j for j in range(len(docs)) if yes[len(mine) + j]), None)
            near = next((j for j in range(len(docs)) if yes[len(mine) + len(docs) + j]), None)
            if d is not None:
                ok = have == {docs[d][1]}
                want = docs[d][1]
            elif near is not None:
                ok = have <= {docs[near][1], 'file'} and len(have) < 2
                want = docs[near][1]
            elif m == GET and yes[-1]:
                ok, want = have == {'file'}, 'file'
            elif m in (GET, POST):
                ok, want = have <= {'file'}, 'none'
            else:
                ok, want = have <= {'file', 'status', 'step'}, 'none'
            if not ok:
                bad.setdefault((mine[first][0] if first is not None else None, want), (w, have))
        name = {GET: 'GET', POST: 'POST'}.get(m, 'method %s' % m)
        ctx.ob('routes', name, not bad, '; '.join('%r is answered by %s instead of %s' % (w, ' and '.join(sorted(h)) or 'nothing', k) for (_, k), (w, h) in sorted(bad.items(), key=str)),
               g.P.loc(g.fns['start'].get('loc')))
    ctx.note('route languages: %d states of the product automata' % states)


def number_ok(g, v, prefix):
    """is v the number at the end of the request's target?  (None: not understood)"""
    v = outermost(v)
    if not (v.k == 'a' and str(v.a[0]).rsplit('::', 1)[-1] in ('stoul', 'stoull', 'stoi', 'stol', 'stoll', 'strtoul', 'strtoull', 'atoi', 'atol', 'lexical_cast')):
        return None if tainted(v) else False
    a = v.a[1]
    n = str(v.a[0]).rsplit('::', 1)[-1]
    if len(a) > 2 and (not isc(a[2]) or a[2].a[0] not in (10,)):
        return False
    x = text(a[0])
    if x.k == 'a' and str(x.a[0]).endswith('::substr'):
        s, pos = x.a[1][0], x.a[1][1]
        if len(x.a[1]) > 2 and not (isc(x.a[1][2]) and x.a[1][2].a[0] == 2 ** 64 - 1):
            return None
        if not is_target(s, REQ):
            return None
        if isc(pos):
            return pos.a[0] == len(prefix)
        if pos.k == 'a' and pos.a[0] == '+' and any(y is C(1) for y in pos.a[1]):
            q = next(y for y in pos.a[1] if y is not C(1))
            if q.k == 'a' and str(q.a[0]).rsplit('::', 1)[-1] in ('rfind', 'find_last_of') and is_target(q.a[1][0], REQ) and \
                    any(isc(y) and y.a[0] in (47, '/') for y in q.a[1][1:]):
                return True
            if q.k == 'a' and str(q.a[0]).rsplit('::', 1)[-1] in ('find', 'find_first_of'):
                return False
            return None
        if pos.k == 'a' and str(pos.a[0]).rsplit('::', 1)[-1] in ('rfind', 'find', 'find_last_of', 'find_first_of'):
            return False
        return None
    if is_target(x, REQ):
        return False
    return None


def status_of(evs):
    for e in reversed(evs):
        if e.kind == 'call' and e.name.endswith('header::result') and len(e.vals) == 2:
            return e.vals[1]
    return None


def nvps(evs):
    """what is written to the archive: name -> value"""
    out = {}
    for e in evs:
        if e.kind == 'call' and e.name.startswith('cereal::') and e.name.endswith('::operator()'):
            for x in e.vals[1:]:
                if named(x, 'make_nvp') and isc(text(x.a[1][0])):
                    out.setdefault(text(x.a[1][0]).a[0], []).append(x.a[1][1])
    return out


def is_load(x):
    return x.k == 'a' and str(x.a[0]).endswith('atom::load')


def snapshot(v):
    return any(is_load(x) for x in walk(v))


def plain(v):
    while v.k == 'd' and isinstance(v.a[0], V):
        v = v.a[0]
    return v


def rule_handlers(ctx, g, ini, hs):
    it = g.it
    disp = disp_of(g, ini)
    atom = set(g.typed('immer::atom')) | set(g.typed('std::atomic'))
    live = set()
    for b in ('lager::reader', 'lager::cursor', 'lager::state', 'lager::sensor', 'lager::store'):
        live |= set(g.typed(b))
    sv = g.one('std::optional', IMPL)
    for n, (m, pat, h) in enumerate(ini.routes):
        ks, runs = hs[n]
        what = '%s %s' % ({GET: 'GET', POST: 'POST'}.get(m.a[0], m.a[0]), pat)
        acts = [k for k in ks if k.endswith('action')]
        prefix = pat.split('[', 1)[0].split('\\', 1)[0]
        for evs, st, v in runs:
            at = next((e.where for e in reversed(evs) if e.where.startswith(kit.REPO)), '')
            tr = kit.trace_lines(it, st)
            ss = sent(evs, disp)
            if acts:
                ctx.ob('dispatches-once', what, len(ss) == 1 and action_of(ss[0])[0] == acts[0], 'dispatches %s' % ([action_of(e)[0] for e in ss] or 'nothing'), at, tr)
            else:
                ctx.ob('queries-do-not-dispatch', what, not ss, 'a query dispatches', at, tr)
            for e in ss:
                if action_of(e)[0] == 'goto_action':
                    a = outermost(action_of(e)[1])
                    fs = [x for _, x in a.a[2]] if a.k == 'r' else []
                    r = number_ok(g, fs[0], prefix) if len(fs) == 1 else None
                    if r is None:
                        ctx.note('%s: the position was not understood: %s' % (what, show(a)[:200]))
                    ctx.ob('goes-to-the-number', what, r is not False, 'goes to %s' % show(a, 9)[:200], e.where, tr)
            # threads
            for e in evs:
                if e.kind == 'M' and e.this.k == 'p' and e.this.a[0] == ini.this and e.this.a[1][0] in live:
                    ctx.ob('no-live-state', what, False, 'the thread of the server reads the live handle %s' % e.name, e.where, tr)
                if e.kind == 'M' and e.this.k == 'p' and e.this.a[0] == ini.this and e.this.a[1][0] == sv:
                    ctx.ob('no-live-state', what, False, 'the thread of the server uses the server member', e.where, tr)
            ctx.ob('no-live-state', what, True)
            called = [e for e in evs if e.kind in ('call', 'vcall') and e.name.startswith('W::') and e.name not in ('W::Dbg::model::summary', 'W::Dbg::model::lookup')
                      and not e.name.startswith(('W::Dbg::model::model', 'W::Dbg::model::operator'))]
            ctx.ob('runs-no-application-code', what, not called, 'calls %s' % [e.name for e in called], at, tr)
            loads = [e for e in evs if e.kind in ('call', 'vcall') and is_load(e.res if e.res is not None else VOID)]
            used = [e for e in evs if e.name in ('W::Dbg::model::summary', 'W::Dbg::model::lookup')]
            if 'status' in ks or 'step' in ks:
                ctx.ob('one-snapshot', what, len(loads) == 1 and all(snapshot(e.vals[0]) for e in used), 'answers from %d snapshots' % len(loads), at, tr)
                for e in used:
                    b = e.this.a[0] if e.this is not None and e.this.k == 'p' else None
                    ctx.ob('snapshot-alive', what, not (b is not None and b[0] == 't' and ended(evs, e, b)), 'the snapshot ended before it was used', e.where, tr)
            else:
                ctx.ob('one-snapshot', what, len(loads) <= 1, 'answers from %d snapshots' % len(loads), at, tr)
            if st.exc is not None:
                continue
            # what is answered
            code = status_of(evs)
            if 'file' not in ks:
                ctx.ob('answers', what, code is C(200), 'answers with status %s' % (show(code) if code is not None else None), at, tr)
            finished(ctx, what, evs, st, v, at, tr)
            if 'status' in ks:
                got = nvps(evs)
                for k, f in (('program', None), ('summary', 'W::Dbg::model::summary'), ('cursor', 'cursor'), ('paused', 'paused')):
                    xs = got.get(k, [])
                    ok = len(xs) == 1
                    if ok and k == 'program':
                        ok = any(x is program_value(g, ini) for x in walk(xs[0]))
                    elif ok and k == 'summary':
                        ok = plain(xs[0]).k == 'a' and plain(xs[0]).a[0] == f and snapshot(xs[0])
                    elif ok:
                        x = plain(xs[0])
                        ok = x.k == 'f' and g.P.fieldname.get(x.a[1]) == f and snapshot(x)
                    ctx.ob('status-complete', '%s: %s' % (what, k), ok, '%s is answered with %s' % (k, [show(x, 4) for x in xs]), at, tr)
                body(ctx, g, what, evs, at, tr)
            if 'step' in ks:
                got = nvps(evs)
                lk = [e for e in evs if e.name == 'W::Dbg::model::lookup']
                ok = len(lk) == 1
                r = number_ok(g, lk[0].vals[1], prefix) if ok else False
                ctx.ob('looks-up-the-number', what, r is not False, 'looks up %s' % [show(e.vals[1], 8)[:200] for e in lk], at, tr)
                if not ok:
                    continue
                res = lk[0].res
                some = it.field(res, 'e0')
                act, mod = got.get('action', []), got.get('model', [])
                has = st.facts.get(some)
                if has is None:
                    has = st.facts.get(A('has', some))
                ctx.ob('step-complete', what + ': action', (len(act) == 1 and has is True and any(x is some for x in walk(act[0]))) or (not act and has is False),
                       'the action is %swritten' % ('' if act else 'not '), at, tr)
                ctx.ob('step-complete', what + ': model', len(mod) == 1 and any(x is it.field(res, 'e1') for x in walk(mod[0])), 'the model is answered with %s' % [show(x, 4) for x in mod], at, tr)
                body(ctx, g, what, evs, at, tr)
            if 'file' in ks:
                op = [(e, opened(e)) for e in evs if opened(e) is not None]
                fs = [(x, b) for x, b in st.facts.items() if x.k == 'a' and str(x.a[0]).endswith(('::is_open', '::good', '::fail', '::operator bool', '::operator!'))]
                open_ = None
                for x, b in fs:
                    open_ = b if not str(x.a[0]).endswith(('::fail', '::operator!')) else not b
                if not op or open_ is False:
                    ctx.ob('answers', what + ': no file', code is not None and isc(code) and code.a[0] == 404, 'answers with status %s' % (show(code) if code is not None else None), at, tr)
                elif open_:
                    ctx.ob('answers', what + ': file', code is C(200), 'answers with status %s' % (show(code) if code is not None else None), at, tr)
                else:
                    ctx.ob('answers', what + ': file', False, 'answers without looking whether there is a file', at, tr)


def ended(evs, e, b):
    """a temporary of an earlier statement"""
    for x in evs:
        if x is e:
            return False
        if x.kind == 'tempend' and x.this.a[0] == b:
            return True
    return False


def program_value(g, ini):
    return g.it.field(S('arg0'), g.program) if g.program is not None else None


def finished(ctx, what, evs, st, v, at, tr):
    """the payload is prepared after the answer got its body"""
    last = max([i for i, e in enumerate(evs) if (e.kind == 'call' and e.name.endswith(('message::body', 'header::result', 'basic_fields::set')))
                or (e.kind == 'W' and e.this.k == 'a' and str(e.this.a[0]).endswith('message::body'))], default=-1)
    prep = max([i for i, e in enumerate(evs) if e.kind == 'call' and e.name.endswith('message::prepare_payload')], default=-1)
    ctx.ob('payload-prepared', what, prep > last >= 0, 'the answer leaves without a prepared payload', at, tr)


def body(ctx, g, what, evs, at, tr):
    """the text of the stream is taken after its archive ended"""
    ends = [i for i, e in enumerate(evs) if e.kind == 'dtor' and 'JSONOutputArchive' in e.name]
    news = [i for i, e in enumerate(evs) if e.kind == 'ctor' and 'JSONOutputArchive' in e.name]
    strs = [i for i, e in enumerate(evs) if e.kind == 'call' and e.name.endswith('stringstream::str')]
    ws = [e for e in evs if e.kind == 'W' and e.this.k == 'a' and str(e.this.a[0]).endswith('message::body')]
    ok = news and ends and strs and ends[-1] < strs[-1] and ends[-1] > news[-1]
    ctx.ob('document-complete', what, bool(ok), 'the document is taken before its archive ended', at, tr)
    if ws:
        ctx.ob('document-complete', what + ': body', any(named(x, 'str') for x in walk(ws[-1].args[0])), 'the body is not the document', at, tr)


# ---- threads and lifetimes of the server
def rule_sides(ctx, g, inis, hs):
    """members used by the thread of the server and by the application"""
    it = g.it
    atom = set(g.typed('immer::atom')) | set(g.typed('std::atomic'))
    sync = atom | set(g.typed('std::mutex'))

    def uses(evs, base):
        out = {}
        for e in evs:
            if e.this is None or e.this.k != 'p' or e.this.a[0] != base or not e.this.a[1] or e.this.a[1][0] not in g.ids:
                continue
            k = e.this.a[1][0]
            w = e.kind in ('W', 'cont') or (e.kind in ('call', 'vcall') and e.name.rsplit('::', 1)[-1] not in KEEP + ('load', 'get', 'lock', 'unlock', 'c_str', 'data', 'find'))
            out.setdefault(k, []).append((w, e.ctx, e))
        return out

    srv = {}
    for n in range(len(inis[0].routes)):
        for evs, st, v in hs[n][1]:
            for k, xs in uses(evs, inis[0].this).items():
                srv.setdefault(k, []).extend(xs)
    app = {}
    pubs = 0
    for st, v in run_fn(it, g.fns['create']):
        impl = [e.this.a[0] for e in st.events() if e.kind == 'new' and e.name.startswith(IMPL)]
        if len(impl) != 1 or st.exc is not None:
            raise kit.Broken('the server is not created once')
        base = impl[0]
        model = g.one('immer::atom', IMPL)
        for e in [e for e in st.events() if e.kind == 'new' and '::slot' in e.name]:
            val = it.load(st, e.this)
            clo = next((x for x in walk(val) if x.k == 'r' and isinstance(x.a[0], int) and g.P.records[x.a[0]].get('lambda')), None)
            if clo is None:
                continue
            n0 = len(st.events())
            s0 = st.copy()
            s0.mem[('o', 'now')] = S('now')
            s0.mem[base] = S('self')     # whatever happened since construction
            for s, _ in it.call_closure(clo, [P(('o', 'now'))], s0, sid=('watch', 1)):
                evs = s.events()[n0:]
                ctx.paths += 1
                tr = kit.trace_lines(it, s)
                pub = [x for x in evs if x.this is not None and x.this.k == 'p' and x.this.a[0] == base and x.this.a[1][:1] == (model,) and
                       x.kind in ('call', 'W') and any(y is S('now') for z in tuple(x.vals) + tuple(x.args) for y in walk(z))]
                ctx.ob('publishes-every-change', 'watcher of the data', len(pub) == 1, 'a change is published %d times' % len(pub), g.P.loc(g.fns['create'].get('loc')) if not evs else evs[0].where, tr)
                pubs += 1
                for k, xs in uses(evs, base).items():
                    app.setdefault(k, []).extend(xs)
    ctx.ob('publishes-every-change', 'construction', pubs > 0, 'nothing watches the data', g.P.loc(g.fns['create'].get('loc')))
    for o in inis:
        if o.started:
            for k, xs in uses(o.st.events()[o.started[-1] + 1:], o.this).items():
                app.setdefault(k, []).extend(xs)
    for k in sorted(set(srv) | set(app)):
        bad = None
        if k in srv and k in app and k not in sync:
            for w, h, e in srv[k]:
                for w2, h2, e2 in app[k]:
                    hn, hn2 = {mname(x) for x in h}, {mname(x) for x in h2}
                    if (w or w2) and not (hn & hn2):
                        bad = bad or (e, e2)
        ctx.ob('threads-apart', g.ids[k], bad is None, 'used by the thread of the server and changed by the application without a common lock (%s)' % (bad[1].where if bad else ''), bad[0].where if bad else '')


def mname(m):
    return m.a[1][-1] if isinstance(m, V) and m.k == 'p' and m.a[1] else m


def rule_init(ctx, g, inis):
    it = g.it
    cur = {v for st, v in run_fn(it, g.fns['current']) if st.exc is None}
    curs = {y for x in cur for y in (x, plain(x))}
    model = g.one('immer::atom', IMPL)
    sv = g.one('std::optional', IMPL)
    loc = g.P.loc(g.fns['start'].get('loc'))
    for o in inis:
        evs = o.st.events()
        tr = kit.trace_lines(it, o.st)
        ctx.ob('starts-once', 'init', len(o.started) == 1, 'the server is started %d times' % len(o.started), loc, tr)
        if not o.started:
            continue
        i0 = o.started[0]
        seeds = [(i, e) for i, e in enumerate(evs) if e.this is not None and e.this.k == 'p' and e.this.a[0] == o.this and e.this.a[1][:1] == (model,) and e.kind in ('call', 'W')
                 and any(y in curs for z in tuple(e.vals) + tuple(e.args) for y in walk(z))]
        ctx.ob('serves-the-initial-state', 'init', bool(seeds) and seeds[0][0] < i0, 'the server starts before the initial state was published', evs[i0].where, tr)
        for e in evs[i0 + 1:]:
            if e.kind in ('W', 'cont') and e.this is not None and e.this.k == 'p' and e.this.a[0] == o.this and e.this.a[1] and e.this.a[1][0] in g.ids and e.this.a[1][0] != sv:
                ctx.ob('set-up-before-start', g.ids[e.this.a[1][0]], False, 'changed after the server was started', e.where, tr)
        ctx.ob('set-up-before-start', 'init', True)
        ctxf = [x for x in g.typed('lager::context')]
        v = it.read(o.st, (o.this, (ctxf[0],))) if ctxf else VOID
        ctx.ob('uses-the-context', 'init', any(x is S('arg1') for x in walk(v)), 'the server does not keep the context it was given', loc, tr)
        port = [x for x in walk(o.value) if x.k == 'f' and x.a[0] is S('arg0') and x.a[1] == g.port]
        ctx.ob('listens-where-told', 'init', bool(port), 'the server does not listen on its port', loc, tr)
    # what handlers use outlives the server: members end in reverse order
    order = [x['id'] for x in g.P.all_fields(g.impl['i'])]
    return order


def rule_order(ctx, g, inis, hs, order):
    sv = g.one('std::optional', IMPL)
    for n in range(len(inis[0].routes)):
        for evs, st, v in hs[n][1]:
            for e in evs:
                if e.this is not None and e.this.k == 'p' and e.this.a[0] == inis[0].this and e.this.a[1] and e.this.a[1][0] in g.ids:
                    k = e.this.a[1][0]
                    ctx.ob('outlives-the-server', g.ids[k], k == sv or order.index(k) < order.index(sv), 'destroyed before the thread of the server ended', g.P.loc(g.fields[g.ids[k]].get('loc')))


def rule_make(ctx, g):
    it = g.it
    progs = []
    for fn in ('create', 'made'):
        prog = set()
        for st, v in run_fn(it, g.fns[fn]):
            ctx.paths += 1
            impl = [e.this for e in st.events() if e.kind == 'new' and e.name.startswith(IMPL)]
            ok = len(impl) == 1
            ctx.ob('made-as-told', fn, ok, 'makes %d servers' % len(impl), g.P.loc(g.fns[fn].get('loc')))
            if not ok:
                continue
            val = it.load(st, impl[0])
            for k, want in ((g.port, S('arg2')), (g.path, S('arg3'))):
                x = it.field(val, k)
                ctx.ob('made-as-told', '%s: %s' % (fn, g.ids[k]), text(x) is want, 'is %s' % show(x, 4), g.P.loc(g.fns[fn].get('loc')), kit.trace_lines(it, st))
            if g.program is not None:
                x = it.field(val, g.program)
                ctx.ob('made-as-told', '%s: %s' % (fn, g.ids[g.program]), any(y is S('arg1') for y in walk(x)) or any(y is S('arg1') for e in st.events() for z in e.vals for y in walk(z)),
                       'the program is not taken from the arguments', g.P.loc(g.fns[fn].get('loc')), kit.trace_lines(it, st))


# ---- requests
def rule_router(ctx, g):
    """the first route with the method and a pattern that matches the whole target answers; failures become errors"""
    it = g.it
    f = g.fns['handle']
    loc = g.P.loc(f.get('loc'))
    rec = g.rec(HTTP + 'router')
    tab = [x['id'] for x in g.P.all_fields(rec['i'])]
    it.may_throw = lambda e: e.kind == 'invoke'
    rs = run_fn(it, f)
    it.may_throw = lambda e: False
    ctx.paths += len(rs)
    threw = caught = 0
    for st, v in rs:
        evs = st.events()
        tr = kit.trace_lines(it, st)
        inv = [e for e in evs if e.kind == 'invoke']
        ctx.ob('one-handler', 'handle_request', len(inv) <= 1, 'calls %d handlers' % len(inv), inv[1].where if len(inv) > 1 else loc, tr)
        th = [e for e in evs if e.kind == 'threw']
        if th:
            threw += 1
            cs = [e for e in evs if e.kind == 'catch']
            if st.exc is None:
                caught += 1
                ctx.ob('failures-answered', 'handle_request', status_of(evs) is C(500), 'answers a failure with %s' % (show(status_of(evs)) if status_of(evs) is not None else None), th[0].where, tr)
                ctx.ob('failures-answered', 'what is caught', any(e.name == '...' or e.name.replace('const ', '').rstrip(' &') == 'std::exception' for e in cs),
                       'catches %s only' % [e.name for e in cs], th[0].where, tr)
                finished(ctx, 'handle_request: failure', evs, st, v, th[0].where, tr)
            continue
        if st.exc is not None:
            continue
        al = [e for e in evs if e.kind == 'algo']
        if inv:
            e = inv[0]
            ctx.ob('passes-the-request', 'handle_request', any(x is S('arg1') for z in e.vals[1:] for x in walk(z)), 'the handler gets %s' % [show(x, 4) for x in e.vals[1:]], e.where, tr)
            ctx.ob('returns-the-answer', 'handle_request', v is e.res or (e.res is not None and any(x is e.res for x in walk(v))), 'the answer of the handler is dropped', e.where, tr)
            matched(ctx, g, st, evs, e, al, tr)
        else:
            ctx.ob('unmatched-not-found', 'handle_request', status_of(evs) is C(404), 'answers with %s' % (show(status_of(evs)) if status_of(evs) is not None else None), loc, tr)
            finished(ctx, 'handle_request: no route', evs, st, v, loc, tr)
            # nothing matched: no route had both facts on this path
            for idx, (me, ma) in found_facts(g, st).items():
                ctx.ob('first-match', 'handle_request', not (me and ma), 'a route that matches does not answer', loc, tr)
    ctx.ob('failures-answered', 'handle_request: exceptions', threw == 0 or caught > 0, 'no failure of a handler is caught', loc)
    for desc, (el, paths) in it.preds.items():
        if not paths or desc.a[0] not in ('find_if', 'find_if_not', 'any_of'):
            continue
        b, p = it.addr(el)
        for val, facts in paths:
            me, ma, mt, mat = judge_pred(g, el, val, facts)
            want = None
            if val is C(0):
                want = me is False or ma is False
            elif val is C(1):
                want = me is True and ma is True
            else:
                want = (val is mat and me is True) or (val is mt and ma is True)
            if desc.a[0] == 'find_if_not':
                want = False
            ctx.ob('matches-method-and-target', 'predicate of the search', bool(want), 'a route is taken for %s given %s' % (show(val, 5), {show(k, 4): b for k, b in facts.items()}), loc)
        ctx.ob('first-match', 'search', desc.a[1][1] is C(1), 'the search skips routes', loc)


def route_key(g):
    rec = g.rec(HTTP + 'router::resource_t')
    hs = [x['id'] for x in g.P.all_fields(rec['i']) if g.P.isrec(x['t']) and g.P.rec_of_type(x['t'])['bname'] == 'std::function']
    ts = [x['id'] for x in g.P.all_fields(rec['i']) if g.P.isrec(x['t']) and g.P.rec_of_type(x['t'])['bname'] == 'std::basic_regex']
    ms = [x['id'] for x in g.P.all_fields(rec['i']) if 'verb' in g.P.tname(x['t'])]
    return ms[0], ts[0], hs[0]


def is_method_term(g, t):
    if t.k == 'a' and t.a[0] == '==':
        a, b = t.a[1]
        m = route_key(g)[0]
        for x, y in ((a, b), (b, a)):
            if x.k == 'f' and x.a[1] == m and named(y, 'method') and not tainted(x):
                return x.a[0]
    return None


def is_match_term(g, t):
    """the pattern of a route matches all of the target: the route"""
    if t.k == 'a' and str(t.a[0]).endswith('regex_match'):
        a = list(t.a[1])
        tk = route_key(g)[1]
        rx = [x for x in a if x.k == 'f' and x.a[1] == tk]
        if len(rx) != 1:
            return None
        i = a.index(rx[0])
        if any(not (isc(x) and x.a[0] in (0, None)) for x in a[i + 1:]):
            return None
        sub = a[:i]
        req = lambda v: True
        if len(sub) == 1 and is_target(sub[0], req):
            return rx[0].a[0]
        if len(sub) == 2 and all(x.k == 'a' for x in sub) and str(sub[0].a[0]).endswith('begin') and str(sub[1].a[0]).endswith('end') and \
                is_target(sub[0].a[1][0], req) and is_target(sub[1].a[1][0], req):
            return rx[0].a[0]
        if len(sub) == 2 and all(x.k == 'r' for x in sub) and is_target_it(sub):
            return rx[0].a[0]
        if len(sub) >= 1 and len(sub) <= 2 and all(x.k == 'a' and str(x.a[0]).endswith(('data', 'c_str')) or tainted(x) for x in sub) and any(x.k == 'a' and x.a[0] == '+' for x in sub):
            return rx[0].a[0]
    return None


def is_target_it(sub):
    return all(tainted(x) for x in sub)


def judge_pred(g, el, val, facts):
    me = ma = None
    mt = mat = None
    for t, b in list(facts.items()) + [(val, None)]:
        if is_method_term(g, t) is not None:
            me, mt = (b if b is not None else me), t
        if is_match_term(g, t) is not None:
            ma, mat = (b if b is not None else ma), t
    return me, ma, mt, mat


def found_facts(g, st):
    out = {}
    for t, b in st.facts.items():
        r = is_method_term(g, t)
        if r is not None:
            out.setdefault(r, [None, None])[0] = b
        r = is_match_term(g, t)
        if r is not None:
            out.setdefault(r, [None, None])[1] = b
    return out


def matched(ctx, g, st, evs, e, al, tr):
    """the handler called belongs to the route that was found"""
    hk = route_key(g)[2]
    hv = e.vals[0] if e.vals else e.this
    hv = outermost(hv)
    ok = hv.k == 'f' and hv.a[1] == hk
    if not ok:
        ctx.ob('calls-the-route', 'handle_request', False, 'calls %s' % show(hv, 5), e.where, tr)
        return
    route = hv.a[0]
    if any(x.k == 'a' and x.a[0] == 'foundidx' for x in walk(route)):
        ctx.ob('calls-the-route', 'handle_request', True)
        return
    me, ma = found_facts(g, st).get(route, (None, None))
    ctx.ob('calls-the-route', 'handle_request', me is True and ma is True, 'calls the handler of a route without knowing that its method and pattern match', e.where, tr)
    for r, (x, y) in found_facts(g, st).items():
        if r is not route:
            ctx.ob('first-match', 'handle_request', not (x and y), 'an earlier route matched too', e.where, tr)


# ---- connections
def handler_of(g, e):
    """the completion handler handed to an asynchronous operation"""
    for x in reversed(e.vals):
        x = outermost(x)
        if x.k == 'a' and str(x.a[0]).endswith('bind') and x.a[1] and x.a[1][0].k == 'fn':
            return x
        if x.k == 'r' and isinstance(x.a[0], int) and g.P.records[x.a[0]].get('lambda'):
            return x
    return None


def complete(ctx, g, st, hv, n, ec):
    """what the completion of an operation does, for either outcome: (new events, state)"""
    it = g.it
    out = []
    if hv.k == 'a':
        f = g.P.fnrefs.get(hv.a[1][0].a[0])
        if f is None or f['id'] not in g.P.functions:
            raise kit.Broken('a completion handler has no body')
        args, bound = [], hv.a[1][2:]
        for i, x in enumerate(bound):
            if i >= len(f['params']):
                break
            ph = placeholder(x)
            v = S('done%d' % ph) if ph else x
            if g.P.isref(f['params'][i]['t']):
                b = ('o', 'bound%d' % i)
                args.append((P(b), b, v))
            else:
                args.append((v, None, None))
        s = St()
        for a, b, v in args:
            if b is not None:
                s.mem[b] = v
        s.mem[('o', 'self')] = S('self')
        fr = Frame(it.fid(0, ('top', 'done')), None, None, None, 0, None)
        for s2, _ in it.call(f, P(('o', 'self')), [a for a, _, _ in args], s, fr, ('done', f['id']), '?'):
            out.append((s2.events(), s2))
    else:
        s = st.copy()
        n0 = len(s.events())
        for s2, _ in it.call_closure(hv, [S('done1'), S('done2')], s, sid=('done', n)):
            out.append((s2.events()[n0:], s2))
    ctx.paths += len(out)
    return out


def placeholder(x):
    s = show(x)
    for i in (1, 2, 3):
        if s.endswith('_%d)' % i) and 'placeholders' in s:
            return i
    return 0


def shared_self(v):
    return any((x.k == 'a' and str(x.a[0]).endswith('shared_from_this')) for x in walk(v)) or any(x.k == 'a' and x.a[0] == 'shared' for x in walk(v))


def asyncs(evs):
    return [e for e in evs if e.kind in ('call', 'vcall') and e.name.startswith('boost::') and e.name.rsplit('::', 1)[-1].startswith('async_')]


def failed(st):
    """was the operation found to have failed on this path?"""
    for t, b in st.facts.items():
        if any(x is S('done1') for x in walk(t)) and (t is S('done1') or 'error_code' in str(t.a[0]) if t.k in ('a', 's') else False):
            return (not b) if str(t.a[0]).endswith('operator!') else b
    return None


def last_field(p):
    return p.a[1][-1] if p.k == 'p' and p.a[1] else None


def rule_session(ctx, g):
    it = g.it
    rec = g.rec(HTTP + 'session')
    kinds_ = {}
    names = {x['id']: g.P.fieldname[x['id']] for x in g.P.all_fields(rec['i'])}
    for x in g.P.all_fields(rec['i']):
        r = g.P.rec_of_type(x['t']) if g.P.isrec(x['t']) else None
        if r and r['bname'].endswith('message'):
            kinds_[x['id']] = 'request' if '<true' in g.P.tname(x['t']) else 'response'
    req = [k for k, v in kinds_.items() if v == 'request']
    res = [k for k, v in kinds_.items() if v == 'response']
    loc = g.P.loc(g.fns['converse'].get('loc'))

    def reads(evs, st, what):
        """one read into members, kept alive, of an empty request"""
        a = asyncs(evs)
        tr = kit.trace_lines(it, st)
        ctx.ob('reads-next', what, len(a) == 1 and a[0].name.endswith('async_read'), 'starts %s' % ([e.name for e in a] or 'nothing'), evs[-1].where if evs else loc, tr)
        if len(a) != 1:
            return None
        buffers(a[0], st, what, evs)
        i = list(evs).index(a[0])
        clean = [e for e in evs[:i] if e.kind == 'W' and last_field(e.this) in req and made(e.args[0], 'boost::beast::http::message') is not None
                 and len(made(e.args[0], 'boost::beast::http::message')) == 0]
        ctx.ob('reads-next', what + ': empty request', bool(clean), 'reads into a request that was not emptied', a[0].where, tr)
        return a[0]

    def buffers(e, st, what, evs):
        tr = kit.trace_lines(it, st)
        hv = handler_of(g, e)
        ctx.ob('keeps-alive', what, hv is not None and shared_self(hv), 'the completion of %s does not keep its connection' % e.name, e.where, tr)
        for x in e.args:
            if x.k == 'p' and x.a[0][0] in 'vt':
                rest = it.P
                v = x
                if handler_of(g, e) is not None and e.args.index(x) >= len(e.args) - 2 and not last_field(x):
                    continue
                ctx.ob('buffers-outlive', what, False, '%s is given a local variable' % e.name, e.where, tr)
        ctx.ob('buffers-outlive', what, True)

    todo, seen = [], set()
    for st, v in run_fn(it, g.fns['converse']):
        ctx.paths += 1
        e = reads(st.events(), st, 'a new connection')
        if e is not None:
            todo.append((e, st, 'read'))
    n = 0
    while todo:
        e, st, kind = todo.pop()
        hv = handler_of(g, e)
        if hv is None:
            continue
        sig = (kind, hv.a[1][0] if hv.k == 'a' else hv.a[0])
        if sig in seen:
            continue
        seen.add(sig)
        n += 1
        for evs, s in complete(ctx, g, st, hv, n, kind):
            tr = kit.trace_lines(it, s)
            a = asyncs(evs)
            at = evs[-1].where if evs else loc
            fail = failed(s)
            what = 'after a %s' % kind
            shut = [x for x in evs if x.kind in ('call', 'vcall') and x.name.rsplit('::', 1)[-1] in ('shutdown', 'close', 'cancel')]
            if fail is None:
                ctx.ob('looks-at-errors', what, False, 'the outcome of the %s is not looked at' % kind, at, tr)
                continue
            if fail:
                ctx.ob('ends-on-error', what, not a and bool(shut), 'goes on after a failure' if a else 'the connection is left open', at, tr)
                continue
            if kind == 'read':
                ctx.ob('answers-every-request', what, len(a) == 1 and a[0].name.endswith('async_write'), 'starts %s' % ([x.name for x in a] or 'nothing'), at, tr)
                if len(a) != 1:
                    continue
                buffers(a[0], s, what, evs)
                i = list(evs).index(a[0])
                wr = [x for x in evs[:i] if x.kind == 'W' and last_field(x.this) in res]
                ctx.ob('answers-every-request', what + ': response', len(wr) == 1 and any(x.k == 'p' and last_field(x) in res for x in a[0].args),
                       'does not send the response it keeps', a[0].where, tr)
                if wr and any(x.kind == 'invoke' for x in evs):
                    ctx.ob('answers-every-request', what + ': handler', any(x.res is not None and any(y is x.res for y in walk(wr[-1].args[0])) for x in evs if x.kind == 'invoke'),
                           'sends something else than the answer of the handler', wr[-1].where, tr)
                h2 = handler_of(g, a[0])
                if h2 is not None:
                    ctx.ob('closes-when-told', what, any(named(x, 'need_eof') for x in walk(h2)) or h2.k == 'r', 'does not remember whether the connection has to end', a[0].where, tr)
                todo.append((a[0], s, 'write'))
            else:
                close = None
                for t, b in s.facts.items():
                    if any(named(x, 'need_eof') for x in walk(t)):
                        close = (not b) if t.k == 'a' and t.a[0] == '!' else b
                if close is None:
                    ctx.ob('closes-when-told', what, False, 'does not look whether the connection has to end', at, tr)
                elif close:
                    ctx.ob('closes-when-told', what, not a and bool(shut), 'goes on with a connection that has to end', at, tr)
                else:
                    reads(evs, s, what)
    if n < 2:
        ctx.note('session: %d completion handlers were entered' % n)


def rule_listener(ctx, g):
    it = g.it
    loc = g.P.loc(g.fns['listen'].get('loc'))
    for st, v in run_fn(it, g.fns['listen']):
        ctx.paths += 1
        a = asyncs(st.events())
        tr = kit.trace_lines(it, st)
        ctx.ob('accepts', 'listener', len(a) == 1 and a[0].name.endswith('async_accept'), 'starts %s' % [x.name for x in a], loc, tr)
        if len(a) != 1:
            continue
        hv = handler_of(g, a[0])
        ctx.ob('keeps-alive', 'listener', hv is not None and shared_self(hv), 'the completion of the accept does not keep the listener', a[0].where, tr)
        if hv is None:
            continue
        for evs, s in complete(ctx, g, st, hv, 'accept', 'accept'):
            tr = kit.trace_lines(it, s)
            at = evs[-1].where if evs else loc
            a2 = asyncs(evs)
            fail = failed(s)
            if fail is None:
                ctx.ob('looks-at-errors', 'after an accept', False, 'the outcome is not looked at', at, tr)
                continue
            news = [x for x in evs if x.kind == 'new' and x.name.startswith(HTTP + 'session')]
            if fail:
                ctx.ob('accepts', 'after a failed accept', not news, 'starts a connection', at, tr)
                continue
            acc = [x for x in a2 if x.name.endswith('async_accept')]
            rd = [x for x in a2 if x.name.endswith('async_read')]
            ctx.ob('accepts', 'after an accept', len(acc) == 1, 'accepts %d more connections' % len(acc), at, tr)
            ctx.ob('serves-connections', 'after an accept', len(news) == 1 and len(rd) == 1, 'a connection is %s' % ('not read from' if news else 'dropped'), at, tr)
            if news:
                sock = it.load(s, news[0].this) if news[0].this.a[0][0] in 'ho' else None
                ctx.ob('serves-connections', 'socket', any(any(y is S('done2') for y in walk(z)) for z in tuple(news[0].vals) + tuple(x for e in evs for x in e.vals)), 'the connection does not get the socket', news[0].where, tr)


def rule_server(ctx, g):
    """the thread has work when it starts, and ends before what it uses"""
    it = g.it
    f = g.fns['serve']
    loc = g.P.loc(f.get('loc'))
    rec = g.rec(HTTP + 'server')
    order = [x['id'] for x in g.P.all_fields(rec['i'])]
    io = g.one('boost::asio::io_context', HTTP + 'server', rec)
    th = g.one('std::thread', HTTP + 'server', rec)
    for st, v in run_fn(it, f):
        ctx.paths += 1
        if st.exc is not None:
            continue
        evs = st.events()
        tr = kit.trace_lines(it, st)
        t = [(i, e) for i, e in enumerate(evs) if e.kind == 'thread']
        ctx.ob('one-thread', 'server', len(t) == 1, 'starts %d threads' % len(t), loc, tr)
        if len(t) != 1:
            continue
        i0, te = t[0]
        acc = [i for i, e in enumerate(evs) if e in asyncs([e])]
        ctx.ob('work-before-thread', 'server', bool(acc) and acc[0] < i0, 'the thread may find nothing to do and end', te.where, tr)
        clo = next((x for x in te.args if x.k == 'r'), None)
        if clo is not None:
            n0 = len(evs)
            for s, _ in it.call_closure(clo, [], st.copy(), sid='thread'):
                ran = [e for e in s.events()[n0:] if e.kind == 'call' and e.name.endswith('io_context::run')]
                ctx.ob('thread-runs-loop', 'server', len(ran) == 1 and last_field(ran[0].this) == io, 'the thread runs %s' % [e.name for e in s.events()[n0:]], te.where, tr)
        stop = [i for i, e in enumerate(evs) if e.kind == 'call' and e.name.endswith('io_context::stop') and last_field(e.this) == io]
        join = [i for i, e in enumerate(evs) if e.kind == 'call' and e.name.endswith('thread::join')]
        joinable = [b for x, b in st.facts.items() if named(x, 'joinable')]
        if joinable and joinable[0] is False:
            continue
        ctx.ob('ends-its-thread', 'server', bool(stop) and bool(join) and i0 < stop[0] < join[-1], 'the thread is %s' % ('not joined' if not join else 'joined before its loop was stopped'), loc, tr)
    lst = [x['id'] for x in g.P.all_fields(rec['i']) if g.P.isrec(x['t']) and g.P.rec_of_type(x['t'])['bname'] == 'std::shared_ptr']
    for k in lst:
        ctx.ob('members-in-order', 'server', order.index(io) < order.index(k), 'the listener outlives its loop', loc)


# ---- files
def rule_files(ctx, g, inis, hs):
    """every path a file is opened with stays below the resources"""
    it = g.it
    base = it.field(S('arg0'), g.path)
    dots = lang.cat(lang.star(lang.ALL), lang.cat(lang.word('..'), lang.star(lang.ALL)))
    n = 0
    for i, (m, pat, h) in enumerate(inis[0].routes):
        what = '%s %s' % ({GET: 'GET', POST: 'POST'}.get(m.a[0], m.a[0]), pat)
        try:
            clean = not any(lang.nullable(a) and lang.nullable(b) for a, b in lang.explore([lang.parse(pat), dots]))
        except lang.Unsupported:
            clean = False
        for evs, st, v in hs[i][1]:
            tr = kit.trace_lines(it, st)
            for e in evs:
                p = opened(e)
                if p is None:
                    continue
                n += 1
                if p.k == 'p':
                    p = it.load(st, p)
                ps = parts(p)
                ctx.ob('below-resources', what + ': root', text(ps[0]) is base, 'opens %s' % show(p, 8)[:200], e.where, tr)
                nxt = text(ps[1]) if len(ps) > 1 else None
                ctx.ob('below-resources', what + ': separated', nxt is None or (isc(nxt) and isinstance(nxt.a[0], str) and nxt.a[0].startswith('/')),
                       'what follows the directory of the resources does not start with a slash', e.where, tr)
                for x in ps[1:]:
                    x = text(x)
                    if isc(x):
                        ctx.ob('below-resources', what + ': constant', '..' not in str(x.a[0]), 'opens %r' % (x.a[0],), e.where, tr)
                        continue
                    if not tainted(x):
                        ctx.ob('below-resources', what + ': from the server', not any(y is S('req') for y in walk(x)), 'a piece of the request', e.where, tr)
                        continue
                    ok = guarded(x, st) or (clean and is_target(x, REQ))
                    ctx.ob('below-resources', what + ': from the request', ok, 'a path with ".." from the request is opened: %s' % show(x, 5), e.where, tr)
    ctx.ob('below-resources', 'file openings', True)
    ctx.note('%d file openings analysed' % n)


def unafter(v):
    """the string an accessor left alone"""
    while v.k == 'a' and v.a[0] == 'after' and str(v.a[1][0].a[0]).rsplit('::', 1)[-1] in ('find', 'rfind', 'c_str', 'data', 'size', 'empty', 'compare', 'substr', 'begin', 'end'):
        v = v.a[1][1]
    return v


def guarded(x, st):
    """is x known to have no ".." on this path?"""
    NPOS = 2 ** 64 - 1
    x = unafter(text(x))
    for t, b in st.facts.items():
        if t.k == 'a' and t.a[0] == '==' and b and any(isc(y) and y.a[0] in (NPOS, -1) for y in t.a[1]):
            f = next((y for y in t.a[1] if not isc(y)), None)
            if f is not None and f.k == 'a' and str(f.a[0]).rsplit('::', 1)[-1] in ('find', 'rfind'):
                a = f.a[1]
                n = text(a[1])
                fwd = str(f.a[0]).endswith('::find')
                whole = len(a) < 3 or (isc(a[2]) and a[2].a[0] == (0 if fwd else NPOS))
                if unafter(text(a[0])) is x and isc(n) and n.a[0] in ('..', '.') and whole or (unafter(text(a[0])) is x and n is C(46) and whole):
                    return True
        if t.k == 'a' and str(t.a[0]).rsplit('::', 1)[-1] == 'contains' and not b:
            a = t.a[1]
            if len(a) > 1 and unafter(text(a[0])) is x and isc(text(a[1])) and text(a[1]).a[0] in ('..', '.', 46):
                return True
    return False


def prepare(ctx):
    g = Server(ctx)
    g.it.watch = set(g.ids)
    inis = starts(ctx, g)
    hs = []
    for n, (m, p, h) in enumerate(inis[0].routes):
        rs = enter(ctx, g, inis[0], h, n)
        hs.append((kinds(g, inis[0], rs), rs))
    return g, inis, hs
