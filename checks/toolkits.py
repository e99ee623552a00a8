"""Event loops of toolkits: where a posted function goes, on which path, and who runs and releases it.

Functions handed to a toolkit are opaque values; a path is judged by the calls that receive them.  Closures that a
toolkit will run later are entered once, from the state they were handed over in, to see what running them does.
"""
from engine import kit
from engine.interp import *
from engine.pairs import witness_fns, run_fn
from checks.contexts import root

QT = '/usr/include/x86_64-linux-gnu/qt5'
FLAGS = ['-fPIC'] + ['-isystem' + QT + x for x in ('', '/QtCore', '/QtConcurrent', '/QtGui', '/QtQml', '/QtQuick', '/QtNetwork', '/QtQmlModels')]
LATER = ('boost::asio::post', 'boost::asio::defer', 'post', 'defer')
NAMES = ('asio', 'strand', 'qt', 'qml', 'qml_item', 'sdl', 'sdl_loop')
WAITS = ('SDL_WaitEvent', 'SDL_PollEvent', 'SDL_WaitEventTimeout')


class Toolkits:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = kit.export('toolkits.cpp', flags=FLAGS, follow=['ctor:pair'])
        self.it = it = Interp(self.P)
        it.hook = self.hook
        it.dtor_events = lambda r: r['bname'] == 'std::unique_ptr'
        it.after_call = self.after
        it.opaque = lambda f: f['name'].startswith('lager::detail::') and f['short'] == 'operator()'     # pace of the frames
        it.at_head = self.at_head
        it.keeps_args = lambda f: not f['name'].startswith(('lager::', 'W::', 'SDL_')) and \
            not any(self.P.types[p['t']]['k'] == 'rref' for p in f['params'])
        it.may_throw = lambda e: self.loops and e.kind == 'invoke'
        self.marks = {}
        self.judge = None
        self.loops = False      # analysing the loops of SDL
        self.sdl = next((r for r in self.P.records if r['bname'] == 'lager::sdl_event_loop' and r.get('def')), None)
        if self.sdl is None:
            raise kit.Broken('lager::sdl_event_loop not found')
        self.fields = {self.P.fieldname[x['id']]: x['id'] for x in self.P.all_fields(self.sdl['i'])}

    def fld(self, rec, name):
        rs = [r for r in self.P.records if r['bname'] == rec and r.get('def')]
        out = {}
        for r in rs:
            for x in self.P.all_fields(r['i']):
                if self.P.fieldname[x['id']] == name:
                    out[r['i']] = x['id']
        if not out:
            raise kit.Broken('%s::%s not found' % (rec, name))
        return out

    # ---- what SDL does
    def hook(self, it, f, this, args, st, fr, where):
        n = f['name']
        if n == 'SDL_PushEvent':
            b, p = it.addr(args[0])
            ev = it.read(st, (b, p))
            out = []
            for r in (1, 0, -1):
                s = st.copy()
                it.event(s, 'push', n, args[0], (), where, C(r), fr, vals=(ev, self.pointee(it, s, ev)))
                out.append((s, C(r)))
            return out
        if n in WAITS:
            ev = A('sdlevent', self.since(st))
            out = []
            for r in (1, 0):
                s = st.copy()
                it.event(s, 'wait', n, None, (), where, C(r), fr, vals=(ev, self.flag(it, s, 'done_'), self.flag(it, s, 'paused_'),
                                                                              self.flag(it, s, 'post_event_type_')))
                if args[0].k == 'p' and r:
                    b, p = it.addr(args[0])
                    it.write(s, (b, p), ev, where, fr)
                self.others(it, s)
                out.append((s, C(r)))
            return out
        if self.loops and n in ('W::Handler::operator()', 'W::Tick::operator()'):
            out = []
            for r in (1, 0):
                s = st.copy()
                it.event(s, 'handler' if 'Handler' in n else 'tick', n, None, (), where, C(r), fr,
                         vals=(it.load(s, args[0]) if args[0].k == 'p' else args[0], self.flag(it, s, 'done_'), self.flag(it, s, 'paused_')))
                self.others(it, s)
                out.append((s, C(r)))
            return out
        return None

    def pointee(self, it, st, ev):
        d = self.data1(it, ev)
        return it.load(st, d) if d is not None and d.k == 'p' else d

    def data1(self, it, ev):
        u = self.member('SDL_UserEvent', 'data1')
        o = self.member('SDL_Event', 'user')
        return it.field(it.field(ev, o), u)

    def etype(self, it, ev):
        return it.field(ev, self.member('SDL_Event', 'type'))

    def member(self, rec, name):
        for r in self.P.records:
            if r['bname'] in (rec, 'SDL_Event' if rec == 'SDL_Event' else rec) and r.get('fields'):
                for x in self.P.all_fields(r['i']):
                    if self.P.fieldname[x['id']] == name:
                        return x['id']
        raise kit.Broken('%s.%s not found' % (rec, name))

    SELF = ('o', 'arg0')

    def flag(self, it, st, name):
        if not self.loops:
            return None
        return it.read(st, (self.SELF, (self.fields[name],))) if name in self.fields else None

    def others(self, it, st):
        """anything may finish, pause or resume the loop meanwhile"""
        if not self.loops:
            return
        for name in ('done_', 'paused_'):
            if name in self.fields:
                it.write(st, (self.SELF, (self.fields[name],)), A('now', S(name), self.since(st)), quiet=True)

    def since(self, st):
        """names what happens after the last loop head"""
        sid, n = None, 0
        for e in st.events():
            if e.kind == 'loophead':
                sid, n = e.ctx[0], 0
            elif e.kind in ('wait', 'handler', 'tick', 'invoke', 'stopped'):
                n += 1
        return A('since', S(str(sid)), C(n))

    def at_head(self, st, sid, n):
        """an iteration is judged where it ends; the next one starts from whatever state it left"""
        if not self.loops:
            return st
        self.judge(st, False)
        evs = st.events()
        last = max([i for i, e in enumerate(evs) if e.kind == 'wait' and e.res is TRUE], default=None)
        keep = []
        if last is not None and not any(e.kind in ('handler', 'invoke') for e in evs[last:]) and \
                fact_eq(self, st, self.etype(self.it, evs[last].vals[0]), evs[last].vals[3]) is None:
            keep = [e for e in evs[last:] if e.kind in ('wait', 'F', 'delete', 'dtor', 'invoke', 'handler')]
        if any(e.kind == 'stopped' or e.kind in ('handler', 'tick') and e.res is FALSE for e in evs):
            keep = [self.mark('stopped', sid, n)] + keep
        if not looked(evs):
            keep = [self.mark('unlooked', sid, n)] + keep
        st.trace = None
        for e in keep + [self.mark('loophead', sid, n)]:
            st.trace = (st.trace, e)
        live = set()
        for v in st.mem.values():
            atoms(v, live)
        for e in keep:
            for v in e.vals:
                if v is not None:
                    atoms(v, live)
        for t in list(st.facts):
            a = set()
            atoms(t, a)
            if a - live:
                del st.facts[t]
        return st

    def mark(self, kind, sid, n):
        k = (kind, sid, n)
        if k not in self.marks:
            s = St()
            self.marks[k] = self.it.event(s, kind, '', None, (), '?', None, None, ctx=(sid, n, 0, ()))
        return self.marks[k]

    def after(self, st, e):
        if e.kind == 'invoke':
            self.others(self.it, st)

    def strip(self, v):
        return root(v)


def atoms(v, out, d=0):
    if v is None or not hasattr(v, 'k') or d > 30:
        return
    if v.k == 'lv' or v.k == 'a' and v.a[0] in ('now', 'sdlevent') or v is S('arg0'):
        out.add(v)
        return
    if v.k == 'p':
        for x in v.a[0]:
            if hasattr(x, 'k'):
                atoms(x, out, d + 1)
        return
    if v.k == 'r':
        for _, x in v.a[2]:
            atoms(x, out, d + 1)
        atoms(v.a[1], out, d + 1)
        return
    for x in v.a if isinstance(v.a, tuple) else ():
        if hasattr(x, 'k'):
            atoms(x, out, d + 1)
        elif isinstance(x, tuple):
            for y in x:
                if hasattr(y, 'k'):
                    atoms(y, out, d + 1)


def lastrepo(st, d):
    ws = [e.where for e in st.events() if e.where.startswith(kit.REPO)]
    return ws[-1] if ws else d


def runs(ctx, g, f):
    g.it.fresh += 1
    rs = run_fn(g.it, f)
    ctx.paths += len(rs)
    return rs


def invoked(e, task):
    """does this event run the task?"""
    if e.kind == 'invoke':
        return root(e.vals[0]) is task
    return e.kind in ('call', 'vcall') and e.name == 'W::Task::operator()' and e.vals and root(e.vals[0]) is task


def is_task(v, task):
    return root(v) is task


def closure_runs(g, st, v, fn):
    """states after running closure v from st with no arguments, as (new events, state)"""
    out = []
    n = len(st.events())
    for s, _ in g.it.call_closure(v, [], st.copy(), sid=('later', fn)):
        out.append((s.events()[n:], s))
    return out


def mentions(v, pred, d=0):
    if pred(v):
        return True
    if d > 12:
        return False
    if v.k == 'r':
        return any(mentions(x, pred, d + 1) for _, x in v.a[2]) or (v.a[1] is not None and mentions(v.a[1], pred, d + 1))
    if v.k in ('a',):
        return any(mentions(x, pred, d + 1) for x in v.a[1] if hasattr(x, 'k')) if len(v.a) > 1 and isinstance(v.a[1], tuple) else \
            any(hasattr(x, 'k') and mentions(x, pred, d + 1) for x in v.a)
    return False


def is_closure(g, v):
    return v.k == 'r' and isinstance(v.a[0], int) and g.P.records[v.a[0]].get('lambda')


def runs_once(g, st, v, task):
    """running the stored value v runs the task exactly once: (ok, why)"""
    if is_task(v, task):
        return True, ''
    w = v
    while w.k == 'r' and not is_closure(g, w) and 'B' in dict(w.a[2]):
        w = dict(w.a[2])['B']
    r = root(w)
    for c in (w, r):
        if is_closure(g, c):
            res = closure_runs(g, st, c, 'run')
            for evs, s in res:
                k = sum(1 for e in evs if invoked(e, task))
                if k != 1:
                    return False, 'what is handed over runs the function %d times' % k
            return bool(res), ''
    if mentions(v, lambda x: x.k == 'mv' and mentions(x, lambda y: y is task)):
        return False, 'what is handed over has been moved from'
    if mentions(v, lambda x: x is task):
        return True, ''
    return False, 'what is handed over is not the function'


def queue_ids(g):
    out = set()
    for r in g.P.records:
        if r['bname'] == 'lager::event_loop_quick_item' and r.get('def'):
            for x in g.P.all_fields(r['i']):
                rr = g.P.rec_of_type(x['t']) if g.P.isrec(x['t']) else None
                if rr is not None and rr['bname'] == 'lager::queue_event_loop':
                    out.add(x['id'])
    return out


def pushed(g, evs, task, item):
    """pushes of the task into the item's own queue"""
    qs = queue_ids(g)
    n = 0
    for e in evs:
        if e.kind == 'cont' and e.name in ('push_back', 'emplace_back', 'push', 'emplace') and e.this is not None:
            b, p = g.it.addr(e.this)
            if b == item and p and p[0] in qs and any(is_task(x, task) for x in (e.vals or e.args)):
                n += 1
    return n


def owner(g, name):
    """memory of the loop that adaptor `name` (arg0) stands for"""
    if name in ('qml', 'sdl'):
        return None
    return ('o', 'arg0')


def item_base(g, f, name):
    return ('o', 'arg0') if name == 'qml_item' else None


def handovers(g, st, name, task, f):
    """(number of times the task is handed over, complaints)"""
    it = g.it
    n, bad = 0, []
    evs = st.events()
    for e in evs:
        if invoked(e, task):
            bad.append('it is called right away')
        vals = list(e.vals or ())
        if e.kind == 'thread':
            if any(mentions(x, lambda y: y is task) for x in vals + list(e.args)):
                bad.append('it is given to a new thread instead of the loop')
        elif e.kind == 'call' and e.name.startswith('boost::asio'):
            short = e.name.split('::')[-1]
            got = [x for x in vals if mentions(x, lambda y: y is task)]
            if not got:
                continue
            if short in ('post', 'defer'):
                n += 1
                ok, why = runs_once(g, st, got[0], task)
                if not ok:
                    bad.append(why)
                own = own_field(g, f, 'executor')
                if not any(mentions(x, lambda y: y is own) for x in vals):
                    bad.append('it goes to another executor')
            else:
                bad.append('%s may run it right away' % e.name)
        elif e.kind == 'call' and e.name in ('QMetaObject::invokeMethod', 'QTimer::singleShot', 'QtConcurrent::run'):
            got = [x for x in vals if mentions(x, lambda y: y is task)]
            if not got:
                continue
            if e.name == 'QtConcurrent::run':
                bad.append('it is run on another thread')
                continue
            n += 1
            if e.name == 'QMetaObject::invokeMethod':
                c = [x for x in vals if isc(x) and isinstance(x.a[0], int) and x.a[0] not in (None,)]
                if not any(x is C(2) for x in c):
                    bad.append('it is not queued: the connection type lets it run right away')
            if name == 'qt':
                ok, why = runs_once(g, st, got[0], task)
                if not ok:
                    bad.append(why)
                own = own_field(g, f, 'obj')
                if not any(x is own for x in vals):
                    bad.append('it is queued on another object')
            else:
                bad += later_in_item(g, st, vals, got[0], task, name)
        elif e.kind == 'push':
            ev, fn = e.vals
            if fn is None or not mentions(fn, lambda y: y is task):
                bad.append('the event does not carry it')
                continue
            ok, why = runs_once(g, st, fn, task)
            if not ok:
                bad.append(why)
            ty = g.etype(it, ev)
            own = it.field(sdl_self(g, name), g.fields['post_event_type_'])
            if ty is not own:
                bad.append('the event has another type than the loop looks for')
            d = g.data1(it, ev)
            heap = d is not None and d.k == 'p' and it.addr(d)[0][0] == 'h'
            if not heap:
                bad.append('the event carries a function that does not outlive post()')
            freed = sum(1 for x in evs if releases(g, x, d))
            if e.res is C(1):
                n += 1
                if freed:
                    bad.append('the function is released while the event is in the queue')
            else:
                if heap and freed != 1:
                    bad.append('the function is %s when the queue refuses the event' % ('never released' if not freed else 'released twice'))
                if st.exc is None and not any(x.kind == 'push' and x.res is C(1) for x in evs):
                    bad.append('the function is lost without notice when the queue refuses the event')
                    n += 1
        elif e.kind == 'vcall' or e.kind == 'call':
            if any(mentions(x, lambda y: y is task) for x in (vals[1:] if e.this is not None else vals)) and not e.name.startswith('std::') and not e.name.startswith('W::'):
                n += 1
                g.ctx.note('%s is taken to run its argument later' % e.name)
    if name in ('qml', 'qml_item'):
        b = the_item(g, name)
        k = pushed(g, evs, task, b)
        if k:
            n += k
            if not same_thread(g, st, b):
                bad.append('it goes to the queue directly from a thread that may not be the one of the item')
            bad += polished(g, evs, b)
    return n, bad


def releases(g, e, d):
    if e.kind == 'delete':
        return e.this is d
    return e.kind == 'dtor' and any(x is d for x in e.args)


def own_field(g, f, name):
    """what the adaptor that f is called with holds"""
    r = g.P.rec_of_type(f['params'][0]['t'])
    if r is None:
        r = g.P.rec_of_type(g.P.pointee(f['params'][0]['t']))
    for x in g.P.all_fields(r['i']):
        if g.P.fieldname[x['id']] == name:
            return g.it.field(S('arg0'), x['id'])
    raise kit.Broken('field %s of %s not found' % (name, r['bname']))


def sdl_self(g, name):
    if name == 'sdl_loop':
        return S('arg0')
    return g.it.load(St(), loop_ptr(g, 'lager::with_sdl_event_loop'))


def loop_ptr(g, rec):
    rs = [r for r in g.P.records if r['bname'] == rec and r.get('def')]
    if not rs:
        raise kit.Broken('%s not found' % rec)
    fs = g.P.all_fields(rs[0]['i'])
    return g.it.field(S('arg0'), fs[0]['id'])


def the_item(g, name):
    if name == 'qml_item':
        return ('o', 'arg0')
    return g.it.addr(loop_ptr(g, 'lager::with_qml_event_loop'))[0]


def same_thread(g, st, b):
    """the path has found that it runs on the thread the item was made on"""
    for t, val in st.facts.items():
        if val and t.k == 'a' and t.a[0] == '==' and 'this_thread::get_id' in show(t, 9):
            return True
    return False


def polished(g, evs, b):
    k = None
    for i, e in enumerate(evs):
        if e.kind == 'cont' and e.this is not None and g.it.addr(e.this)[0] == b:
            k = i
    if k is None:
        return []
    # asking before or after the function is put into the queue is the same: the frame comes later, in this thread
    if not any(e.kind in ('call', 'vcall') and e.name.endswith('::polish') and e.this is not None and g.it.addr(e.this)[0] == b for e in evs):
        return ['nothing asks for the frame that would run it']
    return []


def later_in_item(g, st, vals, got, task, name):
    b = the_item(g, name)
    bad = []
    if not any(x.k == 'p' and g.it.addr(x) == (b, ()) or x is ptr_to(g, b) for x in vals):
        bad.append('it is queued on another object')
    w = root(got) if not is_closure(g, got) else got
    if not is_closure(g, w):
        return bad
    res = closure_runs(g, st, w, 'queued')
    for evs, s in res:
        k = pushed(g, evs, task, b) + sum(1 for e in evs if invoked(e, task))
        if k != 1:
            bad.append('what is queued brings it to the item %d times' % k)
        if pushed(g, evs, task, b):
            bad += polished(g, evs, b)
    return bad


def ptr_to(g, b):
    return b[1] if b[0] == 'x' and hasattr(b[1], 'k') else P(b)


def rule_post(ctx, g):
    """every path of post() hands the function over once, to the loop's own queue, and keeps its hands off it"""
    for pre, keeps in (('post_function_', True), ('post_moved_', False), ('post_', True)):
        fs = witness_fns(g.P, pre)
        for name in NAMES:
            f = fs.get(name)
            if f is None:
                raise kit.Broken('post of %s is not instantiated' % name)
            task = S('arg1')
            rs = runs(ctx, g, f)
            ctx.ob('posts-once-later', 'post of %s works' % name, any(st.exc is None for st, v in rs), 'post of %s always throws' % name,
                   lastrepo(rs[0][0], '?'), kit.trace_lines(g.it, rs[0][0]))
            for st, v in rs:
                tr = kit.trace_lines(g.it, st)
                site = lastrepo(st, g.P.loc(f.get('loc')))
                n, bad = handovers(g, st, name, task, f)
                what = 'post of %s' % name
                if st.exc is None or n:
                    if n != 1:
                        bad.append('it is handed over %d times' % n)
                if keeps and st.exc is None and g.it.load(st, P(('o', 'arg1'))) is not task:
                    bad.append("the caller's own function is moved from")
                ctx.ob('posts-once-later', what + (' (function)' if 'function' in pre else ' (moved)' if 'moved' in pre else ''), not bad,
                       'a function given to %s: %s' % (what, '; '.join(sorted(set(bad)))), site, tr)


def rule_async(ctx, g):
    """asynchronous work is started on another thread, once, with the caller's function intact, and keeps the loop alive"""
    for pre, keeps in (('async_function_', True), ('async_moved_', False), ('async_', True)):
        fs = witness_fns(g.P, pre)
        for name in NAMES[:-1]:
            f = fs.get(name)
            if f is None:
                raise kit.Broken('async of %s is not instantiated' % name)
            task = S('arg1')
            rs = runs(ctx, g, f)
            ctx.ob('works-elsewhere', 'async of %s works' % name, name not in ('asio', 'strand', 'qt') or any(st.exc is None for st, v in rs),
                   'async of %s always throws' % name, lastrepo(rs[0][0], '?'), kit.trace_lines(g.it, rs[0][0]))
            for st, v in rs:
                tr = kit.trace_lines(g.it, st)
                site = lastrepo(st, g.P.loc(f.get('loc')))
                bad, n = [], 0
                evs = st.events()
                for i, e in enumerate(evs):
                    vals = list(e.vals or ()) + list(e.args or ())
                    if invoked(e, task):
                        bad.append("it is run on the caller's thread")
                    elif e.kind == 'thread':
                        cl = [x for x in vals if mentions(x, lambda y: y is task)]
                        if not cl:
                            continue
                        n += 1
                        ok, why = runs_once(g, st, cl[0], task)
                        if not ok:
                            bad.append(why)
                        if not any(x.kind == 'call' and x.name.endswith('::detach') for x in evs[i:]):
                            joined = any(x.kind == 'call' and x.name.endswith('::join') for x in evs[i:])
                            bad.append('the caller waits for the thread' if joined else 'the thread is neither detached nor kept')
                        if name in ('asio', 'strand'):
                            own = own_field(g, f, 'executor')
                            if not mentions(cl[0], lambda y: y.k == 'a' and y.a[0] == 'new' and 'work_guard' in show(y.a[1][0], 1) and mentions(y, lambda z: z is own)):
                                bad.append('nothing keeps the executor working until it is done')
                    elif e.kind == 'call' and e.name == 'QtConcurrent::run':
                        got = [x for x in (e.vals or ()) if mentions(x, lambda y: y is task)]
                        if not got:
                            continue
                        n += 1
                        ok, why = runs_once(g, st, got[0], task)
                        if not ok:
                            bad.append(why)
                        own = own_field(g, f, 'thread_pool')
                        if not any(x is own for x in e.vals):
                            bad.append("it does not run on the adaptor's own pool")
                    elif e.kind == 'call' and e.name == 'QThreadPool::start':
                        n += any(mentions(x, lambda y: y is task) for x in e.vals or ())
                    elif e.kind == 'call' and e.name in ('QMetaObject::invokeMethod', 'boost::asio::post', 'boost::asio::dispatch', 'boost::asio::defer') \
                            and any(mentions(x, lambda y: y is task) for x in e.vals or ()):
                        own = own_field(g, f, 'executor') if 'asio' in e.name else None
                        if own is None or any(mentions(x, lambda y: y is own) for x in e.vals):
                            bad.append('it blocks the loop itself')
                if st.exc is None and n != 1:
                    bad.append('it is started %d times' % n)
                if keeps and st.exc is None and g.it.load(st, P(('o', 'arg1'))) is not task:
                    bad.append("the caller's own function is moved from")
                what = 'async of %s' % name
                ctx.ob('works-elsewhere', what + (' (function)' if 'function' in pre else ' (moved)' if 'moved' in pre else ''), not bad,
                       'work given to %s: %s' % (what, '; '.join(sorted(set(bad)))), site, tr)


def rule_control(ctx, g):
    """finish, pause and resume act on their own loop"""
    it = g.it
    for op in ('finish', 'pause', 'resume'):
        fs = witness_fns(g.P, op + '_')
        for name in NAMES:
            f = fs.get(name)
            if f is None:
                raise kit.Broken('%s of %s is not instantiated' % (op, name))
            for st, v in runs(ctx, g, f):
                tr = kit.trace_lines(it, st)
                site = lastrepo(st, g.P.loc(f.get('loc')))
                bad = []
                evs = st.events()
                if st.exc is not None:
                    if name in ('asio', 'strand', 'sdl', 'sdl_loop') or (name == 'qt' and op == 'finish'):
                        bad.append('it throws')
                elif name in ('asio', 'strand'):
                    stop = own_field(g, f, 'stop')
                    k = sum(1 for e in evs if e.kind == 'invoke' and root(e.vals[0]) is root(stop))
                    want = op == 'finish'
                    if k != want:
                        bad.append('the stop function is called %d times' % k)
                elif name in ('sdl', 'sdl_loop'):
                    p = P(('o', 'arg0')) if name == 'sdl_loop' else loop_ptr(g, 'lager::with_sdl_event_loop')
                    o = it.load(st, p)
                    now = {n: it.field(o, g.fields[n]) for n in ('done_', 'paused_')}
                    was = {n: it.field(sdl_self(g, name), g.fields[n]) for n in now}
                    key, val = {'finish': ('done_', TRUE), 'pause': ('paused_', TRUE), 'resume': ('paused_', FALSE)}[op]
                    if now[key] is not val:
                        bad.append('%s of the loop is not %s afterwards' % (key, val.a[0]))
                    oth = 'paused_' if key == 'done_' else 'done_'
                    if now[oth] is not was[oth] and not (op == 'finish' and now[oth] is FALSE):
                        bad.append('%s is changed as well' % oth)
                elif name == 'qt' and op == 'finish':
                    k = sum(1 for e in evs if e.kind in ('call', 'vcall') and e.name in ('QCoreApplication::quit', 'QCoreApplication::exit', 'QMetaObject::invokeMethod'))
                    if k != 1:
                        bad.append('the application is told to quit %d times' % k)
                ctx.ob('controls-own-loop', '%s of %s' % (op, name), not bad, '%s of %s: %s' % (op, name, '; '.join(bad)), site, tr)
    mk_ = witness_fns(g.P, 'make_')
    for name, want in (('asio', S('arg1')), ('asio_copy', S('arg1')), ('asio_default', None)):
        for st, v in runs(ctx, g, need(mk_, name)):
            ks = [e for e in st.events() if e.kind == 'invoke' and want is not None and root(e.vals[0]) is want]
            null = any(e.kind == 'nullcall' for e in st.events())
            ok = st.exc is None and not null and len(ks) == (want is not None)
            ctx.ob('controls-own-loop', 'finish after making %s' % name, ok,
                   'finish of a new adaptor %s' % ('calls an empty function' if null or st.exc is not None else 'calls the given stop function %d times' % len(ks)),
                   lastrepo(st, '?'), kit.trace_lines(it, st))
    for st, v in runs(ctx, g, need(witness_fns(g.P, 'destroy_'), 'qt')):
        own = [e for e in st.events() if e.kind == 'call' and e.name == 'QThreadPool::waitForDone' and e.this is not None
               and it.addr(e.this)[0] == ('o', 'arg1') and all(x is C(-1) for x in e.args)]
        ctx.ob('work-ends-before-loop', 'with_qt_event_loop', bool(own), 'work of the pool may outlive the adaptor: nothing waits for it at destruction',
               lastrepo(st, '?'), kit.trace_lines(it, st))


def need(d, k):
    if k not in d:
        raise kit.Broken('witness %s is not instantiated' % k)
    return d[k]


def rule_item(ctx, g):
    """the item runs its queue whenever it is polished, and always gets polished again"""
    it, P_ = g.it, g.P
    item = ('o', 'arg0')
    rec = next((r for r in P_.records if r['bname'] == 'lager::event_loop_quick_item' and r.get('def')), None)
    if rec is None:
        raise kit.Broken('lager::event_loop_quick_item not found')
    ids = {P_.fieldname[x['id']]: x['id'] for x in P_.all_fields(rec['i'])}
    qs = queue_ids(g)
    if not qs or 'polished_' not in ids:
        raise kit.Broken('the queue of event_loop_quick_item was not found')
    on = lambda e, n: e.kind in ('call', 'vcall') and e.name.split('::')[-1] == n and e.this is not None and it.addr(e.this)[0] == item
    for st, v in runs(ctx, g, need(witness_fns(P_, 'polish_'), 'item')):
        evs = st.events()
        tr = kit.trace_lines(it, st)
        site = lastrepo(st, '?')
        steps = [e for e in evs if on(e, 'step')]
        waiting = any(val and t.k == 'f' and 'polished_' in show(t, 3) for t, val in st.facts.items())
        ctx.ob('items-step', 'updatePolish', bool(steps) or waiting, 'a polished item does not run its queue', site, tr)
        if steps:
            ctx.ob('items-step', 'updatePolish: repaint', any(on(e, 'update') for e in evs) or
                   not any(e.kind == 'W' and e.this is not None and it.addr(e.this) == (item, (ids['polished_'],)) and TRUE in e.args for e in evs),
                   'the item waits for a frame that it does not ask for', site, tr)
        again = any(e.kind == 'call' and e.name == 'QCoreApplication::postEvent' and 'PolishRequest' in polish_kind(g, st, e) and e.vals[0].k == 'p'
                    and it.addr(e.vals[0])[0] == item for e in evs) or any(on(e, 'polish') for e in evs)
        ctx.ob('items-step', 'updatePolish: again', again, 'the item is not polished again: functions posted from tasks wait for ever', site, tr)
    for st, v in runs(ctx, g, need(witness_fns(P_, 'paint_'), 'item')):
        now = it.field(it.load(st, P(item)), ids['polished_'])
        ctx.ob('items-step', 'updatePaintNode', now is FALSE, 'a painted item keeps waiting for a frame', lastrepo(st, P_.loc(None) if False else '?'), kit.trace_lines(it, st))
    seen = set()
    for st, v in runs(ctx, g, need(witness_fns(P_, 'event_'), 'item')):
        evs = st.events()
        req = None
        for t, val in st.facts.items():
            if 'QEvent::type' in show(t, 4):
                if '74' in show(t, 4) or mentions(t, lambda x: x is C(74)):
                    req = bool(val)
        pol = any(on(e, 'polish') for e in evs)
        base = any(e.kind == 'call' and e.name.endswith('::event') for e in evs)
        ok = pol if req else base if req is False else (pol or base)
        seen.add(req)
        ctx.ob('items-step', 'event', ok, 'a polish request does not polish the item' if req else 'an event of another kind is not passed on', lastrepo(st, '?'), kit.trace_lines(it, st))
    ctx.ob('items-step', 'event: requests', True in seen, 'the item does not look for polish requests', P_.loc(rec.get('loc')) if rec.get('loc') else '?', [])
    for st, v in runs(ctx, g, need(witness_fns(P_, 'make_'), 'item')):
        news = [e.this for e in st.events() if e.kind == 'new' and 'event_loop_quick_item' in e.name]
        if not news:
            raise kit.Broken('the item is not constructed')
        me = it.addr(news[-1])[0]
        ok = False
        for e in st.events():
            if e.kind == 'call' and e.name == 'QObject::connect':
                txt = [fnname(g, x) for x in e.vals]
                to = [x for x in e.vals if x.k == 'p' and it.addr(x) == (me, ())]
                ok = ok or bool(to) and any('timeout' in t for t in txt) and any(t.endswith('::step') or 'lambda' in t for t in txt)
        ctx.ob('items-step', 'constructor: timer', ok, 'the timer of a new item does not step it', lastrepo(st, '?'), kit.trace_lines(it, st))
        tid = it.field(it.load(st, P(me)), ids['this_id_']) if 'this_id_' in ids else None
        if tid is not None:
            ctx.ob('items-step', 'constructor: thread', 'get_id' in show(tid, 6), 'a new item does not know its thread', lastrepo(st, '?'), kit.trace_lines(it, st))
        pol = it.field(it.load(st, P(me)), ids['polished_'])
        ctx.ob('items-step', 'constructor: state', pol is FALSE, 'a new item waits for a frame that nobody asked for', lastrepo(st, '?'), kit.trace_lines(it, st))
    drained = False
    for st, v in runs(ctx, g, need(witness_fns(P_, 'step_'), 'item')):
        for e in st.events():
            if e.kind == 'invoke' and e.this is not None:
                b, p = it.addr(e.this)
                drained = drained or p and p[0] in qs or any(('queue_' in show(x, 6)) for x in e.vals[:1])
    ctx.ob('items-step', 'step', drained, 'stepping the item does not run its queue', '?', [])


def fnname(g, v):
    s = show(v, 2)
    if v.k == 'fn' or s.startswith('fn('):
        try:
            i = int(s[3:].split(',')[0])
            return g.P.fnrefs[i]['name']
        except (ValueError, KeyError):
            pass
    return 'lambda' if is_closure(g, v) else s


def polish_kind(g, st, e):
    for x in e.vals[1:2]:
        if x.k == 'p':
            for c in st.events():
                if c.kind == 'ctor' and c.this is x and c.name.startswith('QEvent') and any(a is C(74) for a in c.args):
                    return 'PolishRequest'
    return ''


def rule_loops(ctx, g):
    """the loops of SDL, by induction over their iterations"""
    it = g.it
    g.loops = True
    try:
        for name in ('events', 'ticks'):
            f = need(witness_fns(g.P, 'run_'), name)
            got = set()
            g.judge = lambda st, final: judge(ctx, g, st, name, got, final)
            for st, v in runs(ctx, g, f):
                g.judge(st, True)
            miss = {'posted', 'handler'} | ({'tick'} if name == 'ticks' else set())
            for m in sorted(miss - got):
                ctx.ob('loops-run', '%s: %s' % (name, m), False, 'run() never %s' % {'posted': 'runs posted functions', 'handler': 'gives events to the handler', 'tick': 'ticks'}[m], g.P.loc(f.get('loc')), [])
    finally:
        g.loops = False


def judge(ctx, g, st, name, got, final):
    it = g.it
    evs = st.events()
    tr = kit.trace_lines(it, st)
    waits = [i for i, e in enumerate(evs) if e.kind == 'wait']
    stop = any(e.kind == 'stopped' for e in evs)
    for i, e in enumerate(evs):
        if e.kind not in ('wait', 'handler', 'tick', 'invoke'):
            continue
        what = {'wait': 'waits for more events', 'handler': 'calls the handler', 'tick': 'ticks', 'invoke': 'runs a function'}[e.kind]
        if stop and e.kind != 'invoke':
            ctx.ob('loops-stop', '%s: after false' % name, False, 'run() %s after a handler or tick asked to stop' % what, e.where, tr)
        elif e.kind != 'invoke':
            ctx.ob('loops-stop', '%s: after false' % name, True, '', e.where, tr)
        if e.kind in ('handler', 'tick') and e.res is FALSE:
            stop = True
        if e.kind == 'wait' and e.name != 'SDL_PollEvent':
            d = e.vals[1]
            ok = d is FALSE or st.facts.get(d) is False or (d is not None and impossible(g, st, d))
            ctx.ob('loops-stop', '%s: finished' % name, ok, 'run() waits for events without having looked whether the loop was finished', e.where, tr)
        if e.kind == 'tick':
            ctx.ob('loops-stop', '%s: finished between ticks' % name, looked(evs[:i]), 'run() ticks again without having looked whether the loop was finished', e.where, tr)
        if e.kind == 'tick' or e.kind == 'handler' and name == 'ticks':
            p = e.vals[2]
            ok = p is FALSE or st.facts.get(p) is False or seen_false(g, st, evs[:i], 'paused_')
            ctx.ob('loops-pause', '%s: %s' % (name, e.kind), ok, 'run() %s while the loop is paused' % what, e.where, tr)
    if final and stop is False and st.exc is None:
        # leaving without having been asked to
        last = [e for e in evs if e.kind in ('wait', 'handler', 'tick', 'invoke')]
        o = it.load(st, P(('o', 'arg0')))
        d = it.field(o, g.fields['done_'])
        ok = d is TRUE or st.facts.get(d) is True
        ctx.ob('loops-run', '%s: leaves' % name, ok, 'run() returns although nobody asked it to stop', last[-1].where if last else '?', tr)
    for n, i in enumerate(waits):
        e = evs[i]
        upto = evs[i + 1:waits[n + 1]] if n + 1 < len(waits) else evs[i + 1:]
        if not final and n + 1 == len(waits) and not any(x.kind in ('invoke', 'handler') for x in upto) and \
                fact_eq(g, st, g.etype(it, e.vals[0]), e.vals[3]) is None:
            continue        # not handled yet
        ev = e.vals[0]
        d = g.data1(it, ev)
        ran = [x for x in upto if x.kind == 'invoke' and mentions(x.this if x.this is not None else VOID, lambda y: y is ev) or
               x.kind == 'invoke' and x.vals and mentions_deep(x.vals[0], ev)]
        freed = [x for x in upto if releases(g, x, d) or x.kind in ('delete', 'dtor') and (mentions_deep(x.this, ev) or any(mentions_deep(y, ev) for y in tuple(x.vals or ()) + tuple(x.args or ())))]
        hand = [x for x in upto if x.kind == 'handler']
        if e.res is FALSE:
            if ran or hand:
                ctx.ob('loops-run', '%s: no event' % name, False, 'run() uses an event that did not arrive', e.where, tr)
            continue
        ty = g.etype(it, ev)
        posted = fact_eq(g, st, ty, e.vals[3])
        if posted is None:
            # not decided on this path: neither may have happened, unless the loop leaves at once
            ctx.ob('loops-run', '%s: kind' % name, not ran and not hand, 'run() does not look whether an event was posted', e.where, tr)
            continue
        if posted:
            got.add('posted')
            ctx.ob('loops-run', '%s: posted' % name, len(ran) == 1 and not hand,
                   'a posted function is run %d times%s' % (len(ran), ' and its event goes to the handler' if hand else ''), e.where, tr)
            ctx.ob('loops-run', '%s: release' % name, len(freed) == 1,
                   'a posted function is %s%s' % ('never released' if not freed else 'released %d times' % len(freed), ' when it throws' if st.exc is not None else ''), e.where, tr)
            if ran and freed:
                ctx.ob('loops-run', '%s: release order' % name, upto.index(freed[0]) > upto.index(ran[-1]) or not lives_in(ran[-1], ev), 'a posted function is released before it is run', e.where, tr)
        else:
            ctx.ob('loops-run', '%s: others' % name, not ran and not freed, 'an event of another kind is taken for a posted function', e.where, tr)
            paused = name == 'ticks' and (seen_true(g, st, upto, 'paused_') or any(st.facts.get(x) for x in [e.vals[2]] if x is not None))
            if hand:
                got.add('handler')
            ok = len(hand) == 1 and hand[0].vals[0] is ev or not hand and paused
            ctx.ob('loops-run', '%s: handler' % name, ok, 'an event is given to the handler %d times' % len(hand), e.where, tr)
    if any(e.kind == 'tick' for e in evs):
        got.add('tick')


def lives_in(e, ev):
    """is it the posted function itself that is run, not one that it was moved or copied to?"""
    return not (e.at is not None and e.at.k == 'p' and not mentions_deep(e.at, ev))


def looked(evs):
    """has the path looked whether the loop was finished since its last tick?"""
    v = True
    for e in evs:
        if e.kind in ('tick', 'unlooked'):
            v = False
        elif e.kind == 'F' and 'done_' in show(e.this, 6):
            v = True
    return v


def mentions_deep(v, t):
    if v is None:
        return False
    if v is t:
        return True
    if v.k == 'p':
        b = v.a[0]
        return isinstance(b, tuple) and any(hasattr(x, 'k') and mentions_deep(x, t) for x in b) or v.a[0] is t
    if v.k in ('f', 'd', 'mv'):
        return any(hasattr(x, 'k') and mentions_deep(x, t) for x in v.a)
    if v.k == 'r':
        return any(mentions_deep(x, t) for _, x in v.a[2]) or (v.a[1] is not None and mentions_deep(v.a[1], t))
    if v.k == 'a':
        return any(mentions_deep(x, t) for x in v.a[1:] if hasattr(x, 'k')) or \
            any(mentions_deep(x, t) for y in v.a[1:] if isinstance(y, tuple) for x in y if hasattr(x, 'k'))
    return False


def fact_eq(g, st, a, b):
    rs = g.it.truth(st.copy(), g.it.mkeq(a, b), '?', None)
    vs = {x for _, x in rs}
    return vs.pop() if len(vs) == 1 else None


def impossible(g, st, d):
    rs = g.it.truth(st.copy(), d, '?', None)
    return {x for _, x in rs} == {False}


def flags_read(evs, name):
    return [e for e in evs if e.kind == 'F' and name in show(e.this, 6)]


def seen_false(g, st, evs, name):
    fs = [e for e in evs if e.kind == 'F' and name in show(e.this, 6)]
    return bool(fs) and fs[-1].args and fs[-1].args[0] is C(0)


def seen_true(g, st, evs, name):
    return any(e.kind == 'F' and name in show(e.this, 6) and e.args and e.args[0] is C(1) for e in evs)
