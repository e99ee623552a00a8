"""Loads one exported translation unit (see tool/lagerx.cpp)."""
import json, os


def strip_targs(s):
    """lager::foo<a<b>, c>::bar<x> -> lager::foo::bar ; keeps operator names."""
    out = []
    depth = 0
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if depth == 0 and s.startswith('operator', i):
            # copy operator token verbatim
            j = i + 8
            if j < n and s[j] in '<>-=!+*/%&|^~[(,':
                while j < n and s[j] in '<>-=!+*/%&|^~[](),':
                    j += 1
                out.append(s[i:j])
                i = j
                continue
            out.append('operator')
            i = j
            continue
        if c == '<':
            depth += 1
        elif c == '>':
            if depth > 0:
                depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return ''.join(out)


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.records = d['records']
        self.globals = {g['id']: g for g in d['globals']}
        self.fnrefs = {int(k): v for k, v in d['fnrefs'].items()}
        self.functions = {f['id']: f for f in d['functions']}
        self.files = d['files']
        for i, f in self.fnrefs.items():
            f['id'] = i
            f['bname'] = strip_targs(f['name'])
            f['short'] = f['bname'].rsplit('::', 1)[-1]
            if 'rec' in f:
                r = self.records[f['rec']]
                f['rname'] = strip_targs(r['name'])
        for i, r in enumerate(self.records):
            r['i'] = i
            r['bname'] = strip_targs(r['name'])
        self.vartypes = {}
        for f in self.fnrefs.values():
            for p in f['params']:
                self.vartypes[p['id']] = p['t']
        self._scan(d['functions'])
        self._scan(d['records'])
        self._scan(d['globals'])
        for r in self.records:
            for c in r.get('caps', ()):
                pass
        # methods overriding closure
        self.mover = {}
        self.minfo = {}
        for r in self.records:
            for m in r.get('methods', ()):
                self.mover[m['id']] = set(m.get('over', ()))
                self.minfo[m['id']] = (m, r)
        changed = True
        while changed:
            changed = False
            for k, s in self.mover.items():
                add = set()
                for o in s:
                    add |= self.mover.get(o, set())
                if not add <= s:
                    s |= add
                    changed = True
        self.fieldname = {}
        self.fieldtype = {}
        self.fieldrec = {}
        for r in self.records:
            for f in r.get('fields', ()):
                self.fieldname[f['id']] = f['name']
                self.fieldtype[f['id']] = f['t']
                self.fieldrec[f['id']] = r

    def _scan(self, x):
        stack = [x]
        while stack:
            y = stack.pop()
            if isinstance(y, dict):
                for k, v in y.items():
                    if k == 'vars':
                        for w in v:
                            self.vartypes[w['id']] = w['t']
                    elif k in ('var', 'v') and isinstance(v, dict) and 'id' in v:
                        self.vartypes[v['id']] = v['t']
                    if isinstance(v, (dict, list)):
                        stack.append(v)
            elif isinstance(y, list):
                stack.extend(z for z in y if isinstance(z, (dict, list)))

    # --- helpers
    def tk(self, t):
        return self.types[t]['k'] if t is not None and t >= 0 else 'other'

    def isref(self, t):
        return self.tk(t) in ('lref', 'rref')

    def isrec(self, t):
        return self.tk(t) == 'rec'

    def rec_of_type(self, t):
        ty = self.types[t]
        while ty['k'] in ('lref', 'rref', 'ptr'):
            ty = self.types[ty['to']]
        return self.records[ty['rec']] if ty['k'] == 'rec' else None

    def enumerators(self, t):
        return sorted(set(self.types[t].get('vals', ())))

    def tname(self, t):
        return self.types[t]['s'] if t is not None and t >= 0 else '?'

    def decay(self, t):
        ty = self.types[t]
        while ty['k'] in ('lref', 'rref'):
            ty = self.types[ty['to']]
        s = ty['s']
        if s.startswith('const '):
            s = s[6:]
        return s

    def loc(self, l):
        if not l or l[1] == 0:
            return '?'
        return '%s:%d' % (self.files[l[0]], l[1])

    def bases_of(self, rid, acc=None):
        acc = [] if acc is None else acc
        acc.append(rid)
        for b in self.records[rid].get('bases', ()):
            self.bases_of(b, acc)
        return acc

    def all_fields(self, rid):
        out = []
        for b in self.bases_of(rid):
            out += self.records[b].get('fields', [])
        return out

    def overrider(self, rid, fid):
        """Final overrider of method fid in dynamic class rid."""
        order = self.bases_of(rid)
        for r in order:
            for m in self.records[r].get('methods', ()):
                if m['id'] == fid or fid in self.mover[m['id']]:
                    # bases listed after derived: first match is most derived
                    return m['id']
        return None

    def find_fns(self, bname=None, short=None, rec=None, pred=None):
        out = []
        for f in self.fnrefs.values():
            if bname is not None and f['bname'] != bname:
                continue
            if short is not None and f['short'] != short:
                continue
            if rec is not None and f.get('rec') != rec:
                continue
            if pred and not pred(f):
                continue
            out.append(f)
        return out

    def find_records(self, bname=None, pred=None):
        return [r for r in self.records if (bname is None or r['bname'] == bname)
                and r.get('def') and (pred is None or pred(r))]
