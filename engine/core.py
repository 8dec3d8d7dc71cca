"""Path-partitioned interprocedural dataflow over the MIR dump.

For an entry point the analysis propagates abstract states forward through the control-flow graph and through every
local callee (context-sensitively, by instance).  A state maps places to provenance terms and holds the facts that
the branches taken so far established about terms.  Nothing is executed and no solver is used: a branch is pruned only
when the state already holds the opposite fact.
"""
import json
from .terms import *
from .paths import load

UNDEF = ('undef',)
COW = 'std::borrow::Cow'   # borrowed or owned, the value is the same


import re
_GENERICS = re.compile('::<[^<>]*>')


def json_kind(ty):
    """the kind of JSON value that any value of this type serialises to"""
    ty = ty.lstrip('&')
    if ty.startswith(('std::vec::Vec<', '[')):
        return 'Array'
    if ty.startswith(('std::collections::HashMap<', 'std::collections::BTreeMap<')):
        return 'Object'
    if re.fullmatch(r'[iu](8|16|32|64|128|size)', ty):
        return 'Number'
    return {'bool': 'Bool', 'std::string::String': 'String', 'str': 'String'}.get(ty)


class State:
    __slots__ = ('mem', 'pos', 'neg', 'ev', 'nf', 'site')

    def __init__(s):
        s.mem, s.pos, s.neg, s.ev, s.nf, s.site = {}, {}, {}, (), 0, None

    def copy(s):
        n = State.__new__(State)
        n.mem, n.pos, n.neg, n.ev, n.nf, n.site = dict(s.mem), dict(s.pos), dict(s.neg), s.ev, s.nf, s.site
        return n

    # ---- facts
    def val(s, t):
        """constant value of a term in this state, or None"""
        if t[0] in CONSTS:
            return t
        return s.pos.get(t)

    def set(s, t, c):
        """assume t == constant c; False when this contradicts the state"""
        if t[0] in CONSTS:
            return t == c
        k = s.pos.get(t)
        if k is not None:
            return k == c
        if c in s.neg.get(t, ()):
            return False
        if c[0] == 's':
            # facts already established about t restrict which constants it can be
            for (p, v) in list(s.pos.items()):
                if p[0] in ('sw', 'has', 'ew') and p[1] == t and p[2][0] == 's':
                    r = c[1].startswith(p[2][1]) if p[0] == 'sw' else (p[2][1] in c[1] if p[0] == 'has' else c[1].endswith(p[2][1]))
                    if B(r) != v:
                        return False
        s.pos[t] = c
        return True

    def unset(s, t, c):
        if t[0] in CONSTS:
            return t != c
        k = s.pos.get(t)
        if k is not None:
            return k != c
        s.neg[t] = s.neg.get(t, frozenset()) | {c}
        return True

    def facts(s):
        return dict(s.pos), dict(s.neg)


class Outcome:
    __slots__ = ('kind', 'val', 'st', 'why')

    def __init__(s, kind, val, st, why=None):
        s.kind, s.val, s.st, s.why = kind, val, st, why


class Panic(Exception):
    pass


def len_minus(t):
    return t[0] == 'app' and t[1] == 'Sub' and t[2][0] == 'len' and t[3][0] == 'n'


def sized(t):
    if t[0] == 'n':
        return 0 <= t[1] < 2 ** 31
    if t[0] == 'len':
        return True
    return t[0] == 'app' and t[1] == 'Add' and all(sized(x) for x in t[2:])


class Engine:
    MAXDEPTH = 70
    MAXVISIT = 12
    only = None        # which local bodies calls go into (all)
    MAXITEMS = 60      # items of a fully known iterator
    ELEMS = 2          # generic elements per collection of unknown length
    MAXPATHS = 60000
    JOINMIN = 40

    def __init__(self, dump, extra=()):
        d = load(dump)
        self.d = d
        self.T = d['types']
        self.A = d['adts']
        self.bodies = {b['id']: b for b in d['bodies']}
        self.roots = d['roots']
        self.impls = d['impls']
        self.consts = d['consts']
        self.stats = {'calls': 0, 'opaque': {}, 'paths': 0, 'functions': set(), 'steps': 0, 'limits': [], 'blocks': set()}
        self.cur = []           # stack of body ids
        self.keep = None        # predicate on fact terms: facts that survive a function return
        self._kc = {}
        self._idc, self._tab, self._pc = {}, {}, {}
        self.collapse_errors = True   # an anyhow::Error carries no information a rule looks at
        self.prof = {}
        self.unmodelled = {}
        self.wire = None        # types whose wire form is analysed (True: all); None leaves (de)serialisation opaque
        from . import models, wire
        self.models = models.MODELS
        self.tmodels = models.TRAIT_MODELS
        self.M = models
        self.adt_by_path = {a['path']: a for a in self.A}
        # types whose clone or equality is written by hand
        self.custom = {k: {i['self'] for i in self.impls if i['trait'] == t and not i['derived'] and '<' not in i['self'] and i['trait_ref'] in (t, t + '<' + i['self'] + '>')}
                       for k, t in (('clone', 'std::clone::Clone'), ('eq', 'std::cmp::PartialEq'))}
        self._odd = {}

    # ------------------------------------------------------------ lookup
    def find(self, name, **kw):
        """roots whose path ends with name"""
        r = [x for x in self.roots if (x['path'] == name or x['path'].endswith('::' + name) or x['path'].endswith(name)) and all(x.get(k) == v for k, v in kw.items())]
        return r

    def root(self, path):
        r = [x for x in self.roots if x['path'] == path]
        if not r:   # an impl for a foreign type is named after the module it is written in: any module will do
            i = path.find('<impl ')
            if i >= 0:
                r = [x for x in self.roots if x['path'].endswith(path[i:])]
        return r[0] if len(r) == 1 else None

    def ts(self, i):
        return self.T[i]['s']

    def adt_info(self, path):
        return self.adt_by_path.get(path)

    # ------------------------------------------------------------ hand-written Clone and PartialEq
    def odd(self, kind, ty):
        """does a value of this type hold one whose hand-written clone is not a copy, or whose hand-written equality is not equality?"""
        if not self.custom[kind] or ty.lstrip('&').startswith(('std::mem::Discriminant<', 'std::marker::PhantomData<')):
            return False
        k = (kind, ty)
        if k not in self._odd:
            self._odd[k] = False
            r = False
            for p in set(re.findall(r'openid4vp\w*(?:::\w+)+', ty)):
                a = self.adt_by_path.get(p)
                if p in self.custom[kind]:
                    r = r or not self.structural(kind, p)
                elif a:
                    r = r or any(self.odd(kind, x['ty']) for v in a['variants'] for x in v['fields'])
            self._odd[k] = r
        return self._odd[k]

    def structural(self, kind, path):
        k = (kind, path, 's')
        if k not in self._odd:
            self._odd[k] = True
            self._odd[k] = self._structural(kind, path)
        return self._odd[k]

    def _structural(self, kind, path):
        name = {'clone': f'<{path} as std::clone::Clone>::clone', 'eq': f'<{path} as std::cmp::PartialEq>::eq'}[kind]
        root, info = self.root(name), self.adt_by_path.get(path)
        if root is None or info is None:
            return True
        cur, self.cur = self.cur, []
        keep, self.keep = self.keep, None
        try:
            def all_of(n):
                return [adt(path, v['name'], *[('arg', f'{n}{v["name"]}{i}') for i in range(len(v['fields']))]) for v in info['variants']]
            if kind == 'clone':
                for x in all_of('x'):
                    for o in self.exec(root['id'], [x], State()):
                        if o.kind != 'ret' or not all(self.truth(s, t) is True for s, t in self.eq(o.st, self.deep(o.st, o.val), x)):
                            return False
                return True
            for x in all_of('x'):
                for y in all_of('y'):
                    for o in self.exec(root['id'], [x, y], State()):
                        if o.kind != 'ret':
                            return False
                        for s, t in self.eq(o.st, x, y):
                            for s2, b in self.fork(s, t):
                                if self.truth(s2, o.val) is not b:
                                    return False
            return True
        finally:
            self.cur, self.keep = cur, keep

    # ------------------------------------------------------------ memory
    def read(self, st, cell, path):
        v = st.mem.get(cell, UNDEF)
        for e in path:
            v = self.step(st, v, e)
        return v

    def step(self, st, v, e):
        k = e[0]
        if k == 'f':
            return self.field(v, e[1], e[2], e[3])
        if k == 'i':
            return self.index(st, v, e[1])
        if k == 'key':
            return pl(self.M.map_known(self, st, v, e[1]), 'Some')
        if k == 'ci':
            if v[0] == 'arr':
                items = v[1]
                j = len(items) - e[1] if e[2] else e[1]
                return items[j] if 0 <= j < len(items) else ('bad', v, e)
            if not e[2]:
                return ('el', v, e[1])
            return app('from_end', v, N(e[1]))
        if k == 'ss':
            if v[0] == 'arr':
                items = v[1]
                to = len(items) - e[2] if e[3] else e[2]
                return ('arr', items[e[1]:to])
            return app('subslice', v, N(e[1]), N(e[2]), B(e[3]))
        return app('proj', v)

    def field(self, v, i, name, var=None):
        k = v[0]
        if k == 'adt':
            if (var is None or var == v[2]) and i < len(v[3]):
                return v[3][i]
            return ('bad', v, var or name)
        if k in ('tup', 'arr'):
            return v[1][i] if i < len(v[1]) else ('bad', v, name)
        if k in ('clo', 'cor'):
            return v[2][i]
        if k == 'undef':
            return UNDEF
        if k == 'boxarr':
            return v
        if var is not None:
            if var in ('Borrowed', 'Owned'):
                return v
            return pl(v, var, i)
        return fld(v, name)

    def index(self, st, v, ix):
        if v[0] == 'arr' and ix[0] == 'n':
            return v[1][ix[1]] if ix[1] < len(v[1]) else ('bad', v, ix)
        if ix[0] == 'n':
            return ('el', v, ix[1])
        return ('el', v, ix)

    def write(self, st, cell, path, val):
        if not path:
            st.mem[cell] = val
            return
        st.mem[cell] = self.setpath(st, st.mem.get(cell, UNDEF), path, val)

    def setpath(self, st, v, path, val):
        if not path:
            return val
        e, rest = path[0], path[1:]
        if e[0] == 'f':
            i, name, var = e[1], e[2], e[3]
            if v[0] == 'undef' and name == 'value':
                return self.setpath(st, v, rest, val)
            new = self.setpath(st, self.field(v, i, name, var), rest, val)
            if v[0] == 'adt' and (var is None or var == v[2]) and i < len(v[3]):
                f = list(v[3]); f[i] = new
                return ('adt', v[1], v[2], tuple(f))
            if v[0] in ('tup', 'arr') and i < len(v[1]):
                f = list(v[1]); f[i] = new
                return (v[0], tuple(f))
            if v[0] in ('clo', 'cor'):
                f = list(v[2]); f[i] = new
                return (v[0], v[1], tuple(f))
            if v[0] == 'undef':
                # building a tuple / struct field by field
                return ('upd', v, (((var, i) if var else name, new),))
            key = (var, i) if var else name
            if v[0] == 'upd':
                ws = tuple((k, x) for k, x in v[2] if k != key) + ((key, new),)
                return ('upd', v[1], tuple(sorted(ws, key=repr)))
            return ('upd', v, ((key, new),))
        if e[0] == 'i':
            new = self.setpath(st, self.index(st, v, e[1]), rest, val)
            if v[0] == 'arr' and e[1][0] == 'n' and e[1][1] < len(v[1]):
                f = list(v[1]); f[e[1][1]] = new
                return ('arr', tuple(f))
            return app('setindex', v, e[1], new)
        if e[0] == 'key':
            new = self.setpath(st, self.step(st, v, e), rest, val)
            return self.M.map_put(v, e[1], new)
        if e[0] == 'ci' and v[0] == 'arr':
            j = len(v[1]) - e[1] if e[2] else e[1]
            f = list(v[1]); f[j] = self.setpath(st, f[j], rest, val)
            return ('arr', tuple(f))
        return app('setproj', v, val)

    def deref(self, st, v):
        if v[0] == 'ptr':
            return self.read(st, v[1], v[2])
        return v

    def deep(self, st, v, n=0):
        """replace pointers by what they point to"""
        if n > 40 or not isinstance(v, tuple) or not v:
            return v
        if v[0] == 'ptr':
            return self.deep(st, self.read(st, v[1], v[2]), n + 1)
        if v[0] in CONSTS:
            return v
        if not any(x[0] == 'ptr' for x in walk(v) if x):
            return v
        return tuple(self.deep(st, x, n + 1) if isinstance(x, tuple) else x for x in v)

    def loc(self, st, fr, place):
        cell, path = (fr, place[0]), ()
        var = None
        for e in place[1]:
            if e == '*':
                v = self.read(st, cell, path)
                if v[0] == 'ptr':
                    cell, path = v[1], v[2]
            elif e[0] == 'f':
                path = path + (('f', e[1], e[2], var),)
                var = None
            elif e[0] == 'v':
                var = e[2]
            elif e[0] == 'i':
                path = path + (('i', self.fold(st, st.mem.get((fr, e[1]), UNDEF))),)
            elif e[0] == 'ci':
                path = path + (('ci', e[1], e[2], e[3]),)
            elif e[0] == 'ss':
                path = path + (('ss', e[1], e[2], e[3]),)
            else:
                path = path + (('x',),)
        return cell, path

    def fold(self, st, v):
        c = st.pos.get(v)
        return c if c is not None and c[0] == 'n' else v

    def rplace(self, st, fr, place):
        if not place[1]:
            return st.mem.get((fr, place[0]), UNDEF)
        cell, path = self.loc(st, fr, place)
        return self.read(st, cell, path)

    # ------------------------------------------------------------ constants and operands
    def const(self, c):
        if 'fn' in c:
            return ('fn', _Ref(c['fn']))
        if 'str' in c:
            return S(c['str'])
        if 'bytes' in c:
            b = bytes(c['bytes'])
            try:
                return S(b.decode())
            except UnicodeDecodeError:
                return ('by', b)
        if 'int' in c:
            return N(c['int'])
        if 'char' in c:
            return S(chr(c['char']))
        if 'bool' in c:
            return B(c['bool'])
        nm = c.get('name')
        if nm:
            m = self.M.named_const(nm)
            if m is not None:
                return m
        if 'adtv' in c:
            a = self.A[c['adtv'][0]]
            fs = tuple(self.const(x) for x in c['adtv'][2])
            return ('adt', a['path'], a['variants'][c['adtv'][1]]['name'], fs)
        if 'tuple' in c:
            fs = tuple(self.const(x) for x in c['tuple'])
            t = self.T[c['ty']]
            while t['k'] == 'ref':
                t = self.T[t['t']]
            return ('arr' if t['k'] == 'array' else 'tup', fs)
        if 'assoc' in c:
            return ('assoc', c['assoc'], tuple(self.ts(a) for a in c['args']))
        if 'static' in c:
            return ('static', c['static'])
        if c.get('zst'):
            t = self.T[c['ty']]
            if t['k'] == 'closure':
                return ('clo', t['inst'], ())
            if t['k'] == 'fndef':
                return ('fn', _Ref(t['callee']))
            if t['k'] == 'adt':
                a = self.A[t['adt']]
                if a['kind'] == 'struct':
                    return ('adt', a['path'], a['variants'][0]['name'], ())
            return ('zst', t['s'])
        if 'opaque' in c:
            m = self.M.named_const(c['opaque'])
            return m if m is not None else ('const', c['opaque'])
        return ('const', json.dumps(c, sort_keys=True))

    def op(self, st, fr, o):
        if o[0] == 'k':
            return self.const(o[1])
        if o[0] in ('c', 'm'):
            return self.rplace(st, fr, o[1])
        return ('rt',)

    # ------------------------------------------------------------ equality, booleans
    def truth(self, st, t):
        """True / False / None"""
        if t[0] == 'b':
            return t[1]
        if t[0] == 'not':
            r = self.truth(st, t[1])
            return None if r is None else not r
        if t[0] == 'only' and t[1][0] == 'obj' and t[1][1] is None:
            return all(k in t[2] or v is None for k, v in t[1][2])
        if t[0] == 'eq':
            a, b = t[1], t[2]
            if a == b:
                return True
            va, vb = st.val(a), st.val(b)
            if va is not None and vb is not None:
                return va == vb
            if vb is not None and vb in st.neg.get(a, ()):
                return False
            if va is not None and va in st.neg.get(b, ()):
                return False
            if a[0] == 'before' and b[0] == 's':
                r = self.before_truth(st, a, b[1])
                if r is not None:
                    return r
            if self.small_len(t):
                x, n = a[1], b[1]
                lo = True if n == 0 else self.truth(st, self.M.has_index(x, n - 1))
                hi = self.truth(st, self.M.has_index(x, n)) if lo is not False else None
                if lo is False or hi is True:
                    return False
                if lo and hi is False:
                    return True
        k = st.pos.get(t)
        if k is not None:
            return k[1]
        k = st.neg.get(t)
        if k:
            if TRUE in k:
                return False
            if FALSE in k:
                return True
        if t[0] == 'in' and t[1][0] == 'keys':
            o = self.M.map_get(t[1][1], t[2])
            k = st.pos.get(('is', o)) if o[0] != 'adt' else ('s', o[2])
            return None if k is None else k[1] == 'Some'
        if t[0] == 'hasix' or t[0] == 'isempty':
            return self.index_truth(st, t)
        if t[0] in ('sw', 'has') and t[2][0] == 's':
            return self.prefix_truth(st, t)
        return None

    @staticmethod
    def affix(st, t):
        """what follows the first separator, when what precedes it is a known constant, is the text without that prefix"""
        if t[0] == 'after_' and t[2][0] == 's':
            c = st.pos.get(('before',) + t[1:])
            if c is not None:
                return ('strip', t[1], ('s', c[1] + t[2][1]))
        return t

    def prefix_truth(self, st, t):
        """what is known about the beginning of a text, by any of: starts with, contains, text before the first separator"""
        x, q = t[1], t[2][1]
        if t[0] == 'has':
            for k, v in st.pos.items():
                if k[0] == 'sw' and k[1] == x and v == TRUE and k[2][0] == 's' and q in k[2][1]:
                    return True
            return None
        for k, v in st.pos.items():
            if k[0] == 'sw' and k[1] == x and v == TRUE and k[2][0] == 's':
                if k[2][1].startswith(q):
                    return True
                if not q.startswith(k[2][1]):
                    return False
            elif k[0] == 'has' and k[1] == x and k[2][0] == 's' and k[2][1] in q:
                if v == FALSE:
                    return False
                p = k[2][1]
                c, rest = q.split(p, 1)
                w = ('before', x, k[2])
                b = st.pos.get(w)
                if b is not None:
                    if b[1] != c:
                        return False
                    if rest == '':
                        return True
                elif ('s', c) in st.neg.get(w, ()):
                    return False
        return None

    @staticmethod
    def before_truth(st, t, c):
        if t[2][0] != 's':
            return None
        p = t[2][1]
        if p in c:
            return False
        v = st.pos.get(('sw', t[1], ('s', c + p)))
        if v is not None:
            return v[1]
        for k, v in st.pos.items():
            if k[0] == 'sw' and k[1] == t[1] and v == TRUE and k[2][0] == 's':
                if p in k[2][1]:
                    return k[2][1].split(p, 1)[0] == c
                if not c.startswith(k[2][1]):
                    return False
        return None

    @staticmethod
    def small_len(t):
        return t[0] == 'eq' and t[1][0] == 'len' and t[2][0] == 'n' and t[2][1] <= 3

    def index_truth(self, st, t):
        """what the known facts about the length of a collection say"""
        x = t[1]

        def known(i):
            v = st.pos.get(('isempty', x) if i == 0 else ('hasix', x, i))
            return None if v is None else v[1] != (i == 0)
        i = 0 if t[0] == 'isempty' else t[2]
        r = None
        if any(known(j) is False for j in range(i)):
            r = False
        elif any(known(j) for j in range(i + 1, i + 1 + self.ELEMS)):
            r = True
        elif i >= self.ELEMS + 3 and all(known(j) for j in range(self.ELEMS + 3)):
            r = False      # small scope: a collection walked by index has at most this many elements
        return None if r is None else r != (t[0] == 'isempty')

    def assume(self, st, t, val):
        """add boolean fact (mutates st); False if contradictory"""
        while t[0] == 'not':
            t, val = t[1], not val
        r = self.truth(st, t)
        if r is not None:
            return r == val
        if t[0] == 'eq':
            a, b = t[1], t[2]
            if is_const(a):
                a, b = b, a
            if is_const(b):
                return st.set(a, b) if val else st.unset(a, b)
            va, vb = st.val(a), st.val(b)
            if val:
                if va is not None and vb is None:
                    if not st.set(b, va):
                        return False
                elif vb is not None and va is None:
                    if not st.set(a, vb):
                        return False
                st.pos[t] = TRUE
                return True
            if va is not None and vb is None:
                if not st.unset(b, va):
                    return False
            elif vb is not None and va is None:
                if not st.unset(a, vb):
                    return False
            st.pos[t] = FALSE
            return True
        return st.set(t, B(val))

    def fork(self, st, t):
        """split on a boolean term: [(state, bool)]"""
        r = self.truth(st, t)
        if r is not None:
            return [(st, r)]
        if t[0] == 'not':
            return [(s, not b) for s, b in self.fork(st, t[1])]
        if t[0] == 'in' and t[1][0] == 'keys':
            return [(s, n == 'Some') for s, n in self.split(st, self.M.map_get(t[1][1], t[2]), ('Some', 'None'))]
        if self.small_len(t):
            x, n = t[1][1], t[2][1]
            if n == 0:
                return self.fork(st, ('isempty', x))
            out = []
            for s, b in self.fork(st, self.M.has_index(x, n - 1)):
                out += [(s2, not b2) for s2, b2 in self.fork(s, self.M.has_index(x, n))] if b else [(s, False)]
            return out
        out = []
        for v in (True, False):
            s2 = st.copy()
            if self.assume(s2, t, v):
                out.append((s2, v))
        return out

    def split(self, st, v, cands):
        """split on the variant of v: [(state, variant)]"""
        if v[0] == 'adt':
            return [(st, v[2])]
        if v[0] == 'upd':
            v = v[1]
        if v[:2] == ('app', 'value') and json_kind(v[2]) in cands:
            return [(st, json_kind(v[2]))]
        k = ('is', v)
        c = st.pos.get(k)
        if c is not None:
            return [(st, c[1])]
        ex = st.neg.get(k, ())
        out = []
        for n in cands:
            c = ('s', n)
            if c in ex:
                continue
            s2 = st.copy()
            s2.pos[k] = c
            out.append((s2, n))
        return out

    def eq(self, st, a, b):
        """[(state, boolean term)]"""
        a, b = self.deref(st, a), self.deref(st, b)
        if a == b:
            return [(st, TRUE)]
        if is_const(a) and is_const(b):
            return [(st, B(a == b))]
        if a[0] == 'b':
            a, b = b, a
        if b[0] == 'b':
            return [(st, a if b[1] else (a[1] if a[0] == 'not' else ('not', a)))]
        a, b = self.affix(st, a), self.affix(st, b)
        if a == b:
            return [(st, TRUE)]
        if a[0] == 'adt' or b[0] == 'adt':
            if a[0] != 'adt':
                a, b = b, a
            if b[0] == 'adt':
                if a[2] != b[2]:
                    return [(st, FALSE)]
            info = self.adt_info(a[1])
            cands = [x['name'] for x in info['variants']] if info else [a[2]]
            if info and info['kind'] != 'enum':
                br = [(st, a[2])]
                fb = lambda i: self.field(b, i, info['variants'][0]['fields'][i]['name'])
            else:
                br = self.split_eq(st, b, a[2], cands)
                fb = lambda i: pl(b, a[2], i)
            out = []
            for s2, vn in br:
                if vn != a[2]:
                    out.append((s2, FALSE))
                    continue
                out += self.eqall(s2, [(x, fb(i)) for i, x in enumerate(a[3])])
            return out
        if a[0] in ('tup', 'arr') and b[0] == a[0]:
            if len(a[1]) != len(b[1]):
                return [(st, FALSE)]
            return self.eqall(st, list(zip(a[1], b[1])))
        if a[0] == 'cat' or b[0] == 'cat':
            r = self.cateq(st, a, b)
            if r is not None:
                if isinstance(r, bool):
                    return [(st, B(r))]
                a, b = r
                if a == b:
                    return [(st, TRUE)]
                if is_const(a) and is_const(b):
                    return [(st, B(a == b))]
        if is_const(a) or (not is_const(b) and repr(b) < repr(a)):
            a, b = b, a
        t = ('eq', a, b)
        r = self.truth(st, t)
        return [(st, B(r) if r is not None else t)]

    def split_eq(self, st, v, name, cands):
        """split only on `is it this variant or not`"""
        if v[0] == 'adt':
            return [(st, v[2])]
        if v[0] == 'upd':
            v = v[1]
        if v[:2] == ('app', 'value') and json_kind(v[2]) in cands:
            return [(st, json_kind(v[2]))]
        k = ('is', v)
        c = st.pos.get(k)
        if c is not None:
            return [(st, c[1])]
        out = []
        s1 = st.copy()
        if s1.set(k, ('s', name)):
            out.append((s1, name))
        s2 = st.copy()
        if s2.unset(k, ('s', name)):
            rest = [c for c in cands if ('s', c) not in s2.neg.get(k, ())]
            if len(rest) == 1:
                s2.pos[k] = ('s', rest[0])
                s2.neg.pop(k, None)
            if rest or not cands:
                out.append((s2, '?'))
        return out

    def eqall(self, st, pairs):
        states = [(st, TRUE)]
        for n, (x, y) in enumerate(pairs):
            nxt = []
            for s2, acc in states:
                if acc == FALSE:
                    nxt.append((s2, acc))
                    continue
                for s3, t in self.eq(s2, x, y):
                    if t == FALSE or t == TRUE:
                        nxt.append((s3, t))
                    elif n == len(pairs) - 1:
                        nxt.append((s3, t))
                    else:
                        for s4, v in self.fork(s3, t):
                            nxt.append((s4, B(v)))
            states = nxt
        return states

    def cateq(self, st, a, b):
        pa = list(a[1]) if a[0] == 'cat' else [a]
        pb = list(b[1]) if b[0] == 'cat' else [b]
        for rev in (False, True):
            while pa and pb:
                i = -1 if rev else 0
                x, y = pa[i], pb[i]
                if x == y:
                    pa.pop(i); pb.pop(i)
                    continue
                if x[0] == 's' and y[0] == 's':
                    m = min(len(x[1]), len(y[1]))
                    xs, ys = (x[1][-m:], y[1][-m:]) if rev else (x[1][:m], y[1][:m])
                    if xs != ys:
                        return False
                    rx, ry = (x[1][:-m], y[1][:-m]) if rev else (x[1][m:], y[1][m:])
                    pa.pop(i); pb.pop(i)
                    if rx:
                        pa.insert(len(pa) if rev else 0, S(rx))
                    if ry:
                        pb.insert(len(pb) if rev else 0, S(ry))
                    continue
                break
        if not pa and not pb:
            return True
        x, y = cat(*pa), cat(*pb)
        if x[0] == 's' and not x[1] and any(q[0] == 's' for q in pb):
            return False
        if y[0] == 's' and not y[1] and any(q[0] == 's' for q in pa):
            return False
        return (x, y)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, body):
        k = r[0]
        if k == 'use':
            return self.op(st, fr, r[1])
        if k in ('ref', 'reborrow', 'fake'):
            return self.rplace(st, fr, r[1])
        if k in ('refmut', 'reborrowmut'):
            cell, path = self.loc(st, fr, r[1])
            v = self.read(st, cell, path)
            if v[0] == 'ptr' and r[1][1] and r[1][1][-1] == '*':
                return v
            return ('ptr', cell, path)
        if k == 'agg':
            kk = r[1]
            ops = tuple(self.op(st, fr, o) for o in r[2])
            if kk[0] == 'adt':
                a = self.A[kk[1]]
                if a['path'] == COW:
                    return ops[0]
                if len(ops) > 1 and a['kind'] == 'struct' and ops[0][0] == 'fld' and all(x == ('fld', ops[0][1], v['name']) for x, v in zip(ops, a['variants'][0]['fields'])):
                    return ops[0][1]       # rebuilt field by field
                return ('adt', a['path'], a['variants'][kk[2]]['name'], ops)
            if kk[0] == 'tuple':
                return ('tup', ops)
            if kk[0] == 'array':
                return ('arr', ops)
            if kk[0] == 'closure':
                return ('clo', kk[1], ops)
            if kk[0] in ('coroutine', 'coroutineclosure'):
                return ('cor', kk[1], ops)
            return app('rawptr', *ops)
        if k == 'discr':
            v = self.rplace(st, fr, r[1])
            t = self.T[r[2]]
            if 'adt' not in t:
                return app('discr', v)
            a = self.A[t['adt']]
            if v[0] == 'adt':
                for x in a['variants']:
                    if x['name'] == v[2]:
                        return N(x['discr'])
                return ('bad', v)
            return ('discr', v, t['adt'])
        if k == 'cast':
            v = self.op(st, fr, r[2])
            kd = r[1]
            if 'IntToInt' in kd or 'Float' in kd:
                if v[0] in ('n', 'b'):
                    return N(int(v[1]))
                if v[0] == 's' and len(v[1]) == 1:
                    return N(ord(v[1]))
                return app('cast', self.ts(r[3]), v)
            return v
        if k == 'bin':
            return self.binop(st, r[1], self.op(st, fr, r[2]), self.op(st, fr, r[3]))
        if k == 'un':
            v = self.op(st, fr, r[2])
            if r[1] == 'Not':
                if v[0] == 'b':
                    return B(not v[1])
                if v[0] == 'not':
                    return v[1]
                return ('not', v)
            if r[1] == 'PtrMetadata':
                return self.M.length(self, st, v)
            return app(r[1], v)
        if k == 'repeat':
            v = self.op(st, fr, r[1])
            if r[2] is not None and r[2] <= 64:
                return ('arr', (v,) * r[2])
            return app('repeat', v)
        if k == 'len':
            return self.M.length(self, st, self.rplace(st, fr, r[1]))
        return app(k)

    def binop(self, st, op, a, b):
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        wo = 'WithOverflow' in op
        if a[0] == 's' and len(a[1]) == 1 and b[0] == 'n':
            a = N(ord(a[1]))
        if b[0] == 's' and len(b[1]) == 1 and a[0] == 'n':
            b = N(ord(b[1]))
        if a[0] in ('n', 'b', 's') and b[0] in ('n', 'b', 's') and a[0] == b[0]:
            x, y = a[1], b[1]
            r = None
            if base == 'Eq': return B(x == y)
            if base == 'Ne': return B(x != y)
            if base == 'Lt': return B(x < y)
            if base == 'Le': return B(x <= y)
            if base == 'Gt': return B(x > y)
            if base == 'Ge': return B(x >= y)
            if base == 'Cmp': return adt('std::cmp::Ordering', 'Less' if x < y else 'Equal' if x == y else 'Greater')
            if a[0] == 'n':
                if base == 'Add': r = N(x + y)
                if base == 'Sub': r = N(x - y)
                if base == 'Mul': r = N(x * y)
                if base in ('BitAnd',): r = N(x & y)
                if base in ('BitOr',): r = N(x | y)
            if a[0] == 'b':
                if base == 'BitAnd': r = B(x and y)
                if base == 'BitOr': r = B(x or y)
                if base == 'BitXor': r = B(x != y)
            if r is not None:
                if wo:
                    return ('tup', (r, B(r[1] < 0)))
                return r
        t = None
        if base in ('Eq', 'Ne'):
            a2, b2 = a, b
            if is_const(a2) or (not is_const(b2) and repr(b2) < repr(a2)):
                a2, b2 = b2, a2
            if len_minus(a2) and b2 == N(0):
                t = self.neg(self.M.has_index(a2[2][1], a2[3][1]))
            elif a2[0] == 'len' and b2 == N(0):
                t = ('isempty', a2[1])
            else:
                t = TRUE if a2 == b2 else ('eq', a2, b2)
            if base == 'Ne':
                t = B(False) if t == TRUE else ('not', t)
            return t
        if base == 'Sub' and b[0] == 'n' and (a[0] == 'len' or len_minus(a)):
            m = b[1] + (a[3][1] if a[0] == 'app' else 0)
            x = a if a[0] == 'len' else a[2]
            t = app('Sub', x, N(m)) if m else x
            return ('tup', (t, self.neg(self.M.has_index(x[1], m - 1)) if m else FALSE)) if wo else t
        if base in ('Lt', 'Gt', 'Le', 'Ge'):
            if base in ('Gt', 'Ge'):
                a, b, base = b, a, {'Gt': 'Lt', 'Ge': 'Le'}[base]
            # now a < b  or a <= b
            if base == 'Lt' and b[0] == 'len' and a[0] == 'n':
                return self.M.has_index(b[1], a[1])
            if base == 'Le' and b[0] == 'len' and a[0] == 'n':
                return TRUE if a[1] == 0 else self.M.has_index(b[1], a[1] - 1)
            if base == 'Lt' and a[0] == 'len' and b[0] == 'n':
                return FALSE if b[1] == 0 else ('not', self.M.has_index(a[1], b[1] - 1))
            if base == 'Le' and a[0] == 'len' and b[0] == 'n':
                return ('not', self.M.has_index(a[1], b[1]))
            # a length less a constant, once that subtraction is known not to wrap
            if len_minus(b) and a[0] == 'n':
                return self.M.has_index(b[2][1], a[1] + b[3][1] - (base == 'Le')) if a[1] or base == 'Lt' else TRUE
            if len_minus(a) and b[0] == 'n':
                k = b[1] + a[3][1] - (base == 'Lt')
                return self.neg(self.M.has_index(a[2][1], k))
            if len_minus(a) and b == a[2]:
                return TRUE
            return ('lt', a, b) if base == 'Lt' else ('not', ('lt', b, a))
        if base == 'BitAnd' and a[0] == 'b':
            return b if a[1] else FALSE
        if base == 'BitAnd' and b[0] == 'b':
            return a if b[1] else FALSE
        if base == 'BitOr' and a[0] == 'b':
            return TRUE if a[1] else b
        if base == 'BitOr' and b[0] == 'b':
            return TRUE if b[1] else a
        t = app(base, a, b)
        if wo:
            if base == 'Add' and sized(a) and sized(b):
                return ('tup', (t, FALSE))      # sums of lengths and small constants stay below usize::MAX
            return ('tup', (t, ('overflow', base, a, b)))
        return t

    # ------------------------------------------------------------ execution of a body
    def run(self, path_or_id, args=None, st=None):
        """analyse an entry point; returns outcomes"""
        if isinstance(path_or_id, str):
            r = self.root(path_or_id)
            if r is None:
                raise KeyError(path_or_id)
            rid = r['id']
        else:
            rid = path_or_id
        st = st.copy() if st is not None else State()
        b = self.bodies[rid]
        if args is None:
            args = [('arg', f'a{i}') for i in range(b['argc'])]
        self.cur = []
        out = self.exec(rid, list(args), st)
        # entry points returning a future: drive it
        res = []
        for o in out:
            if o.kind == 'ret' and o.val[0] == 'cor':
                for r in self.poll(o.st, o.val):
                    res.append(r if isinstance(r, Outcome) else Outcome('ret', r[1], r[0]))
            else:
                res.append(o)
        self.stats['paths'] += len(res)
        for o in res:
            if o.kind == 'ret':
                o.val = self.deep(o.st, o.val)
        return res

    def exec(self, bid, args, st):
        b = self.bodies.get(bid)
        if b is None or b.get('failed') or len(self.cur) > self.MAXDEPTH or self.cur.count(bid) > 2:
            t = app('rec:' + (b['path'] if b else str(bid)), *[self.deep(st, a) for a in args])
            return [Outcome('ret', t, st)]
        self.stats['functions'].add(b['path'])
        self.cur.append(bid)
        try:
            r = self._exec(b, args, st)
            p = self.prof.setdefault(b['path'], [0, 0, 0])
            p[0] += 1; p[1] += len(r); p[2] = max(p[2], len(r))
            return r
        finally:
            self.cur.pop()

    def _exec(self, b, args, st):
        fr = st.nf
        st.nf += 1
        blocks = b['blocks']
        if b.get('spread'):
            sp = b['spread']
            pre = args[:sp - 1]
            rest = args[sp - 1:]
            if not (len(rest) == 1 and rest[0][0] == 'tup'):
                rest = [('tup', tuple(rest))]
            args = list(pre) + rest
        for i, a in enumerate(args):
            st.mem[(fr, i + 1)] = a
        outs = []
        seen = set()
        stack = [(0, st, {})]
        T = self.T
        live, joins = self.liveness(b)
        nloc = len(b['locals'])
        while stack:
            bb, st, vis = stack.pop()
            while True:
                if bb in joins:
                    lv = live[bb]
                    mem = st.mem
                    for l in range(nloc):
                        if l not in lv:
                            mem.pop((fr, l), None)
                    key = (bb, self.skey(st))
                    if key in seen:
                        break
                    seen.add(key)
                n = vis.get(bb, 0) + 1
                if n > self.MAXVISIT:
                    self.stats['limits'].append((b['path'], bb))
                    outs.append(Outcome('limit', UNIT, st, (b['path'], blocks[bb][2])))
                    break
                vis[bb] = n
                self.stats['steps'] += 1
                self.stats['blocks'].add((b['id'], bb))
                blk = blocks[bb]
                for s_ in blk[0]:
                    pl_, rv = s_
                    if rv[0] == 'setdiscr':
                        continue
                    v = self.rvalue(st, fr, rv, b)
                    if pl_[1]:
                        cell, path = self.loc(st, fr, pl_)
                        self.write(st, cell, path, v)
                    else:
                        st.mem[(fr, pl_[0])] = v
                t = blk[1]
                k = t[0]
                if k == 'goto':
                    bb = t[1]
                    continue
                if k == 'drop':
                    bb = t[1]
                    continue
                if k == 'return':
                    ret = st.mem.get((fr, 0), UNIT)
                    if ret == UNDEF:
                        ret = UNIT
                    if b['anyret']:
                        ret = self.anyret(ret)
                    keep = self.ptrs(ret)
                    mem = st.mem
                    for l in range(nloc):
                        if (fr, l) in mem and (fr, l) not in keep:
                            del mem[(fr, l)]
                    outs.append(Outcome('ret', ret, st))
                    break
                if k == 'unreachable':
                    break
                if k == 'switch':
                    nx = self.switch(st, fr, t)
                    if not nx:
                        break
                    for (s2, tb) in nx[1:]:
                        stack.append((tb, s2, dict(vis)))
                    st, bb = nx[0]
                    continue
                if k == 'assert':
                    c = self.op(st, fr, t[1])
                    nxt = None
                    for s2, v in self.fork(st, c):
                        if v == t[2]:
                            nxt = s2
                        else:
                            outs.append(Outcome('panic', UNIT, s2, (b['path'], b['file'], blk[2], 'assert ' + t[4], c)))
                    if nxt is None:
                        break
                    st, bb = nxt, t[3]
                    continue
                if k == 'yield':
                    # a future that is not ready: the scheduler resumes it later, nothing local changes
                    break
                if k == 'call':
                    res = self.call_term(st, fr, t, b, blk[2])
                    nxt = []
                    for r in res:
                        if isinstance(r, Outcome):
                            outs.append(r)
                            continue
                        s2, v = r
                        if t[4] is None:
                            continue
                        cell, path = self.loc(s2, fr, t[3])
                        self.write(s2, cell, path, v)
                        nxt.append(s2)
                    if not nxt:
                        break
                    if len(nxt) + len(stack) > self.MAXPATHS:
                        self.stats['limits'].append((b['path'], 'paths'))
                        outs.append(Outcome('limit', UNIT, st, (b['path'], 'paths')))
                        break
                    for s2 in nxt[1:]:
                        stack.append((t[4], s2, dict(vis)))
                    st, bb = nxt[0], t[4]
                    continue
                outs.append(Outcome('limit', UNIT, st, (b['path'], 'terminator ' + str(t))))
                break
        return self.dedup(outs)

    def tid(self, t):
        """small integer identifying a term (hash-consing with an identity cache)"""
        r = self._idc.get(id(t))
        if r is not None:
            return r[1]
        n = self._tab.setdefault(t, len(self._tab))
        self._idc[id(t)] = (t, n)
        return n

    def skey(self, st):
        tid = self.tid
        return (frozenset((k, tid(v)) for k, v in st.mem.items()), frozenset((tid(k), v) for k, v in st.pos.items()), frozenset((tid(k), v) for k, v in st.neg.items()), tuple(map(tid, st.ev)))

    def ptrs(self, v):
        if v[0] in CONSTS:
            return ()
        r = self._pc.get(id(v))
        if r is None:
            r = (v, {x[1] for x in walk(v) if x and x[0] == 'ptr'})
            self._pc[id(v)] = r
        return r[1]

    def anyret(self, v):
        if v[0] == 'adt':
            if v[2] == 'Err' and v[1] == RES:
                return ERR(ANYERR)
            if v[2] == 'Ready' or v[2] == 'Some':
                return ('adt', v[1], v[2], tuple(self.anyret(x) for x in v[3]))
        return v

    def liveness(self, b):
        r = b.get('_live')
        if r is not None:
            return r
        rt = self.ts(b['locals'][0])
        b['anyret'] = self.collapse_errors and rt.endswith('anyhow::Error>') or self.collapse_errors and 'Result<' in rt and rt.rstrip('>').endswith('anyhow::Error')
        blocks = b['blocks']
        always = {0}
        gen, kill, succ = [], [], []
        preds = {}

        def opl(o, g, k):
            if o[0] in ('c', 'm'):
                pu(o[1], g, k)

        def pu(p, g, k):
            if p[0] not in k:
                g.add(p[0])
            for x in p[1]:
                if x != '*' and x[0] == 'i' and x[1] not in k:
                    g.add(x[1])

        def anyop(r, g, k):
            # operands and places inside an rvalue
            h = r[0]
            if h in ('use',):
                opl(r[1], g, k)
            elif h in ('ref', 'reborrow', 'fake', 'refmut', 'reborrowmut', 'discr', 'len'):
                pu(r[1], g, k)
                if h in ('refmut', 'reborrowmut') and not any(x == '*' for x in r[1][1]):
                    always.add(r[1][0])
            elif h == 'agg':
                for o in r[2]:
                    opl(o, g, k)
            elif h in ('cast', 'un'):
                opl(r[2], g, k)
            elif h == 'bin':
                opl(r[2], g, k); opl(r[3], g, k)
            elif h == 'repeat':
                opl(r[1], g, k)

        for i, blk in enumerate(blocks):
            g, k = set(), set()
            if blk is None:
                gen.append(g); kill.append(k); succ.append([]); continue
            for p, rv in blk[0]:
                if rv[0] != 'setdiscr':
                    anyop(rv, g, k)
                if p[1]:
                    pu(p, g, k)
                else:
                    k.add(p[0])
            t = blk[1]
            sc = []
            if t[0] in ('goto', 'drop'):
                sc = [t[1]]
            elif t[0] == 'switch':
                opl(t[1], g, k)
                sc = [x for _, x in t[2]] + [t[3]]
            elif t[0] == 'assert':
                opl(t[1], g, k)
                sc = [t[3]]
            elif t[0] == 'call':
                if 'ptr' in t[1]:
                    opl(t[1]['ptr'], g, k)
                for o in t[2]:
                    opl(o, g, k)
                if t[3][1]:
                    pu(t[3], g, k)
                if t[4] is not None:
                    sc = [t[4]]
            sc = [x for x in sc if x is not None]
            for x in sc:
                preds.setdefault(x, set()).add(i)
            gen.append(g); kill.append(k); succ.append(sc)
        n = len(blocks)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                out = set()
                for x in succ[i]:
                    out |= live[x]
                new = gen[i] | (out - kill[i])
                if new != live[i]:
                    live[i] = new; ch = True
        for x in live:
            x |= always
        joins = {i for i in range(n) if len(preds.get(i, ())) > 1} if n > self.JOINMIN else frozenset()
        b['_live'] = (live, joins)
        return b['_live']

    def prune(self, st):
        """forget facts the current rule has no use for (join of the states that differ only there)"""
        k = self.keep
        if k is None:
            return
        c = self._kc
        for d in (st.pos, st.neg):
            for t in [t for t in d if not self._kept(k, c, t)]:
                del d[t]

    def _kept(self, k, c, t):
        r = c.get(t)
        if r is None:
            r = c[t] = bool(k(t))
        return r

    def dedup(self, outs):
        for o in outs:
            self.prune(o.st)
        if len(outs) < 2:
            return outs
        seen = {}
        res = []
        for o in outs:
            key = (o.kind, self.tid(o.val), o.why, self.skey(o.st))
            try:
                if key in seen:
                    continue
                seen[key] = 1
            except TypeError:
                pass
            res.append(o)
        return res

    def switch(self, st, fr, t):
        v = self.op(st, fr, t[1])
        arms, other = t[2], t[3]
        if v[0] == 'n' or v[0] == 'b' or (v[0] == 's' and len(v[1]) == 1):
            iv = int(v[1]) if v[0] != 's' else ord(v[1])
            for a, tb in arms:
                if a == iv:
                    return [(st, tb)]
            return [(st, other)]
        if v[0] == 'bad':
            return []
        if v[0] == 'discr':
            x = v[1]
            if x[0] == 'upd':
                x = x[1]
            info = self.A[v[2]]
            names = {q['discr']: q['name'] for q in info['variants']}
            alln = [q['name'] for q in info['variants']]
            k = ('is', x)
            c = st.pos.get(k)
            if c is not None:
                for a, tb in arms:
                    if names.get(a) == c[1]:
                        return [(st, tb)]
                return [(st, other)]
            out = []
            ex = set(q[1] for q in st.neg.get(k, ()))
            armnames = []
            for a, tb in arms:
                nm = names.get(a)
                armnames.append(nm)
                if nm in ex:
                    continue
                s2 = st.copy()
                s2.pos[k] = ('s', nm)
                out.append((s2, tb))
            rest = [q for q in alln if q not in armnames and q not in ex]
            if rest:
                s2 = st.copy()
                if len(rest) == 1:
                    s2.pos[k] = ('s', rest[0])
                else:
                    s2.neg[k] = frozenset(s2.neg.get(k, frozenset()) | {('s', q) for q in armnames})
                out.append((s2, other))
            return out
        isbool = self.T[t[4]]['k'] == 'bool'
        if isbool:
            out = []
            for s2, val in self.fork(st, v):
                tb = None
                for a, x in arms:
                    if a == int(val):
                        tb = x
                out.append((s2, other if tb is None else tb))
            return out
        ischar = self.T[t[4]]['k'] == 'char'
        if v[0] == 'len' and all(a <= 3 for a, tb in arms):
            out, cur = [], [st]
            for a, tb in arms:
                nxt = []
                for s in cur:
                    for s2, val in self.fork(s, ('eq', v, N(a))):
                        if val:
                            out.append((s2, tb))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(s, other) for s in cur]
        out = []
        vals = []
        for a, tb in arms:
            c = S(chr(a)) if ischar else N(a)
            vals.append(c)
            s2 = st.copy()
            if s2.set(v, c):
                out.append((s2, tb))
        s2 = st.copy()
        if all(s2.unset(v, c) for c in vals):
            out.append((s2, other))
        return out

    # ------------------------------------------------------------ calls
    def call_term(self, st, fr, t, b, line):
        f = t[1]
        args = [self.op(st, fr, a) for a in t[2]]
        self.stats['calls'] += 1
        st.site = (b['path'], b['file'], line)
        if 'ptr' in f:
            fv = self.op(st, fr, f['ptr'])
            return self.call_value(st, fv, args, t[5])
        return self.call(st, f, args, t[5])

    def call_value(self, st, fv, args, outty=None):
        """call a function value"""
        fv = self.deref(st, fv)
        if fv[0] == 'clo':
            return self.call_clo(st, fv, args)
        if fv[0] == 'fn':
            return self.call(st, fv[1].d, args, fv[1].d.get('out', outty))
        if fv[0] == 'pyfn':
            return fv[1](self, st, args)
        # a function supplied by the caller of the library
        return self.event(st, 'callback', [fv] + args, outty)

    def call_clo(self, st, fv, args):
        b = self.bodies.get(fv[1])
        if b is None:
            return [(st, app('closure', *args))]
        if len(b['locals']) > 1 and self.T[b['locals'][1]]['k'] == 'closure':   # called once, by value
            return self.inline(st, fv[1], [fv] + list(args))
        # captured state that the closure mutates by value lives in a cell
        cell = ('clo', st.nf)
        st.nf += 1
        st.mem[cell] = fv
        out = []
        for o in self.exec(fv[1], [('ptr', cell, ())] + list(args), st):
            if o.kind == 'ret':
                o.st.mem.pop(cell, None)
                out.append((o.st, o.val))
            else:
                out.append(o)
        return out

    def limit(self, st, what):
        return Outcome('limit', UNIT, st, (what, ''))

    def inline(self, st, inst, args):
        out = []
        for o in self.exec(inst, list(args), st):
            if o.kind == 'ret':
                out.append((o.st, o.val))
            else:
                out.append(o)
        return out

    def poll(self, st, fut):
        """[(state, value)] of a future driven to completion"""
        fut = self.deref(st, fut)
        if fut[0] == 'cor' and (self.only is None or self.only(fut[1])):
            return self.inline(st, fut[1], [fut, ('ctx',)])
        if fut[0] == 'evfut':
            return self.event(st, fut[1], list(fut[2]), None, await_=True)
        if fut[0] == 'ready':
            return [(st, fut[1])]
        if fut[0] == 'lockfut':
            return self.M.lock(self, st, fut[1])
        v = app('await', self.deep(st, fut))
        s2 = st.copy()
        s2.ev = s2.ev + (('await', (self.deep(st, fut),), v),)
        return [(s2, v)]

    def event(self, st, name, args, outty, await_=False):
        a = tuple(self.deep(st, x) for x in args)
        s2 = st.copy()
        if not await_ and outty is not None and self.M.is_future(self, outty):
            return [(st, ('evfut', name, a))]
        occ = sum(1 for e in st.ev if e[0] == name and e[1] == a)
        v = ('call', name, H(a), occ) if name not in self.M.PURE_TRAIT else ('call', name, H(a), 0)
        s2.ev = s2.ev + ((name, a, v),)
        for x in args:
            if x[0] == 'ptr':
                self.write(s2, x[1], x[2], ('after', v, self.read(s2, x[1], x[2])))
        return [(s2, v)]

    def call(self, st, f, args, outty=None):
        if 'ctor' in f:
            a = self.A[f['ctor'][0]]
            if a['path'] == COW:
                return [(st, args[0])]
            return [(st, ('adt', a['path'], a['variants'][f['ctor'][1]]['name'], tuple(args)))]
        path, rpath = f['path'], f.get('rpath')
        tr, me = f.get('trait'), f.get('method')
        if tr == 'std::future::Future' and me == 'poll':
            out = []
            for r in self.poll(st, args[0]):
                if isinstance(r, Outcome):
                    out.append(r)
                else:
                    out.append((r[0], adt('std::task::Poll', 'Ready', r[1])))
            return out
        if tr in ('std::ops::Fn', 'std::ops::FnMut', 'std::ops::FnOnce') and f.get('inst') is not None and '{closure' in (rpath or '') and len(args) == 2:
            a1 = self.deref(st, args[1]) if args[1][0] == 'ptr' else args[1]
            if a1[0] == 'tup':   # rust-call ABI: the closure body takes its arguments spread
                args = [args[0]] + list(a1[1])
        if self.custom['clone'] or self.custom['eq']:
          if f.get('args') and (f.get('derived') or not f.get('rlocal')):
            last = path.split('::')[-1]
            kind = 'clone' if last in ('clone', 'cloned', 'to_owned', 'into_owned', 'to_vec', 'clone_from', 'extend_from_slice', 'unwrap_or_clone', 'to_mut') else \
                'eq' if tr == 'std::cmp::PartialEq' or last in ('contains', 'dedup', 'starts_with', 'ends_with', 'strip_prefix', 'contains_key', 'eq', 'ne') else None
            if kind and any(self.odd(kind, self.ts(t)) for t in f['args']) and not (kind == 'clone' and tr and re.match(r'std::(sync::Arc|rc::Rc)\b|&', self.ts(f['args'][0]))):
                if f.get('derived') and f.get('inst') is not None:
                    return self.inline(st, f['inst'], args)
                if not (tr == 'std::cmp::PartialEq' and (f.get('fwd') or {}).get('rlocal')):
                    return [(st, app('custom ' + kind + ' ' + last, *[self.deep(st, x) for x in args]))]
          elif f.get('rlocal') and f.get('inst') is not None:
                kind = {'std::clone::Clone': 'clone', 'std::cmp::PartialEq': 'eq'}.get(tr)
                if kind and me in ('clone', 'eq', 'ne') and f.get('impl_self') in self.custom[kind] and f['inst'] not in self.cur and self.structural(kind, f['impl_self']):
                    if kind == 'clone':
                        return [(st, self.deep(st, args[0]))]
                    return [(s, self.neg(t) if me == 'ne' else t) for s, t in self.eq(st, args[0], args[1])]
        if f.get('rlocal') and f.get('inst') is not None:
            if self.only is not None and not self.only(f['inst']):
                return self.opaque(st, f, args, outty)
            if f.get('derived') and tr in ('std::clone::Clone', 'std::cmp::PartialEq', 'std::fmt::Debug', 'serde::Serialize', 'serde::Deserialize', 'std::hash::Hash'):
                if tr == 'std::clone::Clone':
                    return [(st, self.deep(st, args[0]))]
                if tr == 'std::cmp::PartialEq':
                    r = self.eq(st, args[0], args[1])
                    if me == 'ne':
                        r = [(s, self.neg(t)) for s, t in r]
                    return r
                if tr == 'std::fmt::Debug':
                    return [(st, OK(UNIT))]
                if not self.wire:
                    return self.opaque(st, f, args, outty)
                m = self.tmodels.get((tr, me))
                r = m(self, st, f, args, outty) if m else None
                return r if r is not None else self.opaque(st, f, args, outty)
            m = self.M.LOCAL.get(rpath)
            if m:
                return m(self, st, f, args, outty)
            return self.inline(st, f['inst'], args)
        m = self.models.get(rpath) or self.models.get(path)
        if m is None and path.startswith('std::collections::'):
            m = self.models.get(_GENERICS.sub('', path))
        if m is None and tr:
            m = self.tmodels.get((tr, me))
        if m is not None:
            r = m(self, st, f, args, outty)
            if r is not None:
                return r
        if f.get('trait_local') or (f.get('kind') in ('virtual', 'unresolved') and tr in self.M.EVENT_TRAITS):
            return self.event(st, tr.split('::')[-1] + '::' + me, args, outty if outty is not None else f.get('out'))
        if f.get('fwd') and f['fwd'].get('rlocal'):
            if me in ('into', 'try_into', 'from', 'try_from'):
                return self.call(st, f['fwd'], args, outty)
        if f.get('inst') is not None and not f.get('rlocal'):
            return self.inline(st, f['inst'], args)
        return self.opaque(st, f, args, outty)

    def neg(self, t):
        if t[0] == 'b':
            return B(not t[1])
        return t[1] if t[0] == 'not' else ('not', t)

    def opaque(self, st, f, args, outty):
        name = f.get('rpath') or f['path']
        if not self.M.PANICKY.search(name):
            return self.opaque1(st, f, args, outty, name)
        out = []
        for s, b in self.M.may_panic(self, st, name, args):
            out += self.opaque1(s, f, args, outty, name) if b else [self.panic(s, name.split('::')[-1] + ' may panic')]
        return out

    def opaque1(self, st, f, args, outty, name):
        self.stats['opaque'][name] = self.stats['opaque'].get(name, 0) + 1
        out = f.get('out', outty)
        a = tuple(self.deep(st, x) for x in args)
        v = ('app', name, self.ts(out) if out is not None else '') + a
        muts = [x for x in args if x[0] == 'ptr']
        if muts:
            st = st.copy()
            for i, x in enumerate(args):
                if x[0] == 'ptr':
                    self.write(st, x[1], x[2], app('mut:' + name, N(i), *a))
        return [(st, v)]

    def panic(self, st, what, *info):
        p, fl, ln = st.site or ('?', '?', 0)
        return Outcome('panic', UNIT, st, (p, fl, ln, what) + tuple(info))


class _Ref:
    """hashable holder of a callee description"""
    __slots__ = ('d', 'k')

    def __init__(s, d):
        s.d = d
        s.k = (d.get('rpath') or d['path'], d.get('inst'), tuple(d.get('args') or ()))

    def __eq__(s, o): return isinstance(o, _Ref) and s.k == o.k
    def __hash__(s): return hash(s.k)
    def __repr__(s): return 'fn ' + s.k[0]
