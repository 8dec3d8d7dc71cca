"""Rule framework: obligations on the outcomes of public entry points.

A rule names an entry point and a specification.  The analysis yields one outcome per class of paths (a return value as
a provenance term, the sequence of externally visible calls, and the facts the branches on the path established); the
specification is evaluated on every one of them.  When it needs a fact that the path left open, both cases are taken:
an obligation holds only if it holds in all of them.
"""
import os
import time
from .terms import *
from .core import Engine, Outcome, State


class Bad(Exception):
    def __init__(s, what, got=None):
        s.what, s.got = what, got


class Infeasible(Exception):
    pass


def mut(name, term):
    """an argument passed by mutable reference: its value afterwards is Q.after(name)"""
    return ('mutarg', name, term)


def place(args, st):
    """put mutable arguments in memory cells of their own"""
    if args is None or not any(a[0] == 'mutarg' for a in args):
        return args, st
    st = st.copy() if st is not None else State()
    for a in args:
        if a[0] == 'mutarg':
            st.mem[(-1, a[1])] = a[2]
    return [('ptr', (-1, a[1]), ()) if a[0] == 'mutarg' else a for a in args], st


VARIANTS = {'Some': OPT, 'None': OPT, 'Ok': RES, 'Err': RES, 'Null': JV, 'Bool': JV, 'Number': JV, 'String': JV, 'Array': JV, 'Object': JV}


class Q:
    """one outcome under one resolution of the questions the specification asks"""

    def __init__(s, e, o, script):
        s.e, s.o, s.st, s.script, s.pos, s.width = e, o, o.st.copy(), script, 0, []
        s.val, s.kind, s.ev = o.val, o.kind, o.st.ev
        s.asked = []

    # ---- choices
    def choose(s, alts):
        alts = [x for x in alts]
        if not alts:
            raise Infeasible()
        if len(alts) == 1:
            i = 0
        else:
            if s.pos < len(s.script):
                i = s.script[s.pos]
            else:
                i = 0
                s.script.append(0)
            s.width.append(len(alts))
            s.pos += 1
        s.st = alts[i][0]
        return alts[i][1]

    def ask(s, t):
        """truth of a boolean term on this path"""
        return s.choose([(st, b) for st, b in s.e.fork(s.st, t)])

    def eq(s, a, b):
        r = s.choose(s.e.eq(s.st, a, b))
        return s.ask(r)

    def isin(s, coll, x):
        """membership of x in a collection, from whatever evidence the path has"""
        if coll[0] in ('arr', 'seq'):
            return s.ask(s.choose(s.e.M.member(s.e, s.st, coll, x)))
        t = s.e.truth(s.st, ('in', coll, x))
        if t is not None:
            return t
        n = s.st.pos.get(('exh', coll))
        open_ = False
        for k in range(s.e.ELEMS):
            el = ('el', coll, k)
            h = s.e.truth(s.st, s.e.M.has_index(coll, k))
            if h is False:
                break
            r = s.e.eq(s.st, el, x)
            tv = s.e.truth(r[0][0], r[0][1]) if len(r) == 1 else None
            if tv is True and h is True:
                return True
            if tv is None:
                open_ = True
            elif tv is True:
                open_ = True
        else:
            if n is None:
                open_ = True
        if s.e.truth(s.st, ('isempty', coll)) is True:
            return False
        if not open_ and (n is not None or s.e.truth(s.st, s.e.M.has_index(coll, 0)) is False or any(s.e.truth(s.st, s.e.M.has_index(coll, k)) is False for k in range(s.e.ELEMS))):
            return False
        return s.ask(('in', coll, x))

    def haskey(s, m, k):
        """does the map have the key, from a lookup or from a walk over its entries"""
        o = s.e.M.map_get(m, k)
        if o[0] != 'get':
            return s.some(o)
        if s.st.pos.get(('is', o)) is None and not s.st.neg.get(('is', o)):
            for i in range(s.e.ELEMS):
                if s.e.truth(s.st, s.e.M.has_index(m, i)) is not True:
                    break
                r = s.e.eq(s.st, fld(('el', m, i), '0'), k)
                if all(s.e.truth(x, t) is True for x, t in r):
                    return True
            else:
                i = s.e.ELEMS
            n = s.st.pos.get(('exh', m))
            if n is not None and n[1] <= i:
                return False
            if s.e.truth(s.st, ('isempty', m)) is True:
                return False
        return s.some(o)

    def whole(s, coll, n):
        """n is the number of elements of the collection (as far as the code looked: a walk that reached the end, or
        a length test)"""
        x = s.st.pos.get(('exh', coll))
        if x is not None:
            return x[1] == n
        return not s.ask(s.e.M.has_index(coll, n))

    def count(s, coll):
        """the number of elements"""
        x = s.st.pos.get(('exh', coll))
        if x is not None:
            return x[1]
        n = 0
        while n < s.e.ELEMS + 3 and s.ask(s.e.M.has_index(coll, n)):
            n += 1
        return n

    def isin_any(s, coll, xs):
        return any(s.e.truth(s.st, ('in', coll, x)) is True for x in xs)

    def variant(s, t, cands):
        return s.choose(s.e.split(s.st, t, cands))

    def opt(s, t):
        """None, or the payload"""
        return pl(t, 'Some') if s.variant(t, ('Some', 'None')) == 'Some' else None

    def some(s, t):
        return s.variant(t, ('Some', 'None')) == 'Some'

    def ok(s, t):
        return s.variant(t, ('Ok', 'Err')) == 'Ok'

    def json(s, t, want):
        """is the JSON value of this kind"""
        return s.variant(t, ('Null', 'Bool', 'Number', 'String', 'Array', 'Object')) == want if t[0] == 'adt' else s.choose(s.e.split_eq(s.st, t, want, ('Null', 'Bool', 'Number', 'String', 'Array', 'Object'))) == want

    def run(s, path, *args):
        """result of a public accessor on this path's values"""
        rid = path if isinstance(path, int) else s.e.root(path)
        if rid is None:
            raise Bad('anchor missing: ' + str(path))
        keep, s.e.keep = s.e.keep, None
        try:
            args, s.st = place(list(args), s.st)
            outs = s.e.run(rid if isinstance(rid, int) else rid['id'], args, s.st)
        finally:
            s.e.keep = keep
        if any(x.kind == 'ret' for x in outs):   # a panicking accessor is C31's business
            outs = [x for x in outs if x.kind != 'panic']
        o = s.choose([(x.st, x) for x in outs])
        if o.kind != 'ret':
            raise Bad(f'{path} does not return: {o.why}')
        return o.val

    def after(s, name):
        """value of a mutable argument when the function returned"""
        return s.e.deep(s.st, s.st.mem[(-1, name)])

    def _wire(s, ty, fn):
        from . import wire
        old, s.e.wire = s.e.wire, True
        s.e.cur = []
        try:
            full = ty if s.e.adt_info(ty) or ty.startswith(('std::', 'serde_json::')) else next((a['path'] for a in s.e.A if a['local'] and a['path'].endswith('::' + ty)), None)
            if full is None:
                raise Bad('anchor missing: ' + ty)
            outs = [x if isinstance(x, Outcome) else (x[0], s.e.deep(x[0], x[1])) for x in fn(wire, full)]
            return s.choose([x for x in outs if not isinstance(x, Outcome)])
        finally:
            s.e.wire = old

    def ser(s, ty, x, fl='json'):
        """Result of serialising a value"""
        return s._wire(ty, lambda w, t: w.ser(s.e, s.st, t, x, ('ser', fl)))

    def de(s, ty, x, fl='json'):
        """Result of deserialising a data-model term"""
        return s._wire(ty, lambda w, t: w.de(s.e, s.st, t, ('de', x, fl)))

    # ---- obligations
    def need(s, cond, what, got=None):
        if not cond:
            raise Bad(what, got)

    def same(s, got, want, what):
        if got != want and not s.eqv(got, want) and s.norm(got) != s.norm(want):
            raise Bad(what + f': got {show(got)}, required {show(want)}', got)

    def norm(s, t, head=True):
        """the term with every part that is a known constant, or of a known variant, on this path replaced by it"""
        if not isinstance(t, tuple) or not t:
            return t
        if isinstance(t[0], str) and t[0] not in CONSTS and t[0] not in ('adt', 'arr', 'tup', 'obj', 'cat'):
            try:
                k = s.st.pos.get(t)
                v = s.st.pos.get(('is', t)) if head else None
            except TypeError:
                k = v = None
            if k is not None and k[0] in ('s', 'n'):
                return k
            try:
                if s.st.pos.get(('isempty', t)) == TRUE:
                    return ('empty',)
            except TypeError:
                pass
            if v in VARIANTS:
                return adt(VARIANTS[v], v, *([] if v in ('None', 'Null') else [s.norm(pl(t, v))]))
            if t[0] == 'pl':
                return ('pl', s.norm(t[1], False)) + t[2:]
        if t in (('arr', ()), ('obj', None, ())):
            return ('empty',)
        r = tuple(s.norm(x) for x in t)
        if r[0] == 'adt' and len(r[3]) and r[3][0][0] == 'fld':
            a = s.e.adt_info(r[1])
            if a and a['kind'] == 'struct' and all(x == ('fld', r[3][0][1], f['name']) for x, f in zip(r[3], a['variants'][0]['fields'])):
                return r[3][0][1]
        return cat(*r[1]) if r and r[0] == 'cat' else r

    def eqv(s, a, b):
        if a == b:
            return True
        try:
            r = s.e.eq(s.st, a, b)
        except Exception:
            return False
        return all(s.e.truth(x, t) is True for x, t in r)

    @property
    def is_ok(s):
        """the entry point returned Ok (splits when the result is handed through from a callee)"""
        if s.kind != 'ret':
            return False
        return s.ok(s.val)

    @property
    def okval(s):
        return pl(s.val, 'Ok')

    def events(s, *names):
        return [x for x in s.ev if not names or x[0] in names or x[0].split('::')[0] in names]


def one_value(e, outs):
    """the single term that every outcome's value equals under that outcome's facts, or None"""
    cands = []
    for st, v in outs:
        for k in st.pos:
            t = k[1] if k[0] == 'is' else k
            if t not in cands:
                cands.append(t)
    for t in cands:
        try:
            if all(all(e.truth(s, x) is True for s, x in e.eq(st, v, t)) for st, v in outs):
                return t
        except Exception:
            pass
    return None


class Ctx:
    def __init__(s, prop, engine, tier='quick'):
        s.prop, s.e, s.tier = prop, engine, tier
        s.viol, s.obl, s.samples = [], [], []
        s.t0 = time.time()

    def bad(s, rule, what, where='', detail=None):
        key = f'{rule}: {what}'
        if all(v['key'] != key for v in s.viol):
            s.viol.append({'key': key, 'rule': rule, 'what': what, 'where': where, 'detail': detail or {}})

    def anchor(s, path):
        r = s.e.root(path)
        if r is None:
            c = [x['path'] for x in s.e.roots if x['path'].endswith(path)]
            if len(c) == 1:
                return s.e.root(c[0])
        return r

    def done(s, rule, entry, **kw):
        s.obl.append(dict(rule=rule, entry=entry, **kw))

    def fact(s, rule, cond, what, where='', detail=None):
        """a single structural obligation"""
        if not cond:
            s.bad(rule, what, where, detail)
        s.obl.append({'rule': rule, 'entry': where, 'paths': 1, 'cases': 1, 'held': bool(cond)})
        return cond

    def outcomes(s, rule, path, args=None, keep=None, st=None):
        r = s.anchor(path) if isinstance(path, str) else path
        if r is None:
            s.bad(rule, f'anchor missing: {path} is not in the analysed program')
            return None, []
        e = s.e
        e.keep, e._kc = keep, {}
        try:
            args, st = place(args, st)
            outs = e.run(r['id'], args, st)
        finally:
            e.keep = None
        return r, outs

    def value(s, rule, path, *args, ok=False):
        """the value a constructor or configuration method of the public API gives (its Ok payload with ok=True)"""
        r, outs = s.outcomes(rule, path, list(args))
        if r is None:
            raise Bad(f'anchor missing: {path}')
        vs, pairs = [], []
        for o in outs:
            if o.kind != 'ret':
                continue
            v = o.val
            if ok:
                if v[0] == 'adt' and v[2] == 'Err':
                    continue
                v = pl(v, 'Ok')
            if v not in vs:
                vs.append(v)
            pairs.append((o.st, v))
        if len(vs) > 1:
            t = one_value(s.e, pairs)
            if t is not None:
                return t
        if len(vs) != 1:
            raise Bad(f'{path} does not give one value on these inputs: {[show(v)[:200] for v in vs]}')
        return vs[0]

    def check(s, rule, path, spec, args=None, keep=None, st=None, min_ok=1, panics=False, pick=None):
        """evaluate a specification on every outcome of an entry point"""
        r, outs = s.outcomes(rule, path, args, keep, st)
        if r is None:
            return
        body = s.e.bodies[r['id']]
        s.judge(rule, f"{body['path']} ({body['file']})", body['path'], outs, spec, min_ok, panics, pick)

    def wire(s, rule, ty, which, spec, arg, min_ok=1, types=True, fl='json', st=None):
        """evaluate a specification on every outcome of serialising ('ser') or deserialising ('de') a type of the
        repository: the value is the Result of the data-model term, or of the deserialised value"""
        from . import wire
        e = s.e
        full = e.adt_info(ty) and ty or next((a['path'] for a in e.A if a['local'] and (a['path'].endswith('::' + ty.split('<')[0]))), None)
        b = wire.local(e, full, which) if full else None
        if b is None:
            s.bad(rule, f'anchor missing: {ty} is not {"de" if which == "de" else ""}serialisable in the analysed program')
            return
        full += ty[ty.index('<'):] if '<' in ty and '<' not in full else ''
        old, e.wire = e.wire, types
        e.cur = []
        try:
            f = wire.ser if which == 'ser' else wire.de
            rs = f(e, st or State(), full, arg, ('ser', fl)) if which == 'ser' else f(e, st or State(), full, ('de', arg, fl))
            outs = [r if isinstance(r, Outcome) else Outcome('ret', e.deep(r[0], r[1]), r[0]) for r in rs]
            body = e.bodies[b]
            e.stats['paths'] += len(outs)
            s.judge(rule, f"{body['path']} ({body['file']})", body['path'], outs, spec, min_ok, False, None)
        finally:
            e.wire = old

    def judge(s, rule, where, label, outs, spec, min_ok, panics, pick):
        cases = oks = npaths = 0
        if pick:
            outs = [o for o in outs if pick(o)]
        for o in outs:
            npaths += 1
            if o.kind == 'limit':
                s.bad(rule, f'not decided: the analysis does not terminate in {o.why[0]}', where)
                continue
            if o.kind == 'panic' and not panics:
                continue
            script = []
            while True:
                q = Q(s.e, o, script)
                cases += 1
                good = True
                try:
                    res = spec(q)
                    if res:
                        oks += 1
                        if len(s.samples) < 6:
                            s.samples.append({'rule': rule, 'entry': label, 'result': show(o.val)[:300], 'calls': [x[0] for x in o.st.ev][:12],
                                              'facts': [f'{show(k)} = {show(v)}'[:160] for k, v in list(q.st.pos.items())[:8]]})
                except Infeasible:
                    pass
                except Exception as b:
                    if not isinstance(b, Bad):
                        if os.environ.get('VERIF_DEBUG'):
                            raise
                        b = Bad(f'not decided: the result has an unexpected form ({type(b).__name__}: {b}): {show(o.val)[:300]}')
                    s.bad(rule, b.what[:1500], where, {
                        'result': show(o.val)[:1500], 'calls': [f'{x[0]}({", ".join(show(y)[:200] for y in x[1])})' for x in o.st.ev],
                        'path': [f'{show(k)} = {show(v)}'[:400] for k, v in q.st.pos.items()] + [f'{show(k)} not in {sorted(show(c) for c in v)}'[:400] for k, v in q.st.neg.items()],
                    })
                    good = False
                # next resolution
                script = script[:q.pos]
                w = q.width
                while script and script[-1] + 1 >= w[len(script) - 1]:
                    script.pop()
                if not script or not good:
                    break
                script[-1] += 1
        if min_ok and oks < min_ok:
            s.bad(rule, f'vacuous: no path of {label} exercises the rule', where)
        s.done(rule, label, paths=npaths, cases=cases, nontrivial=oks)


def mentions(*keys):
    """keep facts about terms in which one of these constants or sub-terms occurs"""
    ks = set(S(k) if isinstance(k, str) else k for k in keys)

    def f(t):
        return any(x in ks for x in walk(t))
    return f
