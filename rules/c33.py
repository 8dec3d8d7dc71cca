from rules.common import *

MP = CR + 'metadata::parameters::wallet::'
FORMATS = MP + 'VpFormatsSupported'
ENDP = MP + 'AuthorizationEndpoint'
SCHEME = PAR + 'ClientIdScheme'
PREF = MP + 'ClientIdPrefixesSupported'
DEREF = f'<{WM} as std::ops::Deref>::deref'
AE, VF, RA, CP = 'authorization_endpoint', 'vp_formats_supported', 'request_object_signing_alg_values_supported', 'client_id_prefixes_supported'
QUICK_ELEMS = 3
TECHNIQUE = 'static dataflow over MIR: JSON view and typed fields of wallet metadata after every constructor, conversion and update, as terms over the inputs'


def view(q, w):
    """the members of the JSON view"""
    return untyped(q.run(DEREF, w))


def typed(q, w):
    return q.run(WM + '::authorization_endpoint', w), q.run(WM + '::vp_formats_supported', w)


def url_of(q, v):
    """a JSON value read as URL, or None"""
    if not q.json(v, 'String'):
        return None
    p = ('app', 'parse', 'url::Url', pl(v, 'String'))
    return pl(p, 'Ok') if q.ok(p) else None


def formats_of(q, v):
    r = next((k[1] for k in q.st.pos if k[0] == 'is' and k[1][:2] == ('app', 'from_value') and 'ClaimFormatDesignation' in k[1][2] and k[1][3] == v), None)
    if r is None:
        return None
    return pl(r, 'Ok') if q.ok(r) else None


def json_formats(q, f):
    """the JSON of a format map, or None when this path has it not serialise"""
    m = f0(f)
    for k in q.st.pos:
        if k[0] == 'is' and k[1][:2] == ('app', 'to_value') and k[1][3] == m:
            return pl(k[1], 'Ok') if q.ok(k[1]) else None
    return ('app', 'value', None, m)


def base_and_puts(q, m, base):
    """members written on top of an existing map"""
    if m == base:
        return {}
    if m[0] == 'obj' and (m[1] == base or base is None and m[1] is None):
        return dict(m[2])
    q.need(False, f'other members are not kept: {show(m)[:300]}')


def members_are(q, m, base, want):
    got = base_and_puts(q, m, base)
    for k in sorted(set(got) | set(want)):
        q.need(k in want, f'member {show(k)} is written too')
        q.need(k in got, f'member {show(k)} is not written')
        w = want[k]
        q.need(got[k] == w or w[:3] == ('app', 'value', None) and got[k][:2] in (('app', 'value'), ('app', 'to_value')) and got[k][3] == w[3], f'member {show(k)}: got {show(got[k])[:200]}, required {show(w)[:200]}')


def jurl(ep):
    return jstr(app('str', f0(ep)))


def check(c):
    O, X, EP, VFS, OTHER = arg('object'), arg('metadata'), arg('endpoint'), arg('formats'), arg('other')

    def create(q):
        m = untyped(O)
        e, f = member(m, AE), member(m, VF)
        ep = url_of(q, pl(e, 'Some')) if q.some(e) else None
        if not q.is_ok:
            return False
        q.need(ep is not None, 'metadata without a well-formed authorization_endpoint is accepted')
        q.need(q.some(f), 'metadata without vp_formats_supported is accepted')
        fs = formats_of(q, pl(f, 'Some'))
        q.need(fs is not None, 'metadata with malformed vp_formats_supported is accepted')
        w = q.okval
        te, tf = typed(q, w)
        q.same(f0(te), ep, 'authorization endpoint')
        q.same(f0(tf), fs, 'supported formats')
        q.same(view(q, w), m, 'JSON view')
        return True
    c.check('from-json', f'<{WM} as std::convert::TryFrom<{UO}>>::try_from', create, [O])

    def complete(q):
        """a complete object is accepted"""
        if q.is_ok:
            return True
        m = untyped(O)
        e, f = member(m, AE), member(m, VF)
        if q.some(e) and url_of(q, pl(e, 'Some')) is not None and q.some(f):
            q.need(formats_of(q, pl(f, 'Some')) is None, 'complete metadata is refused')
        return False
    c.check('from-json-complete', f'<{WM} as std::convert::TryFrom<{UO}>>::try_from', complete, [O])

    def new(q):
        w = q.val
        te, tf = typed(q, w)
        q.same(te, EP, 'authorization endpoint')
        q.same(tf, VFS, 'supported formats')
        jf = json_formats(q, VFS)
        if jf is None:
            return False
        members_are(q, view(q, w), untyped(pl(OTHER, 'Some')) if q.some(OTHER) else None, {S(AE): jurl(EP), S(VF): jf})
        return True
    c.check('new', WM + '::new', new, [EP, VFS, OTHER], min_ok=2)

    def out(q):
        te, tf = typed(q, X)
        jf = json_formats(q, tf)
        if jf is None:
            return False
        members_are(q, untyped(q.val), view(q, X), {S(AE): jurl(te), S(VF): jf})
        return True
    c.check('to-json', f'<impl std::convert::From<{WM}> for {UO}>::from', out, [X])

    def place(q):
        """the formats given out for change are the ones the accessor reports"""
        q.same(q.val, typed(q, X)[1], 'the formats given out for change')
        q.same(q.after('metadata'), X, 'metadata after giving out its formats')
        return True
    c.check('mutable-view', WM + '::vp_formats_supported_mut', place, [mut('metadata', X)])

    # serde goes through the same conversions
    def ser(q):
        if not q.is_ok:
            return False
        j = q.okval
        te, tf = typed(q, X)
        jf = json_formats(q, tf)
        if jf is None:
            return False
        q.need(j[0] == 'adt' and j[2] == 'Object', f'not written as an object: {show(j)[:200]}')
        members_are(q, j[3][0], view(q, X), {S(AE): jurl(te), S(VF): jf})
        return True
    c.wire('serialize', 'WalletMetadata', 'ser', ser, X, types=('WalletMetadata', 'UntypedObject'))

    J = arg('json')

    def de(q):
        if not q.is_ok or not q.json(J, 'Object'):
            return False
        w = q.okval
        m = pl(J, 'Object')
        e, f = member(m, AE), member(m, VF)
        q.need(q.some(e) and q.some(f), 'incomplete metadata is accepted')
        te, tf = typed(q, w)
        q.same(f0(te), url_of(q, pl(e, 'Some')) or S(''), 'authorization endpoint')
        q.same(f0(tf), formats_of(q, pl(f, 'Some')) or S(''), 'supported formats')
        q.same(view(q, w), m, 'JSON view')
        return True
    c.wire('deserialize', 'WalletMetadata', 'de', de, J, types=('WalletMetadata', 'UntypedObject'))

    # additions
    def added(q, key, extra, default):
        old = view(q, X)
        o = member(old, key)
        x = pl(o, 'Some')
        if q.some(o):
            sl = StrList(q, x)
            if not q.is_ok:
                q.same(q.after('metadata'), X, 'metadata after a failed addition')
                return False
            q.need(sl.wellformed(), f'a malformed {key} is overwritten')
        else:
            q.need(q.is_ok, f'adding to an absent {key} fails')
        n = q.after('metadata')
        got = base_and_puts(q, view(q, n), old)
        q.need(set(got) == {S(key)}, f'members {[show(k) for k in got]} are written')
        for a, b, w in zip(typed(q, n), typed(q, X), (AE, VF)):
            q.same(a, b, w)
        l = got[S(key)]
        if l[:2] == ('app', 'value') and q.st.val(l) is None:
            parts = l[3][1] if l[3][0] == 'seq' else (l[3],)
            new = [y for p in parts if p[0] == 'arr' for y in p[1]]
            whole = [p for p in parts if p[0] != 'arr']
            need = (([] if sl.coll is None else [sl.coll]) if q.some(o) else []) 
            q.need(parts[:len(whole)] == tuple(whole) and whole == need and [jstr(y) for y in new] == ([] if q.some(o) else default) + extra(q), f'{key} becomes {show(l)[:200]}')
            return True
        q.need(l[0] == 'adt' and l[2] == 'Array' and l[3][0][0] in ('arr', 'seq'), f'{key} is not written as a list: {show(l)[:200]}')
        l = list(l[3][0][1])
        if q.some(o):
            if sl.fv:
                pre = [jstr(('el', sl.coll, i)) for i in range(length(q, sl.coll))]
            else:
                a = pl(x, 'Array')
                pre = [jstr(pl(('el', a, i), 'String')) for i in range(length(q, a))]
        else:
            pre = default
        want = pre + extra(q)
        q.need(l == want, f'{key} becomes {[show(y)[:80] for y in l]}, required {[show(y)[:80] for y in want]}')
        return True
    ALG, PS = arg('alg'), arg('prefixes')
    c.check('add-algorithm', WM + '::add_request_object_signing_alg_values_supported', lambda q: added(q, RA, lambda q: [jstr(app('str', ALG))], []), [mut('metadata', X), ALG], min_ok=2)
    d = c.value('default', f'<{PREF} as std::default::Default>::default')
    c.check('add-prefixes', WM + '::add_client_id_prefixes_supported', lambda q: added(q, CP, lambda q: [jstr(f0(('el', PS, i))) for i in range(length(q, PS))], [jstr(f0(y)) for y in f0(d)[1]]), [mut('metadata', X), PS], min_ok=2)


def length(q, coll):
    return q.count(coll)
