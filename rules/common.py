"""Anchors and terms shared by the rules.  Anchors are public items of the crate."""
from engine.terms import *
from engine.rules import mentions, Bad, mut
from engine import models as M

CR = 'openid4vp::core::'
AR = CR + 'authorization_request::AuthorizationRequest'
ARO = CR + 'authorization_request::AuthorizationRequestObject'
PAR = CR + 'authorization_request::parameters::'
UO = CR + 'object::UntypedObject'
RI = CR + 'authorization_request::RequestIndirection'
WM = CR + 'metadata::WalletMetadata'
VER = 'openid4vp::verifier::'
HOOKS = ('decentralized_identifier', 'openid_federation', 'redirect_uri', 'verifier_attestation', 'x509_san_dns', 'x509_hash')


def arg(n):
    return ('arg', n)


def f0(t):
    """content of a one-field wrapper"""
    return t[3][0] if t[0] == 'adt' else fld(t, '0')


def member(obj, name):
    """Option term of a member of a JSON object map"""
    return M.map_get(obj, S(name))


def untyped(t):
    """JSON map inside an UntypedObject"""
    return f0(t)


def is_fact(*keys):
    """variant facts about terms mentioning a key, plus everything about the given terms"""
    m = mentions(*keys)
    return lambda t: t[0] == 'is' and m(t)


def either(*fs):
    return lambda t: any(f(t) for f in fs)


def jstring(q, o):
    """text of an Option<JSON value> that must be a string, or None"""
    if not q.some(o):
        return None
    v = pl(o, 'Some')
    return pl(v, 'String') if q.json(v, 'String') else None


def prefix_of(q, cid):
    """Client Identifier Prefix (a term) of a client_id text, or None"""
    return M.before(cid, S(':')) if q.ask(M.has_term(cid, S(':'))) else None


def only_from(t, src, *others):
    """the term is computed from src and from none of the other sources"""
    hole = ('hole',)
    r = subst(t, {src: hole})
    return contains(r, hole) and not any(contains(r, o) for o in others)


def header(jwt):
    """the JOSE header map of a compact JWS, as the library decodes it"""
    return None


def about_cid(t):
    return any(x == S('client_id') or (x[0] == 'fld' and x[2] == 'client_id') for x in walk(t) if x)


class StrList:
    """a JSON value used as a list of strings: which evidence the path has about it"""

    def __init__(s, q, x):
        s.q, s.x, s.fv = q, x, None
        for k, v in q.st.pos.items():
            if k[0] == 'is' and k[1][0] == 'app' and k[1][1] == 'from_value' and k[1][2].startswith('std::vec::Vec<') and k[1][3] == x:
                s.fv = k[1]
        s.coll = pl(s.fv, 'Ok') if s.fv else None

    def wellformed(s):
        q = s.q
        if s.fv:
            return q.ok(s.fv)
        if not q.json(s.x, 'Array'):
            return False
        a = pl(s.x, 'Array')
        for k in range(q.e.ELEMS):
            if not q.ask(M.has_index(a, k)):
                break
            if not q.json(('el', a, k), 'String'):
                return False
        return True

    def contains(s, t):
        q = s.q
        if s.fv:
            return q.isin(s.coll, t)
        a = pl(s.x, 'Array')
        for k in range(q.e.ELEMS):
            if not q.ask(M.has_index(a, k)):
                return False
            if q.json(('el', a, k), 'String') and q.eq(pl(('el', a, k), 'String'), t):
                return True
        return False


def headers_of(jwt):
    """terms that denote the decoded JOSE header (a JSON object map) of a compact JWS"""
    segs = [fld(pl(('app', 'ssi_claims::ssi_jws::split_jws', 'std::result::Result<(&str, &str, &str), ssi_claims::ssi_jws::Error>', jwt), 'Ok'), '0'), M.before(jwt, S('.'))]
    return segs


def header_member(q, jwt, name):
    """all texts/values the path holds as the named member of the JWT's JOSE header: Option terms"""
    out = []
    for t in list(q.st.pos) + list(q.st.neg):
        for x in walk(t):
            if x and x[0] == 'get' and x[2] == S(name) and is_header(x[1], jwt) and x not in out:
                out.append(x)
    return out


def is_header(m, jwt):
    """is the map term m the JSON object in the first segment of jwt (base64url, unpadded)"""
    # strip .Object, .Ok of json parse
    segs = headers_of(jwt)
    if m[0] == 'pl' and m[2] == 'Object':
        m = m[1]
    if m[0] == 'fld' and m[2] == '0':
        m = m[1]
    if m[0] == 'pl' and m[2] == 'Ok' and m[1][0] == 'app' and m[1][1] in ('json_parse', 'from_slice', 'from_str'):
        b = m[1][-1]
        if b[0] == 'pl' and b[2] == 'Ok' and b[1][0] == 'app' and b[1][1] == 'b64dec':
            return b[1][2] == ('b64', 'URL_SAFE_NO_PAD') and b[1][3] in segs
    return False


def sf(e, v, name):
    """named field of a struct value"""
    if v[0] == 'adt':
        info = e.adt_info(v[1])
        for var in info['variants']:
            if var['name'] == v[2]:
                for i, f in enumerate(var['fields']):
                    if (f['name'] if isinstance(f, dict) else f) == name:
                        return v[3][i]
        raise Bad(f'{v[1]} has no field {name}')
    return fld(v, name)


def try_from_json(ty):
    return f'<{ty} as std::convert::TryFrom<serde_json::Value>>::try_from'


def into_json(ty):
    return f'<impl std::convert::From<{ty}> for serde_json::Value>::from'


def as_map(q, aro):
    """the JSON map of a request object, through its public view"""
    return untyped(q.run('<' + ARO + ' as std::ops::Deref>::deref', aro))


def only_keys(m, base, keys):
    """the map m is base with at most these members changed"""
    while m != base:
        if m[0] != 'obj':
            return False
        if any(k not in [S(x) for x in keys] for k, _ in m[2]):
            return False
        m = m[1]
        if m is None:
            return base is None
    return True


def whole(x):
    """an iterator over a list that has not been advanced, as the list"""
    if x[0] == 'it' and x[1] == 'src' and x[3] in (0, N(0)):
        return x[2]
    return x


class summarised:
    """while active, calls of these local functions are left as terms ('app', path, args...); another rule decides the function itself"""

    def __init__(s, c, *paths):
        s.c, s.paths = c, paths

    def __enter__(s):
        for p in s.paths:
            if s.c.e.root(p) is None:
                raise Bad('anchor missing: ' + p)
            M.LOCAL[p] = lambda e, st, f, a, o, p=p: [(st, ('app', p) + tuple(whole(e.deep(st, x)) for x in a))]

    def __exit__(s, *a):
        for p in s.paths:
            M.LOCAL.pop(p, None)
