from rules.common import *
import json

ISO = CR + 'iso_18013_7::'
JWK = arg('jwk')
KINDS = {'EC': ('crv', 'kty', 'x', 'y'), 'RSA': ('e', 'kty', 'n')}
TECHNIQUE = 'static dataflow over MIR: the hashed text as a term over the members of the JWK, compared with the RFC 7638 canonical form of each key type'


def pieces(v):
    """a JSON data-model term as text: list of constants and json(value) terms"""
    if v[0] == 'adt' and v[1] == JV and v[2] == 'String':
        if v[3][0][0] == 's':
            return [S(json.dumps(v[3][0][1], ensure_ascii=False))]
        return [app('json', v)]
    if v[0] == 'adt' and v[1] == JV and v[2] == 'Object' and v[3][0][0] == 'obj' and v[3][0][1] is None:
        return members(v[3][0][2])
    if v[:2] == ('app', 'value') and 'BTreeMap<' in v[2] and v[3][0] == 'obj' and v[3][1] is None:
        return members(sorted((k, jstr(x)) for k, x in v[3][2]))
    return [app('json', v)]


def members(kvs):
    out = [S('{')]
    for i, (k, v) in enumerate(kvs):
        out += [S(',')] * (i > 0) + pieces(jstr(k)) + [S(':')] + pieces(v)
    return out + [S('}')]


def text(t):
    """a text term with JSON serializations spelled out"""
    if t[:2] == ('app', 'json'):
        return cat(*pieces(t[2]))
    if t[0] == 'cat':
        return cat(*[text(x) for x in t[1]])
    return t


def string(q, v, name):
    """text of a string member of a JSON object"""
    return jstring(q, member(pl(v, 'Object'), name)) if q.json(v, 'Object') else None


def thumbprint(q, v):
    """the thumbprint RFC 7638 gives the JWK (a JSON value term), or None"""
    kty = string(q, v, 'kty')
    if kty is None:
        return None
    for name, ms in KINDS.items():
        if q.eq(kty, S(name)):
            vals = [(m, S(name) if m == 'kty' else string(q, v, m)) for m in ms]
            if any(x is None for _, x in vals):
                return None
            return app('digest', 'sha256', cat(*members([(S(m), jstr(x)) for m, x in vals])))
    return None


def digest(t):
    while t[0] == 'app' and t[1] in ('from', 'into', 'try_from') or t[0] == 'pl' and t[2] == 'Ok':
        t = t[1] if t[0] == 'pl' else t[-1]
    if t[:3] == ('app', 'digest', 'sha256') or t[:2] == ('app', 'digest'):
        return t[:3] + (text(t[3]),)
    return t


def check(c):
    M.ORDER = True

    def spec(q):
        want = thumbprint(q, JWK)
        if want is None:
            q.need(not q.is_ok, 'a JWK of another key type or without all required string members has a thumbprint')
            return False
        q.need(q.is_ok, 'a JWK with all required members has no thumbprint')
        q.same(digest(q.norm(q.okval)), q.norm(want), 'thumbprint')
        return True
    try:
        c.check('rfc7638', ISO + 'compute_jwk_thumbprint', spec, [JWK], min_ok=2)
    finally:
        M.ORDER = False
