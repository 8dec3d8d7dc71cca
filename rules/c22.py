from rules.submit import *

R = CR + 'response::'
UN, JW = R + 'UnencodedAuthorizationResponse', R + 'JwtAuthorizationResponse'
VP = R + 'parameters::VpToken'
X, BODY, OBJ = arg('response'), arg('body'), arg('object')


def fields(q, t):
    """members of a form text built by the library"""
    q.need(t[:2] == ('app', 'formenc') and t[2][0] == 'obj' and t[2][1] is None, f'not the form encoding of known fields: {show(t)[:300]}')
    return dict(t[2][2])


def check(c):
    c.e.wire = True

    def plain(q):
        if not q.is_ok:
            return False
        m = fields(q, q.okval)
        v = q.ser(VP, sf(q.e, X, 'vp_token'))
        q.need(q.ok(v), 'a token that does not serialise is sent')
        want = {S('vp_token'): jstr(app('json', pl(v, 'Ok')))}
        st = sf(q.e, X, 'state')
        if q.some(st):
            want[S('state')] = jstr(f0(pl(st, 'Some')))
        for k in sorted(set(m) | set(want)):
            q.need(k in want, f'the form has an extra field {show(k)}')
            q.need(k in m, f'the form lacks {show(k)}')
            q.same(m[k], want[k], f'field {show(k)}')
        back = q.run(AUTHZ + '::from_x_www_form_urlencoded', q.okval)
        q.need(q.ok(back), 'the form does not decode')
        b = pl(back, 'Ok')
        q.need(q.variant(b, ('Unencoded', 'Jwt')) == 'Unencoded', 'the form decodes as an encrypted response')
        b = pl(b, 'Unencoded')
        q.same(f0(sf(q.e, b, 'vp_token')), f0(sf(q.e, X, 'vp_token')), 'token after encoding and decoding')
        q.same(sf(q.e, b, 'state'), sf(q.e, X, 'state'), 'state after encoding and decoding')
        return True
    c.check('encode-plain', UN + '::into_x_www_form_urlencoded', plain, [X], min_ok=2)

    def jwt(q):
        if not q.is_ok:
            return False
        m = fields(q, q.okval)
        q.need(set(m) == {S('response')}, f'the form has fields {[show(k) for k in m]}')
        q.same(m[S('response')], jstr(sf(q.e, X, 'response')), "field 'response'")
        back = q.run(AUTHZ + '::from_x_www_form_urlencoded', q.okval)
        q.need(q.ok(back), 'the form does not decode')
        b = pl(back, 'Ok')
        q.need(q.variant(b, ('Unencoded', 'Jwt')) == 'Jwt', 'the form decodes as a plain response')
        q.same(sf(q.e, pl(b, 'Jwt'), 'response'), sf(q.e, X, 'response'), 'response after encoding and decoding')
        return True
    c.check('encode-encrypted', JW + '::into_x_www_form_urlencoded', jwt, [X])

    def decode(q):
        m = app('form_map', BODY)

        def text(name):
            o = member(m, name)
            if not q.some(o):
                return None
            q.st.pos[('is', pl(o, 'Some'))] = S('String')
            return pl(pl(o, 'Some'), 'String')
        r = text('response')
        if r is not None:
            q.need(q.is_ok, 'a form with a response field is refused')
            q.need(q.variant(q.okval, ('Unencoded', 'Jwt')) == 'Jwt', "a form with 'response' is read as a plain response")
            q.same(sf(q.e, pl(q.okval, 'Jwt'), 'response'), r, 'response')
            return True
        t = text('vp_token')
        tok = None
        if t is not None:
            j = ('app', 'json_parse', '', t)
            if q.ok(j):
                tok = q.de(VP, pl(j, 'Ok'))
                tok = pl(tok, 'Ok') if q.ok(tok) else None
        if tok is None:
            q.need(not q.is_ok, 'a form with neither a response nor a readable vp_token is accepted')
            return True
        q.need(q.is_ok, 'a well-formed plain response is refused')
        q.need(q.variant(q.okval, ('Unencoded', 'Jwt')) == 'Unencoded', "a form without 'response' is read as encrypted")
        v = pl(q.okval, 'Unencoded')
        q.same(f0(sf(q.e, v, 'vp_token')), f0(tok), 'token')
        s = text('state')
        q.same(sf(q.e, v, 'state'), NONE if s is None else SOME(adt(PAR + 'State', 'State', s)), 'state')
        return True
    c.check('decode', AUTHZ + '::from_x_www_form_urlencoded', decode, [BODY], min_ok=4)

    def obj(q):
        if not q.is_ok:
            return False
        m = untyped(OBJ)
        o = member(m, 'vp_token')
        q.need(q.some(o), 'an object without vp_token is accepted')
        tok = q.de(VP, pl(o, 'Some'))
        q.need(q.ok(tok), 'an object with an unreadable vp_token is accepted')
        q.same(f0(sf(q.e, q.okval, 'vp_token')), f0(pl(tok, 'Ok')), 'token')
        s = member(m, 'state')
        if q.some(s) and not q.json(pl(s, 'Some'), 'Null'):
            t = jstring(q, s)
            q.need(t is not None, 'a malformed state is accepted')
            q.same(sf(q.e, q.okval, 'state'), SOME(adt(PAR + 'State', 'State', t)), 'state')
        else:
            q.need(not q.some(sf(q.e, q.okval, 'state')), 'a state that the object does not have')
        return True
    c.check('object', f'<{UN} as std::convert::TryFrom<{UO}>>::try_from', obj, [OBJ], min_ok=2)

    def build(state):
        def f(q):
            v = q.val
            q.same(sf(q.e, v, 'vp_token'), arg('token'), 'token')
            q.same(sf(q.e, v, 'state'), state, 'state')
            q.same(q.run(UN + '::vp_token', v), arg('token'), 'token read back')
            q.same(q.run(UN + '::state', v), state, 'state read back')
            return True
        return f
    c.check('build', UN + '::new', build(NONE), [arg('token')])
    c.check('build-with-state', UN + '::with_state', build(SOME(arg('state'))), [arg('token'), arg('state')])

    # the JSON form (Digital Credentials API): the same members, the token as an object, and it reads back
    def members(q, v):
        q.need(v[0] == 'adt' and v[2] == 'Object' and v[3][0][0] == 'obj' and v[3][0][1] is None, f'not a JSON object of known members: {show(v)[:300]}')
        return dict(v[3][0][2])

    def json_plain(q, x):
        if not q.is_ok:
            return False
        m = members(q, q.okval)
        v = q.ser(VP, sf(q.e, x, 'vp_token'))
        q.need(q.ok(v), 'a token that does not serialise is written')
        want = {S('vp_token'): pl(v, 'Ok')}
        st = sf(q.e, x, 'state')
        if q.some(st):
            want[S('state')] = jstr(f0(pl(st, 'Some')))
        for k in sorted(set(m) | set(want)):
            q.need(k in want, f'the JSON form has an extra member {show(k)}')
            q.need(k in m, f'the JSON form lacks {show(k)}')
            q.same(m[k], want[k], f'member {show(k)}')
        return True

    def json_jwt(q, x):
        if not q.is_ok:
            return False
        m = members(q, q.okval)
        q.need(set(m) == {S('response')}, f'the JSON form has members {[show(k) for k in m]}')
        q.same(m[S('response')], jstr(sf(q.e, x, 'response')), "member 'response'")
        return True

    def un_json(q):
        if not json_plain(q, X):
            return False
        back = q.de(UN, q.okval)
        q.need(q.ok(back), 'the JSON form does not decode')
        b = pl(back, 'Ok')
        q.same(f0(sf(q.e, b, 'vp_token')), f0(sf(q.e, X, 'vp_token')), 'token after encoding and decoding')
        q.same(sf(q.e, b, 'state'), sf(q.e, X, 'state'), 'state after encoding and decoding')
        return True

    def jw_json(q):
        if not json_jwt(q, X):
            return False
        back = q.de(JW, q.okval)
        q.need(q.ok(back), 'the JSON form does not decode')
        q.same(sf(q.e, pl(back, 'Ok'), 'response'), sf(q.e, X, 'response'), 'response after encoding and decoding')
        return True

    def any_json(q):
        if q.variant(X, ('Unencoded', 'Jwt')) == 'Unencoded':
            if not json_plain(q, pl(X, 'Unencoded')):
                return False
            back = q.de(AUTHZ, q.okval)
            q.need(q.ok(back) and q.variant(pl(back, 'Ok'), ('Unencoded', 'Jwt')) == 'Unencoded', 'the JSON form of a plain response does not read back as one')
            b = pl(pl(back, 'Ok'), 'Unencoded')
            q.same(f0(sf(q.e, b, 'vp_token')), f0(sf(q.e, pl(X, 'Unencoded'), 'vp_token')), 'token after encoding and decoding')
            q.same(sf(q.e, b, 'state'), sf(q.e, pl(X, 'Unencoded'), 'state'), 'state after encoding and decoding')
            return True
        if not json_jwt(q, pl(X, 'Jwt')):
            return False
        back = q.de(AUTHZ, q.okval)
        q.need(q.ok(back) and q.variant(pl(back, 'Ok'), ('Unencoded', 'Jwt')) == 'Jwt', 'the JSON form of an encrypted response does not read back as one')
        q.same(sf(q.e, pl(pl(back, 'Ok'), 'Jwt'), 'response'), sf(q.e, pl(X, 'Jwt'), 'response'), 'response after encoding and decoding')
        return True
    c.wire('json-plain', UN, 'ser', un_json, X, min_ok=2)
    c.wire('json-encrypted', JW, 'ser', jw_json, X)
    c.wire('json-any', AUTHZ, 'ser', any_json, X, min_ok=3)
