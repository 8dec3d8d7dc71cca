from rules.common import *

OBJ = arg('object')
MODES = {'direct_post': 'DirectPost', 'direct_post.jwt': 'DirectPostJwt', 'dc_api': 'DcApi', 'dc_api.jwt': 'DcApiJwt'}
TYPES = {'vp_token': 'VpToken', 'vp_token id_token': 'VpTokenIdToken'}
RM, RT = PAR + 'ResponseMode', PAR + 'ResponseType'


def const(q, t, table):
    """the text as one of the constants, or None when it is another one"""
    for k in table:
        if q.eq(t, S(k)):
            return k
    return None


def check(c):
    def spec(q):
        if not q.is_ok:
            return False
        m = untyped(OBJ)
        g = lambda n: member(m, n)
        aro = q.okval
        acc = lambda n: q.run(ARO + '::' + n, aro)
        nonce = jstring(q, g('nonce'))
        q.need(nonce is not None, 'a request object without a string nonce is accepted')
        q.same(f0(acc('nonce')), nonce, 'nonce')
        rt = jstring(q, g('response_type'))
        q.need(rt is not None, 'a request object without a string response_type is accepted')
        k = const(q, rt, TYPES)
        want = adt(RT, TYPES[k]) if k else adt(RT, 'Unsupported', rt)
        q.same(acc('response_type'), want, 'response_type')
        idt = acc('is_id_token_requested')
        q.same(idt, NONE if k is None else SOME(B(k != 'vp_token')), 'is_id_token_requested')
        mode = 'direct_post'
        if q.some(g('response_mode')):
            t = jstring(q, g('response_mode'))
            q.need(t is not None, 'a response_mode that is not a string is accepted')
            mode = const(q, t, MODES)
            q.need(mode, 'an unsupported response_mode is accepted')
        q.same(acc('response_mode'), adt(RM, MODES[mode]), 'response_mode')
        q.need(not (q.some(g('response_uri')) and q.some(g('redirect_uri'))), 'response_uri and redirect_uri are both accepted')
        if mode.startswith('direct_post'):
            u = jstring(q, g('response_uri'))
            q.need(u is not None, 'direct_post without a string response_uri is accepted')
            r = ('app', 'parse', 'url::Url', u)
            q.need(q.ok(r), 'direct_post with a response_uri that is not a URL is accepted')
            q.same(acc('return_uri'), pl(r, 'Ok'), 'the place to send the response')
        else:
            q.need(not q.some(g('response_uri')) and not q.some(g('redirect_uri')), f'{mode} with a response_uri or redirect_uri is accepted')
        cid = None
        if q.some(g('client_id')):
            cid = jstring(q, g('client_id'))
            q.need(cid is not None, 'a client_id that is not a string is accepted')
        got = acc('client_id')
        if cid is None:
            q.need(not q.some(got), 'a client_id is reported for a request without one')
            q.need(not q.some(acc('client_id_scheme')), 'a prefix is reported for a request without client_id')
        else:
            q.need(q.some(got), 'the client_id is not reported')
            q.same(f0(pl(got, 'Some')), cid, 'client_id')
            p = prefix_of(q, cid)
            s = acc('client_id_scheme')
            if p is None:
                q.need(not q.some(s), 'a prefix is reported for a client_id without one')
            else:
                q.need(q.some(s), 'the prefix of the client_id is not reported')
                q.same(f0(pl(s, 'Some')), p, 'the prefix of the client_id')
        q.same(as_map(q, aro), m, 'the parameters of the parsed object')
        return True
    c.check('parse', f'<{ARO} as std::convert::TryFrom<{UO}>>::try_from', spec, [OBJ], min_ok=8)

    # handing the object on keeps exactly its parameters
    def spec2(q):
        q.same(untyped(q.val), untyped(q.run('<' + ARO + ' as std::ops::Deref>::deref', arg('aro'))), 'the parameters of an object turned back into a parameter set')
        return True
    c.check('back', f'<impl std::convert::From<{ARO}> for {UO}>::from', spec2, [arg('aro')])
