from rules.vsetup import *

DQ = CR + 'dcql_query::DcqlQuery'


def request_spec(q, uuid, params):
    """the object that was signed carries identity, query and reply address; everything else is the caller's"""
    sign = q.events('Client::generate_request_object_jwt')
    q.need(len(sign) == 1, f'a request is returned after {len(sign)} signing operations')
    q.need(sign[0][1][0] == CLIENT, 'the request is signed by another client than the configured one')
    q.need(q.ok(sign[0][2]), 'a request is returned although signing failed')
    aro = sign[0][1][1]
    m = as_map(q, aro)
    ids = q.events('Client::id')
    q.need(ids and all(x[1][0] == CLIENT for x in ids), 'the client_id is not asked from the configured client')
    cid = f0(ids[-1][2])
    q.same(member(m, 'client_id'), SOME(jstr(cid)), 'client_id of the request')
    q.same(member(m, 'dcql_query'), SOME(q.run(into_json(DQ), QUERY)), 'dcql_query of the request')
    rm, rt = member(m, 'response_mode'), member(m, 'response_type')
    q.need(q.some(rt) and q.ok(q.run(try_from_json(PAR + 'ResponseType'), pl(rt, 'Some'))), 'a request is built without a readable response_type')
    q.need(q.some(rm), 'a request is built without a response_mode')
    mode = q.run(try_from_json(PAR + 'ResponseMode'), pl(rm, 'Some'))
    q.need(q.ok(mode), 'a request is built with an unreadable response_mode')
    mode = q.variant(pl(mode, 'Ok'), ('DirectPost', 'DirectPostJwt', 'DcApi', 'DcApiJwt', 'Unsupported'))
    q.need(mode != 'Unsupported', 'a request is built with an unsupported response_mode')
    keys = ['client_id', 'dcql_query']
    if mode.startswith('Direct'):
        keys.append('response_uri')
        want = app('seg_push', SUBMIT, app('str', uuid))
        q.same(member(m, 'response_uri'), SOME(jstr(app('str', want))), 'response_uri of the request')
    q.need(only_keys(m, untyped(params), keys), f'parameters besides {keys} are not the caller\'s: {show(m)[:600]}')
    again = q.run('<' + ARO + ' as std::convert::TryFrom<' + UO + '>>::try_from', adt(UO, 'UntypedObject', m))
    q.need(q.ok(again), 'the signed object does not parse as a request object')
    parsed = pl(again, 'Ok')
    for g in ('client_id', 'response_mode', 'response_type', 'return_uri', 'nonce'):
        q.same(q.run(ARO + '::' + g, aro), q.run(ARO + '::' + g, parsed), f'{g} of the signed object')
    return aro, pl(sign[0][2], 'Ok'), cid


def keep(t):
    if t[0] == 'is' and t[1][0] == 'call':
        return True
    return any(x in (S('response_mode'), S('response_type'), S('nonce'), S('response_uri'), S('redirect_uri')) or x[:1] == ('app',) and x[1] in ('seg_push', 'str', 'parse', 'url_parse') for x in walk(t))


def entries(c):
    for byref in (False, True):
        b = builder(c, byref)
        yield byref, RB + '::build_with_session_id', [b, arg('uuid'), arg('wallet_metadata')], lambda q: (arg('uuid'), q.okval)
        yield byref, RB + '::build', [b, arg('wallet_metadata')], lambda q: (pairs(q)[0], pairs(q)[1])
        yield byref, RB + '::build_dc_api', [b], lambda q: (pairs(q)[0], pairs(q)[1])


def pairs(q):
    v = q.okval
    q.need(v[0] == 'tup' and len(v[1]) == 2, 'unexpected result')
    return v[1]


def check(c):
    for byref, path, args, res in entries(c):
        def spec(q):
            if not q.is_ok:
                return False
            uuid, _ = res(q)
            request_spec(q, uuid, PARAMS)
            return True
        c.check('identity-query-address', path, spec, args, keep=keep, min_ok=2)

    def noq(q):
        q.need(not q.is_ok, 'a request is built without a query')
        return True
    b = builder(c, False, query=False)
    for path, args in ((RB + '::build_with_session_id', [b, arg('uuid'), arg('wm')]), (RB + '::build', [b, arg('wm')]), (RB + '::build_dc_api', [b])):
        c.check('query-required', path, noq, args, keep=keep)
