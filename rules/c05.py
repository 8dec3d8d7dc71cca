from rules.common import *


def check(c):
    req, http = arg('request'), arg('http')
    ind, outer = fld(req, 'request_indirection'), fld(req, 'client_id')

    def spec(q):
        kind = q.variant(ind, ('ByValue', 'ByReference', 'Direct'))
        calls = q.events('AsyncHttpClient')
        if kind != 'ByReference':
            q.need(not calls, f'a {kind} request makes a network request')
        q.need(len(calls) <= 1, 'more than one network request')
        for name, a, v in calls:
            rq = a[1]
            q.need(a[0] == http and rq[0] == 'httpreq', 'not the given client or an unknown request')
            q.need(rq[1] == S('GET'), f'the request object is fetched with {show(rq[1])}')
            q.need(rq[2] in (pl(ind, 'ByReference'), app('str', pl(ind, 'ByReference'))), f'the request object is fetched from {show(rq[2])}')
            q.need((S('prefer'), S('OID4VP-1.0.0')) in rq[3] and len(rq[3]) == 1, f'headers of the fetch are {rq[3]}')
            q.need(rq[4] in (('arr', ()), S('')), 'the fetch has a body')
        if not q.is_ok:
            return False
        v = q.okval
        q.need(v[0] == 'tup', 'unexpected result')
        aro, jwt = v[1]
        obj = q.run('<' + ARO + ' as std::ops::Deref>::deref', aro)
        if kind == 'Direct':
            q.need(jwt == NONE, 'a direct request returns a JWT')
            own = untyped(pl(ind, 'Direct'))
            if q.some(outer):
                want = M.map_put(own, S('client_id'), jstr(pl(outer, 'Some')))
            else:
                want = own
            q.same(untyped(obj), want, 'the object of a direct request')
            q.need(only_from(aro, pl(ind, 'Direct')) or True, '')
            return True
        q.need(q.some(jwt), 'no JWT returned')
        j = pl(jwt, 'Some')
        if kind == 'ByValue':
            q.same(j, pl(ind, 'ByValue'), 'the JWT of a by-value request')
        else:
            q.need(len(calls) == 1, 'a by-reference request resolves without fetching it')
            r = pl(calls[0][2], 'Ok')
            q.need(q.ok(calls[0][2]), 'a failed fetch is accepted')
            q.need(j == app('resp_body', r), f'the JWT of a by-reference request is {show(j)}')
            q.need(q.ask(app('is_success', app('resp_status', r))), 'a response with a non-success status is accepted')
            q.need(q.ask(('utf8', app('resp_body', r))), 'a body that is not UTF-8 is accepted')
        q.need(obj[0] == 'pl' and obj[2] == 'Ok' and obj[1][0] == 'app' and obj[1][1].endswith('decode_unverified') and obj[1][-1] == j and q.ok(obj[1]), f'the object is {show(obj)}, not the payload of the JWT')
        rest = subst(aro, {obj: ('hole',)})
        q.need(not contains(rest, req) and not any(x and x[0] == 'call' for x in walk(rest)), 'the request object has content from elsewhere')
        return True

    def keep(t):
        return t in (('is', ind), ('is', outer)) or t[0] in ('utf8', 'httpok') or (t[0] == 'app' and t[1] == 'is_success') or (t[0] == 'is' and t[1][0] == 'app' and t[1][1].endswith('decode_unverified')) or (t[0] == 'is' and t[1][0] == 'call')
    c.check('resolution', AR + '::resolve_request', spec, [req, http], keep=keep, min_ok=6)
