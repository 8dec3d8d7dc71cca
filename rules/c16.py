from rules.c15 import *

WME = CR + 'metadata::parameters::wallet::AuthorizationEndpoint'


def check(c):
    e = c.e
    for byref, path, args, res in entries(c):
        dc = path.endswith('dc_api')

        def spec(q):
            if not q.is_ok:
                return False
            uuid, out = res(q)
            if not path.endswith('with_session_id'):
                fresh = [x[2] for x in q.events('Uuid::new_v4')]
                q.need(uuid in fresh, f'the session id {show(uuid)} is not a fresh random one')
            ini = q.events('SessionStore::initiate')
            q.need(len(ini) == 1, f'a request is handed out after storing {len(ini)} sessions')
            q.need(not q.events('SessionStore::update_status', 'SessionStore::remove_session'), 'building changes a stored session')
            a, v = ini[0][1], ini[0][2]
            q.need(a[0] == STORE, 'the session goes to another store than the configured one')
            q.need(q.ok(v), 'a request is handed out although the store refused the session')
            s = a[1]
            sign = q.events('Client::generate_request_object_jwt')
            q.need(len(sign) == 1 and q.ok(sign[0][2]), 'no signed request')
            aro, jwt = sign[0][1][1], pl(sign[0][2], 'Ok')
            q.same(sf(e, s, 'uuid'), uuid, 'id of the stored session')
            q.same(sf(e, s, 'authorization_request_jwt'), jwt, 'JWT of the stored session')
            q.same(sf(e, s, 'authorization_request_object'), aro, 'request object of the stored session')
            q.same(sf(e, s, 'dcql_query'), QUERY, 'query of the stored session')
            ref = byref and not dc
            st = sf(e, s, 'status')
            q.need(st[0] == 'adt' and st[2] == ('SentRequestByReference' if ref else 'SentRequest'), f'status of the stored session is {show(st)}')
            if dc:
                q.same(out, jwt, 'the returned request')
                return True
            cid = f0(q.events('Client::id')[-1][2])
            ind = adt(RI, 'ByReference', app('seg_push', AT, app('str', uuid))) if ref else adt(RI, 'ByValue', jwt)
            ar = adt(AR, 'AuthorizationRequest', SOME(cid), ind)
            wm = arg('wallet_metadata')
            ep = member(untyped(q.run('<' + WM + ' as std::ops::Deref>::deref', wm)), 'authorization_endpoint')
            cands = [q.run(WM + '::authorization_endpoint', wm)]
            if q.some(ep):
                r = q.run(try_from_json(WME), pl(ep, 'Some'))
                if q.ok(r):
                    cands.append(f0(pl(r, 'Ok')))
            urls = []
            for u in cands:
                u = u[3][0] if u[0] == 'adt' else u
                r = q.run(AR + '::to_url', ar, u)
                if q.ok(r):
                    urls.append(pl(r, 'Ok'))
            q.need(any(q.eqv(out, u) for u in urls), f'the returned URL is {show(out)[:500]}, required {show(urls[-1])[:500] if urls else "none"}')
            return True
        c.check('stored-before-handed-out', path, spec, args, keep=lambda t: t[0] == 'is' and (t[1][0] == 'call' or 'authorization_endpoint' in repr(t)) or 'form' in repr(t)[:40], min_ok=2)
