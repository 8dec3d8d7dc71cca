from rules.submit import *


def check(c):
    c.e.wire = WIRE

    def spec(q):
        m = mode(q)
        sent = q.events('AsyncHttpClient::execute')
        other = [x[0] for x in q.ev if x[0] not in ('AsyncHttpClient::execute', 'Wallet::http_client', 'Wallet::metadata')]
        q.need(not other, f'submitting a response also does {other}')
        kind = q.variant(RESP, ('Unencoded', 'Jwt'))
        if m in ('DcApi', 'DcApiJwt'):
            q.need(not sent, f'a {m} response makes a network request')
            if q.is_ok:
                q.need(not q.some(q.okval), f'a {m} response returns a redirect')
            return True
        if m == 'Unsupported' or kind != {'DirectPost': 'Unencoded', 'DirectPostJwt': 'Jwt'}[m]:
            q.need(not sent, f'{m} with a response of kind {kind} makes a network request')
            q.need(not q.is_ok, f'{m} with a response of kind {kind} is accepted')
            return True
        if q.is_ok:
            q.need(len(sent) == 1, f'{m}: success after {len(sent)} requests')
        q.need(len(sent) <= 1, f'{m}: {len(sent)} requests are sent')
        if not sent:
            return False
        client, r = sent[0][1]
        q.need(client[0] == 'call' and client[1] == 'Wallet::http_client' and client[2].v[0] == WALLET, 'not sent with the wallet\'s HTTP client')
        q.need(r[0] == 'httpreq', f'not an HTTP request built here: {show(r)[:200]}')
        _, meth, uri, headers, body = r
        q.same(meth, S('POST'), 'method')
        q.same(uri, app('str', q.run(ARO + '::return_uri', REQ)), 'address the response goes to')
        h = dict(headers)
        ct = h.get(S('content-type'))
        q.need(ct is not None and ct[0] == 's' and ct[1].split(';')[0].strip().lower() == 'application/x-www-form-urlencoded', f'content type is {show(ct) if ct else "missing"}')
        enc = q.run(CR + 'response::' + kind + 'AuthorizationResponse::into_x_www_form_urlencoded', pl(RESP, kind))
        q.need(q.ok(enc), 'a response that has no form encoding is sent')
        q.same(body, pl(enc, 'Ok'), 'body of the request')
        return True
    c.check('one-post', SUBMIT, spec, [WALLET, REQ, RESP], min_ok=8)
