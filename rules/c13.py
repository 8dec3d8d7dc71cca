from rules.submit import *


def check(c):
    c.e.wire = WIRE

    def spec(q):
        sent = q.events('AsyncHttpClient::execute')
        if not sent:
            if q.is_ok:
                q.need(not q.some(q.okval), 'a redirect is returned although nothing was sent')
            return False
        q.need(len(sent) == 1, 'more than one exchange')
        res = sent[0][2]
        if not q.ok(res):
            q.need(not q.is_ok, 'success although the HTTP exchange failed')
            return True
        resp = pl(res, 'Ok')
        body = app('resp_body', resp)
        if not q.ask(app('is_success', app('resp_status', resp))):
            q.need(not q.is_ok, 'success although the status is not a success status')
            return True
        text = body
        js = {x for t in [q.val] + list(q.st.pos) + [k for k in q.st.neg] for x in walk(t) if x[:2] == ('app', 'json_parse') and x[3] in (body, app('trim', body))}
        q.need(len(js) <= 1, 'the body is read in different ways')
        j = js.pop() if js else ('app', 'json_parse', '', body)
        if not (q.e.truth(q.st, ('is', j)) is None and q.st.pos.get(('is', j)) == S('Ok')) and not q.ask(('utf8', text)):
            q.need(not q.is_ok, 'success although the body is not UTF-8')
            return True
        if q.eq(app('trim', text), S('')):
            q.need(q.is_ok, 'a blank body with a success status is an error')
            q.need(not q.some(q.okval), f'a blank body gives a redirect: {show(q.okval)[:200]}')
            return True
        if not q.ok(j):
            q.need(not q.is_ok, 'success although the body is neither blank nor JSON')
            return True
        v = pl(j, 'Ok')
        red = jstring(q, member(pl(v, 'Object'), 'redirect_uri')) if q.json(v, 'Object') else None
        if red is None:
            q.need(q.is_ok, 'JSON without a redirect_uri string is an error')
            q.need(not q.some(q.okval), f'a redirect that the body does not have: {show(q.okval)[:200]}')
            return True
        u = ('app', 'parse', 'url::Url', red)
        if not q.ok(u):
            q.need(not q.is_ok, 'success although redirect_uri is not a URL')
            return True
        q.need(q.is_ok, 'a good redirect_uri is an error')
        q.need(q.some(q.okval), 'the redirect_uri is dropped')
        q.same(pl(q.okval, 'Some'), pl(u, 'Ok'), 'redirect returned')
        return True
    c.check('answer', SUBMIT, spec, [WALLET, REQ, RESP], min_ok=8)
