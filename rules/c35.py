from rules.common import *

RC = CR + 'util::ReqwestClient'
EXEC = f'<{RC} as {CR}util::AsyncHttpClient>::execute'
TECHNIQUE = 'static dataflow over MIR: the request handed to reqwest and every part of the returned response, as terms over the request and the response received'
NOTE = 'reqwest itself and its conversion from http::Request are trusted'


def part(t, name, resp):
    """t is the named part of the reqwest response"""
    return t[0] == 'app' and t[1].endswith('Response::' + name) and t[-1] == resp


def copied(q, h, src):
    """a header map filled entry by entry from src"""
    got = []
    while h[0] == 'app' and h[1] in ('append', 'insert'):
        got.append((h[1], h[3] if len(h) > 4 else h[-2], h[-1]))
        h = h[2] if len(h) > 4 else h[-3]
    if h != ('arr', ()):
        return False
    got.reverse()
    n = q.count(src)
    def ent(i, j):
        return fld(('el', src, i), str(j))
    return all(k == 'append' for k, _, _ in got) and [(k, v) for _, k, v in got] == [(ent(i, 0), ent(i, 1)) for i in range(n)]


def check(c):
    CL, R = arg('client'), arg('request')
    own = c.value('client', f'<{RC} as std::convert::AsRef<reqwest::Client>>::as_ref', CL)

    def spec(q):
        waits = [x for x in q.ev if x[0] == 'await']
        runs = [x for x in waits if x[1][0][0] == 'app' and x[1][0][1].startswith('reqwest::') and x[1][0][1].endswith('::execute')]
        other = [x for x in q.ev if x not in runs and not (x[0] == 'await' and x[1][0][0] == 'app' and x[1][0][1].endswith('Response::bytes'))]
        q.need(not other, f'also does {[show(x[1][0])[:100] if x[0] == "await" else x[0] for x in other]}')
        q.need(len(runs) <= 1, f'{len(runs)} requests are performed')
        if runs:
            call = runs[0][1][0]
            q.same(call[-2], own, 'client used')
            q.need(call[-1] == pl(('app', 'try_from', 'reqwest::Request', R), 'Ok'), f'the request performed is not the one given: {show(call[-1])[:200]}')
        if not q.is_ok:
            return False
        q.need(len(runs) == 1, 'a response is returned without a request')
        res = app('await', runs[0][1][0])
        q.need(q.ok(res), 'a failed exchange gives a response')
        got = pl(res, 'Ok')
        r = q.okval
        q.need(r[0] == 'arr' and len(r[1]) == 6, f'not a response built here: {show(r)[:200]}')
        _, status, version, headers, _, body = r[1]
        q.need(part(status, 'status', got), f'status is {show(status)[:200]}')
        src = next((x for k in list(q.st.pos) for x in walk(k) if x and x[0] == 'app' and part(x, 'headers', got)), None)
        q.need(part(headers, 'headers', got) or src is not None and copied(q, headers, src), f'headers are {show(headers)[:300]}')
        q.need(body[0] == 'pl' and body[2] == 'Ok' and body[1][:2] == ('app', 'await') and part(body[1][-1], 'bytes', got), f'body is {show(body)[:200]}')
        q.need(q.ok(body[1]), 'a body that could not be read is returned')
        return True
    c.check('exchange', EXEC, spec, [CL, R])

    def new(q):
        if not q.is_ok:
            return False
        b = q.run(f'<{RC} as std::convert::AsRef<reqwest::Client>>::as_ref', q.okval)
        calls = [x for x in walk(b) if x and x[0] == 'app' and isinstance(x[1], str) and x[1].startswith('reqwest::')]
        q.need(calls, f'not a reqwest client: {show(b)[:200]}')
        off = [x[1].split('::')[-1] for x in calls if 'danger' in x[1]]
        q.need(not off, f'TLS verification is weakened: {off}')
        return True
    c.check('tls-verification', RC + '::new', new, [])
