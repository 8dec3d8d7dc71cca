from rules.vsetup import *

STATUS = 'openid4vp_frontend::Status'
OUTCOME = 'openid4vp_frontend::Outcome'
ORDER = ('SentRequestByReference', 'SentRequest', 'ReceivedResponse', 'Complete')
OORDER = ('Error', 'Failure', 'Success')


def check(c):
    e = c.e
    for byref in (False, True):
        v = verifier(c, byref)
        ref = arg('reference')

        def spec(q):
            got, up = q.events('SessionStore::get_session'), q.events('SessionStore::update_status')
            q.need(len(got) + len(up) == len(q.events('SessionStore')), 'fetching stores or removes a session')
            q.need(all(x[1] == (STORE, ref) for x in got), 'another session is looked up')
            q.need(len(up) <= 1, 'the status is set more than once')
            sess = None
            if got and q.ok(got[-1][2]):
                sess = pl(got[-1][2], 'Ok')
            if up:
                a = up[0][1]
                q.need(sess is not None and q.ev.index(up[0]) > q.ev.index(got[-1]), 'the status is set without a session')
                q.need(a[0] == STORE and a[1] == ref, 'the status of another session is set')
                q.need(a[2] == adt(STATUS, 'SentRequest'), f'fetching sets the status {show(a[2])}')
                q.need(q.variant(sf(e, sess, 'status'), ORDER) == 'SentRequestByReference', 'fetching changes a status other than sent-by-reference')
            if not q.is_ok:
                return False
            q.need(sess is not None, 'a request is served without a session')
            q.same(q.okval, sf(e, sess, 'authorization_request_jwt'), 'the served request')
            if q.variant(sf(e, sess, 'status'), ORDER) == 'SentRequestByReference':
                q.need(up and q.ok(up[0][2]), 'a request is served without recording that it was sent')
            return True
        c.check('serves-stored-jwt', VER + 'Verifier::retrieve_authorization_request', spec, [v, ref], min_ok=4)

        def works(q):
            got, up = q.events('SessionStore::get_session'), q.events('SessionStore::update_status')
            if not all(q.ok(x[2]) for x in got + up):
                return False
            q.need(q.is_ok, 'an error although the session exists and the update succeeded')
            return True
        c.check('served-when-stored', VER + 'Verifier::retrieve_authorization_request', works, [v, ref])

    # the order of statuses and outcomes
    f = e.others[0]
    info = f.adt_info(STATUS)
    have = [x['name'] for x in info['variants']] if info else []
    c.fact('status-kinds', set(have) == set(ORDER), f'statuses are {have}', STATUS)
    info = f.adt_info(OUTCOME)
    have = [x['name'] for x in info['variants']] if info else []
    c.fact('outcome-kinds', set(have) == set(OORDER), f'outcomes are {have}', OUTCOME)

    def val(ty, n, s):
        k = {'Complete': 1, 'Error': 1, 'Failure': 1, 'Success': 1}.get(n, 0)
        if n == 'Complete':
            return adt(ty, n, adt(OUTCOME, 'Failure', arg('x' + s)))
        return adt(ty, n, *[arg('x' + s)] * k)

    def cmp_of(ty, a, b):
        r = f.root(f'<{ty} as std::cmp::PartialOrd>::partial_cmp')
        if r is None:
            return None
        res = {repr(o.val) if o.kind == 'ret' else o.kind for o in f.run(r['id'], [a, b])}
        if len(res) != 1:
            return None
        for n in ('Less', 'Equal', 'Greater'):
            if res == {repr(SOME(adt('std::cmp::Ordering', n)))}:
                return n

    def eq_of(ty, a, b):
        r = f.root(f'<{ty} as std::cmp::PartialEq>::eq')
        outs = f.run(r['id'], [a, b]) if r else []
        res = {f.truth(o.st, o.val) if o.kind == 'ret' else None for o in outs}
        return res.pop() if len(res) == 1 else None

    for ty, order in ((STATUS, ORDER), (OUTCOME, OORDER)):
        for i, a in enumerate(order):
            for j, b in enumerate(order):
                want = 'Less' if i < j else 'Equal' if i == j else 'Greater'
                got = cmp_of(ty, val(ty, a, '1'), val(ty, b, '2'))
                c.fact('order', got == want, f'{a} compared with {b} is {got}, required {want}', ty)
                if ty == OUTCOME:
                    g = eq_of(ty, val(ty, a, '1'), val(ty, b, '2'))
                    c.fact('outcome-equality', g == (i == j), f'{a} == {b} is {g}', ty)
    for i, a in enumerate(OORDER):
        for j, b in enumerate(OORDER):
            x, y = (adt(STATUS, 'Complete', val(OUTCOME, n, s)) for n, s in ((a, '1'), (b, '2')))
            want = 'Less' if i < j else 'Equal' if i == j else 'Greater'
            got = cmp_of(STATUS, x, y)
            c.fact('order', got == want, f'complete with {a} compared with complete with {b} is {got}', STATUS)
