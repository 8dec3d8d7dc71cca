from rules.vsetup import *


def check(c):
    e = c.e
    for byref in (False, True):
        v = verifier(c, byref)
        ref, resp, fn = arg('reference'), arg('response'), arg('validator')

        def spec(q):
            got, cb, up = q.events('SessionStore::get_session'), q.events('callback'), q.events('SessionStore::update_status')
            q.need(not q.events('SessionStore::initiate', 'SessionStore::remove_session'), 'verifying a response stores or removes a session')
            q.need(all(x[1] == (STORE, ref) for x in got), 'the session is looked up under another reference or in another store')
            q.need(len(cb) <= 1, 'the validator runs more than once')
            if cb:
                a = cb[0][1]
                s = [x for x in got if q.ev.index(x) < q.ev.index(cb[0]) and q.ok(x[2])]
                q.need(s, 'the validator runs without a stored session')
                q.need(len(a) == 3 and a[0] == fn and a[1] in [pl(x[2], 'Ok') for x in s], f'the validator is run on {show(a[1])}, not on the stored session')
                q.need(a[2] == resp, 'the validator is run on another response')
            for u in up:
                q.need(cb and q.ev.index(u) > q.ev.index(cb[0]), 'the status changes before the validator ran')
                q.need(u[1][0] == STORE and u[1][1] == ref, 'the status of another session is set')
                st = u[1][2]
                q.need(st[0] == 'adt' and st[2] == 'Complete' and st[3][0] == app('await', cb[0][2]), f'the status stored is {show(st)}, not complete with the outcome of the validator')
            q.need(len(up) <= 1, 'the status is set more than once')
            if not q.is_ok:
                return False
            q.need(len(cb) == 1 and len(up) == 1, 'success without running the validator and storing its outcome')
            q.need(q.ok(up[0][2]), 'success although the outcome was not stored')
            return True
        c.check('outcome-of-validator', VER + 'Verifier::verify_response', spec, [v, ref, resp, fn])

        def complete(q):
            # everything succeeds: the call does
            got, up = q.events('SessionStore::get_session'), q.events('SessionStore::update_status')
            if not all(q.ok(x[2]) for x in got + up):
                return False
            q.need(q.is_ok and q.events('callback') and up, 'an error although every step succeeded')
            return True
        c.check('success-reported', VER + 'Verifier::verify_response', complete, [v, ref, resp, fn])

        def poll(q):
            got = q.events('SessionStore::get_session')
            q.need(len(got) == len(q.events('SessionStore')) and all(x[1] == (STORE, ref) for x in got), 'polling does something else than looking up the session')
            if not q.is_ok:
                q.need(not got or not q.ok(got[-1][2]), 'polling a stored session fails')
                return False
            q.need(got and q.ok(got[-1][2]), 'a status without a session')
            q.same(q.okval, sf(e, pl(got[-1][2], 'Ok'), 'status'), 'the polled status')
            return True
        c.check('poll', VER + 'Verifier::poll_status', poll, [v, ref])
