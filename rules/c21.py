from rules.common import *

SES = VER + 'session::'
MS = '<' + SES + 'MemoryStore as ' + SES + 'SessionStore>::'


def check(c):
    e = c.e
    m, u, other, s, status = arg('store'), arg('uuid'), arg('other_uuid'), arg('session'), arg('status')

    def wait(q):
        q.need(not any(k[0] == 'contended' and v == TRUE for k, v in q.st.pos.items()) or q.is_ok, 'an operation fails because another task is using the store')

    def lookup(q, rule_id):
        q.st.site = None
        return q.run(MS + 'get_session', m, rule_id)

    def observe(op, args, effect):
        """what every other lookup sees before and after the operation"""
        path = MS + op
        r = c.anchor(path)
        if r is None:
            c.bad('anchor', f'{path} is missing')
            return
        # run: look up both ids first, then the operation, then both again (in effect)
        pre = []
        g = c.anchor(MS + 'get_session')
        outs = e.run(g['id'], [m, u if op != 'initiate' else fld(s, 'uuid')])
        for o in outs:
            if o.kind != 'ret':
                c.bad('lookup', f'looking up a session does not return: {o.why}', MS + 'get_session')
                continue
            for o2 in e.run(g['id'], [m, other], o.st):
                if o2.kind == 'ret':
                    pre.append((o.val, o2.val, o2.st))
        for mine, oth, st in pre:
            def spec(q, mine=mine, oth=oth, n0=len([x for x in st.ev if x[0] in ('lock', 'trylock')])):
                wait(q)
                n = len(q.events('lock', 'trylock')) - n0
                q.need(n <= 1, f'{op} takes the lock {n} times: another task can act in between')
                effect(q, mine, oth)
                return True
            c.check(op, path, spec, args, st=st)

    def unchanged(q, oth, key=other):
        after = lookup(q, key)
        ob = q.ok(oth)
        q.need(q.ok(after) == ob, 'an operation makes another session appear or vanish')
        if ob:
            q.same(pl(after, 'Ok'), pl(oth, 'Ok'), 'another session')

    key = fld(s, 'uuid')

    def init(q, mine, oth):
        q.need(q.is_ok, 'storing a session fails')
        got = lookup(q, key)
        q.need(q.ok(got), 'a stored session is not found')
        q.same(pl(got, 'Ok'), s, 'the stored session')
        if not q.ask(('eq', *sorted((key, other), key=repr))):
            unchanged(q, oth)

    def upd(q, mine, oth):
        had = q.ok(mine)
        q.need(q.is_ok == had, 'updating succeeds without a session, or fails with one')
        got = lookup(q, u)
        q.need(q.ok(got) == had, 'updating makes the session appear or vanish')
        if had:
            x, y = pl(mine, 'Ok'), pl(got, 'Ok')
            q.same(sf(e, y, 'status'), status, 'the status after an update')
            for f in ('uuid', 'authorization_request_jwt', 'authorization_request_object', 'dcql_query'):
                q.same(sf(e, y, f), sf(e, x, f), f + ' after an update')
        if not q.ask(('eq', *sorted((u, other), key=repr))):
            unchanged(q, oth)

    def rem(q, mine, oth):
        had = q.ok(mine)
        q.need(q.is_ok == had, 'removing succeeds without a session, or fails with one')
        q.need(not q.ok(lookup(q, u)), 'a removed session is still found')
        if not q.ask(('eq', *sorted((u, other), key=repr))):
            unchanged(q, oth)

    def get(q, mine, oth):
        q.need(q.is_ok == q.ok(mine), 'two lookups of the same session disagree')
        if q.is_ok:
            q.same(q.okval, pl(mine, 'Ok'), 'a second lookup')
        unchanged(q, oth)

    observe('initiate', [m, s], init)
    observe('update_status', [m, u, status], upd)
    observe('remove_session', [m, u], rem)
    observe('get_session', [m, u], get)

    # a lookup fails only for an unknown id, and the empty store knows none
    d = c.value('empty', '<' + SES + 'MemoryStore as std::default::Default>::default')

    def empty(q):
        q.need(not q.is_ok, 'an empty store knows a session')
        return True
    c.check('empty-store', MS + 'get_session', empty, [d, u])

    def waits(q):
        wait(q)
        return True
    c.check('waits', MS + 'get_session', waits, [m, u])
