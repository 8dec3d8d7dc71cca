from rules.vsetup import *
import itertools

KEYT = CR + 'object::TypedParameter::KEY'
SPECIAL = ('client_id', 'dcql_query', 'response_uri')


def check(c):
    R = 'configuration'
    v0 = c.value(R, VER + 'Verifier::builder')
    setters = {
        'client': lambda b, x='client': c.value(R, VB + '::with_client', b, arg(x)),
        'store': lambda b, x='store': c.value(R, VB + '::with_session_store', b, arg(x)),
        'submission_endpoint': lambda b, x='submission_endpoint': c.value(R, VB + '::with_submission_endpoint', b, arg(x)),
    }
    # required settings
    for n in range(3):
        for some in itertools.combinations(setters, n):
            b = v0
            for k in some:
                b = setters[k](b)

            def missing(q):
                q.need(q.kind == 'ret' and not q.is_ok, f'a verifier is created with only {some}')
                return True
            c.check('required', VB + '::build', missing, [b])
    # any order, and the last one set wins
    want = {False: verifier_raw(c, False), True: verifier_raw(c, True)}
    for order in itertools.permutations(setters):
        for byref in (None, False, True):
            for pos in range(4):
                b = v0
                for i, k in enumerate(order):
                    if i == pos and byref is not None:
                        b = c.value(R, VB + '::by_value', b) if byref is False else c.value(R, VB + '::by_reference', b, AT)
                    b = setters[k](b)
                if pos == 3 and byref is not None:
                    b = c.value(R, VB + '::by_value', b) if byref is False else c.value(R, VB + '::by_reference', b, AT)
                got = c.value(R, VB + '::build', b, ok=True)
                c.fact('order-independent', got == want[bool(byref)], f'settings in the order {order} with by-reference {byref} at {pos} give another verifier: {show(got)}', VB)
    for k in setters:
        b = v0
        b = setters[k](b, 'earlier')
        for k2 in setters:
            b = setters[k2](b)
        c.fact('last-wins', c.value(R, VB + '::build', b, ok=True) == want[False], f'setting {k} twice does not keep the last one', VB)
    full = v0
    for k in setters:
        full = setters[k](full)
    a = c.value(R, VB + '::by_value', c.value(R, VB + '::by_reference', full, AT))
    c.fact('last-wins', c.value(R, VB + '::build', a, ok=True) == want[False], 'by_value after by_reference still refers', VB)
    a = c.value(R, VB + '::by_reference', c.value(R, VB + '::by_reference', full, arg('earlier')), AT)
    c.fact('last-wins', c.value(R, VB + '::build', a, ok=True) == want[True], 'the last by_reference URL is not used', VB)

    # default parameters reach every request; a request's own parameters win
    K, T, KO = ('assoc', KEYT, ('T',)), arg('t'), arg('other_key')

    def find(q, m, k):
        return q.choose([(s, v) for s, _, v in M.map_find(q.e, q.st, m, k)])

    def conv_ok(q):
        """was the parameter convertible to JSON"""
        for k, v in q.st.pos.items():
            if k[0] == 'is' and contains(k, T) and k[1][0] == 'app' and 'try_from' in k[1][1]:
                return pl(k[1], 'Ok') if v == S('Ok') else None
        return T

    def pipeline(rule, start, st, base, min_ok=1):
        """start: a request builder in which T was set; base: the map it was set in"""
        def spec(q):
            if not q.is_ok:
                return False
            m = as_map(q, q.events('Client::generate_request_object_jwt')[0][1][1])
            for s in SPECIAL:
                if q.eq(K, S(s)):
                    return False
            j = conv_ok(q)
            if j is not None:
                q.same(find(q, m, K), SOME(j), 'the parameter that was set')
            if q.eq(KO, K) or any(q.eq(KO, S(s)) for s in SPECIAL):
                return True
            q.same(find(q, m, KO), find(q, base, KO), 'another parameter')
            return True
        c.check(rule, RB + '::build_dc_api', spec, [start], st=st, min_ok=min_ok, keep=lambda t: any(x in (K, KO, T) for x in walk(t)))

    base = v0
    for k in setters:
        base = setters[k](base)
    # with arbitrary defaults already set
    base = subst(base, {x: DEFAULTS for x in walk(base) if x and x[0] == 'adt' and x[1] == UO})
    r, outs = c.outcomes('defaults', VB + '::with_default_request_parameter', [base, T])
    for o in outs:
        if o.kind != 'ret':
            c.bad('defaults', f'setting a default parameter does not return: {o.why}')
            continue
        v = c.value(R, VB + '::build', o.val, ok=True)
        b = c.value(R, VER + 'Verifier::build_authorization_request', v)
        b = c.value(R, RB + '::with_dcql_query', b, QUERY)
        pipeline('default-parameters', b, o.st, untyped(DEFAULTS), 0)
    b = builder(c, False)
    r, outs = c.outcomes('override', RB + '::with_request_parameter', [b, T])
    for o in outs:
        if o.kind != 'ret':
            c.bad('override', f'setting a parameter does not return: {o.why}')
            continue
        pipeline('request-parameters', o.val, o.st, untyped(PARAMS), 0)
    n = sum(x.get('nontrivial', 0) for x in c.obl if x['rule'].endswith('-parameters'))
    c.fact('parameters-exercised', n >= 4, f'only {n} paths exercise the parameter rules')


def verifier_raw(c, byref):
    v = c.value('setup', VER + 'Verifier::builder')
    v = c.value('setup', VB + '::with_client', v, CLIENT)
    v = c.value('setup', VB + '::with_session_store', v, STORE)
    v = c.value('setup', VB + '::with_submission_endpoint', v, SUBMIT)
    if byref:
        v = c.value('setup', VB + '::by_reference', v, AT)
    return c.value('setup', VB + '::build', v, ok=True)
