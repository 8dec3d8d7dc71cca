from rules.common import *

V = CR + 'authorization_request::verification::verifier::'
PV = f'<{V}P256Verifier as {V}Verifier>::'
RS = 'openid4vp::verifier::request_signer::'
PS = f'<{RS}P256Signer as {RS}RequestSigner>::'
JS = f'<{RS}P256Signer as ssi_claims::ssi_jws::JwsSigner>::'
SPKI, ALG, PAY, SIG, KEY = (arg(x) for x in ('spki', 'algorithm', 'payload', 'signature', 'key'))
ES = ('adt', 'ssi_jwk::Algorithm', 'ES256', ())


def from_key(t):
    """a P-256 verifying key converted from the given key information and nothing else"""
    return only_from(t, SPKI) and not any(x and x[0] == 's' for x in walk(t))


def check(c):
    def s1(q):
        if not q.is_ok:
            return False
        q.need(q.eqv(ALG, S('ES256')), "a verifier is built for an algorithm other than 'ES256'")
        v = q.okval
        k = v[3][0] if v[0] == 'adt' and len(v[3]) == 1 else v
        q.need(from_key(k), f'the verifier holds {show(k)}, not the given public key')
        return True
    c.check('from_spki', PV + 'from_spki', s1, [SPKI, ALG])

    ver = c.value('setup', PV + 'from_spki', SPKI, S('ES256'), ok=True)

    def s2(q):
        if not q.is_ok:
            return False
        good = False
        for k, v in q.st.pos.items():
            if k[0] == 'is' and v == S('Ok') and k[1][0] == 'app' and k[1][1].endswith('::verify') and len(k[1]) == 6:
                key, pay, sig = k[1][3:]
                s = sig[1] if sig[0] == 'pl' and sig[2] == 'Ok' else sig
                if from_key(key) and pay == PAY and s[0] == 'app' and s[1].rsplit('::', 1)[-1] in ('from_slice', 'try_from') and s[-1] == SIG:
                    good = True
        q.need(good, 'verification succeeds without a successful ECDSA verification of the given payload and signature under the given key')
        return True
    c.check('verify', PV + 'verify', s2, [ver, PAY, SIG])

    signer = c.value('setup', RS + 'P256Signer::new', KEY, ok=True)

    def own_jwk(t):
        return only_from(t, KEY) and any(x and x[0] == 'app' and x[1].endswith('::verifying_key') for x in walk(t)) and any(x and x[0] == 'app' and 'to_jwk' in x[1] for x in walk(t))

    def s3(q):
        if not q.is_ok:
            return False
        q.need(own_jwk(q.okval), f'the JWK announced is {show(q.okval)}')
        return True
    c.check('jwk', PS + 'jwk', s3, [signer])

    def s3b(q):
        q.need(own_jwk(q.val), f'the JWK announced is {show(q.val)}')
        return True
    c.check('jwk-ref', RS + 'P256Signer::jwk', s3b, [signer])

    def alg_ok(q, t):
        if t in (ES, app('str', ES), S('ES256')):
            return True
        if t[0] == 'app' and t[1] == 'str':
            t = t[-1]
        return t[0] == 'pl' and t[2] == 'Some' and t[1][0] == 'fld' and t[1][2] == 'algorithm' and own_jwk(t[1][1])

    def s4(q):
        if not q.is_ok:
            return False
        q.need(alg_ok(q, q.okval), f'the algorithm announced is {show(q.okval)}')
        return True
    c.check('alg', PS + 'alg', s4, [signer])

    def s5(q):
        if not q.is_ok:
            return False
        a = sf(q.e, q.okval, 'algorithm')
        q.need(alg_ok(q, a), f'the algorithm announced for signing is {show(a)}')
        k = sf(q.e, q.okval, 'key_id')
        q.need(k == NONE or k[0] == 'fld' and k[2] == 'key_id' and own_jwk(k[1]), f'the key id announced is {show(k)}')
        return True
    c.check('fetch_info', JS + 'fetch_info', s5, [signer])

    def signature(t):
        while t[0] == 'app' and t[1].rsplit('::', 1)[-1] in ('to_vec', 'to_bytes', 'into', 'from', 'as_ref', 'as_slice', 'to_owned'):
            t = t[-1]
        if t[0] == 'pl' and t[2] == 'Ok':
            t = t[1]
        return t[0] == 'app' and t[1].rsplit('::', 1)[-1] in ('sign', 'try_sign') and 'Signer' in t[1] and t[3:] == (KEY, PAY)

    def s6(q):
        q.need(signature(q.val), f'signing gives {show(q.val)}, not the signature of the payload under the key')
        return True
    c.check('sign', PS + 'sign', s6, [signer, PAY])

    def s7(q):
        if not q.is_ok:
            return False
        q.need(signature(q.okval), f'signing gives {show(q.okval)}, not the signature of the payload under the key')
        return True
    c.check('sign_bytes', JS + 'sign_bytes', s7, [signer, PAY])
    if c.e.root(PS + 'try_sign'):
        c.check('try_sign', PS + 'try_sign', s7, [signer, PAY])

    def s8(q):
        if not q.is_ok:
            return False
        evs = q.events('RequestSigner::sign')
        q.need(len(evs) == 1 and evs[0][1] == (arg('signer'), PAY) and q.okval == evs[0][2], 'the default try_sign is not the signature of the payload')
        return True
    c.check('try_sign-default', RS + 'RequestSigner::try_sign', s8, [arg('signer'), PAY])
