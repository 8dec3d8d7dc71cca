"""Shared obligations of the bundled request verifications."""
from rules.common import *

VF = CR + 'authorization_request::verification::'
WMA, AROA, JWT, TRUST, RES_ = arg('wallet_metadata'), arg('request_object'), arg('request_jwt'), arg('trusted'), arg('resolver')
ALGS = 'request_object_signing_alg_values_supported'


def segs(jwt):
    """(header, payload, signature) segments: the ways the code can denote them"""
    sj = pl(('app', 'ssi_claims::ssi_jws::split_jws', 'std::result::Result<(&str, &str, &str), ssi_claims::ssi_jws::Error>', jwt), 'Ok')
    dot = S('.')
    rest = M.after(jwt, dot)
    parts = ('splitpart', jwt)
    return ([fld(sj, '0'), M.before(jwt, dot)], [fld(sj, '1'), M.before(rest, dot)], [fld(sj, '2'), M.after(rest, dot), ('rafter', jwt, dot)], [('rbefore', jwt, dot)])


def header_str(q, name, jwt=JWT):
    """texts the path established as the string member `name` of the JOSE header"""
    out = []
    for o in header_member(q, jwt, name):
        if q.st.pos.get(('is', o)) == S('Some') and q.st.pos.get(('is', pl(o, 'Some'))) == S('String'):
            out.append(pl(pl(o, 'Some'), 'String'))
    return out


def client_id_source(q, prefix):
    """client_id without its prefix"""
    cid = q.run(ARO + '::client_id', AROA)
    q.need(q.some(cid), 'a request without client_id is accepted')
    t = f0(pl(cid, 'Some'))
    p = S(prefix + ':')
    return t, (M.strip_pfx(t, p) if q.ask(M.sw_term(t, p)) else t)


def alg_supported(q):
    algs = header_str(q, 'alg')
    q.need(algs, "a JWT without a string 'alg' is accepted")
    obj = q.run('<' + WM + ' as std::ops::Deref>::deref', WMA)
    o = member(untyped(obj), ALGS)
    q.need(q.some(o), f'a request is accepted although the wallet metadata has no {ALGS}')
    l = StrList(q, pl(o, 'Some'))
    q.need(l.wellformed(), f'a request is accepted with a malformed {ALGS}')
    good = [a for a in algs if l.contains(a)]
    q.need(good, f"a JWT is accepted whose 'alg' is not in {ALGS}")
    return good[0]


def leaf(q, alg):
    """the DER bytes and the certificate used, from the first entry of x5c"""
    evs = q.events('Verifier::from_spki')
    q.need(len(evs) >= 1, 'no verifier is built from the certificate')
    spki = evs[-1][1][0]
    while spki[0] == 'app' and spki[1].endswith('owned_to_ref'):
        spki = spki[-1]
    q.need(spki[0] == 'fld' and spki[2] == 'subject_public_key_info' and spki[1][0] == 'fld' and spki[1][2] == 'tbs_certificate', f'the verifier is built from {show(spki)}')
    cert = spki[1][1]
    q.need(cert[0] == 'pl' and cert[2] == 'Ok' and cert[1][0] == 'app' and 'from_der' in cert[1][1], f'the certificate is {show(cert)}')
    der = cert[1][-1]
    q.need(der[0] == 'pl' and der[2] == 'Ok' and der[1][:2] == ('app', 'b64dec') and der[1][2] in (('b64', 'STANDARD'), ('b64', 'STANDARD_NO_PAD')), f'the certificate bytes are {show(der)}')
    x = der[1][3]
    if x[0] == 'app' and x[1] in ('trim_end_matches',) and x[3] == S('='):
        x = x[2]
    ok = x[0] == 'pl' and x[2] == 'String' and x[1][0] == 'el' and x[1][2] == 0
    if ok:
        arr = x[1][1]
        ok = arr[0] == 'pl' and arr[2] == 'Array' and arr[1][0] == 'pl' and arr[1][2] == 'Some' and arr[1][1][0] == 'get' and arr[1][1][2] == S('x5c') and is_header(arr[1][1][1], JWT)
    q.need(ok, f"the certificate is not the first entry of the JWT's 'x5c': {show(x)}")
    q.need(evs[-1][1][1] == alg, f"the verifier is built for {show(evs[-1][1][1])}, not for the JWT's 'alg'")
    q.need(q.ok(evs[-1][2]), 'a request is accepted although no verifier could be built')
    return der, cert, pl(evs[-1][2], 'Ok')


def signature_checked(q, verifier):
    h, p, s, hp = segs(JWT)
    payloads = [cat(a, S('.'), b) for a in h for b in p] + hp
    sigs = [pl(app('b64dec', ('b64', 'URL_SAFE_NO_PAD'), x), 'Ok') for x in s]
    evs = [x for x in q.events('Verifier::verify') if x[1][0] == verifier]
    q.need(evs, 'the signature is not verified with the verifier of the certificate')
    good = [x for x in evs if x[1][1] in payloads and x[1][2] in sigs]
    q.need(good, f'the signature check is made on {show(evs[-1][1][1])} / {show(evs[-1][1][2])}')
    q.need(any(q.ok(x[2]) for x in good), 'a request is accepted although its signature does not verify')


def run_hook(c, name, extra, spec, rule):
    c.check(rule, VF + name, spec, [WMA, AROA, JWT] + extra, min_ok=1)
