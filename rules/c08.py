from rules.hooks import *


def check(c):
    def spec(q):
        if not q.is_ok:
            return False
        alg = alg_supported(q)
        cid, src = client_id_source(q, 'x509_hash')
        der, cert, ver = leaf(q, alg)
        h = app('b64enc', ('b64', 'URL_SAFE_NO_PAD'), app('digest', 'sha256', der))
        d = app('b64dec', ('b64', 'URL_SAFE_NO_PAD'), src)
        q.need(q.eqv(h, src) or q.eqv(cat(S('x509_hash:'), h), cid) or q.st.pos.get(('is', d)) == S('Ok') and q.eqv(pl(d, 'Ok'), app('digest', 'sha256', der)),
               'a request is accepted whose client_id is not the hash of the certificate')
        signature_checked(q, ver)
        return True
    c.check('hash-binding', VF + 'x509_hash::validate', spec, [WMA, AROA, JWT, TRUST], min_ok=2)
