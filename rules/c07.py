from rules.hooks import *


def check(c):
    def spec(q):
        if not q.is_ok:
            return False
        alg = alg_supported(q)
        cid, src = client_id_source(q, 'x509_san_dns')
        der, cert, ver = leaf(q, alg)
        tbs = fld(cert, 'tbs_certificate')
        hit = False
        for k, v in q.st.pos.items():
            if v == TRUE and k[0] == 'eq':
                for a, b in ((k[1], k[2]), (k[2], k[1])):
                    if b == src and dns_of(q, a, tbs):
                        hit = True
                    if b == cid and a[0] == 'cat' and a[1][0] == S('x509_san_dns:') and dns_of(q, cat(*a[1][1:]), tbs):
                        hit = True
            if v == TRUE and k[0] == 'in' and k[2] == src and any(dns_of(q, ('app', 'str', x), tbs) for x in [k[1]]):
                hit = True
        q.need(hit, 'a request is accepted whose client_id is no DNS name of the certificate')
        signature_checked(q, ver)
        return True
    c.check('san-binding', VF + 'x509_san::validate', spec, [WMA, AROA, JWT, TRUST], min_ok=2)


def dns_of(q, a, tbs):
    """a is the text of a DNS entry of the certificate's Subject Alternative Name"""
    while a[0] == 'app' and a[1] in ('str',) or a[0] == 'app' and a[1].endswith(('as_str', 'to_string')):
        a = a[-1]
    if not (a[0] == 'pl' and a[2] == 'DnsName'):
        return False
    if q.st.pos.get(('is', a[1])) != S('DnsName'):
        return False
    return any(x and x[0] == 'app' and 'SubjectAltName' in repr(x[2:3]) and contains(x, tbs) for x in walk(a[1]))
