from rules.common import *

CL = VER + 'client::'
SIGNER, RES_, VM, X5C = arg('signer'), arg('resolver'), arg('vm'), arg('x5c')
SAN = 'x509_cert::ext::pkix::SubjectAltName'


QUICK_ELEMS = 3
def identity(q, ty):
    """client_id of the created client, and the prefix it reports"""
    v = q.okval
    cid = f0(q.run(f'<{CL}{ty} as {CL}Client>::id', v))
    pre = f0(q.run(f'<{CL}{ty} as {CL}Client>::prefix', v))
    return cid, pre


def no_panic(q):
    q.need(q.kind != 'panic', f'creating the client panics: {q.o.why}')


def empty(q):
    return q.ask(('isempty', X5C))


def check(c):
    def did(q):
        no_panic(q)
        key = None
        for x in q.events('JWKResolver::fetch_public_jwk'):
            q.need(x[1] == (RES_, SOME(VM)), f'a key is resolved for {show(x[1][1])[:200]} instead of the verification method')
            key = x[2]
        own = [x[2] for x in q.events('RequestSigner::jwk')]
        q.need(all(x[1] == (SIGNER,) for x in q.events('RequestSigner::jwk')), 'a key of another signer')
        if q.is_ok:
            q.need(q.ask(M.has_term(VM, S('#'))), 'a client is created for a verification method without a fragment')
            q.need(key is not None and own, 'a client is created without comparing the resolved key to the key of the signer')
            q.need(q.ok(key) and q.ok(own[0]), 'a client is created although a key is missing')
            q.need(q.eqv(pl(key, 'Ok'), pl(own[0], 'Ok')), 'a client is created although the resolved key is not the key of the signer')
            cid, pre = identity(q, 'DIDClient')
            q.same(cid, cat(S('decentralized_identifier:'), ('rbefore', VM, S('#'))), 'client_id')
            q.same(pre, S('decentralized_identifier'), 'prefix')
        elif q.ask(M.has_term(VM, S('#'))) and key is not None and q.ok(key) and own and q.ok(own[0]):
            q.need(not q.eq(pl(key, 'Ok'), pl(own[0], 'Ok')), 'a client whose keys agree is refused')
        return True
    c.check('did', CL + 'DIDClient::new', did, [VM, SIGNER, RES_], panics=True, min_ok=4)

    leaf = ('el', X5C, 0)

    def san(q):
        no_panic(q)
        if empty(q):
            q.need(not q.is_ok, 'a client is created from an empty certificate chain')
            return True
        exts = ('app', 'extensions', SAN, fld(leaf, 'tbs_certificate'))
        first = None
        for i in range(q.e.ELEMS):
            if first is not None or not q.ask(M.has_index(exts, i)):
                break
            x = ('el', exts, i)
            if not q.ok(x):
                continue
            names = f0(fld(pl(x, 'Ok'), '1'))
            for j in range(q.e.ELEMS):
                if not q.ask(M.has_index(names, j)):
                    break
                n = ('el', names, j)
                if q.choose(q.e.split_eq(q.st, n, 'DnsName', gn(q.e))) == 'DnsName':
                    first = pl(n, 'DnsName')
                    break
        if first is None:
            q.need(not q.is_ok, 'a client is created from a certificate without a DNS name')
            return True
        q.need(q.is_ok, 'a certificate with a DNS name is refused')
        cid, pre = identity(q, 'X509SanDnsClient')
        q.same(cid, cat(S('x509_san_dns:'), app('str', first)), 'client_id')
        q.same(pre, S('x509_san_dns'), 'prefix')
        return True
    c.check('x509-san-dns', CL + 'X509SanDnsClient::new', san, [X5C, SIGNER], panics=True, min_ok=8)

    def hsh(q):
        no_panic(q)
        if empty(q):
            q.need(not q.is_ok, 'a client is created from an empty certificate chain')
            return True
        if not q.is_ok:
            return False
        cid, pre = identity(q, 'X509HashClient')
        h = only_hash(q, cid)
        q.same(h, leaf, 'certificate whose hash is in the client_id')
        q.same(pre, S('x509_hash'), 'prefix')
        return True
    c.check('x509-hash', CL + 'X509HashClient::new', hsh, [X5C, SIGNER], panics=True, min_ok=2)


def only_hash(q, cid):
    """certificate c with cid = 'x509_hash:' ++ base64url(sha256(der(c)))"""
    q.need(cid[0] == 'cat' and cid[1][0] == S('x509_hash:') and len(cid[1]) == 2, f'client_id is {show(cid)[:300]}')
    b = cid[1][1]
    q.need(b[:3] == ('app', 'b64enc', ('b64', 'URL_SAFE_NO_PAD')) and b[3][:3] == app('digest', 'sha256', b)[:3], f'client_id is {show(cid)[:300]}')
    d = b[3][3]
    q.need(d[0] == 'pl' and d[2] == 'Ok' and d[1][0] == 'app' and 'to_der' in d[1][1], f'not the hash of a DER encoding: {show(d)[:200]}')
    return d[1][-1]


def gn(e):
    return tuple(v['name'] for v in e.adt_info('x509_cert::ext::pkix::name::GeneralName')['variants']) if e.adt_info('x509_cert::ext::pkix::name::GeneralName') else GN


GN = ('OtherName', 'Rfc822Name', 'DnsName', 'DirectoryName', 'EdiPartyName', 'UniformResourceIdentifier', 'IpAddress', 'RegisteredId')
