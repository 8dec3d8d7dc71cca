from rules.common import *

ISO = CR + 'iso_18013_7::'
H, D = ISO + 'Handover', ISO + 'DcApiHandover'
TECHNIQUE = 'static dataflow over MIR: symbolic CBOR structure of every handover constructor and (de)serializer, compared with the specified arrays'


def text(x):
    return adt(JV, 'String', x)


def array(*xs):
    return adt(JV, 'Array', ('arr', xs))


def elements(q, j):
    """the two elements read from a data item"""
    q.need(q.json(j, 'Array'), 'a handover is read from something other than an array')
    a = pl(j, 'Array')
    return ('el', a, 0), ('el', a, 1)


def check(c):
    X, J, T = arg('handover'), arg('item'), arg('thumbprint')
    for ty, ident, names in ((H, 'OpenID4VPHandover', ('client_id', 'nonce', None, 'response_uri')), (D, 'OpenID4VPDCAPIHandover', ('origin', 'nonce', None))):
        args = [T if n is None else arg(n) for n in names]

        def new(q):
            if not q.is_ok:
                return False
            t = adt(JV, 'Bytes', pl(T, 'Some')) if q.some(T) else adt(JV, 'Null')
            info = array(*[t if n is None else text(arg(n)) for n in names])
            got = q.run(ty + '::handover_info_hash', q.okval)
            q.same(got, app('digest', 'sha256', app('cbor', info)), 'handover info hash')
            return True
        c.check('info-hash', ty + '::new', new, args, min_ok=2)
        h = c.value('hash-getter', ty + '::handover_info_hash', X)
        want = array(text(S(ident)), adt(JV, 'Bytes', h))

        def direct(q):
            if not q.is_ok:
                return False
            q.same(q.okval, app('cbor', want), 'CBOR bytes')
            return True
        c.check('direct', ty + '::to_cbor_bytes', direct, [X])

        def ser(q):
            q.need(q.is_ok, 'serialization fails')
            q.same(q.okval, want, 'serialized data item')
            return True
        c.wire('serialize', ty, 'ser', ser, X, fl='cbor')

        def de(q):
            if not q.is_ok:
                return False
            i, v = elements(q, J)
            q.need(q.json(i, 'String') and q.eqv(pl(i, 'String'), S(ident)), f'accepts an identifier other than {ident}')
            q.same(q.run(ty + '::handover_info_hash', q.okval), pl(v, 'Bytes'), 'hash read back')
            return True
        c.wire('deserialize', ty, 'de', de, J, fl='cbor')

        def back(q):
            q.need(q.is_ok, 'its own serialization is refused')
            q.same(q.run(ty + '::handover_info_hash', q.okval), h, 'hash after a round trip')
            return True
        c.wire('round-trip', ty, 'de', back, want, fl='cbor')
