from rules.c26 import *

ST = ISO + 'SessionTranscript'
TECHNIQUE = 'static dataflow over MIR: symbolic CBOR structure of the transcript constructor and (de)serializers, compared with [null, null, handover]'


def check(c):
    X, J, HO = arg('transcript'), arg('item'), arg('handover')
    nul = adt(JV, 'Null')

    def new(q):
        q.same(q.run(ST + '::<H>::handover', q.val), HO, 'handover of a new transcript')
        b = q.run(ST + '::<H>::to_cbor_bytes', q.val)
        if not q.ok(b):
            return False
        q.same(pl(b, 'Ok'), app('cbor', array(nul, nul, app('value', 'H', HO))), 'CBOR bytes')
        return True
    c.check('transcript', ST + '::<H>::new', new, [HO])
    ho = c.value('handover', ST + '::<H>::handover', X)

    for h, ident in ((H, 'OpenID4VPHandover'), (D, 'OpenID4VPDCAPIHandover')):
        ty = f'SessionTranscript<{h}>'
        hh = c.value('handover', h + '::handover_info_hash', ho)
        item = array(text(S(ident)), adt(JV, 'Bytes', hh))
        want = array(nul, nul, item)

        def ser(q):
            q.need(q.is_ok, 'serialization fails')
            q.same(q.okval, want, 'serialized data item')
            return True
        c.wire('serialize', ty, 'ser', ser, X, fl='cbor')

        def de(q):
            if not q.is_ok:
                return False
            q.need(q.json(J, 'Array'), 'a transcript is read from something other than an array')
            v = q.de(h, ('el', pl(J, 'Array'), 2), 'cbor')
            q.need(q.ok(v), 'a transcript without a readable handover as third element is accepted')
            q.same(q.run(ST + '::<H>::handover', q.okval), pl(v, 'Ok'), 'handover read back')
            return True
        c.wire('deserialize', ty, 'de', de, J, fl='cbor')

        def back(q):
            q.need(q.is_ok, 'its own serialization is refused')
            q.same(q.run(h + '::handover_info_hash', q.run(ST + '::<H>::handover', q.okval)), hh, 'handover after a round trip')
            return True
        c.wire('round-trip', ty, 'de', back, want, fl='cbor')
