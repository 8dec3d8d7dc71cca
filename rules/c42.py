"""Every serialisable type: what was read and written again reads back as the same value."""
from rules.common import *

J, X = arg('json'), arg('value')
# C10 and C14: these keep the object they were read from
RAW = ('::AuthorizationRequestObject', '::AuthorizationRequest', '::RequestIndirection')
# C26 and C27: written as CBOR; C33: wallet metadata keeps the text it was read from and writes the normalised one
ELSEWHERE = ('::iso_18013_7::', '::WalletMetadata')


def types(e):
    t = {}
    for i in e.impls:
        if i['trait'] in ('serde::Serialize', 'serde::Deserialize'):
            t.setdefault(i['self'], set()).add(i['trait'])
    return sorted(k for k, v in t.items() if len(v) == 2 and '<' not in k and not any(x in k + '::' or k.endswith(x) for x in ELSEWHERE) and e.adt_info(k))


def check(c):
    for e in (c.e, c.e.others[0]):
        old, c.e = c.e, e
        try:
            for ty in types(e):
                def spec(q, ty=ty):
                    if not q.is_ok:
                        return False
                    x = q.okval
                    v = q.ser(ty, x)
                    q.need(q.ok(v), 'a value that was read cannot be written')
                    b = q.de(ty, pl(v, 'Ok'))
                    q.need(q.ok(b), f'a value that was read is written as {show(pl(v, "Ok"))[:300]}, which is refused')
                    q.same(pl(b, 'Ok'), x, 'the value after writing and reading')
                    return True
                c.wire('round-trip', ty, 'de', spec, J)

                def first(q, ty=ty):
                    # a value made by a program; 'Other(name)' stands for no known name, and a non-empty list is not empty (C25)
                    def odd():
                        return any(k[0] == 'is' and v in (S('Other'), S('Unsupported')) or k[0] == 'isempty' and v == TRUE for k, v in q.st.pos.items())
                    if not q.is_ok or odd():
                        return False
                    b = q.de(ty, q.okval)
                    if odd():
                        return False
                    q.need(q.ok(b), f'{show(q.okval)[:300]} is written and not read back')
                    q.same(pl(b, 'Ok'), X, 'the value after writing and reading')
                    return True
                if not any(x in ty for x in RAW):
                    c.wire('write-first', ty, 'ser', first, X)
        finally:
            c.e = old
