from rules.common import *

Q_ = CR + 'dcql_query::DcqlCredentialClaimsQuery'
NE = 'openid4vp::utils::NonEmptyVec'
KINDS = ('String', 'Null', 'Integer')
TECHNIQUE = 'static dataflow over MIR: result of each helper on every path of one to five symbolic elements of any kind, compared with the element the property names'


def check(c):
    for n in range(1, 7 if c.tier == 'thorough' else 6):
        els = tuple(arg(f'e{i}') for i in range(n))
        lst = c.value('path', f'<{NE}<T> as std::convert::TryFrom<std::vec::Vec<T>>>::try_from', ('arr', els), ok=True)
        query = c.value('path', Q_ + '::new', lst)

        def text(q, i):
            return pl(els[i], 'String') if i < n and q.variant(els[i], KINDS) == 'String' else None

        def result(q, want, what):
            got = q.some(q.val)
            if want is None:
                q.need(not got, f'{what} is reported although there is none: {show(q.val)[:100]}')
            else:
                q.need(got, f'{what} is not reported')
                q.same(pl(q.val, 'Some'), want, what)
            return True
        for name, i in (('namespace', 0), ('element_identifier', 1)):
            c.check(name, f'{Q_}::{name}', lambda q: result(q, text(q, i), name), [query])

        def last(q):
            for i in reversed(range(n)):
                t = text(q, i)
                if t is not None:
                    return result(q, t, 'claim name')
            return result(q, None, 'claim name')
        c.check('claim_name', Q_ + '::claim_name', last, [query], min_ok=2)
