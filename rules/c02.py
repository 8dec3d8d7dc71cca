from rules.vsetup import *

KEY = 'client_id_prefixes_supported'


def supported(q, o, prefix, who):
    """the prefix is in the list (or the default)"""
    if q.some(o):
        l = StrList(q, pl(o, 'Some'))
        q.need(l.wellformed(), f'{who} goes on with a malformed {KEY}')
        q.need(l.contains(prefix), f'{who} goes on with a prefix that is not in {KEY}')
    else:
        q.need(q.eq(prefix, S('pre-registered')), f'{who} goes on with a prefix although the wallet lists none')


def keep_key(t):
    return any(x == S(KEY) or x[:1] == ('fld',) and x[2] == 'client_id' for x in walk(t)) or about_cid(t) or 'Client::prefix' in repr(t)


def check(c):
    req, wallet = arg('request'), arg('wallet')

    def spec(q):
        if not q.is_ok:
            return False
        cid = q.run(ARO + '::client_id', q.okval)
        if not q.some(cid):
            return False
        p = prefix_of(q, f0(pl(cid, 'Some')))
        if p is None:
            return False
        md = [x for x in q.ev if x[0].endswith('Wallet::metadata')]
        q.need(md and all(x[1] == (wallet,) for x in md), 'the wallet metadata is not asked from the wallet')
        supported(q, wallet_list(q, md[-1][2], KEY), p, 'wallet validation')
        return True
    c.check('wallet', AR + '::validate', spec, [req, wallet], keep=keep_key)

    for byref in (False, True):
        b = builder(c, byref)
        for path, args in ((RB + '::build_with_session_id', [b, arg('uuid'), arg('wm')]), (RB + '::build', [b, arg('wm')])):
            def vspec(q):
                if not q.is_ok:
                    return False
                ps = q.events('Client::prefix')
                q.need(ps and ps[-1][1][0] == CLIENT, 'the prefix is not asked from the configured client')
                supported(q, wallet_list(q, arg('wm'), KEY), f0(ps[-1][2]), 'building a request')
                return True
            c.check('verifier', path, vspec, args, keep=keep_key)
