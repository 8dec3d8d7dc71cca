from rules.common import *

N = PAR + 'Nonce'
TECHNIQUE = 'static dataflow over MIR: origin of every character of the nonce, as a term over the random source and the length'
NOTE = 'rand\'s Alphanumeric.sample_string(rng, n) is trusted to draw n alphanumeric characters from rng'


ALNUM = ('adt', 'rand::distributions::Alphanumeric', 'Alphanumeric', ())


def check(c):
    RNG, LEN, X = arg('rng'), arg('length'), arg('text')

    def text(q, n):
        return q.run(f'<{N} as std::ops::Deref>::deref', n)

    # character by character: the number of draws is decided for a range of lengths
    def drawn(n):
        def spec(q):
            t = text(q, q.val)
            cs = t[1] if t[0] == 'cat' else () if t == S('') else (t,)
            draws = [x[3] for x in cs if x[:3] in (('app', 'from', 'char'), ('app', 'cast', 'char'))]
            q.need(len(draws) == len(cs) == n, f'{len(cs)} characters for length {n}')
            q.need(all(d[:2] == ('call', 'Rng::sample') and d[2].v == (RNG, ALNUM) for d in draws) and len(set(draws)) == n, f'not a fresh alphanumeric draw from the random source for every character: {show(t)[:200]}')
            return True
        return spec
    r, outs = c.outcomes('random', N + '::random', [RNG, LEN])
    if r is not None and any(contains(x[1], RNG) for o in outs for x in o.st.ev if x[0] == 'Rng::sample'):
        c.e.MAXITEMS = c.e.MAXVISIT = 400
        for n in (0, 1, 2, 3, 8, 16, 21, 32, 33, 43, 64, 100, 129):
            c.check('random', N + '::random', drawn(n), [RNG, ('n', n)])
        del c.e.MAXITEMS, c.e.MAXVISIT
        return rest(c, text, X)

    def random(q):
        t = text(q, q.val)
        ok = t[0] == 'app' and t[1].endswith('DistString::sample_string') and t[3:] == (ALNUM, RNG, LEN)
        q.need(ok, f'not alphanumeric text of the requested length from the random source: {show(t)[:300]}')
        return True
    c.check('random', N + '::random', random, [RNG, LEN])

    rest(c, text, X)


def rest(c, text, X):
    def made(q):
        q.same(text(q, q.val), X, 'text of the nonce')
        return True
    c.check('from-string', f'<{N} as std::convert::From<std::string::String>>::from', made, [X])
    c.check('from-str', f'<{N} as std::convert::From<&str>>::from', made, [X])

    NON = arg('nonce')

    def display(q):
        q.same(q.after('out'), text(q, NON), 'displayed nonce')
        return True
    c.check('display', f'<{N} as std::fmt::Display>::fmt', display, [NON, mut('out', S(''))])

    def shown(q):
        t = text(q, NON)
        j = q.val
        q.need(j[0] == 'adt' and j[2] == 'String', 'a nonce is not written as JSON text')
        q.same(pl(j, 'String'), t, 'JSON of the nonce')
        return True
    c.check('to-json', f'<impl std::convert::From<{N}> for serde_json::Value>::from', shown, [NON])

    J = arg('json')

    def read(q):
        if not q.is_ok:
            q.need(not q.json(J, 'String'), 'a JSON text is refused as nonce')
            return False
        q.need(q.json(J, 'String'), 'JSON that is not text is accepted as nonce')
        q.same(text(q, q.okval), pl(J, 'String'), 'nonce read')
        return True
    c.check('from-json', f'<{N} as std::convert::TryFrom<serde_json::Value>>::try_from', read, [J])
