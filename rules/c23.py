from rules.common import *

O, T = arg('object'), arg('t')
K = ('assoc', CR + 'object::TypedParameter::KEY', ('T',))
OTHER = arg('other_key')
PEC = CR + 'object::ParsingErrorContext'


def parsed(v):
    """parse result of a JSON value as the parameter type"""
    return ('app', 'try_from', 'T', v)


def find(q, m, k):
    return q.choose([(s, v) for s, _, v in M.map_find(q.e, q.st, m, k)])


def same_result(q, got, want, what):
    """Result<T>: same success with the same value, or both errors"""
    if q.ok(want):
        q.need(q.ok(got), f'{what}: a well-formed value gives an error')
        q.same(pl(got, 'Ok'), pl(want, 'Ok'), what)
    else:
        q.need(not q.ok(got), f'{what}: a malformed value does not give an error')


def others_kept(q, what):
    if not q.eq(OTHER, K):
        q.same(find(q, untyped(q.after('object')), OTHER), find(q, untyped(O), OTHER), f'another member after {what}')


def check(c):
    m = untyped(O)

    def get(q):
        old = find(q, m, K)
        if not q.some(old):
            q.need(not q.some(q.val), 'an absent parameter is reported')
            return True
        q.need(q.some(q.val), 'a present parameter is not reported')
        same_result(q, pl(q.val, 'Some'), parsed(pl(old, 'Some')), 'get')
        return True
    c.check('get', UO + '::get', get, [O], min_ok=3)

    def default(q):
        old = find(q, m, K)
        if not q.some(old):
            q.need(q.is_ok, 'an absent parameter gives an error instead of the default')
            q.need(q.okval == ('app', 'default', 'T'), f'not the default value: {show(q.okval)[:200]}')
            return True
        same_result(q, q.val, parsed(pl(old, 'Some')), 'get-or-default')
        return True
    c.check('get-or-default', UO + '::get_or_default', default, [O], min_ok=3)

    def remove(q):
        old = find(q, m, K)
        q.same(find(q, untyped(q.after('object')), K), NONE, 'member after removing it')
        others_kept(q, 'removing a parameter')
        if not q.some(old):
            q.need(not q.some(q.val), 'removing an absent parameter reports one')
            return True
        q.need(q.some(q.val), 'the removed parameter is not reported')
        same_result(q, pl(q.val, 'Some'), parsed(pl(old, 'Some')), 'remove')
        return True
    c.check('remove', UO + '::remove', remove, [mut('object', O)], min_ok=3)

    def insert(q):
        old = find(q, m, K)
        conv = ('app', 'try_from', JV, T)
        now = find(q, untyped(q.after('object')), K)
        others_kept(q, 'inserting a parameter')
        if not q.ok(conv):
            q.need(q.some(q.val) and not q.ok(pl(q.val, 'Some')), 'a parameter without a JSON form is inserted without an error')
            q.same(now, old, 'member after a failed insertion')
            return True
        q.same(now, SOME(pl(conv, 'Ok')), 'inserted member')
        if not q.some(old):
            q.need(not q.some(q.val), 'inserting a new parameter reports a previous one')
            return True
        q.need(q.some(q.val), 'the replaced parameter is not reported')
        same_result(q, pl(q.val, 'Some'), parsed(pl(old, 'Some')), 'insert')
        return True
    c.check('insert', UO + '::insert', insert, [mut('object', O), T], min_ok=4)

    R = arg('got')

    def required(q):
        if not q.some(R):
            q.need(not q.is_ok, 'an absent parameter satisfies a requirement')
            return True
        same_result(q, q.val, pl(R, 'Some'), 'required parameter')
        return True
    c.check('required', f'<std::option::Option<std::result::Result<T, anyhow::Error>> as {PEC}>::parsing_error', required, [R], min_ok=3)
    c.check('well-formed', f'<std::result::Result<T, anyhow::Error> as {PEC}>::parsing_error', lambda q: same_result(q, q.val, R, 'parameter') or True, [R], min_ok=2)

    # absence of a JSON value is the only thing taken for absence, also through the default and the whole object
    def whole(q):
        q.need(q.val[0] == 'adt' and q.val[2] == 'Object', f'not a JSON object: {show(q.val)[:200]}')
        q.same(q.val[3][0], m, 'JSON form of the object')
        return True
    c.check('whole', f'<impl std::convert::From<{UO}> for serde_json::Value>::from', whole, [O])
    c.check('empty', f'<{UO} as std::default::Default>::default', lambda q: q.same(find(q, untyped(q.val), OTHER), NONE, 'member of the empty object') or True, [])
