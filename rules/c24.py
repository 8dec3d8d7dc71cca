from rules.common import *

S_, J, V = arg('name'), arg('json'), arg('value')
MD = CR + 'metadata::parameters::'
RSP = CR + 'response::parameters::'
CF = CR + 'credential_format::ClaimFormatDesignation'
DQ = CR + 'dcql_query::DcqlQuery'

KEYS = {
    PAR + 'ClientId': 'client_id', PAR + 'ClientMetadata': 'client_metadata', PAR + 'Nonce': 'nonce', PAR + 'Audience': 'aud',
    PAR + 'RedirectUri': 'redirect_uri', PAR + 'ResponseUri': 'response_uri', PAR + 'ResponseMode': 'response_mode',
    PAR + 'ResponseType': 'response_type', PAR + 'State': 'state', PAR + 'ExpectedOrigins': 'expected_origins',
    PAR + 'TransactionData': 'transaction_data', PAR + 'VerifierInfo': 'verifier_info', PAR + 'RequestUriMethod': 'request_uri_method',
    MD + 'verifier::VpFormats': 'vp_formats_supported', MD + 'verifier::JWKs': 'jwks',
    MD + 'verifier::EncryptedResponseEncValuesSupported': 'encrypted_response_enc_values_supported',
    MD + 'wallet::Issuer': 'issuer', MD + 'wallet::AuthorizationEndpoint': 'authorization_endpoint',
    MD + 'wallet::ResponseTypesSupported': 'response_types_supported', MD + 'wallet::ClientIdPrefixesSupported': 'client_id_prefixes_supported',
    MD + 'wallet::RequestObjectSigningAlgValuesSupported': 'request_object_signing_alg_values_supported',
    MD + 'wallet::VpFormatsSupported': 'vp_formats_supported',
    MD + 'wallet::AuthorizationEncryptionAlgValuesSupported': 'authorization_encryption_alg_values_supported',
    MD + 'wallet::AuthorizationEncryptionEncValuesSupported': 'authorization_encryption_enc_values_supported',
    RSP + 'IdToken': 'id_token', RSP + 'VpToken': 'vp_token', DQ: 'dcql_query',
}
PREFIXES = {'DECENTRALIZED_IDENTIFIER': 'decentralized_identifier', 'OPENID_FEDERATION': 'openid_federation', 'PREREGISTERED': 'pre-registered',
            'REDIRECT_URI': 'redirect_uri', 'VERIFIER_ATTESTATION': 'verifier_attestation', 'X509_SAN_DNS': 'x509_san_dns', 'X509_HASH': 'x509_hash',
            'ORIGIN': 'origin'}
TEXT = [PAR + x for x in ('ClientId', 'Nonce', 'Audience', 'State', 'ClientIdScheme')] + [MD + 'wallet::Issuer', RSP + 'IdToken']
URLS = [PAR + 'RedirectUri', PAR + 'ResponseUri', MD + 'wallet::AuthorizationEndpoint']
LISTS = [PAR + 'ExpectedOrigins', PAR + 'TransactionData', MD + 'verifier::EncryptedResponseEncValuesSupported'] + \
    [MD + 'wallet::' + x for x in ('RequestObjectSigningAlgValuesSupported', 'AuthorizationEncryptionAlgValuesSupported', 'AuthorizationEncryptionEncValuesSupported')]

MODE = {'DirectPost': 'direct_post', 'DirectPostJwt': 'direct_post.jwt', 'DcApi': 'dc_api', 'DcApiJwt': 'dc_api.jwt'}
TYPE = {'VpToken': 'vp_token', 'VpTokenIdToken': 'vp_token id_token'}
METHOD = {'Get': 'get', 'Post': 'post'}
FORMAT = {'JwtVcJson': 'jwt_vc_json', 'LdpVc': 'ldp_vc', 'MsoMDoc': 'mso_mdoc', 'DcSdJwt': 'dc+sd-jwt'}


class Names:
    """an enumeration with names, and (or not) a variant that keeps any other name"""

    def __init__(s, c, ty, table, other):
        s.c, s.ty, s.table, s.other, s.tag = c, ty, table, other, ty.split('::')[-1]

    def variants(s):
        return tuple(s.table) + ((s.other,) if s.other else ())

    def is_value_of(s, q, v, text):
        """v (or its refusal, None) is what the text names"""
        for var, name in s.table.items():
            if q.eq(text, S(name)):
                q.need(v is not None, f"'{name}' is refused")
                got = q.variant(v, s.variants())
                q.need(got == var, f"'{name}' is read as {got}")
                return
        if not s.other:
            q.need(v is None, 'an unknown name is accepted')
            return
        q.need(v is not None, 'an unknown name is refused')
        got = q.variant(v, s.variants())
        q.need(got == s.other, f'an unknown name is read as {got}')
        q.same(pl(v, s.other), text, 'unknown name')

    def is_name_of(s, q, text, v):
        var = q.variant(v, s.variants())
        q.same(text, S(s.table[var]) if var in s.table else pl(v, s.other), f'name of {var}')

    def reads(s, path, result=False, a=S_):
        def f(q):
            v = q.val
            if result:
                v = q.okval if q.is_ok else None
            s.is_value_of(q, v, a)
            return True
        s.c.check(s.tag + '-read', path, f, [a], min_ok=len(s.table))

    def reads_json(s):
        def f(q):
            if not q.json(J, 'String'):
                q.need(not q.is_ok, 'a value that is not a string is accepted')
                return True
            s.is_value_of(q, q.okval if q.is_ok else None, pl(J, 'String'))
            return True
        s.c.check(s.tag + '-read-json', try_from_json(s.ty), f, [J], min_ok=len(s.table))
        return f

    def writes(s, path, get=lambda q: q.val, args=None, rule='-write'):
        def f(q):
            s.is_name_of(q, get(q), V)
            return True
        s.c.check(s.tag + rule, path, f, args or [V], min_ok=len(s.variants()))

    def writes_json(s):
        s.writes(into_json(s.ty), lambda q: q.need(q.json(q.val, 'String'), 'not a JSON string') or pl(q.val, 'String'), rule='-write-json')

    def shows(s):
        s.writes(f'<{s.ty} as std::fmt::Display>::fmt', lambda q: q.after('f'), [V, mut('f', S(''))], '-display')

    def serde(s):
        def de(q):
            if not q.json(J, 'String'):
                q.need(not q.is_ok, 'a value that is not a string is accepted')
                return True
            s.is_value_of(q, q.okval if q.is_ok else None, pl(J, 'String'))
            return True
        s.c.wire(s.tag + '-deserialize', s.ty, 'de', de, J, min_ok=len(s.table))

        def ser(q):
            q.need(q.is_ok and q.json(q.okval, 'String'), 'a name is not serialized as a string')
            s.is_name_of(q, pl(q.okval, 'String'), V)
            return True
        s.c.wire(s.tag + '-serialize', s.ty, 'ser', ser, V, min_ok=len(s.variants()))

    def compares(s):
        """equality is sameness of the variant and of the kept name"""
        def val(var, n):
            return ('adt', s.ty, var, (arg(n),) if var == s.other else ())
        for a in s.variants():
            for b in s.variants():
                def f(q):
                    r = q.ask(q.val)
                    want = a == b and (a != s.other or q.eq(arg('n1'), arg('n2')))
                    q.need(r == want, f'{a} compares {"equal" if r else "different"} to {b}')
                    return True
                s.c.check(s.tag + '-compare', f'<{s.ty} as std::cmp::PartialEq>::eq', f, [val(a, 'n1'), val(b, 'n2')])


QUICK_ELEMS = 3
def check(c):
    c.e.wire = True
    consts = {}
    for k in c.e.consts:
        consts[(k['self'], k['name'])] = k['value'].get('str')
    for ty, key in KEYS.items():
        got = consts.get((ty, 'KEY'))
        c.fact('member-name', got == key, f"{ty.split('::')[-1]} is the member '{got}' instead of '{key}'", ty)
    for n, key in PREFIXES.items():
        got = consts.get((PAR + 'ClientIdScheme', n))
        c.fact('prefix-name', got == key, f"ClientIdScheme::{n} is '{got}' instead of '{key}'", PAR + 'ClientIdScheme')

    n = Names(c, PAR + 'ResponseMode', MODE, 'Unsupported')
    n.reads(f'<{n.ty} as std::convert::From<std::string::String>>::from')
    n.writes(f'<impl std::convert::From<{n.ty}> for std::string::String>::from')
    n.reads_json(), n.writes_json(), n.shows(), n.serde(), n.compares()

    def jarm(q):
        var = q.variant(V, n.variants())
        if var == n.other:
            q.need(not q.is_ok, 'an unknown mode counts as encrypted or not')
        else:
            q.need(q.is_ok, f'{var} is refused')
            q.need(q.ask(q.okval) == MODE[var].endswith('.jwt'), f'{var} has the wrong encryption')
        return True
    c.check('encrypted-modes', n.ty + '::is_jarm', jarm, [V], min_ok=5)
    c.check('default-mode', f'<{n.ty} as std::default::Default>::default', lambda q: q.need(q.variant(q.val, n.variants()) == 'DirectPost', 'the default mode is not direct_post') or True, [])

    n = Names(c, PAR + 'ResponseType', TYPE, 'Unsupported')
    n.reads(f'<{n.ty} as std::convert::From<std::string::String>>::from')
    n.writes(f'<impl std::convert::From<{n.ty}> for std::string::String>::from')
    n.reads_json(), n.writes_json(), n.serde(), n.compares()

    n = Names(c, PAR + 'RequestUriMethod', METHOD, None)
    n.reads_json(), n.writes_json(), n.compares()
    m = n
    c.check('default-method', f'<{n.ty} as std::default::Default>::default', lambda q: q.need(q.variant(q.val, m.variants()) == 'Get', 'the default method is not get') or True, [])

    n = Names(c, CF, FORMAT, 'Other')
    n.reads(f'<{CF} as std::convert::From<&str>>::from'), n.reads(f'<{CF} as std::convert::From<std::string::String>>::from')
    n.reads(f'<{CF} as std::str::FromStr>::from_str', True), n.reads(CF + '::from_name')
    n.writes(f'<impl std::convert::From<{CF}> for std::string::String>::from')
    n.shows(), n.serde(), n.compares()

    # values of parameters
    for ty in TEXT:
        def rd(q):
            if not q.json(J, 'String'):
                q.need(not q.is_ok, 'a value that is not a string is accepted')
                return True
            q.need(q.is_ok, 'a string is refused')
            q.same(f0(q.okval), pl(J, 'String'), 'text read')
            return True
        c.check('text-read', try_from_json(ty), rd, [J], min_ok=2)
        c.check('text-write', into_json(ty), lambda q: q.same(q.val, jstr(f0(V)), 'text written') or True, [V])
    for ty in URLS:
        def rd(q):
            if not q.json(J, 'String'):
                q.need(not q.is_ok, 'a value that is not a string is accepted')
                return True
            u = ('app', 'parse', 'url::Url', pl(J, 'String'))
            q.need(q.is_ok == q.ok(u), 'accepted although it is not a URL, or refused although it is one')
            if q.is_ok:
                q.same(f0(q.okval), pl(u, 'Ok'), 'URL read')
            return True
        c.check('url-read', try_from_json(ty), rd, [J], min_ok=3)
        c.check('url-write', into_json(ty), lambda q: q.same(q.val, jstr(app('str', f0(V))), 'URL written') or True, [V])
    for ty in LISTS:
        c.check('list-read', try_from_json(ty), list_read, [J])
        c.check('list-write', into_json(ty), lambda q: list_written(q, q.val, f0(V)), [V])
    ty = MD + 'wallet::ClientIdPrefixesSupported'
    c.check('list-read', try_from_json(ty), list_read, [J])
    c.check('list-write', into_json(ty), lambda q: list_written(q, q.val, f0(V), f0), [V])
    ty = PAR + 'VerifierInfo'

    def info(q):
        q.need(q.is_ok == q.json(J, 'Array'), 'accepted although it is not an array, or refused although it is one')
        if q.is_ok:
            q.same(f0(q.okval), pl(J, 'Array'), 'entries read')
        return True
    c.check('json-read', try_from_json(ty), info, [J], min_ok=2)
    c.check('json-write', into_json(ty), lambda q: q.same(pl(q.val, 'Array'), f0(V), 'entries written') or True, [V])
    ty = PAR + 'ClientMetadata'

    def meta(q):
        q.need(q.is_ok == q.json(J, 'Object'), 'accepted although it is not an object, or refused although it is one')
        if q.is_ok:
            q.same(untyped(f0(q.okval)), pl(J, 'Object'), 'members read')
        return True
    c.check('json-read', try_from_json(ty), meta, [J], min_ok=2)
    c.check('json-write', into_json(ty), lambda q: q.same(pl(q.val, 'Object'), untyped(f0(V)), 'members written') or True, [V])


def list_read(q):
    """strings of a JSON array, in order, or a refusal"""
    if not q.is_ok:
        a = StrList(q, J)
        q.need(not (q.json(J, 'Array') and not a.fv and a.wellformed() and q.st.pos.get(('exh', pl(J, 'Array'))) is not None), 'a list of strings is refused')
        return False
    got = f0(q.okval)
    if got[0] == 'pl' and got[2] == 'Ok' and got[1][:2] == ('app', 'from_value'):
        q.need(got[1][3] == J, f'a list read from {show(got)[:200]}')
        return True
    q.need(got[0] == 'arr' and q.json(J, 'Array'), f'not the list in the JSON value: {show(got)[:200]}')
    a = pl(J, 'Array')
    q.need(q.whole(a, len(got[1])), 'entries are dropped')
    for i, x in enumerate(got[1]):
        el = ('el', a, i)
        q.need(q.json(el, 'String'), 'an entry that is not a string is accepted')
        q.same(f0(x) if x[0] == 'adt' else x, pl(el, 'String'), f'entry {i}')
    return True


def list_written(q, j, lst, proj=lambda x: x):
    if j[:2] == ('app', 'value'):
        q.need(j[3] == lst and proj is not f0, f'a list written from {show(j)[:200]}')
        return True
    q.need(q.json(j, 'Array'), 'not a JSON array')
    xs = pl(j, 'Array')
    q.need(xs[0] == 'arr', f'not the entries: {show(xs)[:200]}')
    q.need(q.whole(lst, len(xs[1])), 'entries are dropped')
    for i, x in enumerate(xs[1]):
        q.same(x, jstr(proj(('el', lst, i))), f'entry {i}')
    return True
