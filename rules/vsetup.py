"""A verifier configured through its public builder, with arbitrary parameters."""
from rules.common import *

RB = VER + "request_builder::RequestBuilder::<'a>"
VB = VER + 'VerifierBuilder'
CLIENT, STORE, SUBMIT, AT, DEFAULTS, PARAMS, QUERY = (arg(x) for x in ('client', 'store', 'submission_endpoint', 'at', 'defaults', 'params', 'query'))


def verifier(c, byref, rule='setup'):
    v = c.value(rule, VER + 'Verifier::builder')
    v = c.value(rule, VB + '::with_client', v, CLIENT)
    v = c.value(rule, VB + '::with_session_store', v, STORE)
    v = c.value(rule, VB + '::with_submission_endpoint', v, SUBMIT)
    if byref:
        v = c.value(rule, VB + '::by_reference', v, AT)
    v = c.value(rule, VB + '::build', v, ok=True)
    empty = [x for x in walk(v) if x and x[0] == 'adt' and x[1] == UO]
    return subst(v, {x: DEFAULTS for x in empty})


def builder(c, byref, query=True, rule='setup'):
    """a request builder with arbitrary caller-set parameters"""
    v = verifier(c, byref, rule)
    b = c.value(rule, VER + 'Verifier::build_authorization_request', v)
    if query:
        b = c.value(rule, RB + '::with_dcql_query', b, QUERY)
    # the builder's own parameter set is independent of the verifier's defaults
    hole = ('verifier-hole',)
    b = subst(subst(subst(b, {v: hole}), {DEFAULTS: PARAMS}), {hole: v})
    return b


def wallet_list(q, wm, name):
    """Option<JSON> of a wallet metadata member, through the public JSON view"""
    obj = q.run('<' + WM + ' as std::ops::Deref>::deref', wm)
    return member(untyped(obj), name)
