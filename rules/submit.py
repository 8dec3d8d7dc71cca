"""Entry point and terms shared by C12 and C13."""
from rules.common import *

SUBMIT = 'openid4vp::wallet::Wallet::submit_response'
WALLET, REQ, RESP = arg('wallet'), arg('request'), arg('response')
AUTHZ = CR + 'response::AuthorizationResponse'
MODES = ('DirectPost', 'DirectPostJwt', 'DcApi', 'DcApiJwt', 'Unsupported')
WIRE = ('JsonEncodedAuthorizationResponse', 'JwtAuthorizationResponse', 'UnencodedAuthorizationResponse', 'AuthorizationResponse', 'VpToken', 'State')


def mode(q):
    return q.variant(q.run(ARO + '::response_mode', REQ), MODES)
