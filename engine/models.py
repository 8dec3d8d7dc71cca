"""What the analysis knows about code outside the repository: transfer functions of library calls."""
import re

from .terms import *

MODELS, TRAIT_MODELS, LOCAL = {}, {}, {}
UNDEF = ('undef',)

# local trait methods that only read: two calls with the same arguments give the same value
PURE_TRAIT = {'Wallet::metadata', 'Wallet::http_client', 'Client::id', 'Client::prefix', 'RequestSigner::alg', 'RequestSigner::jwk', 'Verifier::from_spki', 'Verifier::verify'}
EVENT_TRAITS = {'ssi_jwk::JWKResolver'}


def model(*names):
    def w(f):
        for n in names:
            if isinstance(n, tuple):
                TRAIT_MODELS[n] = f
            else:
                MODELS[n] = f
        return f
    return w


def named_const(nm):
    if nm.startswith('base64::') or '::BASE64_' in nm:
        last = nm.split('::')[-1].replace('BASE64_', '')
        return ('b64', last)
    if nm.startswith('http::Method::'):
        return S(nm.split('::')[-1])
    if nm.startswith('http::header') and nm.split('::')[-1].isupper():
        return S(nm.split('::')[-1].lower().replace('_', '-'))
    if nm.startswith('http::StatusCode::') or nm.startswith('tracing::Level') or nm.startswith('tracing'):
        return ('const', nm)
    return None


def is_future(e, ty):
    s = e.ts(ty)
    return 'Future<' in s or s.startswith('impl ') and 'Future' in s or e.T[ty]['k'] == 'coroutine' or 'async fn body' in s


# ------------------------------------------------------------------ generic transparent conversions
def ident(e, st, f, a, o):
    return [(st, a[0])]


def identd(e, st, f, a, o):
    return [(st, e.deep(st, a[0]))]


for n in ['<std::string::String as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::Deref>::deref',
          '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut', '<std::string::String as std::ops::DerefMut>::deref_mut',
          '<std::sync::Arc<T, A> as std::ops::Deref>::deref', '<std::boxed::Box<T, A> as std::ops::Deref>::deref', '<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut',
          '<std::borrow::Cow<\'_, B> as std::ops::Deref>::deref', '<bytes::bytes::Bytes as std::ops::Deref>::deref',
          '<sha2::digest::generic_array::GenericArray<T, N> as std::ops::Deref>::deref',
          'std::boxed::Box::<T>::pin', 'std::boxed::Box::<T>::new', 'std::sync::Arc::<T>::new', 'std::rc::Rc::<T>::new', 'std::pin::Pin::<Ptr>::new_unchecked',
          'std::pin::Pin::<Ptr>::new', 'std::pin::Pin::<std::boxed::Box<T, A>>::as_mut', 'std::pin::Pin::<Ptr>::as_mut', 'std::boxed::box_assume_init_into_vec_unsafe', 'std::hint::must_use',
          'anyhow::__private::must_use', 'std::convert::identity', 'std::string::String::as_str', 'std::string::String::as_bytes', 'core::str::<impl str>::as_bytes', 'std::string::String::into_bytes', 'std::str::<impl str>::as_bytes',
          'std::string::String::as_mut_str', 'std::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::into_vec', 'std::str::<impl std::borrow::ToOwned for str>::to_owned', 'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice',
          'std::vec::Vec::<T, A>::into_boxed_slice', 'std::string::String::into_boxed_str', 'std::str::<impl str>::to_owned', 'std::str::<impl str>::into_string', 'std::borrow::Cow::<\'_, B>::into_owned', 'std::borrow::Cow::<\'_, B>::to_mut',
          'serde_bytes::Bytes::new', 'serde_bytes::ByteBuf::into_vec', 'serde_bytes::ByteBuf::from', '<F as std::future::IntoFuture>::into_future',
          'std::option::Option::<&T>::cloned', 'std::option::Option::<&T>::copied', 'std::option::Option::<T>::as_ref', 'std::option::Option::<T>::as_deref', 'std::option::Option::<&mut T>::cloned',
          'std::result::Result::<T, E>::as_ref', 'std::result::Result::<&T, E>::cloned', 'std::iter::Iterator::by_ref', 'std::mem::drop', 'tokio::sync::MutexGuard', 'std::slice::<impl [T]>::into_iter',
          'std::mem::ManuallyDrop::<T>::new', 'std::char::methods::<impl char>::to_string', 'std::sync::Arc::<T, A>::as_ref', 'std::boxed::Box::<T>::leak', 'std::future::get_context',
          ]:
    MODELS[n] = ident
for t in [('std::clone::Clone', 'clone'), ('std::borrow::ToOwned', 'to_owned'), ('std::borrow::Borrow', 'borrow')]:
    TRAIT_MODELS[t] = identd
for t in [('std::convert::AsRef', 'as_ref'), ('std::ops::Deref', 'deref'), ('std::ops::DerefMut', 'deref_mut'), ('std::convert::AsMut', 'as_mut'), ('std::borrow::BorrowMut', 'borrow_mut'), ('std::future::IntoFuture', 'into_future')]:
    TRAIT_MODELS[t] = ident


@model('std::boxed::Box::<T>::new_uninit')
def _(e, st, f, a, o):
    return [(st, UNDEF)]


@model('std::mem::take', 'std::mem::replace', 'std::mem::swap')
def _(e, st, f, a, o):
    p = f['path']
    if a[0][0] != 'ptr':
        return [(st, a[0])]
    old = e.read(st, a[0][1], a[0][2])
    if p.endswith('swap'):
        other = e.deref(st, a[1])
        e.write(st, a[0][1], a[0][2], other)
        if a[1][0] == 'ptr':
            e.write(st, a[1][1], a[1][2], old)
        return [(st, UNIT)]
    if p.endswith('replace'):
        e.write(st, a[0][1], a[0][2], a[1])
        return [(st, old)]
    out = []
    for s2, v in default_of(e, st, f, o):
        e.write(s2, a[0][1], a[0][2], v)
        out.append((s2, old))
    return out


def tyk(e, i):
    t = e.T[i]
    while t['k'] == 'ref':
        t = e.T[t['t']]
    return t


STRINGY = {'std::string::String', 'str', '&str', 'std::borrow::Cow<\'_, str>', 'std::boxed::Box<str>'}


def is_stringy(s):
    s = s.replace("'static ", '').replace("'_ ", '')
    while s.startswith('&'):
        s = s[1:].replace('mut ', '', 1) if s.startswith('&mut ') else s[1:]
    return s in ('std::string::String', 'str', 'std::boxed::Box<str>', 'std::sync::Arc<str>') or s.startswith('std::borrow::Cow<') and 'str' in s


def strip_ref(s):
    while s.startswith('&'):
        s = s[1:]
        if s.startswith('mut '):
            s = s[4:]
        if s.startswith("'"):
            s = s.split(' ', 1)[1] if ' ' in s else s
    return s


# ------------------------------------------------------------------ From / Into / TryFrom / to_string
INTS = ('usize', 'u64', 'i64', 'u32', 'i32', 'u8', 'u16', 'i128', 'u128', 'isize', 'i8', 'i16', 'f64', 'f32')


@model('rand::distributions::DistString::append_string', ('rand::distributions::DistString', 'append_string'))
def _(e, st, f, a, o):
    p = a[2]
    t = app('rand::distributions::DistString::sample_string', N(2), e.deep(st, a[0]), e.deep(st, a[1]), e.deep(st, a[3]))
    e.write(st, p[1], p[2], cat(e.read(st, p[1], p[2]), t))
    return [(st, UNIT)]


@model('anyhow::__private::not')
def _(e, st, f, a, o):
    return [(st, e.neg(a[0]))]


def conv(e, st, f, a, o, frm=None, to=None):
    """From<frm> for to, library impls"""
    v = a[0]
    if strip_ref(frm) == strip_ref(to):
        return [(st, v)]
    if is_stringy(frm) and (is_stringy(to) or to in ('std::vec::Vec<u8>', 'std::boxed::Box<dyn std::error::Error>')):
        return [(st, v)]
    if to == 'serde_json::Value':
        if is_stringy(frm):
            return [(st, adt(JV, 'String', v))]
        if frm == 'bool':
            return [(st, adt(JV, 'Bool', v))]
        if frm.startswith('serde_json::Map<'):
            return [(st, adt(JV, 'Object', v))]
        if frm.startswith('std::vec::Vec<') or frm.startswith('&[') or frm.startswith('['):
            inner = frm[frm.index('<') + 1:-1] if '<' in frm else ''
            if inner == 'serde_json::Value':
                return [(st, adt(JV, 'Array', v))]
            if is_stringy(inner) and v[0] == 'arr':
                return [(st, adt(JV, 'Array', ('arr', tuple(jstr(x) for x in v[1]))))]
            w = to_value_term(e, frm, e.deep(st, v))
            return [(st, app('value', frm_norm(frm), v) if w is None else w)]
        if frm in INTS:
            return [(st, app('value', frm, v))]
        if frm == '()':
            return [(st, adt(JV, 'Null'))]
        if frm.startswith('std::option::Option<'):
            pass
    if to == CBV:
        if is_stringy(frm):
            return [(st, adt(CBV, 'Text', v))]
        if frm == 'bool':
            return [(st, adt(CBV, 'Bool', v))]
        if frm in ('std::vec::Vec<u8>', '&[u8]') or re.match(r'&?\[u8; \d+\]$', strip_ref(frm)):
            return [(st, adt(CBV, 'Bytes', e.deep(st, v)))]
        if frm == 'std::vec::Vec<ciborium::Value>':
            return [(st, adt(CBV, 'Array', v))]
    if to.startswith('std::option::Option<'):
        return [(st, SOME(v))]
    if to in ('std::vec::Vec<u8>',) or to.startswith('std::boxed::Box<') or to.startswith('std::sync::Arc<') or to.startswith('std::rc::Rc<') or to.startswith('std::borrow::Cow<'):
        return [(st, v)]
    if to in ('anyhow::Error',):
        return [(st, v if v[0] == 'anyerr' else ('errof', v))]
    if to.startswith(('std::collections::HashMap<', 'std::collections::BTreeMap<')) and frm.startswith('[') and e.deep(st, v)[0] == 'arr':
        return [(st, finish(e, e.deep(st, v)[1], to))]
    if to.startswith('std::vec::Vec<') and frm.startswith(('[', '&[', 'std::boxed::Box<[')):
        return [(st, v)]
    if to in ('usize', 'u64', 'i64', 'u32', 'i32', 'u8', 'u16', 'i128', 'u128') and v[0] in ('n',):
        return [(st, v)]
    return None


def frm_norm(s):
    return strip_ref(s)


def conv_call(e, st, f, a, o):
    """into / from / try_into / try_from resolved through `fwd`"""
    me = f.get('method')
    fw = f.get('fwd') or f
    if fw.get('rlocal') and fw is not f:
        return e.call(st, fw, a, o)
    tys = [e.ts(i) for i in (fw.get('args') or [])]
    if len(tys) < 2:
        return None
    to, frm = tys[0], tys[1]
    if fw is f and me in ('into', 'try_into'):
        frm, to = tys[0], tys[1]
    if me in ('into', 'from'):
        if strip_ref(frm) == strip_ref(to):
            return [(st, a[0])]
        r = conv(e, st, f, a, o, frm, to)
        if r:
            return r
        return [(st, ('app', 'from', to, e.deep(st, a[0])))]
    # try_*
    sub = fw.get('fwd')
    if sub:   # blanket TryFrom over From
        if sub.get('rlocal'):
            return [(r[0], OK(r[1])) if isinstance(r, tuple) else r for r in e.call(st, sub, a, o)]
        if strip_ref(frm) == strip_ref(to):
            return [(st, OK(a[0]))]
        r = conv(e, st, f, a, o, frm, to)
        return [(s, OK(v)) for s, v in r] if r else [(st, OK(('app', 'from', to, e.deep(st, a[0]))))]
    return [(st, ('app', 'try_from', to, e.deep(st, a[0])))]


for t in [('std::convert::Into', 'into'), ('std::convert::From', 'from'), ('std::convert::TryInto', 'try_into'), ('std::convert::TryFrom', 'try_from')]:
    TRAIT_MODELS[t] = conv_call


def display(e, st, x, ty, fw=None):
    """[(state, string term)] of Display for x: ty"""
    x = e.deref(st, x)
    if fw and fw.get('rlocal') and fw.get('inst') is not None:
        return run_fmt(e, st, fw['inst'], x)
    t = strip_ref(ty)
    if is_stringy(t) or t == 'char':
        return [(st, x)]
    if x[0] == 'n' or x[0] == 'b':
        return [(st, S(str(x[1]).lower() if x[0] == 'b' else str(x[1])))]
    if t.startswith('std::fmt::Arguments'):
        return fmt_args(e, st, x)
    if t == 'serde_json::Value':
        return [(st, app('json', x))]
    return [(st, app('str', x))]


def run_fmt(e, st, inst, x):
    cell = ('fmt', st.nf)
    st.nf += 1
    st.mem[cell] = S('')
    out = []
    for r in e.inline(st, inst, [x, ('ptr', cell, ())]):
        if not isinstance(r, tuple):
            out.append(r)
            continue
        s2, v = r
        buf = s2.mem.pop(cell, S(''))
        out.append((s2, buf))
    return out


@model('<T as std::string::ToString>::to_string', ('std::string::ToString', 'to_string'))
def _(e, st, f, a, o):
    tys = f.get('rargs') or f.get('args')
    return display(e, st, a[0], e.ts(tys[0]), f.get('fwd'))


def fmt_append(e, st, fm, s):
    if fm[0] == 'ptr':
        old = e.read(st, fm[1], fm[2])
        e.write(st, fm[1], fm[2], cat(old if old != UNDEF else S(''), s))


@model('std::fmt::Formatter::<\'a>::write_str', 'std::fmt::Formatter::<\'a>::pad', ('std::fmt::Write', 'write_str'), 'std::fmt::Formatter::<\'_>::write_str')
def _(e, st, f, a, o):
    fmt_append(e, st, a[0], a[1])
    return [(st, OK(UNIT))]


@model('std::fmt::Formatter::<\'a>::write_fmt', ('std::fmt::Write', 'write_fmt'), 'std::fmt::Formatter::<\'_>::write_fmt')
def _(e, st, f, a, o):
    out = []
    for r in fmt_args(e, st, a[1]):
        if not isinstance(r, tuple):
            out.append(r); continue
        fmt_append(e, r[0], a[0], r[1])
        out.append((r[0], OK(UNIT)))
    return out


@model('<std::string::String as std::fmt::Display>::fmt', '<str as std::fmt::Display>::fmt', ('std::fmt::Display', 'fmt'))
def _(e, st, f, a, o):
    if f.get('rlocal'):
        return None
    ty = e.ts((f.get('args') or [0])[0])
    out = []
    for r in display(e, st, a[0], ty):
        if not isinstance(r, tuple):
            out.append(r); continue
        fmt_append(e, r[0], a[1], r[1])
        out.append((r[0], OK(UNIT)))
    return out


@model('core::fmt::rt::Argument::<\'_>::new_display')
def _(e, st, f, a, o):
    from .core import _Ref
    return [(st, ('fmtarg', a[0], e.ts((f.get('args') or [0])[-1]), _Ref(f['fwd']) if f.get('fwd') else None))]


@model('core::fmt::rt::Argument::<\'_>::new_debug')
def _(e, st, f, a, o):
    return [(st, ('fmtdbg', a[0]))]


@model('core::fmt::rt::Argument::<\'_>::new_lower_hex', 'core::fmt::rt::Argument::<\'_>::new_upper_hex')
def _(e, st, f, a, o):
    return [(st, ('fmtx', f['path'].split('_')[-2], a[0]))]


@model('std::fmt::Arguments::<\'a>::new')
def _(e, st, f, a, o):
    return [(st, ('fmt', a[0], a[1]))]


@model('std::fmt::Arguments::<\'a>::from_str', 'std::fmt::Arguments::<\'a>::new_const')
def _(e, st, f, a, o):
    return [(st, ('fmt', None, a[0]))]


@model('std::fmt::Arguments::<\'a>::as_str')
def _(e, st, f, a, o):
    x = e.deref(st, a[0])
    return [(st, SOME(x[2]) if x[0] == 'fmt' and x[1] is None else NONE)]


def template(b):
    out, i, n = [], 0, 0
    while i < len(b):
        c = b[i]; i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(S(bytes(b[i:i + c]).decode())); i += c
        elif c == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            out.append(S(bytes(b[i:i + ln]).decode())); i += ln
        else:
            opts = []
            if c & 1: opts.append(bytes(b[i:i + 4])); i += 4
            if c & 2: opts.append(bytes(b[i:i + 2])); i += 2
            if c & 4: opts.append(bytes(b[i:i + 2])); i += 2
            if c & 8:
                n = b[i] | b[i + 1] << 8
                i += 2
            out.append(('ph', n, tuple(opts)))
            n += 1
    return out


def fmt_args(e, st, v):
    v = e.deref(st, v)
    if v[0] != 'fmt':
        return [(st, app('str', v))]
    if v[1] is None:
        return [(st, v[2])]
    tm = v[1]
    b = tm[1].encode() if tm[0] == 's' else (tm[1] if tm[0] == 'by' else None)
    args = v[2]
    if b is None or args[0] != 'arr':
        return [(st, app('format', v))]
    states = [(st, S(''))]
    for part in template(b):
        if part[0] == 's':
            states = [(s, cat(x, part)) for s, x in states]
            continue
        ar = args[1][part[1]]
        nxt = []
        for s, x in states:
            if ar[0] == 'fmtarg':
                rs = display(e, s, ar[1], ar[2], ar[3].d if ar[3] else None)
            else:
                rs = [(s, app('debug', e.deep(s, ar[1] if len(ar) > 1 else ar)))]
            for r in rs:
                if isinstance(r, tuple):
                    y = r[1] if not part[2] else app('fmtopts', r[1], ('by', b''.join(part[2])))
                    nxt.append((r[0], cat(x, y)))
        states = nxt
    return states


@model('std::fmt::format', 'std::fmt::format::format_inner')
def _(e, st, f, a, o):
    return fmt_args(e, st, a[0])


# errors: their text is not observed
@model('anyhow::__private::format_err', 'anyhow::error::<impl anyhow::Error>::msg', 'anyhow::Error::msg', 'anyhow::error::<impl anyhow::Error>::new', 'anyhow::__private::kind::Adhoc::new', 'anyhow::__private::kind::Trait::new')
def _(e, st, f, a, o):
    return [(st, ANYERR)]


@model('anyhow::error::<impl anyhow::Error>::context')
def _(e, st, f, a, o):
    return [(st, a[0])]


@model('anyhow::Ok')
def _(e, st, f, a, o):
    return [(st, OK(a[0]))]


# ------------------------------------------------------------------ Option / Result
def osplit(e, st, v):
    return e.split(st, v, ('Some', 'None'))


def rsplit(e, st, v):
    return e.split(st, v, ('Ok', 'Err'))


def bind(e, rs, k):
    """map a continuation over call results, passing panics through"""
    out = []
    for r in rs:
        if isinstance(r, tuple):
            out += k(r[0], r[1])
        else:
            out.append(r)
    return out


def callf(e, st, fv, args, k):
    return bind(e, e.call_value(st, fv, args), k)


def opt(name):
    return 'std::option::Option::<T>::' + name


def res(name):
    return 'std::result::Result::<T, E>::' + name


@model('anyhow::context::<impl anyhow::Context<T, !> for std::option::Option<T>>::context', 'anyhow::context::<impl anyhow::Context<T, !> for std::option::Option<T>>::with_context')
def _(e, st, f, a, o):
    return [(s, OK(pl(a[0], 'Some')) if n == 'Some' else ERR(ANYERR)) for s, n in osplit(e, st, a[0])]


@model('anyhow::context::<impl anyhow::Context<T, E> for std::result::Result<T, E>>::context', 'anyhow::context::<impl anyhow::Context<T, E> for std::result::Result<T, E>>::with_context')
def _(e, st, f, a, o):
    return [(st, a[0])] if a[0][0] != 'adt' or a[0][2] == 'Ok' else [(st, a[0])]


@model('<std::option::Option<T> as std::ops::Try>::branch')
def _(e, st, f, a, o):
    CF = 'std::ops::ControlFlow'
    return [(s, adt(CF, 'Continue', pl(a[0], 'Some')) if n == 'Some' else adt(CF, 'Break', NONE)) for s, n in osplit(e, st, a[0])]


@model('<std::result::Result<T, E> as std::ops::Try>::branch')
def _(e, st, f, a, o):
    CF = 'std::ops::ControlFlow'
    return [(s, adt(CF, 'Continue', pl(a[0], 'Ok')) if n == 'Ok' else adt(CF, 'Break', ERR(pl(a[0], 'Err')))) for s, n in rsplit(e, st, a[0])]


@model('<std::option::Option<T> as std::ops::FromResidual<std::option::Option<!>>>::from_residual')
def _(e, st, f, a, o):
    return [(st, NONE)]


@model('<std::result::Result<T, F> as std::ops::FromResidual<std::result::Result<!, E>>>::from_residual')
def _(e, st, f, a, o):
    x = pl(a[0], 'Err')
    fw = f.get('fwd')
    if fw and fw.get('rlocal'):
        return bind(e, e.call(st, fw, [x], None), lambda s, v: [(s, ERR(v))])
    if fw:
        tys = [e.ts(i) for i in fw.get('args')]
        if tys[0] == 'anyhow::Error' and tys[1] != 'anyhow::Error':
            x = ('errof', x)
    return [(st, ERR(x))]


def ob(name):
    def w(fn):
        MODELS[opt(name)] = fn
        return fn
    return w


def rb(name):
    def w(fn):
        MODELS[res(name)] = fn
        return fn
    return w


@ob('map')
def _(e, st, f, a, o):
    out = []
    for s, n in osplit(e, st, a[0]):
        out += callf(e, s, a[1], [pl(a[0], 'Some')], lambda s2, v: [(s2, SOME(v))]) if n == 'Some' else [(s, NONE)]
    return out


@ob('and_then')
def _(e, st, f, a, o):
    out = []
    for s, n in osplit(e, st, a[0]):
        out += e.call_value(s, a[1], [pl(a[0], 'Some')]) if n == 'Some' else [(s, NONE)]
    return out


@ob('filter')
def _(e, st, f, a, o):
    out = []
    for s, n in osplit(e, st, a[0]):
        if n == 'None':
            out.append((s, NONE)); continue
        x = pl(a[0], 'Some')
        out += callf(e, s, a[1], [x], lambda s2, v: [(s3, SOME(x) if b else NONE) for s3, b in e.fork(s2, v)])
    return out


@ob('ok_or')
def _(e, st, f, a, o):
    return [(s, OK(pl(a[0], 'Some')) if n == 'Some' else ERR(a[1])) for s, n in osplit(e, st, a[0])]


@ob('ok_or_else')
def _(e, st, f, a, o):
    out = []
    for s, n in osplit(e, st, a[0]):
        out += [(s, OK(pl(a[0], 'Some')))] if n == 'Some' else callf(e, s, a[1], [], lambda s2, v: [(s2, ERR(v))])
    return out


@ob('or')
def _(e, st, f, a, o):
    return [(s, SOME(pl(a[0], 'Some')) if n == 'Some' else a[1]) for s, n in osplit(e, st, a[0])]


@ob('or_else')
def _(e, st, f, a, o):
    out = []
    for s, n in osplit(e, st, a[0]):
        out += [(s, SOME(pl(a[0], 'Some')))] if n == 'Some' else e.call_value(s, a[1], [])
    return out


@ob('unwrap_or')
def _(e, st, f, a, o):
    return [(s, pl(a[0], 'Some') if n == 'Some' else a[1]) for s, n in osplit(e, st, a[0])]


@ob('unwrap_or_else')
def _(e, st, f, a, o):
    out = []
    for s, n in osplit(e, st, a[0]):
        out += [(s, pl(a[0], 'Some'))] if n == 'Some' else e.call_value(s, a[1], [])
    return out


@ob('map_or')
def _(e, st, f, a, o):
    out = []
    for s, n in osplit(e, st, a[0]):
        out += e.call_value(s, a[2], [pl(a[0], 'Some')]) if n == 'Some' else [(s, a[1])]
    return out


@ob('map_or_else')
def _(e, st, f, a, o):
    out = []
    for s, n in osplit(e, st, a[0]):
        out += e.call_value(s, a[2], [pl(a[0], 'Some')]) if n == 'Some' else e.call_value(s, a[1], [])
    return out


@ob('is_some_and')
def _(e, st, f, a, o):
    out = []
    for s, n in osplit(e, st, a[0]):
        out += e.call_value(s, a[1], [pl(a[0], 'Some')]) if n == 'Some' else [(s, FALSE)]
    return out


@ob('is_none_or')
def _(e, st, f, a, o):
    out = []
    for s, n in osplit(e, st, a[0]):
        out += e.call_value(s, a[1], [pl(a[0], 'Some')]) if n == 'Some' else [(s, TRUE)]
    return out


@ob('is_some')
def _(e, st, f, a, o):
    return [(s, B(n == 'Some')) for s, n in osplit(e, st, e.deref(st, a[0]))]


@ob('is_none')
def _(e, st, f, a, o):
    return [(s, B(n == 'None')) for s, n in osplit(e, st, e.deref(st, a[0]))]


@ob('zip')
def _(e, st, f, a, o):
    out = []
    for s, n in osplit(e, st, a[0]):
        if n == 'None':
            out.append((s, NONE)); continue
        for s2, m in osplit(e, s, a[1]):
            out.append((s2, SOME(('tup', (pl(a[0], 'Some'), pl(a[1], 'Some')))) if m == 'Some' else NONE))
    return out


@ob('as_mut')
def _(e, st, f, a, o):
    p = a[0]
    if p[0] != 'ptr':
        return [(st, p)]
    v = e.deref(st, p)
    return [(s, SOME(('ptr', p[1], p[2] + (('f', 0, '0', 'Some'),))) if n == 'Some' else NONE) for s, n in osplit(e, st, v)]


@ob('take')
def _(e, st, f, a, o):
    v = e.deref(st, a[0])
    if a[0][0] == 'ptr':
        e.write(st, a[0][1], a[0][2], NONE)
    return [(st, v)]


@ob('replace')
def _(e, st, f, a, o):
    v = e.deref(st, a[0])
    if a[0][0] == 'ptr':
        e.write(st, a[0][1], a[0][2], SOME(a[1]))
    return [(st, v)]


@ob('insert')
def _(e, st, f, a, o):
    if a[0][0] == 'ptr':
        e.write(st, a[0][1], a[0][2], SOME(a[1]))
        return [(st, ('ptr', a[0][1], a[0][2] + (('f', 0, '0', 'Some'),)))]
    return [(st, a[1])]


@model('std::option::Option::<T>::get_or_insert_with', 'std::option::Option::<T>::get_or_insert')
def _(e, st, f, a, o):
    p = a[0]
    out = []
    for s, n in osplit(e, st, e.deref(st, p)):
        ptr = ('ptr', p[1], p[2] + (('f', 0, '0', 'Some'),)) if p[0] == 'ptr' else pl(p, 'Some')
        if n == 'Some':
            out.append((s, ptr)); continue
        rs = e.call_value(s, a[1], []) if f['path'].endswith('with') else [(s, a[1])]
        for r in rs:
            if not isinstance(r, tuple):
                out.append(r); continue
            e.write(r[0], p[1], p[2], SOME(r[1]))
            out.append((r[0], ptr))
    return out


@model('std::option::Option::<std::result::Result<T, E>>::transpose')
def _(e, st, f, a, o):
    out = []
    for s, n in osplit(e, st, a[0]):
        if n == 'None':
            out.append((s, OK(NONE))); continue
        r = pl(a[0], 'Some')
        for s2, m in rsplit(e, s, r):
            out.append((s2, OK(SOME(pl(r, 'Ok'))) if m == 'Ok' else ERR(pl(r, 'Err'))))
    return out


@model('std::result::Result::<std::option::Option<T>, E>::transpose')
def _(e, st, f, a, o):
    out = []
    for s, n in rsplit(e, st, a[0]):
        if n == 'Err':
            out.append((s, SOME(ERR(pl(a[0], 'Err'))))); continue
        r = pl(a[0], 'Ok')
        for s2, m in osplit(e, s, r):
            out.append((s2, SOME(OK(pl(r, 'Some'))) if m == 'Some' else NONE))
    return out


@model('std::option::Option::<std::option::Option<T>>::flatten')
def _(e, st, f, a, o):
    return [(s, pl(a[0], 'Some') if n == 'Some' else NONE) for s, n in osplit(e, st, a[0])]


def default_of(e, st, f, o):
    fw = f.get('fwd')
    if fw and fw.get('rlocal'):
        return e.call(st, fw, [], o)
    ty = e.ts(fw['args'][0]) if fw and fw.get('args') else (e.ts(o) if o is not None else '?')
    return [(st, default_ty(ty))]


def default_ty(ty):
    if is_stringy(ty):
        return S('')
    if ty == 'bool':
        return FALSE
    if ty.startswith('std::vec::Vec<'):
        return ('arr', ())
    if ty.startswith(('std::collections::', 'serde_json::Map<')):
        return ('obj', None, ())
    if ty.startswith('std::option::Option<'):
        return NONE
    if ty in ('usize', 'u8', 'u16', 'u32', 'u64', 'i32', 'i64', 'isize'):
        return N(0)
    if ty == '()':
        return UNIT
    if ty == 'serde_json::Value':
        return adt(JV, 'Null')
    if ty.startswith('std::sync::Arc<') or ty.startswith('std::boxed::Box<'):
        return default_ty(ty[ty.index('<') + 1:-1])
    for p in ('tokio::sync::Mutex<', 'tokio::sync::RwLock<', 'std::sync::Mutex<', 'std::sync::RwLock<', 'std::sync::poison::mutex::Mutex<'):
        if ty.startswith(p):
            return ('mutex', default_ty(ty[len(p):-1]))
    return app('default', ty)


def contents(m):
    return m[1] if m[0] == 'mutex' else ('contents', m)


@model('tokio::sync::Mutex::<T>::new', 'tokio::sync::RwLock::<T>::new', 'std::sync::Mutex::<T>::new', 'std::sync::RwLock::<T>::new')
def _(e, st, f, a, o):
    return [(st, ('mutex', e.deep(st, a[0])))]


@model(('std::default::Default', 'default'))
def _(e, st, f, a, o):
    ty = e.ts((f.get('args') or [o])[0])
    return [(st, default_ty(ty))]


@ob('unwrap_or_default')
def _(e, st, f, a, o):
    out = []
    for s, n in osplit(e, st, a[0]):
        out += [(s, pl(a[0], 'Some'))] if n == 'Some' else default_of(e, s, f, o)
    return out


@rb('unwrap_or_default')
def _(e, st, f, a, o):
    out = []
    for s, n in rsplit(e, st, a[0]):
        out += [(s, pl(a[0], 'Ok'))] if n == 'Ok' else default_of(e, s, f, o)
    return out


@model(opt('unwrap'), opt('expect'))
def _(e, st, f, a, o):
    out = []
    for s, n in osplit(e, st, a[0]):
        out.append((s, pl(a[0], 'Some')) if n == 'Some' else e.panic(s, 'unwrap on None', a[0]))
    return out


@model(res('unwrap'), res('expect'))
def _(e, st, f, a, o):
    out = []
    for s, n in rsplit(e, st, a[0]):
        out.append((s, pl(a[0], 'Ok')) if n == 'Ok' else e.panic(s, 'unwrap on Err', a[0]))
    return out


@model(res('unwrap_err'), res('expect_err'))
def _(e, st, f, a, o):
    out = []
    for s, n in rsplit(e, st, a[0]):
        out.append((s, pl(a[0], 'Err')) if n == 'Err' else e.panic(s, 'unwrap_err on Ok', a[0]))
    return out


@rb('map')
def _(e, st, f, a, o):
    out = []
    for s, n in rsplit(e, st, a[0]):
        out += callf(e, s, a[1], [pl(a[0], 'Ok')], lambda s2, v: [(s2, OK(v))]) if n == 'Ok' else [(s, ERR(pl(a[0], 'Err')))]
    return out


@rb('map_err')
def _(e, st, f, a, o):
    out = []
    for s, n in rsplit(e, st, a[0]):
        out += callf(e, s, a[1], [pl(a[0], 'Err')], lambda s2, v: [(s2, ERR(v))]) if n == 'Err' else [(s, OK(pl(a[0], 'Ok')))]
    return out


@rb('and_then')
def _(e, st, f, a, o):
    out = []
    for s, n in rsplit(e, st, a[0]):
        out += e.call_value(s, a[1], [pl(a[0], 'Ok')]) if n == 'Ok' else [(s, ERR(pl(a[0], 'Err')))]
    return out


@rb('or_else')
def _(e, st, f, a, o):
    out = []
    for s, n in rsplit(e, st, a[0]):
        out += e.call_value(s, a[1], [pl(a[0], 'Err')]) if n == 'Err' else [(s, OK(pl(a[0], 'Ok')))]
    return out


@rb('ok')
def _(e, st, f, a, o):
    return [(s, SOME(pl(a[0], 'Ok')) if n == 'Ok' else NONE) for s, n in rsplit(e, st, a[0])]


@rb('err')
def _(e, st, f, a, o):
    return [(s, SOME(pl(a[0], 'Err')) if n == 'Err' else NONE) for s, n in rsplit(e, st, a[0])]


@rb('is_ok')
def _(e, st, f, a, o):
    return [(s, B(n == 'Ok')) for s, n in rsplit(e, st, e.deref(st, a[0]))]


@rb('is_err')
def _(e, st, f, a, o):
    return [(s, B(n == 'Err')) for s, n in rsplit(e, st, e.deref(st, a[0]))]


@rb('unwrap_or')
def _(e, st, f, a, o):
    return [(s, pl(a[0], 'Ok') if n == 'Ok' else a[1]) for s, n in rsplit(e, st, a[0])]


@rb('unwrap_or_else')
def _(e, st, f, a, o):
    out = []
    for s, n in rsplit(e, st, a[0]):
        out += [(s, pl(a[0], 'Ok'))] if n == 'Ok' else e.call_value(s, a[1], [pl(a[0], 'Err')])
    return out


@model('core::bool::<impl bool>::then', 'std::bool::<impl bool>::then')
def _(e, st, f, a, o):
    out = []
    for s, b in e.fork(st, a[0]):
        out += callf(e, s, a[1], [], lambda s2, v: [(s2, SOME(v))]) if b else [(s, NONE)]
    return out


@model('core::bool::<impl bool>::then_some', 'std::bool::<impl bool>::then_some')
def _(e, st, f, a, o):
    return [(s, SOME(a[1]) if b else NONE) for s, b in e.fork(st, a[0])]


for nm in ['call', 'call_mut', 'call_once']:
    def _(e, st, f, a, o):
        x = a[1]
        args = list(x[1]) if x[0] == 'tup' else [x]
        return e.call_value(st, a[0], args, o)
    for tr in ['Fn', 'FnMut', 'FnOnce']:
        TRAIT_MODELS[('std::ops::' + tr, nm)] = _


# ------------------------------------------------------------------ panics
# library functions that panic on some arguments (a position out of range, lengths that differ, a borrow that is taken)
PANICKY = re.compile(r'^(std::vec::Vec|std::string::String|std::collections::VecDeque)::<?[^:]*>?:*(remove|swap_remove|insert|insert_str|split_off|drain|truncate|replace_range|swap)$'
                     r'|^core::slice::<impl \[T\]>::(split_at|split_at_mut|copy_from_slice|clone_from_slice|copy_within|swap|chunks|chunks_exact|windows|rotate_left|rotate_right|swap_with_slice)$'
                     r'|^core::str::<impl str>::(split_at|split_at_mut)$'
                     r'|GenericArray.*::(from_slice|clone_from_slice|from_mut_slice)$'
                     r'|^std::cell::RefCell::<T>::(borrow|borrow_mut)$'
                     r'|^std::iter::Iterator::step_by$'
                     r'|blocking_(lock|read|write|recv|send)$|::block_on$')


def may_panic(e, st, name, args):
    """states in which a call of a function of this kind panics"""
    m = PANICKY.search(name)
    if not m:
        return [(st, True)]
    meth = name.split('::')[-1]
    a = [e.deref(st, x) for x in args]
    if meth in ('remove', 'swap_remove') and 'Vec' in name and len(a) == 2 and a[1][0] == 'n':
        return e.fork(st, has_index(a[0], a[1][1]))
    if meth in ('insert', 'split_off') and 'Vec' in name and a[1][0] == 'n':
        return [(st, True)] if a[1][1] == 0 else e.fork(st, has_index(a[0], a[1][1] - 1))
    if meth == 'drain' and a[1][0] == 'adt' and a[1][2] == 'RangeFull' or meth == 'truncate' and 'Vec' in name:
        return [(st, True)]
    if meth in ('chunks', 'windows', 'chunks_exact', 'step_by') and a[1][0] == 'n' and a[1][1] > 0:
        return [(st, True)]
    if meth in ('split_at', 'split_off', 'truncate', 'insert', 'insert_str') and len(a) > 1:
        if a[1] == N(0) or a[1] == ('len', a[0]):
            return [(st, True)]
        if a[1][0] in ('find', 'rfind') and a[1][1] == a[0]:
            return [(st, True)]
    return e.fork(st, ('defined', name, H(tuple(e.deep(st, x) for x in a))))


@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def _(e, st, f, a, o):
    # the whole of the destination becomes the source; different lengths panic
    d, x = e.deref(st, a[0]), e.deep(st, a[1])
    if a[0][0] != 'ptr' or d[0] != 'arr':
        return None
    n = 32 if x[:3] == ('app', 'digest', 'sha256') else len(x[1]) if x[0] == 'arr' else None
    out = []
    for s, b in ([(st, n == len(d[1]))] if n is not None else e.fork(st, ('eq', ('len', x), N(len(d[1]))))):
        if b:
            s = s.copy()
            e.write(s, a[0][1], a[0][2], x)
            out.append((s, UNIT))
        else:
            out.append(e.panic(s, 'copy_from_slice of another length', d, x))
    return out


@model('core::panicking::panic', 'core::panicking::panic_fmt', 'std::rt::panic_fmt', 'core::panicking::unreachable_default_msg', 'core::panicking::panic_explicit', 'core::panicking::unreachable_display', 'core::panicking::panic_display', 'core::panicking::assert_failed', 'std::rt::begin_panic', 'std::process::abort', 'std::process::exit')
def _(e, st, f, a, o):
    return [e.panic(st, f['path'].split('::')[-1])]


# ------------------------------------------------------------------ comparison
def eqm(neg):
    def m(e, st, f, a, o):
        fw = f.get('fwd') or f
        if fw.get('rlocal') and fw.get('inst') is not None and not fw.get('derived'):
            rs = e.inline(st, fw['inst'], a)
            return [(r[0], e.neg(r[1]) if neg else r[1]) if isinstance(r, tuple) else r for r in rs]
        return [(s, e.neg(t) if neg else t) for s, t in e.eq(st, a[0], a[1])]
    return m


TRAIT_MODELS[('std::cmp::PartialEq', 'eq')] = eqm(False)
TRAIT_MODELS[('std::cmp::PartialEq', 'ne')] = eqm(True)


@model('<tracing::Level as std::cmp::PartialOrd<tracing::level_filters::LevelFilter>>::le')
def _(e, st, f, a, o):
    # logging is not behaviour: the analysis takes the disabled branch
    return [(st, FALSE)]


@model('tracing::__macro_support::__is_enabled')
def _(e, st, f, a, o):
    return [(st, FALSE)]


@model(('std::cmp::PartialOrd', 'lt'), ('std::cmp::PartialOrd', 'le'), ('std::cmp::PartialOrd', 'gt'), ('std::cmp::PartialOrd', 'ge'))
def _(e, st, f, a, o):
    me = f['method']
    x, y = e.deref(st, a[0]), e.deref(st, a[1])
    ty = strip_ref(e.ts(f['args'][0]))
    info = e.adt_info(ty)
    if info and info['local'] or ty == 'openid4vp_frontend::Status':
        return enum_lt(e, st, info, x, y, me)
    return [(st, e.binop(st, {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[me], x, y))]


@model('std::mem::discriminant', 'std::intrinsics::discriminant_value', 'core::intrinsics::discriminant_value')
def _(e, st, f, a, o):
    x = e.deref(st, a[0])
    if x[0] == 'adt':
        for en in [e] + list(getattr(e, 'others', [])):
            info = en.adt_info(x[1])
            if info:
                return [(st, N(v['discr'])) for v in info['variants'] if v['name'] == x[2]]
    return [(st, app('discriminant', x))]


def derived_ord(e, ty):
    """is PartialOrd on this type the derived (declaration order) one?"""
    for en in [e] + list(getattr(e, 'others', [])):
        for i in en.impls:
            if i['trait'] == 'std::cmp::PartialOrd' and i['self'] == ty:
                return i['derived']
    return False


def enum_lt(e, st, info, x, y, me):
    names = [v['name'] for v in info['variants']]
    if not derived_ord(e, info['path']):
        for en in [e] + list(getattr(e, 'others', [])):
            r = en.root(f"<{info['path']} as std::cmp::PartialOrd>::partial_cmp")
            if r:
                out = []
                for o in en.exec(r['id'], [x, y], st):
                    if o.kind != 'ret':
                        out.append(o)
                        continue
                    for s2, b in osplit(en, o.st, o.val):
                        if b != 'Some':
                            out.append((s2, FALSE))
                            continue
                        for s3, n in en.split(s2, pl(o.val, 'Some'), ('Less', 'Equal', 'Greater')):
                            out.append((s3, B(n in {'lt': ('Less',), 'le': ('Less', 'Equal'), 'gt': ('Greater',), 'ge': ('Greater', 'Equal')}[me])))
                return out
        return [(st, ('ord', me, x, y))]
    out = []
    for s, m in e.split(st, x, names):
        for s2, n in e.split(s, y, names):
            i, j = names.index(m), names.index(n)
            if i != j:
                out.append((s2, B({'lt': i < j, 'le': i <= j, 'gt': i > j, 'ge': i >= j}[me])))
            else:
                k = len(info['variants'][i]['fields'])
                if k == 0:
                    out.append((s2, B(me in ('le', 'ge'))))
                else:
                    out.append((s2, ('ord', me, pl(x, m), pl(y, n))))
    return out


# ------------------------------------------------------------------ strings
def sval(e, st, x):
    x = e.deref(st, x)
    c = st.val(x)
    return c if c is not None and c[0] == 's' else x


def pat_of(e, st, p):
    p = e.deref(st, p)
    if p[0] == 'arr' and all(q[0] == 's' for q in p[1]):
        return p
    return p


def sw_term(x, p):
    """x starts with p"""
    if p == S(''):
        return TRUE
    if x[0] == 's' and p[0] == 's':
        return B(x[1].startswith(p[1]))
    if x[0] == 'cat' and p[0] == 's':
        h = x[1][0]
        if h[0] == 's':
            if h[1].startswith(p[1]):
                return TRUE
            if not p[1].startswith(h[1]):
                return FALSE
            return sw_term(cat(*x[1][1:]), S(p[1][len(h[1]):]))
    return ('sw', x, p)


def strip_pfx(x, p):
    if x[0] == 's' and p[0] == 's':
        return S(x[1][len(p[1]):])
    if x[0] == 'cat' and p[0] == 's' and x[1][0][0] == 's':
        h = x[1][0]
        if h[1].startswith(p[1]):
            return cat(S(h[1][len(p[1]):]), *x[1][1:])
        if p[1].startswith(h[1]):
            return strip_pfx(cat(*x[1][1:]), S(p[1][len(h[1]):]))
    return ('strip', x, p)


STR = 'core::str::<impl str>::'


@model(STR + 'starts_with')
def _(e, st, f, a, o):
    x, p = sval(e, st, a[0]), pat_of(e, st, a[1])
    return [(st, sw_term(x, p))]


@model(STR + 'ends_with')
def _(e, st, f, a, o):
    x, p = sval(e, st, a[0]), pat_of(e, st, a[1])
    if x[0] == 's' and p[0] == 's':
        return [(st, B(x[1].endswith(p[1])))]
    return [(st, ('ew', x, p))]


@model(STR + 'strip_prefix')
def _(e, st, f, a, o):
    x, p = sval(e, st, a[0]), pat_of(e, st, a[1])
    return [(s, SOME(strip_pfx(x, p)) if b else NONE) for s, b in e.fork(st, sw_term(x, p))]


@model(STR + 'strip_suffix')
def _(e, st, f, a, o):
    x, p = sval(e, st, a[0]), pat_of(e, st, a[1])
    if x[0] == 's' and p[0] == 's':
        return [(st, SOME(S(x[1][:len(x[1]) - len(p[1])])) if x[1].endswith(p[1]) else NONE)]
    return [(s, SOME(('stripend', x, p)) if b else NONE) for s, b in e.fork(st, ('ew', x, p))]


def has_term(x, p):
    if x[0] == 's' and p[0] == 's':
        return B(p[1] in x[1])
    if x[0] == 'cat' and p[0] == 's' and any(q[0] == 's' and p[1] in q[1] for q in x[1]):
        return TRUE
    return ('has', x, p)


@model(STR + 'contains')
def _(e, st, f, a, o):
    x, p = sval(e, st, a[0]), pat_of(e, st, a[1])
    if p[0] in ('clo', 'fn'):
        return None
    return [(st, has_term(x, p))]


def before(x, p):
    if x[0] == 's' and p[0] == 's':
        return S(x[1].split(p[1], 1)[0])
    if x[0] == 'cat' and x[1][0][0] == 's' and p[0] == 's' and p[1] in x[1][0][1]:
        return S(x[1][0][1].split(p[1], 1)[0])
    return ('before', x, p)


def after(x, p):
    if x[0] == 's' and p[0] == 's':
        return S(x[1].split(p[1], 1)[1])
    if x[0] == 'cat' and x[1][0][0] == 's' and p[0] == 's' and p[1] in x[1][0][1]:
        return cat(S(x[1][0][1].split(p[1], 1)[1]), *x[1][1:])
    return ('after_', x, p)


@model(STR + 'split_once')
def _(e, st, f, a, o):
    x, p = sval(e, st, a[0]), pat_of(e, st, a[1])
    return [(s, SOME(('tup', (before(x, p), after(x, p)))) if b else NONE) for s, b in e.fork(st, has_term(x, p))]


@model(STR + 'rsplit_once')
def _(e, st, f, a, o):
    x, p = sval(e, st, a[0]), pat_of(e, st, a[1])
    if x[0] == 's' and p[0] == 's':
        if p[1] not in x[1]:
            return [(st, NONE)]
        h, t = x[1].rsplit(p[1], 1)
        return [(st, SOME(('tup', (S(h), S(t)))))]
    return [(s, SOME(('tup', (('rbefore', x, p), ('rafter', x, p)))) if b else NONE) for s, b in e.fork(st, has_term(x, p))]


@model(STR + 'find')
def _(e, st, f, a, o):
    x, p = sval(e, st, a[0]), pat_of(e, st, a[1])
    if p[0] in ('clo', 'fn'):
        return None
    return [(s, SOME(('find', x, p)) if b else NONE) for s, b in e.fork(st, has_term(x, p))]


@model(STR + 'rfind')
def _(e, st, f, a, o):
    x, p = sval(e, st, a[0]), pat_of(e, st, a[1])
    if p[0] in ('clo', 'fn'):
        return None
    return [(s, SOME(('rfind', x, p)) if b else NONE) for s, b in e.fork(st, has_term(x, p))]


@model(STR + 'split', STR + 'splitn', STR + 'rsplit', STR + 'split_terminator')
def _(e, st, f, a, o):
    me = f['path'].split('::')[-1]
    if me == 'splitn':
        return [(st, ('it', 'src', ('splitn', a[1], sval(e, st, a[0]), pat_of(e, st, a[2])), 0))]
    return [(st, ('it', 'src', (me, sval(e, st, a[0]), pat_of(e, st, a[1])), 0))]


@model(STR + 'trim')
def _(e, st, f, a, o):
    x = sval(e, st, a[0])
    return [(st, S(x[1].strip()) if x[0] == 's' else app('trim', x))]


@model(STR + 'trim_start', STR + 'trim_end', STR + 'to_lowercase', STR + 'to_uppercase', 'std::str::<impl str>::to_lowercase', 'std::str::<impl str>::to_uppercase', STR + 'to_ascii_lowercase', 'std::str::<impl str>::to_ascii_lowercase', 'std::str::<impl str>::to_ascii_uppercase')
def _(e, st, f, a, o):
    return [(st, app(f['path'].split('::')[-1], sval(e, st, a[0])))]


@model(STR + 'trim_end_matches', STR + 'trim_start_matches', STR + 'trim_matches')
def _(e, st, f, a, o):
    return [(st, app(f['path'].split('::')[-1], sval(e, st, a[0]), e.deref(st, a[1])))]


@model(STR + 'eq_ignore_ascii_case')
def _(e, st, f, a, o):
    x, y = sval(e, st, a[0]), sval(e, st, a[1])
    if x == y:
        return [(st, TRUE)]
    if repr(y) < repr(x):
        x, y = y, x
    return [(st, ('eqi', x, y))]


@model(STR + 'is_empty', 'std::string::String::is_empty')
def _(e, st, f, a, o):
    return e.eq(st, a[0], S(''))


@model(STR + 'len', 'std::string::String::len')
def _(e, st, f, a, o):
    x = sval(e, st, a[0])
    return [(st, length(e, st, x))]


@model(STR + 'parse')
def _(e, st, f, a, o):
    fw = f.get('fwd')
    if fw and fw.get('rlocal'):
        return e.call(st, fw, [a[0]], o)
    ty = e.ts(f['args'][-1]) if f.get('args') else '?'
    return parse(e, st, ty, a[0])


@model(('std::str::FromStr', 'from_str'))
def _(e, st, f, a, o):
    return parse(e, st, e.ts(f['args'][0]), a[0])


def parse(e, st, ty, x):
    x = sval(e, st, x)
    if is_stringy(ty):
        return [(st, OK(x))]
    if ty == 'url::Url' and x[0] == 's' and x[1] in ('https://example.com', 'openid4vp:', 'openid4vp://'):
        return [(st, OK(app('url', x)))]
    return [(st, parsed(ty, x))]


def parsed(ty, x):
    """the text of what was parsed parses to the same value"""
    if x[:2] == ('app', 'str') and x[2][0] == 'pl' and x[2][2] == 'Ok' and x[2][1][:3] == ('app', 'parse', ty):
        return OK(x[2])
    return ('app', 'parse', ty, x)


@model('url::Url::parse')
def _(e, st, f, a, o):
    return parse(e, st, 'url::Url', a[0])


@model('url::Url::as_str', 'url::Url::into_string')
def _(e, st, f, a, o):
    return [(st, app('str', e.deep(st, a[0])))]


@model('std::string::String::from_utf8', 'std::str::from_utf8', 'core::str::from_utf8', 'std::str::converts::from_utf8')
def _(e, st, f, a, o):
    x = e.deref(st, a[0])
    if x[0] in ('s', 'cat'):
        return [(st, OK(x))]
    return [(s, OK(x) if b else ERR(('errof', x))) for s, b in e.fork(st, ('utf8', x))]


@model('std::string::String::from_utf8_lossy')
def _(e, st, f, a, o):
    x = e.deref(st, a[0])
    return [(s, x if b else app('lossy', x)) for s, b in e.fork(st, ('utf8', x))]


@model('std::string::String::new', 'std::string::String::with_capacity')
def _(e, st, f, a, o):
    return [(st, S(''))]


@model('std::string::String::push_str', 'std::string::String::push', 'std::vec::Vec::<T, A>::extend_from_slice')
def _(e, st, f, a, o):
    p = a[0]
    if p[0] != 'ptr':
        return [(st, UNIT)]
    e.write(st, p[1], p[2], seq_append(e.read(st, p[1], p[2]), e.deref(st, a[1])))
    return [(st, UNIT)]


def seq_append(old, x):
    if old[0] == 'arr' and x[0] == 'arr':
        return ('arr', old[1] + x[1])
    if old == ('arr', ()):
        return x
    if x == ('arr', ()):
        return old
    if old[0] == 'arr' and x[0] != 's':
        return ('seq', (old, x))
    if old[0] == 'seq':
        return ('seq', old[1] + (x,))
    if x[0] == 'arr':
        return ('seq', (old, x))
    return cat(old, x)


@model('<std::string::String as std::ops::Add<&str>>::add')
def _(e, st, f, a, o):
    return [(st, cat(e.deref(st, a[0]), e.deref(st, a[1])))]


@model('<std::string::String as std::ops::AddAssign<&str>>::add_assign')
def _(e, st, f, a, o):
    p = a[0]
    e.write(st, p[1], p[2], cat(e.read(st, p[1], p[2]), e.deref(st, a[1])))
    return [(st, UNIT)]


@model('std::slice::<impl [T]>::concat')
def _(e, st, f, a, o):
    x = e.deref(st, a[0])
    if x[0] == 'arr':
        items = [e.deref(st, i) for i in x[1]]
        if all(i[0] == 'arr' for i in items):
            return [(st, ('arr', tuple(q for i in items for q in i[1])))]
        return [(st, cat(*items))]
    return [(st, app('concat', x))]


@model('std::slice::<impl [T]>::join')
def _(e, st, f, a, o):
    x, sep = e.deref(st, a[0]), e.deref(st, a[1])
    if x[0] == 'arr':
        parts = []
        for i, q in enumerate(x[1]):
            if i:
                parts.append(sep)
            parts.append(e.deref(st, q))
        return [(st, cat(*parts))]
    return [(st, app('join', x, sep))]


@model('std::str::<impl str>::replace', STR + 'replace', 'std::str::<impl str>::replacen')
def _(e, st, f, a, o):
    return [(st, app('replace', *[sval(e, st, x) for x in a]))]


def lensum(t):
    """an index as (constant, sorted symbolic lengths and positions)"""
    if t[0] == 'n':
        return t[1], ()
    if t[0] == 'app' and t[1] == 'Add' and len(t) == 4:
        a, b = lensum(t[2]), lensum(t[3])
        if a is None or b is None:
            return None
        return a[0] + b[0], tuple(sorted(a[1] + b[1], key=repr))
    if t[0] == 'len':
        return 0, (t[1],)
    if t[0] == 'find':
        return 0, (before(t[1], t[2]),)
    return None


def decompositions(st, x):
    """ways the path has established x to be a concatenation of known parts"""
    for q, v in st.pos.items():
        if q[0] == 'is' and v == S('Ok') and q[1][0] == 'app' and q[1][1].endswith('::split_jws') and q[1][-1] == x:
            t = pl(q[1], 'Ok')
            yield [fld(t, '0'), S('.'), fld(t, '1'), S('.'), fld(t, '2')]
        elif q[0] == 'sw' and q[1] == x and v == TRUE:
            yield [q[2], strip_pfx(x, q[2])]
    if x[0] == 'cat':
        yield list(x[1])


def cut_at(st, x, kind, idx):
    if kind not in ('RangeTo', 'RangeFrom', 'Range'):
        return None
    idx = [lensum(i) for i in idx]
    if any(i is None for i in idx):
        return None
    for parts in decompositions(st, x):
        at, c, syms = {(0, ()): 0}, 0, ()
        for n, p in enumerate(parts):
            if p[0] == 's':
                c += len(p[1].encode())
            else:
                syms = tuple(sorted(syms + (p,), key=repr))
            at[(c, syms)] = n + 1
        if all(i in at for i in idx):
            lo = 0 if kind == 'RangeTo' else at[idx[0]]
            hi = len(parts) if kind == 'RangeFrom' else at[idx[-1]]
            if lo <= hi:
                return cat(*parts[lo:hi])
    return None


# slicing by a position found earlier
@model(('std::ops::Index', 'index'))
def _(e, st, f, a, o):
    x, r = e.deref(st, a[0]), e.deref(st, a[1])
    if x[0] in ('obj', 'get') or 'HashMap' in (f.get('rpath') or '') or 'BTreeMap' in (f.get('rpath') or ''):
        return idx_map(e, st, x, r)
    if 'serde_json' in (f.get('rpath') or ''):
        # Value[..] gives Null when absent
        return bind(e, json_get(e, st, x, r), lambda s, v: [(s2, pl(v, 'Some') if n == 'Some' else adt(JV, 'Null')) for s2, n in osplit(e, s, v)])
    if r[0] == 'adt' and r[1].startswith('std::ops::Range'):
        kind = r[1].split('::')[-1]
        if kind == 'RangeFull':
            return [(st, x)]
        if kind == 'RangeTo' and r[3][0][0] == 'find' and r[3][0][1] == x:
            return [(st, before(x, r[3][0][2]))]
        if kind == 'RangeTo' and r[3][0][0] == 'rfind' and r[3][0][1] == x:
            return [(st, ('rbefore', x, r[3][0][2]))]
        if kind == 'RangeFrom':
            b = r[3][0]
            if b[0] == 'app' and b[1] == 'Add' and b[2][0] in ('find', 'rfind') and b[2][1] == x and b[3][0] == 'n':
                p = b[2][2]
                if p[0] == 's' and len(p[1].encode()) == b[3][1]:
                    return [(st, after(x, p) if b[2][0] == 'find' else ('rafter', x, p))]
            if b[0] == 'len' and b[1][0] == 's':
                b = N(len(b[1][1].encode()))
            if b[0] == 'n' and is_stringy(strip_ref(e.ts(f['args'][0]))):
                # s[n..] after a successful starts_with of an n byte prefix
                for q, v in st.pos.items():
                    if q[0] == 'sw' and q[1] == x and v == TRUE and q[2][0] == 's' and len(q[2][1].encode()) == b[1]:
                        return [(st, strip_pfx(x, q[2]))]
            if b[0] == 'len' and st.pos.get(('sw', x, b[1])) == TRUE:
                return [(st, strip_pfx(x, b[1]))]
            if x[0] == 'arr' and b[0] == 'n' and b[1] <= len(x[1]):
                return [(st, ('arr', x[1][b[1]:]))]
        if x[0] == 's' and all(q[0] == 'n' for q in r[3]):
            lo = r[3][0][1] if kind != 'RangeTo' else 0
            hi = r[3][-1][1] if kind != 'RangeFrom' else len(x[1])
            return [(st, S(x[1][lo:hi]))]
        v = cut_at(st, x, kind, r[3])
        if v is not None:
            return [(st, v)]
        out = []
        for s, b in e.fork(st, ('inbounds', x, r)):
            out.append((s, app('slice', x, r)) if b else e.panic(s, 'slice out of bounds', x, r))
        return out
    if r[0] == 'n':
        if x[0] == 'arr':
            return [(st, x[1][r[1]])] if r[1] < len(x[1]) else [e.panic(st, 'index out of bounds', x, r)]
        out = []
        for s, b in e.fork(st, has_index(x, r[1])):
            out.append((s, ('el', x, r[1])) if b else e.panic(s, 'index out of bounds', x, r))
        return out
    if r[0] == 'ixof' and r[1] == x:
        return [(st, r[2])]
    out = []
    for s, b in e.fork(st, ('inbounds', x, r)):
        out.append((s, ('el', x, r)) if b else e.panic(s, 'index out of bounds', x, r))
    return out


def idx_map(e, st, x, k):
    out = []
    for s, n in osplit(e, st, map_get(x, k)):
        out.append((s, pl(map_get(x, k), 'Some')) if n == 'Some' else e.panic(s, 'missing key', x, k))
    return out


# ------------------------------------------------------------------ vectors and slices
def has_index(x, i):
    if x[0] == 'arr':
        return B(i < len(x[1]))
    return ('not', ('isempty', x)) if i == 0 else ('hasix', x, i)


def length(e, st, x):
    x = e.deref(st, x)
    if x[0] == 'arr':
        return N(len(x[1]))
    if x[0] == 's':
        return N(len(x[1].encode()))
    cs = x[1] if x[0] == 'cat' else (x,)
    if all(c[0] == 'app' and c[1] in ('from', 'cast') and c[2] == 'char' and c[3][:2] == ('call', 'Rng::sample') and c[3][2].v[1][:2] == ('adt', 'rand::distributions::Alphanumeric') for c in cs):
        return N(len(cs))      # alphanumeric characters drawn one by one
    return ('len', x)


@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', 'std::vec::Vec::<T, A>::with_capacity')
def _(e, st, f, a, o):
    return [(st, ('arr', ()))]


@model('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', 'std::collections::HashMap::<K, V, S, A>::len', 'std::collections::BTreeMap::<K, V, A>::len', 'serde_json::Map::<std::string::String, serde_json::Value>::len')
def _(e, st, f, a, o):
    return [(st, length(e, st, a[0]))]


@model('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty', 'std::collections::HashMap::<K, V, S, A>::is_empty', 'std::collections::BTreeMap::<K, V, A>::is_empty', 'serde_json::Map::<std::string::String, serde_json::Value>::is_empty')
def _(e, st, f, a, o):
    x = e.deref(st, a[0])
    if x[0] == 'arr':
        return [(st, B(not x[1]))]
    if x[0] in ('s', 'cat'):
        return e.eq(st, x, S(''))
    if x[0] == 'obj':
        if any(v is not None for _, v in x[2]):
            return [(st, FALSE)]
        if x[1] is None:
            return [(st, TRUE)]
    return [(st, ('isempty', x))]


@model('std::vec::Vec::<T, A>::push')
def _(e, st, f, a, o):
    p = a[0]
    if p[0] == 'ptr':
        old = e.read(st, p[1], p[2])
        ty = e.ts(f['args'][0])
        x = a[1]
        if ty == 'u8':
            x = S(chr(x[1])) if x[0] == 'n' and x[1] < 128 else x
            new = cat(old, x)
        elif old[0] == 'arr':
            new = ('arr', old[1] + (x,))
        else:
            new = seq_append(old, ('arr', (x,)))
        e.write(st, p[1], p[2], new)
    return [(st, UNIT)]


@model('std::vec::Vec::<T, A>::append')
def _(e, st, f, a, o):
    p, q = a
    x = e.deref(st, q)
    e.write(st, p[1], p[2], seq_append(e.read(st, p[1], p[2]), x))
    if q[0] == 'ptr':
        e.write(st, q[1], q[2], ('arr', ()))
    return [(st, UNIT)]


@model('std::vec::Vec::<T, A>::insert')
def _(e, st, f, a, o):
    p = a[0]
    old = e.read(st, p[1], p[2])
    if old[0] == 'arr' and a[1][0] == 'n' and a[1][1] <= len(old[1]):
        i = a[1][1]
        e.write(st, p[1], p[2], ('arr', old[1][:i] + (a[2],) + old[1][i:]))
        return [(st, UNIT)]
    if a[1] == N(0):
        e.write(st, p[1], p[2], ('seq', (('arr', (a[2],)), old)))
        return [(st, UNIT)]
    return None


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last')
def _(e, st, f, a, o):
    x = e.deref(st, a[0])
    last = f['path'].endswith('last')
    if x[0] == 'arr':
        return [(st, SOME(x[1][-1 if last else 0]) if x[1] else NONE)]
    return [(s, SOME(('el', x, 'last' if last else 0)) if b else NONE) for s, b in e.fork(st, has_index(x, 0))]


@model('core::slice::<impl [T]>::get', 'std::vec::Vec::<T, A>::get')
def _(e, st, f, a, o):
    x, i = e.deref(st, a[0]), e.deref(st, a[1])
    if i[0] == 'n':
        if x[0] == 'arr':
            return [(st, SOME(x[1][i[1]]) if i[1] < len(x[1]) else NONE)]
        return [(s, SOME(('el', x, i[1])) if b else NONE) for s, b in e.fork(st, has_index(x, i[1]))]
    return [(st, ('app', 'slice_get', '', x, i))]


@model('core::slice::<impl [T]>::get_mut')
def _(e, st, f, a, o):
    p, i = a[0], e.deref(st, a[1])
    x = e.deref(st, p)
    if i[0] == 'n' and p[0] == 'ptr':
        t = has_index(x, i[1])
        return [(s, SOME(('ptr', p[1], p[2] + (('i', i),))) if b else NONE) for s, b in e.fork(st, t)]
    return None


@model('core::slice::<impl [T]>::split_first')
def _(e, st, f, a, o):
    x = e.deref(st, a[0])
    if x[0] == 'arr':
        return [(st, SOME(('tup', (x[1][0], ('arr', x[1][1:])))) if x[1] else NONE)]
    return [(s, SOME(('tup', (('el', x, 0), app('rest', x)))) if b else NONE) for s, b in e.fork(st, has_index(x, 0))]


@model('core::slice::<impl [T]>::contains')
def _(e, st, f, a, o):
    x, y = e.deref(st, a[0]), e.deref(st, a[1])
    return member(e, st, x, y)


def member(e, st, x, y):
    if x[0] == 'arr':
        states = [(st, FALSE)]
        for i in x[1]:
            nxt = []
            for s, acc in states:
                if acc == TRUE:
                    nxt.append((s, acc)); continue
                for s2, t in e.eq(s, i, y):
                    for s3, b in e.fork(s2, t):
                        nxt.append((s3, B(b)))
            states = nxt
        return states
    if x[0] == 'seq':
        states = [(st, FALSE)]
        for part in x[1]:
            nxt = []
            for s, acc in states:
                if acc == TRUE:
                    nxt.append((s, acc)); continue
                for s2, t in member(e, s, part, y):
                    for s3, b in e.fork(s2, t):
                        nxt.append((s3, B(b)))
            states = nxt
        return states
    return [(st, ('in', x, y))]


# ------------------------------------------------------------------ sets: the members are kept as a sequence
@model('std::collections::HashSet::new', 'std::collections::BTreeSet::new', 'std::collections::HashSet::with_capacity')
def _(e, st, f, a, o):
    return [(st, ('arr', ()))]


@model('std::collections::HashSet::contains', 'std::collections::BTreeSet::contains')
def _(e, st, f, a, o):
    return member(e, st, e.deref(st, a[0]), e.deref(st, a[1]))


@model('std::collections::HashSet::iter', 'std::collections::BTreeSet::iter')
def _(e, st, f, a, o):
    return [(st, mkiter(e.deref(st, a[0])))]


@model('std::collections::HashSet::is_empty', 'std::collections::BTreeSet::is_empty')
def _(e, st, f, a, o):
    x = e.deref(st, a[0])
    return [(st, B(not x[1]) if x[0] == 'arr' else ('isempty', x))]


@model('std::collections::HashSet::insert', 'std::collections::BTreeSet::insert')
def _(e, st, f, a, o):
    p = a[0]
    out = []
    for s, t in member(e, st, e.deref(st, p), e.deref(st, a[1])):
        for s2, b in e.fork(s, t):
            if not b:
                old = e.read(s2, p[1], p[2])
                e.write(s2, p[1], p[2], ('arr', old[1] + (a[1],)) if old[0] == 'arr' else seq_append(old, ('arr', (a[1],))))
            out.append((s2, B(not b)))
    return out


@model('std::collections::HashSet::is_disjoint', 'std::collections::BTreeSet::is_disjoint')
def _(e, st, f, a, o):
    y = e.deref(st, a[1])

    def step(s, x):
        res = []
        for s2, t in member(e, s, y, e.deref(s, x)):
            for s3, b in e.fork(s2, t):
                res.append((s3, ('stop', FALSE) if b else ('go',)))
        return res
    return loop(e, st, mkiter(e.deref(st, a[0])), step, lambda s: [(s, TRUE)])


# ------------------------------------------------------------------ iterators
def mkiter(x):
    return x if x[0] == 'it' else ('it', 'src', x, 0)


@model('core::slice::<impl [T]>::iter', 'std::vec::Vec::<T, A>::drain', 'std::collections::HashMap::<K, V, S, A>::iter', 'std::collections::HashMap::<K, V, S>::iter', 'http::HeaderMap::<T>::iter', 'std::collections::BTreeMap::<K, V, A>::iter', 'serde_json::Map::<std::string::String, serde_json::Value>::iter', ('std::iter::IntoIterator', 'into_iter'), STR + 'chars', STR + 'bytes', 'std::option::Option::<T>::iter', 'std::iter::once', 'std::iter::empty')
def _(e, st, f, a, o):
    p = f['path']
    if p.endswith('once'):
        return [(st, mkiter(('arr', (a[0],))))]
    if p.endswith('iter::empty'):
        return [(st, mkiter(('arr', ())))]
    x = e.deref(st, a[0])
    if a[0][0] == 'ptr' and x[0] == 'it':
        return [(st, a[0])]       # `for x in &mut it`
    if p.endswith('chars') or p.endswith('bytes'):
        x = ('chars', x)
    ty = strip_ref(e.ts(f['args'][0])) if f.get('args') else ''
    if p.startswith('std::option::Option') or ty.startswith('std::option::Option<') or x[0] == 'adt' and x[1] == OPT:
        return [(s, mkiter(('arr', (pl(x, 'Some'),) if n == 'Some' else ()))) for s, n in osplit(e, st, x)]
    if p.endswith('drain') and a[0][0] == 'ptr':
        e.write(st, a[0][1], a[0][2], ('arr', ()))
    return [(st, mkiter(x))]


@model('core::slice::<impl [T]>::iter_mut')
def _(e, st, f, a, o):
    return [(st, ('it', 'mut', a[0], 0))]


@model('std::collections::HashMap::<K, V, S, A>::keys', 'std::collections::BTreeMap::<K, V, A>::keys', 'serde_json::Map::<std::string::String, serde_json::Value>::keys', 'std::collections::HashMap::<K, V, S>::keys', 'std::collections::HashMap::<K, V, S, A>::into_keys')
def _(e, st, f, a, o):
    return [(st, ('it', 'src', ('keys', e.deref(st, a[0])), 0))]


@model('std::collections::HashMap::<K, V, S, A>::values', 'std::collections::BTreeMap::<K, V, A>::values', 'serde_json::Map::<std::string::String, serde_json::Value>::values', 'std::collections::HashMap::<K, V, S>::values', 'std::collections::HashMap::<K, V, S, A>::into_values')
def _(e, st, f, a, o):
    return [(st, ('it', 'src', ('values', e.deref(st, a[0])), 0))]


ADAPT = {}
IT = 'std::iter::Iterator::'


def adapter(name, n=1):
    def w(e, st, f, a, o):
        it = e.deref(st, a[0])
        it = a[0] if a[0][0] == 'ptr' and it[0] == 'it' else mkiter(it)
        return [(st, ('it', name, it) + tuple(a[1:1 + n]))]
    TRAIT_MODELS[('std::iter::Iterator', name)] = w


for nm, k in [('map', 1), ('filter', 1), ('filter_map', 1), ('take_while', 1), ('skip_while', 1), ('inspect', 1), ('map_while', 1), ('flat_map', 1), ('take', 1), ('skip', 1)]:
    adapter(nm, k)
for nm in ['cloned', 'copied', 'fuse', 'by_ref', 'peekable', 'into_iter']:
    TRAIT_MODELS[('std::iter::Iterator', nm)] = ident


@model(('std::iter::Iterator', 'flatten'))
def _(e, st, f, a, o):
    return [(st, ('it', 'flatten', mkiter(e.deref(st, a[0])), None))]


@model(('std::iter::Iterator', 'flat_map'))
def _(e, st, f, a, o):
    return [(st, ('it', 'flatten', ('it', 'map', mkiter(e.deref(st, a[0])), a[1]), None))]


@model(('std::cmp::Ord', 'min'), ('std::cmp::Ord', 'max'), 'std::cmp::min', 'std::cmp::max')
def _(e, st, f, a, o):
    x, y = e.deref(st, a[0]), e.deref(st, a[1])
    if x[0] == y[0] == 'n':
        return [(st, N((min if f['path'].endswith('min') or f.get('method') == 'min' else max)(x[1], y[1])))]
    return None


@model('std::ops::RangeInclusive::<Idx>::new')
def _(e, st, f, a, o):
    return [(st, ('adt', 'std::ops::RangeInclusive', 'RangeInclusive', tuple(a)))]


@model(('rand::Rng', 'sample'))
def _(e, st, f, a, o):
    return e.event(st, 'Rng::sample', [e.deep(st, x) for x in a], o)


@model(('rand::Rng', 'sample_iter'), ('rand::distributions::Distribution', 'sample_iter'))
def _(e, st, f, a, o):
    a = [e.deep(st, x) for x in a]
    return [(st, ('it', 'draws', *(a if f['trait'] == 'rand::Rng' else a[::-1])))]


@model(('rand::distributions::Distribution', 'sample'))
def _(e, st, f, a, o):
    return e.event(st, 'Rng::sample', [e.deep(st, x) for x in a[::-1]], o)


@model(('std::iter::Iterator', 'enumerate'))
def _(e, st, f, a, o):
    return [(st, ('it', 'enumerate', mkiter(e.deref(st, a[0])), 0))]


@model(('std::iter::Iterator', 'rev'))
def _(e, st, f, a, o):
    return [(st, ('it', 'rev', mkiter(e.deref(st, a[0]))))]


@model(('std::iter::Iterator', 'chain'))
def _(e, st, f, a, o):
    y = e.deref(st, a[1])
    x = mkiter(e.deref(st, a[0]))
    if y[0] == 'adt' and y[1] == OPT or y[0] != 'it' and any(strip_ref(e.ts(i)).startswith('std::option::Option<') for i in (f.get('args') or [])[1:]):
        return [(s, ('it', 'chain', x, mkiter(('arr', (pl(y, 'Some'),) if n == 'Some' else ())))) for s, n in osplit(e, st, y)]
    return [(st, ('it', 'chain', x, mkiter(y)))]


@model(('std::iter::Iterator', 'zip'))
def _(e, st, f, a, o):
    return [(st, ('it', 'zip', mkiter(e.deref(st, a[0])), mkiter(e.deref(st, a[1]))))]


def it_next(e, st, it):
    """[(state, item or None, iterator)] ; panics appear as Outcome"""
    if it[0] == 'ptr':
        out = []
        for r in it_next(e, st, e.deref(st, it)):
            if not isinstance(r, tuple):
                out.append(r); continue
            e.write(r[0], it[1], it[2], r[2])
            out.append((r[0], r[1], it))
        return out
    if it[0] != 'it':
        it = mkiter(it)
    k = it[1]
    if k == 'src':
        return src_next(e, st, it[2], it[3])
    if k == 'mut':
        p, n = it[2], it[3]
        x = e.deref(st, p)
        if x[0] == 'arr':
            if n < len(x[1]):
                return [(st, ('ptr', p[1], p[2] + (('i', N(n)),)), ('it', 'mut', p, n + 1))]
            return [(st, None, it)]
        if n >= e.ELEMS:
            return [(st, None, it)]
        return [(s, ('ptr', p[1], p[2] + (('i', N(n)),)) if b else None, ('it', 'mut', p, n + 1) if b else it) for s, b in e.fork(st, has_index(x, n))]
    if k in ('map', 'inspect'):
        out = []
        for r in it_next(e, st, it[2]):
            if not isinstance(r, tuple):
                out.append(r); continue
            s, x, i2 = r
            n = ('it', k, i2, it[3])
            if x is None:
                out.append((s, None, n)); continue
            for q in e.call_value(s, it[3], [x]):
                out.append(q if not isinstance(q, tuple) else (q[0], q[1] if k == 'map' else x, n))
        return out
    if k in ('filter', 'filter_map', 'skip_while'):
        out = []
        work = [(st, it[2])]
        for _ in range(40):
            nxt = []
            for s0, i0 in work:
                for r in it_next(e, s0, i0):
                    if not isinstance(r, tuple):
                        out.append(r); continue
                    s, x, i2 = r
                    if x is None:
                        out.append((s, None, ('it', k, i2, it[3]))); continue
                    for q in e.call_value(s, it[3], [x]):
                        if not isinstance(q, tuple):
                            out.append(q); continue
                        if k == 'filter' or k == 'skip_while':
                            for s3, b in e.fork(q[0], q[1]):
                                if b == (k == 'filter'):
                                    out.append((s3, x, ('it', k, i2, it[3]) if k == 'filter' else i2))
                                else:
                                    nxt.append((s3, i2))
                        else:
                            for s3, n in osplit(e, q[0], q[1]):
                                if n == 'Some':
                                    out.append((s3, pl(q[1], 'Some'), ('it', k, i2, it[3])))
                                else:
                                    nxt.append((s3, i2))
            work = nxt
            if not work:
                break
        for s0, i0 in work:
            e.stats['limits'].append(('iterator', k))
        return out
    if k in ('take_while', 'map_while'):
        out = []
        for r in it_next(e, st, it[2]):
            if not isinstance(r, tuple):
                out.append(r); continue
            s, x, i2 = r
            if x is None:
                out.append((s, None, it)); continue
            for q in e.call_value(s, it[3], [x]):
                if not isinstance(q, tuple):
                    out.append(q); continue
                if k == 'take_while':
                    for s3, b in e.fork(q[0], q[1]):
                        out.append((s3, x, ('it', k, i2, it[3])) if b else (s3, None, mkiter(('arr', ()))))
                else:
                    for s3, n in osplit(e, q[0], q[1]):
                        out.append((s3, pl(q[1], 'Some'), ('it', k, i2, it[3])) if n == 'Some' else (s3, None, mkiter(('arr', ()))))
        return out
    if k == 'take':
        n = it[3]
        if n[0] == 'n' and n[1] == 0:
            return [(st, None, it)]
        if n[0] == 'n':
            out = [r if not isinstance(r, tuple) else (r[0], r[1], ('it', 'take', r[2], N(n[1] - 1))) for r in it_next(e, st, it[2])]
            src = it[2]
            while src[0] == 'it' and src[1] in ('map', 'inspect', 'enumerate'):
                src = src[2]
            if src[0] == 'it' and src[1] == 'src' and src[3] >= e.ELEMS and any(isinstance(r, tuple) and r[1] is None for r in out):
                # the end of the small scope: the source may also go on for longer than the limit
                base = src[2][1] if src[2][0] in ('keys', 'values', 'rev') else src[2]
                if base[0] != 'arr' and ('exh', base) not in st.pos:
                    out += [(s, None, mkiter(('arr', ()))) for s, b in e.fork(st, has_index(base, src[3])) if b]
            return out
        src = it[2]
        while src[0] == 'it' and src[1] in ('map', 'inspect', 'enumerate'):
            src = src[2]
        if src[0] == 'it' and src[1] == 'src' and n == ('len', src[2]):
            return it_next(e, st, it[2])
        n, c = (n[1], n[2]) if n[0] == 'upto' else (n, 0)
        out = []
        for s, b in e.fork(st, e.binop(st, 'Lt', N(c), n)):
            if not b or c >= e.ELEMS:
                out.append((s, None, mkiter(('arr', ()))))
            else:
                out += [r if not isinstance(r, tuple) else (r[0], r[1], ('it', 'take', r[2], ('upto', n, c + 1))) for r in it_next(e, s, it[2])]
        return out
    if k == 'draws':
        return [r if not isinstance(r, tuple) else (r[0], r[1], it) for r in e.event(st, 'Rng::sample', [it[2], it[3]], None)]
    if k == 'skip':
        n = it[3]
        work, out = [(st, it[2])], []
        for _ in range(n[1] if n[0] == 'n' else 0):
            nx = []
            for s, i in work:
                for r in it_next(e, s, i):
                    if not isinstance(r, tuple):
                        out.append(r)
                    elif r[1] is None:
                        out.append((r[0], None, r[2]))
                    else:
                        nx.append((r[0], r[2]))
            work = nx
        for s, i in work:
            out += it_next(e, s, i)
        return out
    if k == 'enumerate':
        return [r if not isinstance(r, tuple) else (r[0], None if r[1] is None else ('tup', (N(it[3]), r[1])), ('it', 'enumerate', r[2], it[3] + 1)) for r in it_next(e, st, it[2])]
    if k == 'chain':
        out = []
        for r in it_next(e, st, it[2]):
            if not isinstance(r, tuple):
                out.append(r)
            elif r[1] is None:
                out += it_next(e, r[0], it[3])
            else:
                out.append((r[0], r[1], ('it', 'chain', r[2], it[3])))
        return out
    if k == 'zip':
        out = []
        for r in it_next(e, st, it[2]):
            if not isinstance(r, tuple):
                out.append(r)
            elif r[1] is None:
                out.append((r[0], None, it))
            else:
                for q in it_next(e, r[0], it[3]):
                    if not isinstance(q, tuple):
                        out.append(q)
                    else:
                        out.append((q[0], None if q[1] is None else ('tup', (r[1], q[1])), ('it', 'zip', r[2], q[2])))
        return out
    if k == 'flatten':
        out = []
        work = [(st, it[2], it[3])]
        for _ in range(20):
            nxt = []
            for s0, outer, cur in work:
                if cur is not None:
                    for r in it_next(e, s0, cur):
                        if not isinstance(r, tuple):
                            out.append(r)
                        elif r[1] is None:
                            nxt.append((r[0], outer, None))
                        else:
                            out.append((r[0], r[1], ('it', 'flatten', outer, r[2])))
                else:
                    for r in it_next(e, s0, outer):
                        if not isinstance(r, tuple):
                            out.append(r)
                        elif r[1] is None:
                            out.append((r[0], None, ('it', 'flatten', r[2], None)))
                        else:
                            x = e.deref(r[0], r[1])
                            if x[0] == 'adt' and x[1] in (OPT, RES) or (x[0] == 'pl' and False):
                                y = ('arr', x[3] if x[2] in ('Some', 'Ok') else ())
                                nxt.append((r[0], r[2], mkiter(y)))
                            else:
                                nxt.append((r[0], r[2], mkiter(x)))
            work = nxt
            if not work:
                break
        for _ in work:
            e.stats['limits'].append(('iterator', 'flatten'))
        return out
    if k == 'rev':
        inner = it[2]
        if inner[0] == 'it' and inner[1] == 'src' and inner[2][0] == 'arr':
            rest = inner[2][1][inner[3]:]
            return src_next(e, st, ('arr', tuple(reversed(rest))), 0)
        if inner[0] == 'it' and inner[1] == 'src':
            return src_next(e, st, ('rev', inner[2]), inner[3])
        # materialise
        out = []
        for r in materialise(e, st, inner):
            if not isinstance(r, tuple):
                out.append(r)
            else:
                out += src_next(e, r[0], ('arr', tuple(reversed(r[1]))), 0)
        return out
    raise NotImplementedError(str(it)[:200])


def src_next(e, st, x, n):
    if x[0] == 'arr':
        if n < len(x[1]):
            return [(st, x[1][n], ('it', 'src', x, n + 1))]
        return [(st, None, ('it', 'src', x, n))]
    if x[0] == 'seq':
        # arr parts are concrete, the others symbolic
        i = n if isinstance(n, tuple) else (0, 0)
        pi, off = i
        if pi >= len(x[1]):
            return [(st, None, ('it', 'src', x, i))]
        out = []
        for r in src_next(e, st, x[1][pi], off):
            if not isinstance(r, tuple):
                out.append(r)
            elif r[1] is None:
                out += src_next(e, r[0], x, (pi + 1, 0))
            else:
                out.append((r[0], r[1], ('it', 'src', x, (pi, r[2][3]))))
        return out
    if x[0] == 'split':
        s_, p = x[1], x[2]
        if n == 0:
            if s_[0] == 's' and p[0] == 's':
                return src_next(e, st, ('arr', tuple(S(q) for q in s_[1].split(p[1]))), 0)
            return [(s, before(s_, p) if b else s_, ('it', 'src', x, 1 if b else -1)) for s, b in e.fork(st, has_term(s_, p))]
        if n < 0:
            return [(st, None, ('it', 'src', x, -1))]
        # the remainder after the n-th separator
        rest = s_
        for _ in range(n):
            rest = after(rest, p)
        if n > e.ELEMS + 1:
            return [(st, None, ('it', 'src', x, -1))]
        return [(s, before(rest, p) if b else rest, ('it', 'src', x, n + 1 if b else -1)) for s, b in e.fork(st, has_term(rest, p))]
    if x[0] == 'splitn':
        lim, s_, p = x[1], x[2], x[3]
        if lim[0] == 'n':
            if n < 0 or n >= lim[1]:
                return [(st, None, ('it', 'src', x, -1))]
            rest = s_
            for _ in range(n):
                rest = after(rest, p)
            if n == lim[1] - 1:
                return [(st, rest, ('it', 'src', x, -1))]
            return [(s, before(rest, p) if b else rest, ('it', 'src', x, n + 1 if b else -1)) for s, b in e.fork(st, has_term(rest, p))]
    if x[0] == 'obj' and x[1] is None and all(v is not None for _, v in x[2]):
        return src_next(e, st, ('arr', tuple(('tup', (k, v)) for k, v in x[2])), n)
    if x[0] in ('keys', 'values') and x[1][0] == 'obj' and x[1][1] is None:
        w = [(k if x[0] == 'keys' else v) for k, v in x[1][2] if v is not None]
        return src_next(e, st, ('arr', tuple(w)), n)
    if x[0] == 'adt' and x[1] in ('std::ops::Range', 'std::ops::RangeInclusive', 'std::ops::RangeFrom') and x[3][0][0] == 'n':
        i = N(x[3][0][1] + n)
        if x[2] == 'RangeFrom':
            return [(st, i, ('it', 'src', x, n + 1))]
        end = x[3][1]
        if end[0] != 'n' and n >= e.ELEMS:
            return [(st, None, ('it', 'src', x, n))]
        return [(s, i if b else None, ('it', 'src', x, n + 1)) for s, b in e.fork(st, e.binop(st, 'Lt' if x[2] == 'Range' else 'Le', i, end))]
    base = x[1] if x[0] in ('keys', 'values', 'rev') else x
    if n >= e.ELEMS:
        # small scope: a walk that asks for more has seen every element
        if e.truth(st, has_index(base, n)) is not True:
            st = st.copy()
            st.pos[('exh', base)] = N(n)
        return [(st, None, ('it', 'src', x, n))]
    out = []
    for s, b in e.fork(st, has_index(base, n)):
        if not b:
            s.pos[('exh', base)] = N(n)
            out.append((s, None, ('it', 'src', x, n)))
        else:
            if x[0] == 'rev':
                el = ('el', base, 'last' if n == 0 else ('last', n))
            elif x[0] in ('keys', 'values'):
                el = fld(('el', base, n), '0' if x[0] == 'keys' else '1')
            else:
                el = ('el', base, n)
            out.append((s, el, ('it', 'src', x, n + 1)))
    return out


def materialise(e, st, it):
    """[(state, tuple of items)]"""
    out = []
    work = [(st, mkiter(it) if it[0] != 'ptr' else it, ())]
    while work:
        s0, i0, acc = work.pop()
        for r in it_next(e, s0, i0):
            if not isinstance(r, tuple):
                out.append(r)
            elif r[1] is None:
                out.append((r[0], acc))
            elif len(acc) > e.MAXITEMS:
                e.stats['limits'].append(('iterator', 'materialise'))
                out.append(e.limit(r[0], 'iterator'))
            else:
                work.append((r[0], r[2], acc + (r[1],)))
    return out


@model(('std::iter::Iterator', 'next'), ('std::iter::DoubleEndedIterator', 'next_back'))
def _(e, st, f, a, o):
    p = a[0]
    it = e.deref(st, p)
    if it[0] == 'ptr':
        p, it = it, e.deref(st, it)
    if it[0] != 'it':
        it = ('it', 'src', it, 0)
    if f['method'] == 'next_back':
        it = ('it', 'rev', it)
    out = []
    for r in it_next(e, st, it):
        if not isinstance(r, tuple):
            out.append(r); continue
        s, x, i2 = r
        if p[0] == 'ptr':
            e.write(s, p[1], p[2], i2)
        out.append((s, NONE if x is None else SOME(x)))
    return out


def loop(e, st, it, step, done):
    """drive an iterator; step(s, item) -> [(s, ('stop', v) | ('go',))]"""
    out = []
    work = [(st, it)]
    n = 0
    while work:
        s0, i0 = work.pop()
        n += 1
        if n > 20000:
            e.stats['limits'].append(('iterator', 'loop'))
            break
        for r in it_next(e, s0, i0):
            if not isinstance(r, tuple):
                out.append(r); continue
            s, x, i2 = r
            if x is None:
                out += done(s)
                continue
            for q in step(s, x):
                if not isinstance(q, tuple):
                    out.append(q)
                elif q[1][0] == 'stop':
                    out.append((q[0], q[1][1]))
                else:
                    work.append((q[0], i2))
    return out


def iter_arg(e, st, a):
    it = e.deref(st, a)
    if a[0] == 'ptr' and it[0] == 'it':
        return a
    return mkiter(it)


def simple_in(e, st, it, fv):
    """`coll.iter().any(|x| x == y)` is membership"""
    if it[0] == 'it' and it[1] == 'src' and it[3] == 0 and it[2][0] not in ('arr', 'split', 'splitn', 'chars', 'seq', 'obj'):
        probe = ('el', it[2], '?')
        s0 = st.copy()
        try:
            rs = e.call_value(s0, fv, [probe])
        except Exception:
            return None
        if len(rs) == 1 and isinstance(rs[0], tuple):
            t = rs[0][1]
            if t[0] == 'eq' and rs[0][0].pos == st.pos and rs[0][0].neg == st.neg:
                if t[1] == probe and not contains(t[2], probe):
                    return ('in', it[2], t[2])
                if t[2] == probe and not contains(t[1], probe):
                    return ('in', it[2], t[1])
    return None


@model(('std::iter::Iterator', 'any'))
def _(e, st, f, a, o):
    it = iter_arg(e, st, a[0])
    v = e.deref(st, it) if it[0] == 'ptr' else it
    m = simple_in(e, st, v, a[1])
    if m is not None:
        return [(st, m)]
    return loop(e, st, it, lambda s, x: bind(e, e.call_value(s, a[1], [x]), lambda s2, v: [(s3, ('stop', TRUE) if b else ('go',)) for s3, b in e.fork(s2, v)]), lambda s: [(s, FALSE)])


@model(('std::iter::Iterator', 'all'))
def _(e, st, f, a, o):
    it = iter_arg(e, st, a[0])
    return loop(e, st, it, lambda s, x: bind(e, e.call_value(s, a[1], [x]), lambda s2, v: [(s3, ('go',) if b else ('stop', FALSE)) for s3, b in e.fork(s2, v)]), lambda s: [(s, TRUE)])


@model(('std::iter::Iterator', 'find'))
def _(e, st, f, a, o):
    it = iter_arg(e, st, a[0])
    return loop(e, st, it, lambda s, x: bind(e, e.call_value(s, a[1], [x]), lambda s2, v: [(s3, ('stop', SOME(x)) if b else ('go',)) for s3, b in e.fork(s2, v)]), lambda s: [(s, NONE)])


@model(('std::iter::Iterator', 'find_map'))
def _(e, st, f, a, o):
    it = iter_arg(e, st, a[0])
    return loop(e, st, it, lambda s, x: bind(e, e.call_value(s, a[1], [x]), lambda s2, v: [(s3, ('stop', SOME(pl(v, 'Some'))) if n == 'Some' else ('go',)) for s3, n in osplit(e, s2, v)]), lambda s: [(s, NONE)])


@model(('std::iter::Iterator', 'position'))
def _(e, st, f, a, o):
    it = iter_arg(e, st, a[0])
    cell = ('cnt', st.nf)
    st.nf += 1
    st.mem[cell] = N(0)

    def step(s, x):
        def k(s2, v):
            res = []
            for s3, b in e.fork(s2, v):
                if b:
                    res.append((s3, ('stop', SOME(s3.mem[cell]))))
                else:
                    s3.mem[cell] = N(s3.mem[cell][1] + 1)
                    res.append((s3, ('go',)))
            return res
        return bind(e, e.call_value(s, a[1], [x]), k)
    return loop(e, st, it, step, lambda s: [(s, NONE)])


@model(('std::iter::Iterator', 'for_each'))
def _(e, st, f, a, o):
    it = iter_arg(e, st, a[0])
    return loop(e, st, it, lambda s, x: bind(e, e.call_value(s, a[1], [x]), lambda s2, v: [(s2, ('go',))]), lambda s: [(s, UNIT)])


@model(('std::iter::Iterator', 'try_for_each'))
def _(e, st, f, a, o):
    it = iter_arg(e, st, a[0])
    return loop(e, st, it, lambda s, x: bind(e, e.call_value(s, a[1], [x]), lambda s2, v: [(s3, ('go',) if n == 'Ok' else ('stop', ERR(pl(v, 'Err')))) for s3, n in rsplit(e, s2, v)]), lambda s: [(s, OK(UNIT))])


@model(('std::iter::Iterator', 'fold'))
def _(e, st, f, a, o):
    it = iter_arg(e, st, a[0])
    cell = ('acc', st.nf)
    st.nf += 1
    st.mem[cell] = a[1]

    def step(s, x):
        def k(s2, v):
            s2.mem[cell] = v
            return [(s2, ('go',))]
        return bind(e, e.call_value(s, a[2], [s.mem[cell], x]), k)
    return loop(e, st, it, step, lambda s: [(s, s.mem[cell])])


@model(('std::iter::Iterator', 'try_fold'))
def _(e, st, f, a, o):
    it = iter_arg(e, st, a[0])
    cell = ('acc', st.nf)
    st.nf += 1
    st.mem[cell] = a[1]

    def step(s, x):
        def k(s2, v):
            res = []
            for s3, n in rsplit(e, s2, v):
                if n == 'Ok':
                    s3.mem[cell] = pl(v, 'Ok')
                    res.append((s3, ('go',)))
                else:
                    res.append((s3, ('stop', ERR(pl(v, 'Err')))))
            return res
        return bind(e, e.call_value(s, a[2], [s.mem[cell], x]), k)
    return loop(e, st, it, step, lambda s: [(s, OK(s.mem[cell]))])


@model(('std::iter::Iterator', 'count'))
def _(e, st, f, a, o):
    it = iter_arg(e, st, a[0])
    if it[0] == 'it' and it[1] == 'src' and it[3] == 0:
        return [(st, length(e, st, it[2]))]
    return [r if not isinstance(r, tuple) else (r[0], N(len(r[1]))) for r in materialise(e, st, it)]


@model(('std::iter::Iterator', 'last'))
def _(e, st, f, a, o):
    return [r if not isinstance(r, tuple) else (r[0], SOME(r[1][-1]) if r[1] else NONE) for r in materialise(e, st, iter_arg(e, st, a[0]))]


@model(('std::iter::Iterator', 'nth'))
def _(e, st, f, a, o):
    if a[1][0] != 'n':
        return None
    return [r if not isinstance(r, tuple) else (r[0], SOME(r[1][a[1][1]]) if len(r[1]) > a[1][1] else NONE) for r in materialise(e, st, iter_arg(e, st, a[0]))]


def collect_into(e, st, it, ty):
    it0 = it
    if it[0] == 'it' and it[1] == 'src' and it[3] == 0 and ty.startswith(('std::vec::Vec<', 'std::collections::HashSet<', 'std::collections::BTreeSet<')) and it[2][0] not in ('split', 'splitn', 'keys', 'values', 'rev', 'chars', 'obj'):
        return [(st, it[2])]
    if ty.startswith('std::result::Result<') or ty.startswith('std::option::Option<'):
        isr = ty.startswith('std::result')
        inner = ty[ty.index('<') + 1:]
        cell = ('acc', st.nf)
        st.nf += 1
        st.mem[cell] = ('arr', ())

        def step(s, x):
            res = []
            for s3, n in (rsplit if isr else osplit)(e, s, x):
                if n in ('Ok', 'Some'):
                    s3.mem[cell] = ('arr', s3.mem[cell][1] + (pl(x, n),))
                    res.append((s3, ('go',)))
                else:
                    res.append((s3, ('stop', ERR(pl(x, 'Err')) if isr else NONE)))
            return res

        def done(s):
            v = s.mem[cell]
            w = finish(e, v[1], inner)
            return [(s, OK(w) if isr else SOME(w))]
        return loop(e, st, it, step, done)
    return [r if not isinstance(r, tuple) else (r[0], finish(e, r[1], ty)) for r in materialise(e, st, it)]


def finish(e, items, ty):
    if ty.startswith(('std::collections::HashMap', 'std::collections::BTreeMap', 'serde_json::Map')):
        m = ('obj', None, ())
        for x in items:
            if x[0] == 'tup':
                m = map_put(m, x[1][0], x[1][1])
            else:
                m = map_put(m, fld(x, '0'), fld(x, '1'))
        return m
    if is_stringy(ty.rstrip('>').split(',')[0]):
        return cat(*items)
    return ('arr', tuple(items))


@model(('std::iter::Iterator', 'collect'))
def _(e, st, f, a, o):
    ty = e.ts(f['args'][-1])
    info = e.adt_info(ty.split('<')[0])
    return collect_into(e, st, iter_arg(e, st, a[0]), ty)


@model(('std::iter::FromIterator', 'from_iter'))
def _(e, st, f, a, o):
    return collect_into(e, st, iter_arg(e, st, a[0]), e.ts(f['args'][0]))


@model(('std::iter::Extend', 'extend'))
def _(e, st, f, a, o):
    p = a[0]
    if p[0] != 'ptr':
        return None
    ty = e.ts(f['args'][0])
    if ty.startswith('http::HeaderMap') and e.deref(st, a[1])[0] == 'it':
        # pairs of a name and a value are appended one by one
        out = []
        for r in materialise(e, st, e.deref(st, a[1])):
            if isinstance(r, tuple):
                s, items = r
                if any(x[0] == 'tup' and x[1][0][:1] == ('adt',) for x in items):
                    return None
                h = e.deep(s, p)
                for x in items:
                    h = app('append', h, *[e.deep(s, x[1][i] if x[0] == 'tup' else fld(x, str(i))) for i in (0, 1)])
                e.write(s, p[1], p[2], h)
                r = (s, UNIT)
            out.append(r)
        return out
    if ty.startswith('http::'):
        old, new = e.deep(st, p), e.deep(st, a[1])
        e.write(st, p[1], p[2], new if old == ('arr', ()) else app('extend', old, new))
        return [(st, UNIT)]
    src = e.deref(st, a[1])
    out = []
    if src[0] not in ('it', 'arr', 'obj') and not ty.startswith(('std::collections', 'serde_json::Map')):
        e.write(st, p[1], p[2], seq_append(e.read(st, p[1], p[2]), src))
        return [(st, UNIT)]
    if src[0] == 'it' and src[1] == 'src' and src[3] == 0 and src[2][0] not in ('arr', 'obj', 'split', 'keys', 'values', 'chars') and not ty.startswith(('std::collections', 'serde_json::Map')):
        e.write(st, p[1], p[2], seq_append(e.read(st, p[1], p[2]), src[2]))
        return [(st, UNIT)]
    for r in materialise(e, st, mkiter(src)):
        if not isinstance(r, tuple):
            out.append(r); continue
        s, items = r
        old = e.read(s, p[1], p[2])
        if ty.startswith(('std::collections', 'serde_json::Map')):
            for x in items:
                old = map_put(old, x[1][0] if x[0] == 'tup' else fld(x, '0'), x[1][1] if x[0] == 'tup' else fld(x, '1'))
        elif is_stringy(ty):
            old = cat(old, *items)
        else:
            old = seq_append(old, ('arr', items))
        e.write(s, p[1], p[2], old)
        out.append((s, UNIT))
    return out


# ------------------------------------------------------------------ maps
def map_get(m, k):
    """Option term of m[k]"""
    if m[0] != 'obj':
        if k[0] == 'fld' and k[2] == '0' and k[1][:2] == ('el', m):
            return SOME(fld(k[1], '1'))     # the key of an entry of this map
        return ('get', m, k)
    for kk, v in reversed(m[2]):
        if kk == k:
            return SOME(v) if v is not None else NONE
        if is_const(kk) and is_const(k):
            continue
        return ('get', m, k)
    if m[1] is None:
        return NONE
    return ('get', m[1], k)


def map_find(e, st, m, k):
    """[(state, key, Option)]: lookup deciding whether symbolic keys coincide"""
    if m[0] != 'obj':
        return [(st, k, map_get(m, k))]
    out, cur = [], [st]
    for kk, v in reversed(m[2]):
        nxt = []
        for s in cur:
            if kk == k:
                out.append((s, kk, SOME(v) if v is not None else NONE))
            elif is_const(kk) and is_const(k):
                nxt.append(s)
            else:
                for s2, t in e.eq(s, kk, k):
                    for s3, b in e.fork(s2, t):
                        if b:
                            out.append((s3, kk, SOME(v) if v is not None else NONE))
                        else:
                            nxt.append(s3)
        cur = nxt
    return out + [(s, k, NONE if m[1] is None else ('get', m[1], k)) for s in cur]


def map_known(e, st, m, k):
    """Option term of m[k], with what the path knows about symbolic keys"""
    if m[0] != 'obj':
        return map_get(m, k)
    for i in range(len(m[2]) - 1, -1, -1):
        kk, v = m[2][i]
        if kk == k:
            return SOME(v) if v is not None else NONE
        if is_const(kk) and is_const(k):
            continue
        r = e.eq(st, kk, k)
        t = e.truth(r[0][0], r[0][1]) if len(r) == 1 else None
        if t is True:
            return SOME(v) if v is not None else NONE
        if t is None:
            return map_get(('obj', m[1], m[2][:i + 1]), k)
    return NONE if m[1] is None else ('get', m[1], k)


def map_value(e, m, k):
    return pl(map_get(m, k), 'Some')


ORDER = False   # keep insertion order of map members (serde_json is built with preserve_order); most rules compare maps as sets


def map_put(m, k, v):
    if m[0] != 'obj':
        m = ('obj', m, ())
    if ORDER:
        if any(a == k for a, _ in m[2]):
            return ('obj', m[1], tuple((a, v if a == k else b) for a, b in m[2]))
        return ('obj', m[1], m[2] + ((k, v),))
    ws = tuple((a, b) for a, b in m[2] if a != k) + ((k, v),)
    if all(is_const(a) for a, _ in ws):
        ws = tuple(sorted(ws))if all(b is not None for _, b in ws) else tuple(sorted(ws, key=lambda q: q[0]))
    return ('obj', m[1], ws)


MAPS = ['serde_json::Map::<std::string::String, serde_json::Value>::', 'std::collections::HashMap::<K, V, S, A>::', 'std::collections::HashMap::<K, V, S>::', 'std::collections::BTreeMap::<K, V, A>::', 'std::collections::HashMap::<K, V>::', 'std::collections::BTreeMap::<K, V>::', 'std::collections::hash_map::HashMap::<K, V, S>::']


def mm(*names):
    def w(fn):
        for p in MAPS:
            for n in names:
                MODELS[p + n] = fn
        return fn
    return w


@mm('new', 'with_capacity')
def _(e, st, f, a, o):
    return [(st, ('obj', None, ()))]


@mm('get')
def _(e, st, f, a, o):
    return [(s, v) for s, k, v in map_find(e, st, e.deref(st, a[0]), e.deep(st, a[1]))]


@mm('contains_key')
def _(e, st, f, a, o):
    return [(s2, B(n == 'Some')) for s, k, v in map_find(e, st, e.deref(st, a[0]), e.deep(st, a[1])) for s2, n in osplit(e, s, v)]


@mm('get_mut')
def _(e, st, f, a, o):
    p = a[0]
    return [(s2, SOME(('ptr', p[1], p[2] + (('key', k),))) if n == 'Some' else NONE) for s, k, v in map_find(e, st, e.deref(st, p), e.deep(st, a[1])) for s2, n in osplit(e, s, v)]


@mm('insert')
def _(e, st, f, a, o):
    p = a[0]
    old, new = e.deref(st, p), e.deep(st, a[2])
    out = []
    for s, k, v in map_find(e, st, old, e.deep(st, a[1])):
        s = s.copy()
        if p[0] == 'ptr':
            e.write(s, p[1], p[2], map_put(old, k, new))
        out.append((s, v))
    return out


@mm('remove', 'shift_remove', 'swap_remove')
def _(e, st, f, a, o):
    p = a[0]
    old = e.deref(st, p)
    out = []
    for s, k, v in map_find(e, st, old, e.deep(st, a[1])):
        s = s.copy()
        if p[0] == 'ptr':
            e.write(s, p[1], p[2], map_put(old, k, None))
        out.append((s, v))
    return out


@mm('entry')
def _(e, st, f, a, o):
    p = a[0]
    path = e.ts(o).split('<')[0]
    return [(s2, adt(path, 'Occupied' if n == 'Some' else 'Vacant', ('entry', p, k))) for s, k, v in map_find(e, st, e.deref(st, p), e.deep(st, a[1])) for s2, n in osplit(e, s, v)]


@mm('clear')
def _(e, st, f, a, o):
    e.write(st, a[0][1], a[0][2], ('obj', None, ()))
    return [(st, UNIT)]


def entry_slot(ent):
    return ('ptr', ent[1][1], ent[1][2] + (('key', ent[2]),))


def entry_put(e, s, ent, v):
    p = ent[1]
    e.write(s, p[1], p[2], map_put(e.read(s, p[1], p[2]), ent[2], v))


def entry_or(e, st, f, a, o, nm):
    if a[0][0] != 'adt' or not a[0][3] or a[0][3][0][0] != 'entry':
        return None
    ent = a[0][3][0]
    if nm == 'key':
        return [(st, ent[2])]
    if nm == 'and_modify':
        if a[0][2] == 'Vacant':
            return [(st, a[0])]
        return [r if not isinstance(r, tuple) else (r[0], a[0]) for r in e.call_value(st, a[1], [entry_slot(ent)])]
    if a[0][2] == 'Occupied':
        return [(st, entry_slot(ent))]
    if nm == 'or_insert':
        rs = [(st, a[1])]
    elif nm == 'or_default':
        rs = [(st, default_ty(strip_ref(e.ts(o))))]
    else:
        rs = e.call_value(st, a[1], [] if nm == 'or_insert_with' else [ent[2]])
    out = []
    for r in rs:
        if isinstance(r, tuple):
            entry_put(e, r[0], ent, e.deep(r[0], r[1]))
            r = (r[0], entry_slot(ent))
        out.append(r)
    return out


def entry_op(e, st, f, a, o, nm):
    ent = e.deref(st, a[0])
    if ent[0] != 'entry':
        return None
    if nm in ('get', 'get_mut', 'into_mut'):
        return [(st, entry_slot(ent))]
    if nm == 'key':
        return [(st, ent[2])]
    old = e.deref(st, entry_slot(ent))
    if nm == 'remove':
        entry_put(e, st, ent, None)
        return [(st, old)]
    entry_put(e, st, ent, e.deep(st, a[1]))
    return [(st, old if 'Occupied' in f['path'] else entry_slot(ent))]


for mod in ['std::collections::hash_map::', 'std::collections::btree_map::', 'serde_json::map::']:
    for g in ["::<'a, K, V>::", "::<'a, K, V, A>::", "::<'a>::", "::<'_, K, V, A>::", "::<'_, K, V>::"]:
        for nm in ['or_insert', 'or_insert_with', 'or_insert_with_key', 'or_default', 'and_modify', 'key']:
            MODELS[mod + 'Entry' + g + nm] = lambda e, st, f, a, o, nm=nm: entry_or(e, st, f, a, o, nm)
        for nm in ['get', 'get_mut', 'into_mut', 'insert', 'remove', 'key']:
            MODELS[mod + 'OccupiedEntry' + g + nm] = lambda e, st, f, a, o, nm=nm: entry_op(e, st, f, a, o, nm)
            MODELS[mod + 'VacantEntry' + g + nm] = lambda e, st, f, a, o, nm=nm: entry_op(e, st, f, a, o, nm)


# ------------------------------------------------------------------ serde_json
JVARS = ('Null', 'Bool', 'Number', 'String', 'Array', 'Object')


def jsplit(e, st, v, want):
    return e.split_eq(st, v, want, JVARS)


def as_variant(want):
    def m(e, st, f, a, o):
        x = e.deref(st, a[0])
        return [(s, SOME(pl(x, want)) if n == want else NONE) for s, n in jsplit(e, st, x, want)]
    return m


for nm, w in [('as_str', 'String'), ('as_array', 'Array'), ('as_object', 'Object'), ('as_bool', 'Bool')]:
    MODELS['serde_json::Value::' + nm] = as_variant(w)
for nm, w in [('is_string', 'String'), ('is_array', 'Array'), ('is_object', 'Object'), ('is_boolean', 'Bool'), ('is_null', 'Null'), ('is_number', 'Number')]:
    def _(e, st, f, a, o, w=w):
        x = e.deref(st, a[0])
        return [(s, B(n == w)) for s, n in jsplit(e, st, x, w)]
    MODELS['serde_json::Value::' + nm] = _


@model('serde_json::Value::as_object_mut', 'serde_json::Value::as_array_mut')
def _(e, st, f, a, o):
    w = 'Object' if 'object' in f['path'] else 'Array'
    p = a[0]
    x = e.deref(st, p)
    return [(s, SOME(('ptr', p[1], p[2] + (('f', 0, '0', w),))) if n == w else NONE) for s, n in jsplit(e, st, x, w)]


def json_get(e, st, x, k):
    if k[0] == 'n':
        out = []
        for s, n in jsplit(e, st, x, 'Array'):
            if n != 'Array':
                out.append((s, NONE)); continue
            arr = pl(x, 'Array')
            for s2, b in e.fork(s, has_index(arr, k[1])):
                out.append((s2, SOME(e.index(s2, arr, k)) if b else NONE))
        return out
    return [(s, map_get(pl(x, 'Object'), k) if n == 'Object' else NONE) for s, n in jsplit(e, st, x, 'Object')]


@model('serde_json::Value::get')
def _(e, st, f, a, o):
    return json_get(e, st, e.deref(st, a[0]), e.deref(st, a[1]))


@model('serde_json::value::index::<impl std::ops::IndexMut<I> for serde_json::Value>::index_mut')
def _(e, st, f, a, o):
    p, k = a[0], e.deref(st, a[1])
    x = e.deref(st, p)
    out = []
    for s, n in e.split_eq(st, x, 'Object', JVARS):
        if n == 'Object':
            out.append((s, ('ptr', p[1], p[2] + (('f', 0, '0', 'Object'), ('key', k)))))
        elif k[0] == 's':
            out.append(e.panic(s, 'json index on non-object', x))
        else:
            out.append((s, ('ptr', p[1], p[2] + (('i', k),))))
    return out


@model('serde_json::Value::take')
def _(e, st, f, a, o):
    p = a[0]
    old = e.deref(st, p)
    e.write(st, p[1], p[2], adt(JV, 'Null'))
    return [(st, old)]


def from_value(e, st, ty, x):
    x = e.deref(st, x)
    if ty == JV:
        return [(st, OK(x))]
    if x[:2] == ('app', 'value') and x[2] == ty:   # what a value of this type serialises to reads back as that value
        return [(st, OK(x[3]))]
    want = None
    if is_stringy(ty):
        want = 'String'
    elif ty == 'bool':
        want = 'Bool'
    elif ty.startswith('serde_json::Map<'):
        want = 'Object'
    elif ty == 'std::vec::Vec<serde_json::Value>':
        want = 'Array'
    if want:
        return [(s, OK(pl(x, want)) if n == want else ERR(('errof', x))) for s, n in jsplit(e, st, x, want)]
    if ty == 'url::Url':   # a URL is deserialised by parsing the string
        return [(s, parsed(ty, pl(x, 'String')) if n == 'String' else ERR(('errof', x))) for s, n in jsplit(e, st, x, 'String')]
    if re.fullmatch(r'[iu](8|16|32|64|128|size)', ty):
        return [(s, ('app', 'from_value', ty, e.deep(s, x)) if n == 'Number' else ERR(('errof', x))) for s, n in jsplit(e, st, x, 'Number')]
    if e.wire:
        from . import wire
        if wire.local(e, ty, 'de') is not None and wire.expand(e, ty) or ty.startswith(('std::vec::Vec<', 'std::option::Option<')):
            return wire.de(e, st, ty, ('de', x, 'json'))
    sub = transparent(e, ty)
    if sub:
        return bind(e, from_value(e, st, sub[1], x), lambda s, v: [(s2, OK(adt(ty.split('<')[0], sub[0], pl(v, 'Ok'))) if n == 'Ok' else ERR(('errof', x))) for s2, n in rsplit(e, s, v)])
    return [(st, ('app', 'from_value', ty, e.deep(st, x)))]


def newtypes(e):
    """types whose (derived) Deserialize and Serialize are those of their only field"""
    r = getattr(e, '_newtypes', None)
    if r is None:
        de, ser = set(), set()
        for x in e.roots:
            p = x['path']
            i = p.find('<impl serde::')
            if i < 0 or not p.endswith(('>::deserialize', '>::serialize')) or p.startswith('<'):
                continue
            calls = {t[1][1].get('method') for t in e.bodies[x['id']]['blocks'] if t and t[1][0] == 'call' and isinstance(t[1][1], dict)}
            ty = p[i:].split(' for ', 1)[1].rsplit('>::', 1)[0]
            if 'deserialize_newtype_struct' in calls:
                de.add(ty)
            if 'serialize_newtype_struct' in calls:
                ser.add(ty)
        r = e._newtypes = de & ser
    return r


def transparent(e, ty):
    """newtype structs of the repository serialize as their content (serde derive on a tuple struct with one field)"""
    info = e.adt_info(ty.split('<')[0])
    if info and info['local'] and info['kind'] == 'struct':
        v = info['variants'][0]
        if len(v['fields']) == 1 and v['fields'][0]['name'] == '0' and ty in newtypes(e):
            return v['name'], v['fields'][0]['ty']
    return None


@model('serde_json::from_value')
def _(e, st, f, a, o):
    return from_value(e, st, e.ts(f['args'][0]), a[0])


@model('serde_json::from_slice', 'serde_json::from_str')
def _(e, st, f, a, o):
    ty = [e.ts(i) for i in f['args']][-1]
    x = e.deep(st, a[0])
    # the text of a JSON value we know
    if x[0] == 'app' and x[1] == 'json':
        return from_value(e, st, ty, x[2])
    r = ('app', 'json_parse', '', x)     # Result<Value>
    out = []
    if ty == JV:
        return [(st, r)]
    want = 'Object' if ty.startswith('serde_json::Map<') else 'String' if is_stringy(ty) else None
    if want is None:
        if wired(e, ty, 'de'):
            from . import wire
            return wire.bindok(e, [(st, r)], lambda s, v: wire.de(e, s, ty, ('de', v, 'json')))
        return [(st, ('app', 'json_parse', ty, x))]
    for s, n in rsplit(e, st, r):
        if n == 'Err':
            out.append((s, ERR(('errof', x)))); continue
        v = pl(r, 'Ok')
        for s2, m in jsplit(e, s, v, want):
            out.append((s2, OK(pl(v, want)) if m == want else ERR(('errof', x))))
    return out


def to_value_term(e, ty, x):
    """Value term or None"""
    t = strip_ref(ty)
    if t == JV:
        return x
    if is_stringy(t):
        return jstr(x)
    if t == 'bool':
        return adt(JV, 'Bool', x)
    if t == 'url::Url':
        return jstr(app('str', x))
    if t.startswith('serde_json::Map<'):
        return adt(JV, 'Object', x)
    if t.startswith('std::vec::Vec<') or t.startswith('['):
        inner = t[t.index('<') + 1:-1] if '<' in t else t[1:].split(';')[0].rstrip(']')
        if inner == JV:
            return adt(JV, 'Array', x)
        if x[0] == 'arr':
            items = [to_value_term(e, inner, q) for q in x[1]]
            if all(i is not None for i in items):
                return adt(JV, 'Array', ('arr', tuple(items)))
        return app('value', frm_norm(t), x)
    if t.startswith('std::option::Option<'):
        if x[0] == 'adt':
            return adt(JV, 'Null') if x[2] == 'None' else to_value_term(e, t[t.index('<') + 1:-1], x[3][0])
    if t.startswith(('std::collections::BTreeMap<', 'std::collections::HashMap<')) and x[0] == 'obj' and x[1] is None:
        from . import wire
        kt, vt = wire.split_args(t[t.index('<') + 1:-1])[:2]
        kv = [(k, to_value_term(e, vt, v)) for k, v in x[2] if v is not None]
        if is_stringy(kt) and all(v is not None and k[0] == 's' for k, v in kv) and ('BTreeMap' in t or not ORDER):
            return adt(JV, 'Object', ('obj', None, tuple(sorted(kv, key=lambda y: y[0][1].encode()))))
    sub = transparent(e, t)
    if sub:
        return to_value_term(e, sub[1], e.field(x, 0, '0'))
    return None


def wired(e, ty, which):
    if not e.wire:
        return False
    from . import wire
    t = strip_ref(ty)
    return wire.local(e, t, which) is not None and wire.expand(e, t)


@model('serde_json::to_value')
def _(e, st, f, a, o):
    ty = e.ts(f['args'][0])
    if wired(e, ty, 'ser'):
        from . import wire
        return wire.ser(e, st, ty, a[0], ('ser', 'json'))
    x = e.deep(st, a[0])
    t = strip_ref(ty)
    v = to_value_term(e, ty, x)
    if v is not None:
        return [(st, OK(v))]
    if t.startswith('std::option::Option<'):
        out = []
        for s, n in osplit(e, st, x):
            if n == 'None':
                out.append((s, OK(adt(JV, 'Null'))))
            else:
                w = to_value_term(e, t[t.index('<') + 1:-1], pl(x, 'Some'))
                out.append((s, OK(w if w is not None else app('value', t, pl(x, 'Some')))))
        return out
    return [(st, ('app', 'to_value', t, x))]


@model('serde_json::to_string', 'serde_json::to_vec')
def _(e, st, f, a, o):
    ty = e.ts(f['args'][0])
    if wired(e, ty, 'ser'):
        from . import wire
        return wire.bindok(e, wire.ser(e, st, ty, a[0], ('ser', 'json')), lambda s, v: [(s, OK(app('json', v)))])
    x = e.deep(st, a[0])
    v = to_value_term(e, ty, x)
    if v is not None:
        return [(st, OK(app('json', v)))]
    info = e.adt_info(strip_ref(ty).split('<')[0])
    return [(st, ('app', 'to_json', strip_ref(ty), x))]


@model('serde_json::to_string_pretty', 'serde_json::to_vec_pretty')
def _(e, st, f, a, o):
    return [(st, ('app', 'to_json_pretty', strip_ref(e.ts(f['args'][0])), e.deep(st, a[0])))]


# ------------------------------------------------------------------ url-encoding
@model('serde_urlencoded::from_str', 'serde_urlencoded::from_bytes')
def _(e, st, f, a, o):
    ty = [e.ts(i) for i in f['args']][-1]
    if wired(e, ty, 'de'):
        from . import wire
        return wire.form_de(e, st, ty, a[0])
    return [(st, ('app', 'form_parse', ty, e.deep(st, a[0])))]


@model('serde_urlencoded::to_string')
def _(e, st, f, a, o):
    if wired(e, e.ts(f['args'][0]), 'ser'):
        from . import wire
        return wire.form_ser(e, st, e.ts(f['args'][0]), a[0])
    return [(st, ('app', 'form', strip_ref(e.ts(f['args'][0])), e.deep(st, a[0])))]


# ------------------------------------------------------------------ base64, hashes
@model(('base64::Engine', 'encode'), 'base64::Engine::encode')
def _(e, st, f, a, o):
    return [(st, app('b64enc', e.deref(st, a[0]), e.deep(st, a[1])))]


@model(('base64::Engine', 'encode_string'), 'base64::Engine::encode_string')
def _(e, st, f, a, o):
    p = a[2]
    v = app('b64enc', e.deref(st, a[0]), e.deep(st, a[1]))
    if p[0] == 'ptr':
        e.write(st, p[1], p[2], seq_append(e.read(st, p[1], p[2]), v))
    return [(st, UNIT)]


@model(('base64::Engine', 'decode_vec'), 'base64::Engine::decode_vec')
def _(e, st, f, a, o):
    p = a[2]
    v = app('b64dec', e.deref(st, a[0]), e.deep(st, a[1]))
    out = []
    for s, n in rsplit(e, st, v):
        if n == 'Ok' and p[0] == 'ptr':
            e.write(s, p[1], p[2], seq_append(e.read(s, p[1], p[2]), pl(v, 'Ok')))
        elif n == 'Err' and p[0] == 'ptr':
            e.write(s, p[1], p[2], app('partial', v))
        out.append((s, OK(UNIT) if n == 'Ok' else ERR(('errof', v))))
    return out


@model(('base64::Engine', 'decode'), 'base64::Engine::decode')
def _(e, st, f, a, o):
    return [(st, app('b64dec', e.deref(st, a[0]), e.deep(st, a[1])))]


@model('<D as sha2::Digest>::digest', ('sha2::Digest', 'digest'), ('sha2::digest::Digest', 'digest'))
def _(e, st, f, a, o):
    return [(st, app('digest', strip_ref(e.ts(f['args'][0])).split('<')[-1][:0] + hashname(e.ts(f['args'][0])), e.deep(st, a[0])))]


def hashname(t):
    for k in ('Sha256', 'Sha384', 'Sha512'):
        if k in t:
            return k.lower()
    for k in ('256', '384', '512'):
        if k in t:
            return 'sha' + k
    if 'sha2::core_api::Sha256' in t or 'UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>' in t:
        return 'sha256'
    return t


@model(('sha2::Digest', 'new'), ('sha2::digest::Digest', 'new'), '<D as sha2::Digest>::new')
def _(e, st, f, a, o):
    return [(st, ('hasher', hashname(e.ts(f['args'][0])), S('')))]


@model(('sha2::Digest', 'update'), ('sha2::digest::Digest', 'update'), ('sha2::digest::Update', 'update'), '<D as sha2::Digest>::update')
def _(e, st, f, a, o):
    p = a[0]
    h = e.deref(st, p)
    e.write(st, p[1], p[2], ('hasher', h[1], cat(h[2], e.deep(st, a[1]))))
    return [(st, UNIT)]


@model(('sha2::Digest', 'chain_update'), '<D as sha2::Digest>::chain_update')
def _(e, st, f, a, o):
    h = a[0]
    return [(st, ('hasher', h[1], cat(h[2], e.deep(st, a[1]))))]


@model(('sha2::Digest', 'finalize'), ('sha2::digest::Digest', 'finalize'), '<D as sha2::Digest>::finalize')
def _(e, st, f, a, o):
    return [(st, app('digest', a[0][1], a[0][2]))]


# ------------------------------------------------------------------ http
def hb(method=None, uri=None, headers=()):
    return ('hb', method, uri, headers)


@model('http::Request::<()>::builder', 'http::request::Builder::new')
def _(e, st, f, a, o):
    return [(st, hb(S('GET'), S('/')))]


for m in ['get', 'post', 'put', 'delete', 'head']:
    def _(e, st, f, a, o, m=m):
        return [(st, hb(S(m.upper()), strurl(e, st, f, a[0])))]
    MODELS['http::Request::<()>::' + m] = _


def strurl(e, st, f, x):
    x = e.deep(st, x)
    return x


@model('http::request::Builder::method')
def _(e, st, f, a, o):
    b = a[0]
    if b[0] != 'hb':
        return None
    return [(st, ('hb', e.deep(st, a[1]), b[2], b[3]))]


@model('http::request::Builder::uri')
def _(e, st, f, a, o):
    b = a[0]
    if b[0] != 'hb':
        return None
    return [(st, ('hb', b[1], strurl(e, st, f, a[1]), b[3]))]


@model('http::request::Builder::header')
def _(e, st, f, a, o):
    b = a[0]
    if b[0] != 'hb':
        return None
    k = e.deep(st, a[1])
    if k[0] == 's':
        k = S(k[1].lower())
    return [(st, ('hb', b[1], b[2], tuple(sorted(b[3] + ((k, e.deep(st, a[2])),)))))]


@model('http::request::Builder::body')
def _(e, st, f, a, o):
    b = a[0]
    if b[0] != 'hb':
        return None
    rq = ('httpreq', b[1], b[2], b[3], e.deep(st, a[1]))
    return [(s, OK(rq) if ok else ERR(ANYERR)) for s, ok in e.fork(st, ('httpok', b))]


# responses built here: ('arr', (tag, status, version, headers, extensions[, body]))
NOHEADERS = ('arr', ())


@model('http::Response::<()>::builder', 'http::response::Builder::new')
def _(e, st, f, a, o):
    return [(st, ('arr', (S('builder'), N(200), S('HTTP/1.1'), NOHEADERS, NOHEADERS)))]


@model('http::Response::<T>::new')
def _(e, st, f, a, o):
    return [(st, ('arr', (S('response'), N(200), S('HTTP/1.1'), NOHEADERS, NOHEADERS, e.deep(st, a[0]))))]


RESP = {'status': 1, 'version': 2, 'headers': 3, 'extensions': 4, 'body': 5}


@model('http::response::Builder::status', 'http::response::Builder::version')
def _(e, st, f, a, o):
    b = e.deref(st, a[0])
    if b[0] != 'arr':
        return None
    i = RESP[f['path'].split('::')[-1]]
    return [(st, ('arr', b[1][:i] + (e.deep(st, a[1]),) + b[1][i + 1:]))]


@model('http::response::Builder::header')
def _(e, st, f, a, o):
    b = e.deref(st, a[0])
    if b[0] != 'arr':
        return None
    return [(st, ('arr', b[1][:3] + (app('append', b[1][3], e.deep(st, a[1]), e.deep(st, a[2])),) + b[1][4:]))]


@model('http::response::Builder::headers_mut', 'http::response::Builder::extensions_mut', 'http::Response::<T>::headers_mut', 'http::Response::<T>::extensions_mut', 'http::Response::<T>::status_mut', 'http::Response::<T>::version_mut', 'http::Response::<T>::body_mut')
def _(e, st, f, a, o):
    p = a[0]
    if p[0] != 'ptr' or e.deref(st, p)[0] != 'arr':
        return None
    while e.read(st, p[1], p[2])[0] == 'ptr':
        p = e.read(st, p[1], p[2])
    r = ('ptr', p[1], p[2] + (('i', N(RESP[f['path'].split('::')[-1][:-4]])),))
    if 'Builder' not in f['path']:
        return [(st, r)]
    # None only after an invalid status or header was set
    return [(s, SOME(r) if b else NONE) for s, b in e.fork(st, ('respok', e.deep(st, p)))]


@model('http::response::Builder::body')
def _(e, st, f, a, o):
    b = e.deep(st, a[0])
    if b[0] != 'arr':
        return None
    return [(s, OK(('arr', (S('response'),) + b[1][1:] + (e.deep(st, a[1]),))) if ok else ERR(ANYERR)) for s, ok in e.fork(st, ('respok', b))]


@model('http::Response::<T>::map')
def _(e, st, f, a, o):
    r = e.deref(st, a[0])
    if r[0] != 'arr':
        return None
    return [q if not isinstance(q, tuple) else (q[0], ('arr', r[1][:5] + (e.deep(q[0], q[1]),))) for q in e.call_value(st, a[1], [r[1][5]])]


@model('http::HeaderMap::<T>::insert', 'http::HeaderMap::<T>::append')
def _(e, st, f, a, o):
    p = a[0]
    if p[0] != 'ptr':
        return None
    h = e.deep(st, p)
    e.write(st, p[1], p[2], app(f['path'].split('::')[-1], h, e.deep(st, a[1]), e.deep(st, a[2])))
    return [(st, app('had', h, e.deep(st, a[1])))]


@model('http::Response::<T>::status', 'http::Response::<T>::into_body', 'http::Response::<T>::body')
def _(e, st, f, a, o):
    nm = f['path'].split('::')[-1]
    r = e.deref(st, a[0])
    if r[0] == 'arr' and r[1] and r[1][0] == S('response'):
        return [(st, r[1][RESP[nm.replace('into_', '')]])]
    return [(st, app('resp_status' if nm == 'status' else 'resp_body', e.deep(st, a[0])))]


@model('http::Response::<T>::into_parts')
def _(e, st, f, a, o):
    r = e.deep(st, a[0])
    if r[0] == 'arr' and r[1] and r[1][0] == S('response'):
        return [(st, ('tup', (('upd', ('resp_parts', r), (('status', r[1][RESP['status']]), ('headers', r[1][RESP['headers']]))), r[1][RESP['body']])))]
    return [(st, ('tup', (('upd', ('resp_parts', r), (('status', app('resp_status', r)),)), app('resp_body', r))))]


@model('http::StatusCode::is_success')
def _(e, st, f, a, o):
    return [(st, app('is_success', e.deep(st, a[0])))]


@model('http::StatusCode::as_u16')
def _(e, st, f, a, o):
    return [(st, app('as_u16', e.deep(st, a[0])))]


# ------------------------------------------------------------------ url
@model('url::Url::set_query', 'url::Url::set_path', 'url::Url::set_fragment')
def _(e, st, f, a, o):
    p = a[0]
    nm = f['path'].split('::')[-1]
    old = e.deref(st, p)
    x = e.deep(st, a[1])
    e.write(st, p[1], p[2], app(nm, old, x))
    return [(st, UNIT)]


@model("url::Url::path_segments_mut")
def _(e, st, f, a, o):
    p = a[0]
    u = e.deref(st, p)
    return [(s, OK(('segs', p)) if b else ERR(UNIT)) for s, b in e.fork(st, ('canbase', url_root(u)))]


def url_root(u):
    while u[0] == 'app' and u[1] in ('seg_push', 'set_query', 'set_fragment', 'seg_pop_empty'):
        u = u[2]
    return u


@model('url::PathSegmentsMut::<\'_>::push', 'url::PathSegmentsMut::<\'_>::pop_if_empty', 'url::PathSegmentsMut::<\'_>::pop', 'url::PathSegmentsMut::<\'_>::clear')
def _(e, st, f, a, o):
    g = a[0]
    gg = e.deref(st, g)
    if gg[0] != 'segs':
        return None
    p = gg[1]
    nm = f['path'].split('::')[-1]
    old = e.deref(st, p)
    e.write(st, p[1], p[2], app('seg_push', old, e.deep(st, a[1])) if nm == 'push' else app('seg_' + nm, old))
    return [(st, g)]


@model('url::PathSegmentsMut::<\'_>::extend')
def _(e, st, f, a, o):
    g = a[0]
    gg = e.deref(st, g)
    if gg[0] != 'segs':
        return None
    p = gg[1]
    out = []
    for r in materialise(e, st, mkiter(e.deref(st, a[1]))):
        if not isinstance(r, tuple):
            out.append(r); continue
        u = e.deref(r[0], p)
        for x in r[1]:
            u = app('seg_push', u, e.deep(r[0], x))
        e.write(r[0], p[1], p[2], u)
        out.append((r[0], g))
    return out


# ------------------------------------------------------------------ misc effects
@model('uuid::v4::<impl uuid::Uuid>::new_v4')
def _(e, st, f, a, o):
    return e.event(st, 'Uuid::new_v4', [], None)


def lock(e, st, m):
    cell = ('mtx', m)
    if cell not in st.mem:
        st.mem[cell] = contents(m)
    st.ev = st.ev + (('lock', (m,), UNIT),)
    return [(st, ('ptr', cell, ()))]


@model('tokio::sync::Mutex::<T>::lock', 'tokio::sync::RwLock::<T>::write', 'tokio::sync::RwLock::<T>::read')
def _(e, st, f, a, o):
    return [(st, ('lockfut', e.deep(st, a[0])))]


@model('tokio::sync::Mutex::<T>::try_lock', 'tokio::sync::RwLock::<T>::try_write', 'tokio::sync::RwLock::<T>::try_read')
def _(e, st, f, a, o):
    m = e.deep(st, a[0])
    out = []
    n = sum(1 for x in st.ev if x[0] in ('lock', 'trylock'))
    for s, b in e.fork(st, ('contended', m, n)):
        s.ev = s.ev + (('trylock', (m,), UNIT),)
        if b:
            out.append((s, ERR(ANYERR)))
        else:
            cell = ('mtx', m)
            if cell not in s.mem:
                s.mem[cell] = contents(m)
            out.append((s, OK(('ptr', cell, ()))))
    return out


@model('std::sync::Mutex::<T>::lock', 'std::sync::nonpoison::mutex::Mutex::<T>::lock', 'std::sync::poison::mutex::Mutex::<T>::lock')
def _(e, st, f, a, o):
    m = e.deep(st, a[0])
    return [(s, OK(v)) for s, v in lock(e, st, m)]


@model('tokio::sync::Mutex::<T>::blocking_lock')
def _(e, st, f, a, o):
    return lock(e, st, e.deep(st, a[0]))


@model('<tokio::sync::MutexGuard<\'_, T> as std::ops::Deref>::deref', '<tokio::sync::MutexGuard<\'_, T> as std::ops::DerefMut>::deref_mut')
def _(e, st, f, a, o):
    v = e.deref(st, a[0]) if a[0][0] == 'ptr' else a[0]
    return [(st, v if v[0] == 'ptr' else a[0])]


CBV = 'ciborium::Value'


def cbor_canon(v):
    """the data item a ciborium::Value term stands for, in the shape serde serialization gives"""
    if v[0] == 'adt' and v[1].endswith('ciborium::Value') or v[0] == 'adt' and v[1] == CBV:
        n = {'Text': 'String'}.get(v[2], v[2])
        xs = v[3]
        if n == 'Array' and xs[0][0] in ('arr', 'seq'):
            xs = ((xs[0][0], tuple(cbor_canon(y) for y in xs[0][1])),)
        return adt(JV, n, *xs)
    if v[0] == 'pl' and v[2] == 'Ok' and v[1][:2] == ('app', 'cbor_de') and v[1][2].endswith('Value') and v[1][3][:2] == ('app', 'cbor'):
        return v[1][3][2]
    return v


def cbor_items(e, st, ty, x):
    """[(state, Ok(item)|Err)] for serializing x of type ty to CBOR"""
    ty = strip_ref(ty)
    if ty.endswith('ciborium::Value') or ty == CBV or ty.startswith('ciborium::'):
        return [(s, OK(cbor_canon(x)) if n == 'Ok' else ERR(ANYERR)) for s, n in rsplit(e, st, ('app', 'cbor_ser', ty, x))]
    from engine import wire
    out = []
    w, e.wire = e.wire, True
    try:
        rs = wire.ser(e, st, ty, x, ('ser', 'cbor'))
    finally:
        e.wire = w
    for r in rs:
        if not isinstance(r, tuple):
            out.append(r); continue
        if r[1][2] == 'Ok':
            out += [(s, r[1] if n == 'Ok' else ERR(ANYERR)) for s, n in rsplit(e, r[0], ('app', 'cbor_ser', ty, x))]
        else:
            out.append((r[0], ERR(ANYERR)))
    return out


@model('ciborium::into_writer', 'ciborium::ser::into_writer')
def _(e, st, f, a, o):
    x = e.deep(st, a[0])
    out = []
    for r in cbor_items(e, st, e.ts(f['args'][0]), x):
        if not isinstance(r, tuple):
            out.append(r); continue
        s, v = r
        if v[2] == 'Ok':
            s = s.copy()
            p = a[1]
            if p[0] == 'ptr':
                e.write(s, p[1], p[2], cat(e.read(s, p[1], p[2]), app('cbor', v[3][0])))
            out.append((s, OK(UNIT)))
        else:
            out.append((s, ERR(ANYERR)))
    return out


@model('ciborium::value::ser::<impl ciborium::Value>::serialized', 'ciborium::Value::serialized', 'ciborium::value::Value::serialized')
def _(e, st, f, a, o):
    x = e.deep(st, a[0])
    out = []
    for r in cbor_items(e, st, e.ts(f['args'][-1]), x):
        if isinstance(r, tuple) and r[1][2] == 'Ok':
            r = (r[0], OK(pl(('app', 'cbor_de', CBV, app('cbor', r[1][3][0])), 'Ok')))
        out.append(r)
    return out


@model('ciborium::from_reader', 'ciborium::de::from_reader')
def _(e, st, f, a, o):
    return [(st, ('app', 'cbor_de', e.ts(f['args'][0]), e.deep(st, a[0])))]


for _n in ('query', 'path', 'authority', 'scheme', 'host_str', 'fragment', 'port', 'domain', 'username', 'password', 'port_or_known_default'):
    def _(e, st, f, a, o, n=_n):
        return [(st, app(n, e.deep(st, a[0])))]
    MODELS.setdefault('url::Url::' + _n, _)


@model('x509_cert::certificate::TbsCertificateInner::<P>::filter')
def _(e, st, f, a, o):
    """the extensions of one type, in order: Result<(critical, extension)> each"""
    return [(st, ('app', 'extensions', e.ts((f.get('rargs') or f['args'])[-1]), e.deep(st, a[0])))]
