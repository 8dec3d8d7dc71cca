import collections
import re

from rules.common import *

TECHNIQUE = 'static path analysis of every function body of the crate over MIR: each panic (unwrap, expect, assert, index, slice, arithmetic, unreachable, panicking library call) must be infeasible under the conditions on its path; panics that depend on a private function\'s arguments are decided in its callers'
NOTE = 'panics inside external crates, stack exhaustion and allocation failure are not covered; serde-derived code is trusted'

# types whose conversion to JSON cannot fail: maps with text keys over JSON values; the foreign ones are JSON objects by definition
TOTAL = ('openid4vp::core::dcql_query::', 'openid4vp::core::response::parameters::VpToken', 'ssi_claims::ssi_vc::', 'ssi_claims::ssi_data_integrity::DataIntegrity<', 'serde_json::')


def owner(p):
    return p.split('::{closure')[0].split('::{async')[0]


def args_of(ty):
    """type arguments of a generic type"""
    i = ty.find('<')
    out, n, cur = [], 0, ''
    for ch in ty[i + 1:-1]:
        n += (ch in '<([') - (ch in '>)]')
        if ch == ',' and n == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + [cur.strip()]


def total(ty):
    """values of this type always serialise: the total types, text, and lists, options and text-keyed maps of such"""
    ty = ty.lstrip('&')
    if ty.startswith(TOTAL) or ty in ('str', 'std::string::String', 'bool') or re.fullmatch(r'[iu](8|16|32|64|size)', ty):
        return True
    if ty.startswith('[') and ty.endswith(']'):
        return total(ty[1:-1].split(';')[0])
    if ty.startswith(('std::vec::Vec<', 'std::option::Option<', 'std::boxed::Box<')):
        return total(args_of(ty)[0])
    if ty.startswith(('std::collections::HashMap<', 'std::collections::BTreeMap<')):
        k, v = args_of(ty)[:2]
        return k.lstrip('&') in ('str', 'std::string::String') and total(v)
    return False


def serialisation(t):
    """Result terms of turning a value of a total type into JSON"""
    return t[0] == 'app' and t[1] in ('to_value', 'to_json', 'to_json_pretty', 'to_json_bytes') and len(t) > 2 and isinstance(t[2], str) and total(t[2])


def excused(o):
    """the panic needs a total serialisation to fail, or to give something else than an object"""
    facts = list(o.st.pos.items()) + [(k, v) for k, vs in o.st.neg.items() for v in vs]
    for k, v in facts:
        if k[0] == 'is' and serialisation(k[1]) and o.st.pos.get(k) == ('s', 'Err'):
            return True
        if k[0] == 'is' and k[1][0] == 'pl' and k[1][2] == 'Ok' and serialisation(k[1][1]) and 'serde_json' not in k[1][1][2] and k[1][1][2].lstrip('&').startswith(TOTAL) and o.st.pos.get(k) != ('s', 'Object'):
            return True
    return False


def insts(o, out):
    """instances a body may call, from the callee descriptions in its MIR"""
    if isinstance(o, dict):
        if isinstance(o.get('inst'), int):
            out.add(o['inst'])
        for v in o.values():
            insts(v, out)
    elif isinstance(o, (list, tuple)):
        for v in o:
            insts(v, out)


def check(c):
    e = c.e
    e.wire = False
    local = [b for b in e.bodies.values() if b['local'] and '::_::' not in b['path'] and 'std::fmt::Debug>' not in b['path'] and 'assert_fields' not in b['path']]
    groups = collections.defaultdict(list)
    for b in local:
        groups[owner(b['path'])].append(b)
    public = {r['path'] for r in e.roots if r['reach'] or r['pub']}
    calls = {}
    for g, bs in groups.items():
        s = set()
        for b in bs:
            insts(b['blocks'], s)
        calls[g] = {owner(e.bodies[i]['path']) for i in s if i in e.bodies} - {g}
    callers = collections.defaultdict(set)
    for g, cs in calls.items():
        for x in cs:
            callers[x].add(g)
    npaths, sites = 0, 0

    def panics(g, inside):
        """panics of a function with the given functions analysed inside it"""
        nonlocal npaths
        ids = {b['id'] for x in (g,) + inside for b in groups[x]}
        e.only = lambda i: i in ids or i not in e.bodies or not e.bodies[i]['local']
        out = {}
        try:
            for b in groups[g]:
                if '{closure' in b['path'] or '{async' in b['path']:
                    continue
                try:
                    outs = e.run(b['id'], None)
                except Exception as x:   # a construct the analysis cannot follow
                    if g not in failed:
                        failed[g] = f'{type(x).__name__}: {x}'
                    continue
                npaths += len(outs)
                for o in outs:
                    if o.kind == 'panic' and b['argc'] and not excused(o):
                        out.setdefault((o.why[0], o.why[3]), o)
        finally:
            e.only = None
        return out
    failed = {}
    bad = []
    for g in sorted(groups):
        for k, o in panics(g, ()).items():
            # a private function: does any caller let it happen?
            chains, seen, verdict = [(g, ())], set(), None
            while chains:
                top, inside = chains.pop()
                if top in public or top.startswith('<') or not callers[top] and top == g:
                    verdict = (top, inside)
                    break
                for up in sorted(callers[top]):
                    if (up, top) in seen or len(inside) > 5:
                        continue
                    seen.add((up, top))
                    if any(x[0] == k[0] and x[1] == k[1] for x in panics(up, inside + (top,))):
                        chains.append((up, inside + (top,)))
            if verdict:
                bad.append((k, o, verdict))
        sites += 1
    # closures that were only passed on to library code
    for b in local:
        if b['path'] in e.stats['functions'] or '{closure' not in b['path'] or b['kind'] != 'closure':
            continue
        ids = {x['id'] for x in groups[owner(b['path'])]}
        e.only = lambda i: i in ids or i not in e.bodies or not e.bodies[i]['local']
        try:
            outs = e.run(b['id'], None)
            npaths += len(outs)
            bad += [((o.why[0], o.why[3]), o, (owner(b['path']), ())) for o in outs if o.kind == 'panic' and not excused(o)]
        except Exception as x:
            failed[b['path']] = f'{type(x).__name__}: {x}'
        finally:
            e.only = None
    for k, o, (top, inside) in bad:
        fn, file, line, what = o.why[:4]
        c.bad('no-panic', f'{what} in {fn}, reachable from {top}', f'{top} ({file}:{line})', {'panic': what, 'function': fn, 'file': file, 'line': line, 'on': [show(x)[:200] for x in o.why[4:] if isinstance(x, tuple)], 'path': [f'{show(k2)} = {show(v)}'[:200] for k2, v in o.st.pos.items()][:12]})
    c.done('no-panic', 'every function body of the crate', functions=len(groups), paths=npaths, cases=sites, held=not bad, not_followed=failed)
    c.fact('scope', len(groups) > 150 and npaths > 1000 and len(failed) < len(groups) // 20, f'only {len(groups)} functions and {npaths} paths are analysed; not followed: {failed}', 'openid4vp')
