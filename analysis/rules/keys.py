"""Keys, identities, hashing, stored formats."""
from check import *
from terms import *
from query import *
from rules.crypto import is_len_of

S = T('sym', 'self')


def impls_of(c, trait, name):
    return [f for f in c.F.fns.values() if f.name == name and f.kind == 'assoc' and f.impl and f.trait and
            strip_generics(f.trait).split('::')[-1] == trait and f.crate != 'flbrowser' and '::test' not in f.path]


@rule('C09', 'A signature verifies only strictly, over the whole message')
def C09(c):
    """Every implementation of the verifier: all accepting paths passed the library's strict verification with the own key,
    the caller's message and the caller's signature; every implementation of the signer signs the whole message with its own key."""
    vs = impls_of(c, 'VerifierTrait', 'verify')
    c.floor('verifiers', len(vs), 2, 'implementations of signature verification')
    for fn in vs:
        A = c.an(fn)
        args = [n for n in (fn.lname(i + 1) for i in range(3))]
        msg, sig = [fld_sym(fn, i) for i in (1, 2)]

        def strict(t):
            if t.op != 'call':
                return False
            n = t.a[0].split('::')[-1]
            if n == 'verify' and 'VerifierTrait' in t.a[0]:
                return mentions(t.a[1], lambda s: s is S) and core(t.a[2]) is msg and core(t.a[3]) is sig
            if n == 'verify_strict':
                return mentions(t.a[1], lambda s: s is S) and core(t.a[2]) is msg and mentions(t.a[3], lambda s: s is sig) and not has_cut(t.a[3], sig)
            if n == 'verify_detached_signature':
                return mentions(t.a[1], lambda s: s is sig) and core(t.a[2]) is msg and mentions(t.a[3], lambda s: s is S)
            return False
        c.guarded(f'strict:{tyname(fn.impl).split("::")[-1]}', A, ok_rets(A), lambda e: is_var(e, 'Ok', strict),
                  'a signature is accepted only after strict verification of the whole message under the own key')
    # The node's announcement key.
    fn = c.fn('nodeconfig::NodeInfo::verify')
    A = c.an(fn)
    msg, sig = fld_sym(fn, 1), fld_sym(fn, 2)

    def nodeok(e):
        p = lambda t: t.op == 'call' and t.a[0].split('::')[-1] == 'verify' and mentions(t.a[1], lambda s: s is T('fld', S, 'pubkey')) and \
            core(t.a[2]) is msg and mentions(t.a[3], lambda s: s is sig)
        return is_var(e, 'Ok', p) or lit(e, lambda t: t.op == 'is' and False)
    c.guarded('node', A, [e for e in A.rets() if ret_val(e) is not FALSE], nodeok, 'a node\'s signature is accepted only if the library verifies it under the node\'s public key')
    ss = impls_of(c, 'SignerTrait', 'sign')
    c.floor('signers', len(ss), 2, 'implementations of signing')
    for fn in ss:
        A = c.an(fn)
        msg = fld_sym(fn, 1)
        for e in ok_rets(A):
            v = inner(ret_val(e)) or ret_val(e)
            sg = [s for s in subterms(v) if s.op == 'call' and s.a[0].split('::')[-1] in ('sign', 'try_sign')]
            c.ob(f'signs:{tyname(fn.impl).split("::")[-1]}', any(mentions(s.a[1], lambda x: x is S) and core(s.a[2]) is msg for s in sg),
                 'the signature is the own key\'s over the whole message')


def fld_sym(fn, i):
    return T('sym', fn.lname(i + 1) or f'arg{i + 1}')


def has_cut(t, x):
    return mentions(t, lambda s: s.op in ('slice', 'part') or (s.op == 'call' and s.a[0].split('::')[-1] in ('truncate', 'split_at', 'get')))


@rule('C10', 'Identifiers are bound to the public key they stand for')
def C10(c):
    """Value provenance: which fields reach the result of every id function; attributes of the id override."""
    ids = impls_of(c, 'VerifierTrait', 'get_id')
    c.floor('verifier-ids', len(ids), 2, 'implementations of the verifier id')
    for fn in ids:
        A = c.an(fn)
        n = tyname(fn.impl).split('::')[-1]
        for e in A.rets():
            v = ret_val(e)
            hp = hash_parts(v)
            if hp is not None:
                ok = is_const(hp[0]) and any(core(p) is S or (path_of(core(p))[:1] == ('self',) and 'verifier' in path_of(core(p))) for p in hp[1])
            else:
                ok = v.op == 'call' and v.a[0].split('::')[-1] == 'get_id' and mentions(v.a[1], lambda s: s is S)
            c.ob(f'verifier-id:{n}', ok, f'the id is a domain separated hash of the whole public key: {show(v, 5)}')
    for fn in impls_of(c, 'SignerTrait', 'get_id') + impls_of(c, 'SignerTrait', 'verifier'):
        A = c.an(fn)
        n = tyname(fn.impl).split('::')[-1] + '.' + fn.name
        for e in A.rets():
            v = ret_val(e)
            if n.startswith('Signer.'):
                ok = mentions(v, lambda s: s.op == 'call' and s.a[0].split('::')[-1] == fn.name and mentions(s.a[1], lambda x: x is S)) or \
                    mentions(v, lambda s: s.op == 'call' and s.a[0].split('::')[-1] in ('verifying_key', 'verifier') and mentions(s.a[1], lambda x: x is S))
            else:
                ok = mentions(v, lambda s: s.op == 'call' and s.a[0].split('::')[-1] in ('verifying_key', 'verifier') and mentions(s.a[1], lambda x: x is S))
                if fn.name == 'get_id':
                    ok = ok and mentions(v, lambda s: s.op == 'call' and s.a[0].split('::')[-1] in ('get_id', 'hash_domain_parts'))
            c.ob(f'signer:{n}', ok, f'a signer\'s id and verifier come from its own key pair: {show(v, 5)}')
    A = c.an(c.fn('nodeconfig::NodeInfo::get_id'))
    pk = T('fld', S, 'pubkey')
    for e in A.rets():
        v = ret_val(e)
        ok = path_of(v)[:2] == ('self', 'id') or mentions(v, lambda s: s is pk)
        c.ob('node-id', ok, f'a node\'s id is its public key, or the local override: {show(v, 5)}')
    # The override never comes from the wire.
    for a in c.F.adt('nodeconfig::NodeInfo') + [a for p, a in c.F.adts.items() if re.search(r'nodeconfig::NodeInfoV\d+$', p)]:
        for f in a['variants'][0]['fields']:
            if any(x.endswith('U256') for x in f['adts']):
                c.ob(f'not-on-wire:{a["path"].split("::")[-1]}', re.search(r'serde\s*\(\s*[^)]*\bskip(_deserializing)?\b', f['attrs']) is not None,
                     f'the id override `{f["name"]}` of {a["path"]} is never read from a message')
    for fn in c.F.fns.values():
        if fn.trait and strip_generics(fn.trait) == 'std::convert::From' and fn.name == 'from' and fn.impl == 'flmodules::nodeconfig::NodeInfo' and not fn.derived:
            if 'VersionedSerde' in (fn.exp or ''):
                continue
            A = c.an(fn)
            for e in A.rets():
                c.ob('no-override-from-old', fld(ret_val(e), 'id') is NONE or path_of(fld(ret_val(e), 'id'))[-1:] in (('id',), ('_id',)), 'converting an old node info sets no foreign id')
    # A fresh configuration: info and key pair belong together.
    for n in ('NodeConfig::new', 'NodeConfig::new_id'):
        A = c.an(c.fn('nodeconfig::' + n))
        for e in A.rets():
            kp, pk2 = fld(ret_val(e), 'keypair'), fld(fld(ret_val(e), 'info'), 'pubkey')
            k1 = {s for s in subterms(kp) if s.op == 'call' and s.a[0].split('::')[-1] in ('from_seed', 'generate')}
            k2 = {s for s in subterms(pk2) if s.op == 'call' and s.a[0].split('::')[-1] in ('from_seed', 'generate')}
            c.ob(f'pair:{n}', len(k1) == 1 and k1 == k2 and mentions(pk2, lambda s: s.op == 'fld' and s.a[1] == 'pk'), 'a new node\'s public key belongs to its key pair')


@rule('C11', 'Private keys leave a node only through its own configuration')
def C11(c):
    """Type graph: no message type reaches a type that holds a private key; no text output of one."""
    keys = ('SigningKey', 'ed25519_compact::KeyPair', 'ed25519_compact::SecretKey', 'KeyPair', 'SecretKey')
    hold = set()
    ads = {p: a for p, a in c.F.adts.items() if '::_::' not in p}
    for p, a in ads.items():
        for v in a['variants']:
            for f in v['fields']:
                if any(x.split('::')[-1] in ('SigningKey', 'KeyPair', 'SecretKey') for x in f['adts']) or (f['name'] == 'keypair'):
                    hold.add(p)
    base = set(hold)
    ch = True
    while ch:
        ch = False
        for p, a in ads.items():
            if p in hold:
                continue
            if any(x in hold for v in a['variants'] for f in v['fields'] for x in f['adts']):
                hold.add(p)
                ch = True
    c.floor('holders', len(base), 3, 'types holding a private key')
    wire = ['NetworkWrapper', 'NodeInfo', 'MessageToNode', 'WSSignalMessageToNode', 'WSSignalMessageFromNode', 'WebProxyMessage', 'ModuleMessage']
    # Everything that is (de)serialised into messages between nodes or to the signalling server.
    roots = [p for p in ads if p.split('::')[-1] in wire or re.search(r'(ToNode|FromNode|Wire|NodeMessage|MessageNode|MessageClosest|MessageDest|Message|MessageNeighbour)$', p.split('::')[-1])]
    c.floor('wire-types', len(roots), 8, 'message types')
    for p in sorted(roots):
        c.sites += 1
        c.ob(f'wire:{p}', p not in hold, f'the message type {p} carries no private key')
    # Debug and Display of every key holder: derived implementations would print the key.
    for i in c.F.impls:
        t = strip_generics(i['trait'] or '')
        if t in ('std::fmt::Debug', 'std::fmt::Display', 'std::fmt::LowerHex') and tyname(i['selfty']) in base:
            p = tyname(i['selfty'])
            raw = [f for v in ads[p]['variants'] for f in v['fields'] if f['name'] == 'keypair']
            lib = raw and any(x.endswith('SigningKey') for x in raw[0]['adts'])
            c.ob(f'print:{p}', not i['derived'] or lib, f'printing a {p} does not print its private key')
    # The signature of a node is the only thing made from its key pair, besides storing the configuration.
    users = {}
    for fn in c.F.fns.values():
        if fn.derived or '::test' in fn.path or (fn.exp and ('Serde' in fn.exp or 'serde' in fn.exp)):
            continue
        for b in fn.blocks:
            for pl in places_in(b):
                if any(isinstance(x, list) and x[0] == 'f' and len(x) > 1 and 'keypair' in x[1:] or x == '.keypair' for x in pl[1:]):
                    users.setdefault(fn.path, fn)
    ok = ('nodeconfig::NodeConfig', 'SignerEd25519', 'nodeconfig::NodeConfigV', 'signer_mldsa')
    for p, fn in users.items():
        c.ob(f'user:{p}', any(o in p for o in ok) or (fn.impl and any(o in fn.impl for o in ok)), f'only the key\'s own type reads the key: {p}')


def places_in(b):
    acc = []
    for pl, rv in b['s']:
        acc.append(pl)
        rv_places(rv, acc)
    t = b['t']
    if t[0] == 'call':
        for o in t[2]:
            places_of_op(o, acc)
    return acc


@rule('C12', 'Hash inputs are framed: different inputs give different hash input')
def C12(c):
    """The sequence of hasher updates in U256's hash functions: number of parts, and each part preceded by its length; all the
    wrappers pass everything on."""
    n = c.fn('U256::hash_domain_parts')
    A = c.an(n, transparent=('flarch::nodeids::U256::',), opaque=('to_varint',))
    dom, parts = fld_sym(n, 0), fld_sym(n, 1)
    ups = [e for e in A.evedges if e[3].kind == 'call' and e[3].name.split('::')[-1] in ('update', 'chain_update', 'write', 'write_all')]
    c.sites += len(ups)
    c.floor('updates', len(ups), 5, 'hasher updates')
    rets = A.rets()

    def up(pred):
        return lambda e: e[3] is not None and e[3].kind == 'call' and e[3].name.split('::')[-1] in ('update', 'chain_update') and pred(e[3].args[1])
    ln = lambda x: (lambda t: mentions(t, lambda s: s.op in ('len', 'call') and 'len' in show(s, 2)[:4] and mentions(s, lambda y: y is x)) and t is not x)
    is_dom, is_domlen, is_count = up(lambda t: core(t) is dom), up(ln(dom)), up(ln(parts))
    els = {s for e in ups for s in subterms(e[3].args[1]) if s.op == 'elem' and s.a[0] is parts}
    is_part = up(lambda t: any(core(t) is x for x in els))
    is_partlen = up(lambda t: any(ln(x)(t) for x in els))
    more = lambda e, p: e[2] is not None and e[2][0].op == 'more' and e[2][1] is p
    c.guarded('domain', A, rets, is_dom, 'the domain is hashed')
    c.guarded('domain-length', A, [e for e in ups if is_dom(e)], is_domlen, 'the domain is preceded by its length')
    c.guarded('count', A, [e for e in A.edges if more(e, True)], is_count, 'the number of parts is hashed before the parts')
    c.guarded('length', A, [e for e in ups if is_part(e)], is_partlen, 'each part is preceded by its length', reset=lambda e: more(e, True))
    c.guarded('all-parts', A, rets, lambda e: more(e, False), 'the loop over the parts ran to its end')
    nxt = [e for e in A.edges if e[2] is not None and e[2][0].op == 'more']
    bodies = [e for e in A.edges if more(e, True)]
    c.followed('each-part', A, bodies, is_part, nxt + rets, 'every part is hashed')
    c.ob('element', len(els) == 1, 'the parts are hashed one by one, none is skipped')
    for e in rets:
        v = ret_val(e)
        c.ob('digest', mentions(v, lambda s: s.op == 'call' and 'finalize' in s.a[0]), f'the hash is the finalised digest: {show(v, 4)}')
    h = c.fn('U256::hash_data')
    B = c.an(h, transparent=('flarch::nodeids::U256::',), opaque=('to_varint',))
    d = fld_sym(h, 0)
    c.guarded('data', B, B.rets(), up(lambda t: core(t) is d), 'all of the data is hashed')
    # to_varint: 7 bits per byte, continuation bit, ends only when the rest fits: an injective prefix code.
    v = c.fn('nodeids::to_varint')
    V = c.an(v)
    i = fld_sym(v, 0)
    for e in V.rets():
        c.ob('varint', mentions(ret_val(e), lambda s: s is i), 'the length prefix depends on the length')
    # The newtypes' wrappers.
    w = [f for f in c.F.fns.values() if f.name == 'hash_domain_parts' and f.kind == 'assoc' and '::test' not in f.path and 'U256::hash_domain_parts' not in f.npath]
    c.floor('wrappers', len(w), 3, 'id types wrapping the hash')
    for f in w:
        W = c.an(f)
        a, b = fld_sym(f, 0), fld_sym(f, 1)
        for e in W.rets():
            s = core(ret_val(e))
            c.ob(f'wrapper:{tyname(f.impl or "")}', s.op == 'call' and named(s.a[0], 'U256::hash_domain_parts') and core(s.a[1]) is a and core(s.a[2]) is b,
                 f'hashing to {tyname(f.impl or "")} hashes the domain and all the parts: {show(s, 4)}')
    # Domains used for conditions are distinct per kind, so that no two kinds of condition share a hash.
    H = c.an(c.fn('Condition::hash'))
    doms = {}
    for e in H.rets():
        hp = hash_parts(ret_val(e)) if hash_parts(ret_val(e)) else None
        x = core(ret_val(e))
        d2 = x.a[1] if x.op == 'call' and named(x.a[0], 'U256::hash_domain_parts') else None
        for y in alts(x):
            if y.op == 'call' and named(y.a[0], 'U256::hash_domain_parts'):
                doms.setdefault(y.a[1], set()).add(y)
    calls = H.calls('U256::hash_domain_parts')
    ds = [e[3].args[0] for e in calls]
    c.floor('condition-domains', len(set(ds)), 6, 'distinct domains of the kinds of conditions')
    cs = T('fld', T('as', S, 'NofT'), '1')
    nof = [e for e in calls if any(s is T('as', S, 'NofT') for s in subterms(e[3].args[1]))]
    c.ob('noft-hash', any(mentions(e[3].args[1], lambda s: s is T('fld', T('as', S, 'NofT'), '0')) and mentions(e[3].args[1], lambda s: is_call(s, 'Condition::hash')) for e in nof),
         'the hash of an n-of-t covers threshold and members')
    ver = [e for e in calls if any(s is T('as', S, 'Verifier') for s in subterms(e[3].args[1]))]
    c.ob('verifier-hash', any(mentions(e[3].args[1], lambda s: s.op == 'call' and s.a[0].split('::')[-1] == 'get_id') for e in ver), 'the hash of a verifier covers its id')
