"""F01: the storage of a node. F02: its identity and keys. V01: what is written is read back."""
import re
from check import *
from query import *
from facts import strip_generics
from terms import *
from query import An

DS = ('flarch::data_storage::',)
OPEN = ('File::open', 'fs::read_to_string', 'fs::read')
MAKE = ('File::create', 'File::create_new', 'fs::write', 'OpenOptions::open')
DATA = ('Write::write_all', 'fs::write')


def named_call(e, names):
    return iscall(e, *names)


def impls(c):
    """type -> its functions, for every type which stores values."""
    r = {}
    for i in c.F.impls:
        if i['trait'] and strip_generics(i['trait']).endswith('data_storage::DataStorage') and '::test' not in i['selfty']:
            r[strip_generics(i['selfty'])] = {n: c.F.fns[k] for n, k in i['items'] if k in c.F.fns}
    return r


def norm(f, t, depth=14):
    """A term as text, with the arguments of the function by their position."""
    s = show(t, depth)
    n = f.args if isinstance(f.args, int) else len(f.args)
    for i in range(n):
        if f.lname(i + 1):
            s = re.sub(r'(?<![\w.])%s(?!\w)' % re.escape(f.lname(i + 1)), f'#{i}', s)
    return s


def okret(e):
    return is_ret(e) and mentions(e[3].args[0], lambda t: variant(t, 'Ok')) and not mentions(e[3].args[0], lambda t: variant(t, 'Err'))


def okval(t):
    return next((fld(x, '0') for x in subterms(t) if variant(x, 'Ok')), t)


def is_ret(e):
    return e[3] is not None and e[3].kind == 'ret'


@rule('F01', 'A stored value is the last one written, also after a crash')
def F01(c):
    """Every type implementing DataStorage. On files: the file of a key is a function of directory, base and key; it is only
    ever changed by renaming another, completely written file to it; what is read is all of it, and a file which cannot be
    read is an error. In memory: one map, accessed under its lock, by the key."""
    tys = impls(c)
    c.floor('storages', len(tys), 2, 'types storing values')
    for ty, fs in sorted(tys.items()):
        n = ty.split('::')[-1]
        if not all(k in fs for k in ('get', 'set', 'remove', 'clone_box')):
            c.ob(f'all:{n}', False, f'{ty} has all the functions')
            continue
        A = {k: c.an(f, transparent=DS) for k, f in fs.items()}
        key = {k: T('sym', fs[k].lname(2)) for k in ('get', 'set', 'remove')}
        if any(named_call(e, MAKE + OPEN) for a in A.values() for e in a.evedges):
            onfiles(c, n, fs, A, key)
        else:
            inmemory(c, n, fs, A, key)
        # A clone is the same storage.
        a = A['clone_box']
        rs = [e[3].args[0] for e in a.rets()]
        adt = [x for x in c.F.adt(n)]
        names = [x['name'] for x in adt[0]['variants'][0]['fields']] if adt else []
        ok = bool(rs) and bool(names)
        for r in rs:
            v = [t for t in subterms(r) if variant(t, n)]
            ok = ok and bool(v) and all(path_of(core(fld(v[0], x)))[-1:] == (x,) for x in names)
        c.ob(f'clone:{n}', ok, f'a clone has the same {names}')


def inmemory(c, n, fs, A, key):
    def maps(k, *ms):
        return [e for e in A[k].evedges if on_any(e, *ms)]
    ins = maps('set', 'insert')
    val = T('sym', fs['set'].lname(3))
    c.ob(f'set:{n}', len(ins) >= 1 and all(core(e[3].args[1]) is key['set'] and core(e[3].args[2]) is val for e in ins),
         f'the value is stored under its key: {[show(e[3].args[1], 3) for e in ins]}')
    c.guarded(f'set-done:{n}', A['set'], [e for e in A['set'].rets() if okret(e)], lambda e: e in ins, 'nothing is reported as stored which is not')
    rem = maps('remove', 'remove')
    c.ob(f'remove:{n}', len(rem) >= 1 and all(core(e[3].args[1]) is key['remove'] for e in rem), 'the value of the key is removed')
    vs = [v for e in A['get'].rets() if okret(e) for v in alts(okval(e[3].args[0]))]
    good = lambda v: empty(v) or bool([t for t in subterms(v) if t.op in ('get', 'at') and core(t.a[1]) is key['get']])
    c.ob(f'get:{n}', len(vs) >= 1 and all(good(v) for v in vs) and any(not empty(v) for v in vs), f'what is read is the value of the key: {[show(v, 4) for v in vs]}')
    for k in ('get', 'set', 'remove'):
        c.ob(f'locked:{n}:{k}', not [x for x in rawcalls(c, fs[k]) if x.split('::')[-1] in ('try_lock', 'try_read', 'try_write')], 'another one accessing the storage is waited for')
    new = [x for x in rawcalls(c, fs['clone_box']) if re.search(r'(Arc|Rc|Mutex|RwLock|RefCell|HashMap|BTreeMap)(<.*>)?::new$', x)]
    c.ob(f'shared:{n}', not new, f'a clone shares the values instead of copying them: {new}')


def rawcalls(c, f):
    """The names of all the calls in a function and its closures."""
    r = []
    for g in [f] + c.F.children.get(f.key, []):
        for b in g.blocks:
            if b['t'][0] == 'call' and b['t'][1][0] == 'f':
                r.append(strip_generics(b['t'][1][1]['fn']))
    return r


def on_any(e, *ms):
    return e[3] is not None and e[3].kind == 'call' and e[3].name.split('::')[-1] in ms and 'Map' in e[3].name


def empty(v):
    v = core(v)
    return v.op == 'c' and v.a[0] == '' or v.op == 'coll0'


# What makes one text of different ones.
LOSSY = re.compile(r'replace\w*|to_(ascii_)?(lower|upper)case|make_ascii_\w+|trim\w*|strip_\w+|r?split\w*|take\w*|skip\w*|truncate|filter\w*|len|hash|nth|first|last|'
                   r'get|file_stem|file_name|parent|extension|slugify|sanitize\w*|chars|bytes_at|lines|retain|map_while|step_by')


def onfiles(c, n, fs, A, key):
    # The one path of a key.
    opens = [e for e in A['get'].evedges if named_call(e, OPEN)]
    P = {norm(fs['get'], e[3].args[0]) for e in opens}
    c.ob(f'one-file:{n}', len(P) == 1, f'a value is read from the file of its key: {len(P)} files')
    p0 = next(iter(P)) if P else ''
    for e in opens[:1]:
        p = e[3].args[0]
        c.ob(f'of-key:{n}', all(mentions(x, lambda t: t is key['get']) for x in pieces(p)), f'the file is named by the key: {show(p, 8)}')
        cuts = [t for t in subterms(p) if t.op == 'part' and mentions(t, lambda x: x is key['get']) or
                t.op == 'call' and LOSSY.fullmatch(t.a[0].split('::')[-1]) and any(is_t(x) and mentions(x, lambda y: y is key['get']) for x in t.a[1:])]
        c.ob(f'names-differ:{n}', not cuts, f'different keys have different files: {[show(t, 3) for t in cuts]}')
        others(c, n, fs['get'], A['get'], p)
    isP = lambda k, t: norm(fs[k], t) == p0
    # Written elsewhere, completely, then renamed.
    a, f = A['set'], fs['set']
    val = T('sym', f.lname(3))
    ren = [e for e in a.evedges if iscall(e, 'fs::rename')]
    to = [e for e in ren if isP('set', e[3].args[1])]
    makes = [e for e in a.evedges if named_call(e, MAKE)]
    c.ob(f'not-in-place:{n}', not [e for e in makes + [x for x in a.evedges if iscall(x, 'fs::remove_file', 'fs::copy')] if any(isP('set', x) for x in e[3].args)],
         'the file of a key is never written in place or removed while a value is stored')
    c.ob(f'renamed:{n}', len(to) >= 1 and len(to) == len(ren), f'the new value is put in place by renaming: {len(to)} of {len(ren)}')
    for r in to:
        q = r[3].args[0]
        c.ob(f'own-new-file:{n}', mentions(q, lambda t: t is key['set']) and norm(f, q) != p0 and all(norm(f, e[3].args[0]) == norm(f, q) for e in makes),
             f'the file which is renamed is the one written, another one for each key: {show(q, 6)}')
        whole = lambda t: is_call(t, *DATA) and core(t.a[-2] if not has_val(t, val) else val) is val
        c.guarded(f'whole:{n}', a, [r], lambda e: is_var(e, 'Ok', whole), 'the file is renamed once all of the value is written')
    wr = [e for e in a.evedges if iscall(e, 'Write::write', 'Write::write_vectored')]
    c.ob(f'complete:{n}', not wr, 'all of the value is written')
    c.guarded(f'set-done:{n}', a, [e for e in a.rets() if okret(e)], lambda e: is_var(e, 'Ok', lambda t: is_call(t, 'fs::rename')), 'a value is reported as stored once it is in place')
    # Read.
    a, f = A['get'], fs['get']
    vs = [v for e in a.rets() if okret(e) for v in alts(okval(e[3].args[0]))]
    content = lambda v: has_call(v, 'read_to_string') or any(t.op in ('mut', 'loop') and 'read_to_string' in repr(t.a[1:2]) for t in subterms(v))
    c.ob(f'read:{n}', len(vs) >= 1 and all(empty(v) or content(v) for v in vs) and any(content(v) for v in vs), f'what is read is all of the file: {[show(v, 4) for v in vs]}')
    for e in a.evedges:
        if iscall(e, 'Read::read_to_string', 'io::read_to_string'):
            r = core(e[3].args[0])
            while is_call(r, 'BufReader::new'):
                r = core(r.a[1])
            c.ob(f'read-all:{n}', un_ok(r) is not None and is_call(un_ok(r), *OPEN), f'the file is read to its end: {show(r, 4)}')
    bad = [e for e in a.litedges if is_var(e, 'Err', lambda t: is_call(t, *OPEN) or is_call(t, 'read_to_string', 'Read::read_to_string'))]
    c.followed(f'unreadable:{n}', a, bad, lambda e: lit(e, lambda t: has_call(t, 'Error::kind'), True) or lit(e, lambda t: has_call(t, 'Error::kind'), False),
               [e for e in a.rets() if okret(e)], 'a file which cannot be read is not taken for an empty one', least=1)
    # Removed.
    a, f = A['remove'], fs['remove']
    rm = [e for e in a.evedges if iscall(e, 'fs::remove_file')]
    c.ob(f'remove:{n}', len(rm) >= 1 and all(isP('remove', e[3].args[0]) for e in rm), 'removing a key removes its file')
    bad = [e for e in a.litedges if is_var(e, 'Err', lambda t: is_call(t, 'fs::remove_file'))]
    c.followed(f'remove-failed:{n}', a, bad, lambda e: lit(e, lambda t: has_call(t, 'Error::kind'), True) or lit(e, lambda t: has_call(t, 'Error::kind'), False),
               [e for e in a.rets() if okret(e)], 'a file which cannot be removed is reported', least=1)
    gone = lambda e: lit(e, lambda t: is_call(t, 'exists', 'Path::exists', 'try_exists', 'Path::try_exists', 'is_file', 'Path::is_file'), False) or \
        is_var(e, 'Ok', lambda t: is_call(t, 'fs::remove_file')) or lit(e, lambda t: has_call(t, 'Error::kind'), True)
    c.guarded(f'remove-done:{n}', a, [e for e in a.rets() if okret(e)], gone, 'a value is reported as removed once it is gone')
    for k in ('get', 'remove'):
        c.ob(f'leaves:{n}:{k}', not [e for e in A[k].evedges if named_call(e, MAKE) or iscall(e, 'fs::rename', 'fs::copy', 'fs::remove_dir_all') or k == 'get' and iscall(e, 'fs::remove_file')],
             f'{k} changes nothing else')


def has_val(t, val):
    return any(core(x) is val or path_of(core(x))[:1] == path_of(val)[:1] for x in t.a[1:] if hasattr(x, 'op'))


def pieces(p):
    """The alternatives of the last part of a path."""
    r = []
    for t in subterms(p):
        if t.op == 'mut' and 'push' in repr(t.a[1]) or t.op == 'call' and t.a[0].split('::')[-1] in ('join', 'with_file_name'):
            x = t.a[2] if t.op == 'mut' else t.a[2]
            x = x[0] if isinstance(x, tuple) else x
            r += list(alts(x))
    return r or [p]


def others(c, n, f, A, p):
    """Storages with different names in the same directory do not share files."""
    own = [x for x in (a['name'] for a in c.F.adt(n)[0]['variants'][0]['fields'])]
    used = [x for x in own if has_field(p, x)]
    c.ob(f'of-storage:{n}', used == own, f'the file depends on all of {own}: {used}')
    tests = [l for l in A.lits() if l[0].op in ('is_empty', 'empty', 'eq', 'call') and any(has_field(l[0], x) for x in own)]
    for t, pol in {(l[0].id, l[1]): (l[0], l[1]) for l in tests}.values():
        B = An(c.facts(), f, transparent=DS, know=((t, pol),))
        for e in B.evedges:
            if named_call(e, OPEN):
                miss = [x for x in own if not has_field(e[3].args[0], x)]
                none = 'is_empty' in show(t, 3) and pol or t.op == 'eq' and pol
                c.ob(f'of-storage:{n}:{"without" if none else "with"}-name', not miss or none, f'the file depends on all of {own} unless one is empty: {miss}')


PARSE = ('serde_yaml::from_str', 'serde_json::from_str', 'rmp_serde::from_slice')
WRITE = ('serde_yaml::to_string', 'serde_json::to_string')
KEYS = dict(transparent=('flmodules::nodeconfig::', 'flmodules::flo::storage::'))


def users(c, m):
    """The functions calling DataStorage::<m>, other than the storages themselves and the module templates."""
    r = {}
    for f in c.F.fns.values():
        if f.derived or '::test' in f.path or 'data_storage::' in f.path.split(' as ')[0] or '::template::' in f.path:
            continue
        if any(x.endswith(f'DataStorage::{m}') for x in rawcalls(c, f)):
            t = c.F.top(f)
            r[t.key] = t
    return sorted(r.values(), key=lambda f: f.path)


def key_of(e):
    return core(e[3].args[1])


def isempty(e, pred):
    """The edge asserts that a value satisfying pred is empty."""
    islen = lambda x: is_call(x, 'len', 'str::len', 'String::len') and pred(core(x.a[1]))
    num = lambda x, n: x.op == 'i' and x.a[0] == n

    def zero(t):
        if t.op == 'eq':
            return any(islen(x) for x in t.a) and any(num(x, 0) for x in t.a) or \
                any(x.op == 'c' and x.a[0] == '' for x in t.a) and any(pred(core(x)) for x in t.a)
        return t.op == 'lt' and islen(t.a[0]) and num(t.a[1], 1) or is_call(t, 'is_empty', 'str::is_empty', 'String::is_empty') and pred(core(t.a[1]))
    return lit(e, zero, True) or lit(e, lambda t: t.op == 'lt' and num(t.a[0], 0) and islen(t.a[1]), False)


def is_stored(t):
    """A value coming from the storage, or the empty one which replaces it."""
    vs = alts(core(t))
    from_ds = lambda v: un_ok(core(v)) is not None and is_call(un_ok(core(v)), 'DataStorage::get')
    return any(from_ds(v) for v in vs) and all(from_ds(v) or v.op == 'c' and v.a[0] == '' or v.op == 'coll0' for v in map(core, vs))


@rule('F02', 'What a node stored is not replaced because it cannot be read')
def F02(c):
    """Every function reading a stored value which is also written: if it cannot be parsed, either an error is returned, or a
    copy of it is kept under another key. The configuration: a new key pair is only created if nothing is stored, the pair
    returned and written is the one read. The signing keys: none is dropped, and a new one is written before it is used."""
    keys = set()
    for f in users(c, 'set'):
        if 'DataStorage' in f.path.split('::')[-2]:
            continue
        A = c.an(f, **KEYS)
        ks = {key_of(e) for e in A.evedges if iscall(e, 'DataStorage::set')}
        keys |= {k for k in ks if k.op != 'call'}
    gets = users(c, 'get')
    c.floor('readers', len(gets), 4, 'functions reading stored values')
    n = 0
    for f in gets:
        A = c.an(f, **KEYS)
        for k in {key_of(e) for e in A.evedges if iscall(e, 'DataStorage::get')}:
            if k not in keys:
                continue
            n += 1
            val = lambda t: is_call(t, *PARSE) and mentions(t.a[1], lambda x: is_call(x, 'DataStorage::get') and core(x.a[2]) is k)
            bad = [e for e in A.litedges if is_var(e, 'Err', val)]
            kept = lambda e: iscall(e, 'DataStorage::keep_unreadable') and key_of(e) is k and is_stored(e[3].args[2]) or \
                iscall(e, 'DataStorage::set') and key_of(e) is not k and mentions(key_of(e), lambda x: x is k) and is_stored(e[3].args[2]) or \
                is_var(e, 'Ok', val) or isempty(e, is_stored)
            c.followed(f'kept:{show(k, 2)}', A, bad, kept, [e for e in A.rets() if not errret(e)] + [e for e in A.evedges if iscall(e, 'DataStorage::set') and key_of(e) is k],
                       f'a stored {show(k, 2)} which cannot be read is kept, or an error is returned')
    c.floor('kept', n, 4, 'stored values')
    for f in c.F.find('DataStorage::keep_unreadable'):
        A = c.an(f)
        key, val = T('sym', f.lname(2)), T('sym', f.lname(3))
        ss = [e for e in A.evedges if iscall(e, 'DataStorage::set')]
        c.ob('copy', len(ss) >= 1 and all(key_of(e) is not key and mentions(key_of(e), lambda t: t is key) and core(e[3].args[2]) is val for e in ss),
             f'the copy is stored under another key: {[show(e[3].args[1], 5) for e in ss]}')
        c.guarded('copied', A, [e for e in A.rets() if okret(e) or e in A.rets()], lambda e: e in ss or isempty(e, lambda t: t is val),
                  'every value which is not empty is copied')
    # The identity.
    gc = [f for f in gets if 'Node::get_config' in f.path or any('NodeConfig' in x for x in rawcalls(c, f))]
    c.floor('identity', len(gc), 1, 'functions reading the configuration')
    for f in gc:
        A = c.an(f, **KEYS)
        got = lambda t: is_call(t, 'DataStorage::get')
        fresh = [e for e in A.evedges if iscall(e, 'KeyPair::from_seed', 'KeyPair::generate')]
        c.guarded('new-identity', A, fresh, lambda e: isempty(e, lambda t: un_ok(t) is not None and got(un_ok(t))),
                  'a key pair is only created if nothing is stored')
        c.guarded('no-early-write', A, [e for e in A.evedges if iscall(e, 'DataStorage::set')], lambda e: is_var(e, 'Ok', got), 'nothing is written before the configuration was read')
        parsed = lambda v: mentions(v, lambda t: is_call(t, *PARSE)) or mentions(v, lambda t: is_call(t, 'KeyPair::from_seed', 'KeyPair::generate'))
        pairs = [v for e in A.rets() if okret(e) for v in alts(fld(okval(e[3].args[0]), 'keypair'))]
        c.ob('same-identity', len(pairs) >= 1 and all(parsed(v) for v in pairs) and any(mentions(v, lambda t: is_call(t, *PARSE)) for v in pairs),
             f'the key pair is the one stored: {[show(v, 5) for v in pairs]}')
        ws = [fld(core(t.a[1]), 'keypair') for e in A.evedges if iscall(e, 'DataStorage::set') for t in subterms(e[3].args[2]) if is_call(t, *WRITE)]
        c.ob('written-identity', {show(x, 9) for w in ws for x in alts(w)} == {show(v, 9) for v in pairs}, f'the configuration written is the one returned: {[show(w, 5) for w in ws]}')
        c.guarded('written', A, [e for e in A.rets() if okret(e)], lambda e: is_var(e, 'Ok', lambda t: is_call(t, 'DataStorage::set')), 'a configuration is used once it is written')
    # The signing keys.
    f = c.fn('CryptoStorage::new')
    A = c.an(f, **KEYS)
    rs = [v for e in A.rets() for v in [fld(ret_val(e), 'signers')]]
    c.ob('keys-read', any(has_call(v, *PARSE) for v in rs) and all(has_call(x, *PARSE) or empty(x) for v in rs for x in alts(v)), f'the keys are those stored: {[show(v, 4) for v in rs]}')
    fs = c.F.touching('signers', 'flmodules::flo::storage')
    c.everywhere('keys-dropped', fs, lambda e: on_field(e, 'signers', 'clear', 'remove', 'swap_remove', 'pop', 'truncate', 'retain', 'drain', 'dedup', 'insert', 'set'),
                 lambda e: False, 'no key is dropped', least=0)
    own = lambda t: mentions(t, lambda x: x.op == 'fld' and x.a[1] == 'signers') and not mentions(t, lambda x: x.op == 'part')
    c.everywhere('keys-replaced', fs, lambda e: e[3] is not None and e[3].kind in ('write', 'lwrite') and place(e) == 'signers' and not own(e[3].args[1]), lambda e: False,
                 'the keys are only replaced by the same ones and others', least=0)
    for g in fs:
        A = c.an(g, **KEYS)
        adds = [e for e in A.evedges if on_field(e, 'signers', 'push', 'extend', 'append')]
        if adds:
            c.followed(f'keys-stored:{g.name}', A, adds, lambda e: iscall(e, 'DataStorage::set') and any(is_call(t, *WRITE) and has_field_bag(t) for t in subterms(e[3].args[2])) or
                       is_var(e, 'None', lambda t: has_field(t, 'ds') or path_of(t)[-1:] == ('ds',)) or is_var(e, 'Err', lambda t: is_call(t, *WRITE)),
                       A.rets(), 'a new key is written before it is used')
    sets = [(g, e) for g in fs + [c.fn('CryptoStorage::store')] for e in c.an(g, **KEYS).evedges if iscall(e, 'DataStorage::set')]
    c.ob('keys-written', len(sets) >= 1 and all(all(has_call(v, *WRITE) for v in alts(e[3].args[2])) for g, e in sets),
         f'what is written are the keys, or nothing is written: {[show(e[3].args[2], 4) for g, e in sets][:2]}')


def has_field_bag(t):
    return mentions(t, lambda x: x.op in ('bag', 'mut', 'upd', 'loop', 'agg'))


def on_field(e, field, *ms):
    return e[3] is not None and e[3].kind == 'call' and e[3].name.split('::')[-1] in ms and e[3].args and place(e) == field


def errret(e):
    return mentions(e[3].args[0], lambda t: variant(t, 'Err')) and not mentions(e[3].args[0], lambda t: variant(t, 'Ok'))
