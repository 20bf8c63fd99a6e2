"""What was read from bytes or texts does not panic the node."""
import re
from check import *
from terms import *
from query import *

CRATES = ('flarch', 'flcrypto', 'flmodules', 'flnode')
# What makes a value of bytes or of a text written by somebody else.
READS = ('from_slice', 'from_str', 'from_utf8', 'from_str_radix', 'from_reader', 'from_read', 'from_value', 'parse', 'decode',
         'deserialize', 'from_rmp_bytes', 'unwrap_yaml', 'try_from', 'try_into', 'from_bytes')
NOT_READ = ('clap::',)
# Writing a value, handing it to another task, or measuring it: what was read does not decide whether these fail.
OPAQUE = ('to_vec', 'to_string', 'to_value', 'to_json', 'to_rmp_bytes', 'wrap_yaml', 'format', 'send', 'try_send', 'emit_msg_in',
          'emit_msg_out', 'emit_msg_in_dest', 'emit_msg_out_dest', 'lock', 'try_lock', 'to_writer', 'serialize', 'encode', 'clone',
          'new', 'rnd', 'now', 'send_replace')
# Analysed apart, with all of their arguments taken as read.
APART = ('RealmStorage::remove_furthest', 'RealmStorage::upsert_flo', 'RealmStorage::store_cuckoo_id')
PANICS = ('unwrap', 'expect', 'unwrap_err', 'expect_err')
# Panics if the position or the size is not there.
POSITIONS = {'remove': 1, 'swap_remove': 1, 'insert': 1, 'split_at': 1, 'split_at_mut': 1, 'split_off': 1, 'drain': 1,
             'with_capacity': 0, 'reserve': 1, 'reserve_exact': 1, 'resize': 1, 'resize_with': 1, 'from_elem': 1, 'repeat': 1,
             'swap': 1, 'chunks': 1, 'chunks_exact': 1, 'windows': 1, 'step_by': 1}
SIZED = ('std::vec::', 'alloc::', 'std::string::', 'core::slice', 'core::str', 'std::collections::VecDeque', 'slice', 'str',
         'std::iter::', 'bytes::')
FITS = ('len', 'min', 'find', 'rfind', 'position', 'rposition')
SAME_LEN = ('copy_from_slice', 'clone_from_slice')
EXPLICIT = re.compile(r'panicking::|begin_panic|rt::panic|unreachable')
# The node's own files: its key pair; the place in the code where a panic happened.
OWN = lambda t: has_call(t, 'force_capture') or bool(path_of(core(t)) and path_of(core(t))[-1:] == ('keypair',))


def last(n):
    return n.split('::')[-1].split('<')[0]


def reads(t):
    return t.op == 'call' and last(str(t.a[0])) in READS and not str(t.a[0]).startswith(NOT_READ)


def of_others(t, given=(), number=False):
    """The value comes from something which has been read (or is given to a reader). A number does not, if it is only a position
    in something, or its length."""
    seen = set()

    def go(t):
        if not isinstance(t, Term) or t.id in seen:
            return False
        seen.add(t.id)
        if t.op == 'sym':
            return t.a[0] in given
        if number and t.op == 'idx':
            return False
        if t.op == 'call':
            if number and last(str(t.a[0])) in ('len', 'count', 'min', 'position', 'binary_search'):
                return False
            if reads(t):
                return not any(OWN(a) for a in t.a[1:] if isinstance(a, Term)) 
            if last(str(t.a[0])) in OPAQUE:
                return False
        return any(go(x) for x in kids(t))
    return go(t)


def lasts(A, e):
    """The conditions which were tested last before the edge."""
    pred = {}
    for n in A.seen:
        for (b, l, ev) in A.g.out[n]:
            pred.setdefault(b, []).append((n, l))
    r, todo, done = set(), [e[0]], set()
    while todo:
        n = todo.pop()
        if n in done:
            continue
        done.add(n)
        for (m, l) in pred.get(n, ()):
            if l is not None:
                r.add(l)
            else:
                todo.append(m)
    return r


def reader(f):
    """A trait function which makes a value of what somebody else wrote, or of an older version: all of its arguments are such."""
    return f.trait and (last(f.trait) in ('FromStr', 'Deserialize') and f.name in ('from_str', 'deserialize') or
                        last(f.trait) in ('From', 'TryFrom', 'Into') and re.search(r'V\d+\b', f.path))


def fails(t, given):
    """Whether it is there depends on something which was read."""
    if t.op == 'phi':
        return any(fails(x, given) for x in kids(t))
    if t.op == 'agg' and t.a[1] in ('Some', 'Ok', 'None'):
        return False
    return of_others(t, given)


def nothing(t):
    """A None (or an Err) about which nothing is known but the conditions on the way."""
    t = core(t)
    return t.op == 'agg' and t.a[1] in ('None', 'Err') and not any(of_others(x) for x in kids(t))


def bounded(A, e, k, given=()):
    """Every way there compares the number with something which was not read, and goes on with the smaller ones."""
    def own(x):
        return not of_others(x, given, True)

    def has(x):
        return mentions(x, lambda y: y == k)

    def guard(g):
        if g[2] is None:
            return False
        t, pol = g[2]
        if t.op == 'lt':
            return pol and has(t.a[0]) and own(t.a[1]) or not pol and has(t.a[1]) and own(t.a[0])
        if t.op == 'eq':
            return pol and (has(t.a[0]) and own(t.a[1]) or has(t.a[1]) and own(t.a[0]))
        return t.op in ('is', 'more') and has(t)
    return A.path_without(e, guard) is None


def measured(g):
    """The length of something is compared."""
    def length(t):
        t = core(t)
        return is_call(t, 'len', 'is_empty', 'count') or t.op in ('op', 'cast') and any(length(x) for x in kids(t))
    return g[2] is not None and (g[2][0].op in ('lt', 'eq') and any(length(x) for x in kids(g[2][0])) or length(g[2][0]))


def faults(A, given):
    """What can panic for the sake of something which was read: (edge, what)."""
    for e in A.evedges:
        v = e[3]
        ts = [a for a in v.args if isinstance(a, Term)]
        n = last(v.name)
        if v.kind == 'panic':
            if n in PANICS:
                if any(fails(a, given) for a in ts) or (ts and nothing(ts[0]) or n.endswith('_err')) and any(
                        l[0].op == 'is' and l[1] == (l[0].a[1] in ('None', 'Err')) and reads(core(l[0].a[0])) and of_others(
                            l[0], given) for l in lasts(A, e)):
                    yield e, f'{n} of what was read'
            elif EXPLICIT.search(v.name):
                ls = lasts(A, e)
                if any(of_others(l[0], given) for l in ls) or given and not ls:
                    yield e, 'a panic because of what was read'
            elif v.name.startswith('bounds') and len(ts) > 1:
                # An array of a fixed length, then the position.
                k = ts[-1]
                if of_others(k, given, True) and not bounded(A, e, k, given):
                    yield e, 'a position which was read'
                elif any(x.op == 'idx' and of_others(x, given) for x in subterms(k)) and A.path_without(e, measured) is not None:
                    yield e, 'the positions of something of unknown length which was read'
        elif v.kind == 'call':
            if n == 'index' and len(ts) > 1:
                k = ts[1]
                ks = kids(k) if k.op == 'agg' else [k]
                part = k.op == 'agg' and of_others(core(ts[0]), given)
                if any(of_others(x, given, True) and not bounded(A, e, x, given) for x in ks):
                    yield e, 'a position which was read'
                elif part and any(x.op not in ('c', 'i') and not is_call(core(x), *FITS) and core(x).op != 'idx' and A.path_without(
                        e, lambda g: g[2] is not None and g[2][0].op != 'more' and mentions(g[2][0], lambda y: y == x)) is not None
                        for x in ks):
                    yield e, 'a part which might not be there of what was read'
                elif any(x.op in ('c', 'i') and (not part or x.a[0] != 0) for x in ks) and of_others(
                        core(ts[0]), given) and A.path_without(e, measured) is not None:
                    yield e, 'a position in something of unknown length which was read'
            elif n in POSITIONS and len(ts) > POSITIONS[n] and (v.name.startswith(SIZED) or v.name == n):
                k = ts[POSITIONS[n]]
                if of_others(k, given, True) and not bounded(A, e, k, given):
                    yield e, f'{n} with a number which was read'
            elif n in SAME_LEN and len(ts) > 1 and of_others(ts[1], given) and not is_call(core(ts[1]), 'index'):
                yield e, f'{n} of what was read'


def readers(c):
    """The functions which read bytes or texts."""
    for f in c.F.fns.values():
        if f.derived or '::test' in f.path or '::testing' in f.path or '::template' in f.path or f.crate not in CRATES:
            continue
        if reader(f):
            yield f
            continue
        for m in set(re.findall(r"'(?:path|res|name|rpath)': '([^']+)'", repr(f.blocks))):
            m = re.sub(r'::<.*>$', '', m)
            if last(m.split('>::')[-1]) in READS and not m.startswith(NOT_READ):
                yield f
                break


@rule('E01', 'What other nodes send does not panic a node')
def E01(c):
    """Enumerates the functions which make values of bytes or texts (the parsers of the serialisation formats, of texts, keys and
    signatures, and the FromStr / Deserialize functions of the workspace), and analyses each with everything it calls, so that what
    is done with the value is seen. Rule (taint): a value which was read never decides whether an unwrap / expect fails, an explicit
    panic is reached, a position or a size exists, or a division is by zero. Values which are only written, sent on or logged do
    not count; the node's own key pair and its own backtrace neither. A finding is reported at the place of the panic."""
    fs = list(readers(c))
    apart = [f for f in c.F.fns.values() if f.path.endswith(APART) and not f.derived and '::test' not in f.path]
    n = 0
    for f in fs + apart:
        A = c.an(f, opaque=APART, transparent=('flarch::web_rtc::',))
        given = tuple(x for x in (f.lname(i + 1) for i in range(f.args)) if x != 'self') if reader(f) or f in apart else ()
        bad = list(faults(A, given))
        n += len([e for e in A.evedges if e[3].kind == 'panic'])
        for e, what in bad:
            c.ob(f'{last(f.path)}:{e[3].span}', False, f'{what} at {e[3].span} [{f.path}]', A.path_without(e, lambda g: False))
        if not bad:
            c.ob(f'reads:{f.path}', True, f'what was read panics nothing [{f.path}]')
    c.sites += n
    c.floor('readers', len(fs), 25, 'functions which read bytes or texts')
