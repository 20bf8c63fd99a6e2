#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current source, by static analysis."""
import importlib, json, os, re, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import extract, engine
from facts import *
from query import *
from engine import Budget, DEADLINE

VERIF = extract.VERIF
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known-findings.txt')
RULES = {}


def rule(pid, title):
    def deco(f):
        RULES[pid] = (title, f)
        return f
    return deco


class Missing(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self._f = {}
        self._an = {}
        self.obs = []          # (key, ok, what, path)
        self.functions = set()
        self.sites = 0
        self.edges = 0
        self.notes = []
        self.assume = []
        self.lost = []

    # ---- facts and graphs
    def facts(self, group='main'):
        if group not in self._f:
            self._f[group] = Facts(extract.facts_dir(group))
        return self._f[group]

    F = property(lambda s: s.facts('main'))

    def fn(self, suffix, trait=None, group='main', n=1, pred=None):
        """The one function with that path suffix; a missing anchor is a violation."""
        r = [f for f in self.facts(group).find(suffix, trait) if '::test' not in f.path and (pred is None or pred(f))]
        if len(r) != n and n is not None:
            raise Missing(f'anchor function `{suffix}`' + (f' of {trait}' if trait else '') + f': expected {n}, found {[f.path for f in r]}')
        return r[0] if n == 1 else r

    def an(self, fn, **kw):
        if isinstance(fn, str):
            fn = self.fn(fn)
        k = (fn.key, repr(sorted(kw.items())))
        if k not in self._an:
            kw.setdefault('max_steps', 400000 if self.tier == 'thorough' else 150000)
            A = self.adaptive(self.facts() if fn.crate != 'flbrowser' else self.facts('browser'), fn, kw)
            self._an[k] = A
            self.functions.add(fn.path)
            for e in A.evedges:
                if e[3].fn:
                    self.functions.add(e[3].fn.path if hasattr(e[3].fn, "path") else str(e[3].fn))
            self.edges += len(A.edges)
            self.lost += [f'{fn.path}: {x}' for x in getattr(A.E, 'coarse', [])] if isinstance(getattr(A.E, 'coarse', 0), (list, set)) else []
        return self._an[k]

    def adaptive(self, F, fn, kw):
        """Analyses with fewer states kept apart if it does not end within its budget (coarser, still sound)."""
        for cap, visits in ((40, 7), (8, 3), (3, 1)):
            engine.CAP, engine.MAXVISIT = cap, visits
            try:
                return An(F, fn, **kw)
            except Budget:
                if cap == 3 or time.time() > DEADLINE[0] - 30:
                    raise
            finally:
                engine.CAP, engine.MAXVISIT = 40, 7

    # ---- obligations
    def ob(self, key, ok, what, path=None):
        self.obs.append((key, bool(ok), what, path))
        return ok

    def floor(self, key, n, least, what):
        return self.ob(f'floor:{key}', n >= least, f'{what}: found {n}, expected at least {least}')

    def guarded(self, key, A, sinks, guard, what, reset=None, init=False, least=1, start=None):
        """Every path to each of the sink edges passes a guard edge."""
        self.sites += len(sinks)
        if len(sinks) < least:
            return self.ob(key, False, f'{what}: only {len(sinks)} sites found in {A.fn.path}, expected at least {least}')
        bad = None
        for s in sinks:
            p = A.path_without(s, guard, reset, start=start, init=init)
            if p is not None and (bad is None or len(p) < len(bad)):
                bad = p
        return self.ob(key, bad is None, f'{what} [{A.fn.path}]', bad)

    def climb(self, fns, judge, depth=4, **kw):
        """judge(A) is None (no site), True (all sites fine in this function) or a path (not fine by itself): then every
        caller is judged, with the function inlined, up to functions nobody in the workspace calls.
        Independent of how the code is cut into functions. Returns (sites seen, path or None, where)."""
        F = self.F
        seen, bad, where, done, via, src = 0, None, [], set(), {}, {}
        work = [(f, 0) for f in fns]
        while work and bad is None:
            f, d = work.pop()
            if f.key in done:
                continue
            done.add(f.key)
            try:
                A = self.an(f, **(kw if d == 0 else {**kw, 'max_steps': 50000}))
                r = judge(A)
            except Budget:
                if d == 0:
                    raise
                # Not established in the caller: it stays at what is wrong with the function itself.
                where.append(f.path)
                bad = bad or via[f.key]
                continue
            if r is None:
                if d and hidden(A, src[f.key]):
                    # The function is not looked into in this caller: it stays at what is wrong with it.
                    where.append(f.path)
                    bad = bad or via[f.key]
                continue
            seen += 1
            if r is True:
                continue
            cs = [F.fns[k] for k in F.callers().get(f.key, ()) if k in F.fns]
            cs = [x for x in cs if not x.derived and '::test' not in x.path]
            if not cs or d >= depth:
                where.append(f.path)
                bad = r if bad is None or len(r) < len(bad) else bad
            else:
                work += [(x, d + 1) for x in cs]
                via.update({x.key: r for x in cs})
                src.update({x.key: src.get(f.key, []) + [f] for x in cs})
        return seen, bad, where

    def everywhere(self, key, fns, sink, guard, what, least=1, reset=None, init=False, depth=4, **kw):
        """In each of the functions: every path to a sink passes a guard, in the function itself or in all of its callers."""
        def judge(A):
            ss = [e for e in A.evedges if sink(e)]
            self.sites += len(ss)
            if not ss:
                return None
            ps = [p for p in (A.path_without(s, guard, reset, init=init) for s in ss) if p is not None]
            return min(ps, key=len) if ps else True
        n, bad, where = self.climb(fns, judge, depth, **kw)
        if n < least:
            return self.ob(key, False, f'{what}: only {n} functions with a site found, expected at least {least}')
        return self.ob(key, bad is None, what + (f' [{", ".join(where)}]' if where else f' [{n} functions]'), bad)

    def everyafter(self, key, fns, src, guard, what, sinks=None, least=1, depth=4, **kw):
        """In each of the functions: every path from a source to a return passes a guard, in the function or in its callers."""
        def judge(A):
            ss = [e for e in A.evedges if src(e)]
            self.sites += len(ss)
            if not ss:
                return None
            ends = A.rets() if sinks is None else [e for e in A.evedges if sinks(e)]
            ps = [p for p in (A.follow_without(s, guard, ends) for s in ss) if p is not None]
            return min(ps, key=len) if ps else True
        n, bad, where = self.climb(fns, judge, depth, **kw)
        if n < least:
            return self.ob(key, False, f'{what}: only {n} functions with a site found, expected at least {least}')
        return self.ob(key, bad is None, what + (f' [{", ".join(where)}]' if where else f' [{n} functions]'), bad)

    def taking(self, ty, scope, least=1, ret=None):
        """The functions under scope with an argument of that type (by the last part of its path)."""
        r = []
        for f in self.F.fns.values():
            if f.kind not in ('assoc', 'fn') or f.derived or '::test' in f.path or scope not in f.path:
                continue
            n = f.args if isinstance(f.args, int) else len(f.args)
            if any(re.search(r'(^|[:&<( ])' + ty + r'$', strip_generics(f.lty(i + 1))) for i in range(n)):
                r.append(f)
        if len(r) < least:
            raise Missing(f'a function under {scope} taking a {ty}')
        return r

    def followed(self, key, A, srcs, guard, sinks, what, least=1):
        """Every path from each of the source edges to a sink edge passes a guard edge."""
        self.sites += len(srcs)
        if len(srcs) < least:
            return self.ob(key, False, f'{what}: only {len(srcs)} sites found in {A.fn.path}, expected at least {least}')
        bad = None
        for s in srcs:
            p = A.follow_without(s, guard, sinks)
            if p is not None and (bad is None or len(p) < len(bad)):
                bad = p
        return self.ob(key, bad is None, f'{what} [{A.fn.path}]', bad)



def hidden(A, fs):
    """One of the functions is called in this analysis without being looked into."""
    called = {(e[3].name, e[3].extra) for e in A.evedges if e[3].kind == 'call'}
    inside = {getattr(e[3].fn, 'key', e[3].fn) for e in A.evedges}
    for f in fs:
        if any(strip_generics(f.path) == n or x == f.key for n, x in called) and not inside & ({f.key} | {g.key for g in A.F.children.get(f.key, ())}):
            return True
    return False


def known():
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: '):
                p = l[7:].split(' ', 2)
                r[(p[0].split('=', 1)[1], p[1].split('=', 1)[1])] = p[2] if len(p) > 2 else ''
    return r


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    for m in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'rules'))):
        if m.endswith('.py') and not m.startswith('_'):
            importlib.import_module('rules.' + m[:-3])
    title, f = RULES[pid]
    c = Ctx(pid, tier)
    DEADLINE[0] = t0 + (600 if tier != 'thorough' else 840)
    try:
        f(c)
    except Missing as e:
        c.ob('anchor', False, str(e))
    except Budget as e:
        c.ob('budget', False, f'the analysis ran out of its budget, nothing is established: {e}')
    except SystemExit:
        raise
    except Exception as e:
        tb = traceback.format_exc()
        c.ob('internal', False, f'the rule could not be evaluated on this code ({type(e).__name__}: {e})', None)
        sys.stderr.write(tb)
    os.makedirs(EVID, exist_ok=True)
    kn = known()
    bad, listed, seen = [], [], set()
    for key, ok, what, path in c.obs:
        if ok or key in seen:
            continue
        seen.add(key)
        if (pid, key) in kn:
            listed.append((key, kn[(pid, key)] or what))
        else:
            bad.append((key, what, path))
    replay = os.path.join(EVID, f'{pid}.report.txt')
    with open(replay, 'w') as o:
        o.write(f'{pid} {title}\n')
        for key, what, path in bad:
            o.write(f'\nVIOLATED {key}\n  {what}\n')
            if path:
                for x in (explain(path, 40) if not isinstance(path[0], str) else path):
                    o.write(f'    {x}\n')
        for key, what in listed:
            o.write(f'\nKNOWN {key}\n  {what}\n')
        o.write(f'\n{len([1 for x in c.obs if x[1]])} of {len(c.obs)} obligations hold\n')
        for key, ok, what, path in c.obs:
            o.write(f'  {"ok " if ok else "BAD"} {key}: {what}\n')
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': f'Static analysis of the type-checked MIR of the current tree, no execution. {f.__doc__ or title}'.strip(),
            'obligations': len(c.obs), 'discharged': len([1 for x in c.obs if x[1]]),
            'functions_analysed': len(c.functions), 'call_sites_and_sinks': c.sites, 'graph_edges': c.edges,
            'rules': [{'key': k, 'holds': ok, 'rule': w} for k, ok, w, _ in c.obs],
            'functions': sorted(c.functions)[:400],
            'known_findings': [k for k, _ in listed],
        },
        'assumptions': c.assume + [
            'rustc\'s MIR of the native (non-wasm) debug configuration is the program; cfg(test) code is not analysed',
            'library functions outside the workspace behave as their models in analysis/intrinsics.py or are uninterpreted',
        ],
        'wall_s': round(time.time() - t0, 2), 'violations': len(bad),
    }
    json.dump(ev, open(os.path.join(EVID, f'{pid}.json'), 'w'), indent=1)
    for key, what in listed:
        print(f'KNOWN-FINDING: property={pid} {key}: {what}')
    for key, what, path in bad[:20]:
        print(f'  {key}: {what}')
        if path:
            for x in (explain(path) if not isinstance(path[0], str) else path[:14]):
                print(f'      {x}')
    if bad:
        print(f'VIOLATION property={pid} replay={replay}')
        sys.exit(1)
    print(f'{pid} holds: {len(c.obs)} obligations ({len(listed)} known findings), {len(c.functions)} functions, {time.time() - t0:.1f}s')
    sys.exit(0)


if __name__ == '__main__':
    # So that rule modules importing `check` get this very module.
    sys.modules['check'] = sys.modules['__main__']
    main()
