"""C43: accesses to elements that may be absent."""
from .rule import prop
from .access import Access, SKIP
from .engine import Budget


def access(c):
    if not hasattr(c.p, '_access'):
        c.p._access = Access(c)
    c.p._access.c = c
    return c.p._access


def callers(c):
    if not hasattr(c.p, '_callers'):
        m = {}
        for f in c.p.functions.values():
            if not f.get('cfg'):
                continue
            for n in f['nodes'].values():
                for d in (n.get('fn'), (n.get('d') or {}).get('fn')):
                    if d and d.get('key') in c.p.functions:
                        m.setdefault(d['key'], set()).add(f['key'])
                if n.get('lambda'):
                    m.setdefault(n['lambda'], set()).add(f['key'])
        c.p._callers = m
    return c.p._callers


def subjects(c, pred=lambda f: True):
    A = access(c)
    return [f for f in sorted(c.p.functions.values(), key=lambda f: (f['loc'], f['key'])) if f.get('cfg') and not f['qn'].startswith(SKIP) and
            'fmt' not in f['file'].split('/') and pred(f) and A.has_access(f)]


def reaching(c, key):
    """Functions from which the function is reached."""
    out, work = {key}, [key]
    while work:
        for k in callers(c).get(work.pop(), ()):
            if k not in out:
                out.add(k)
                work.append(k)
    return frozenset(out)


def explored(c, A, g, key):
    try:
        return A.explore(g)
    except Budget:
        return A.explore(g, (key, reaching(c, key)))


def guarded(c, A, f, site, depth=3):
    """Is the access at `site`, in helper f, guarded in every context the library calls it from?"""
    if depth == 0 or f.get('virt'):
        return False
    cs = [k for k in callers(c).get(f['key'], ()) if k != f['key']]
    if not cs:
        return False
    for k in cs:
        g = c.p.functions[k]
        try:
            bad, met, inl = explored(c, A, g, site[0])
        except Budget:
            return False      # nothing shows that it is
        if site not in met and site[0] not in inl:
            return False
        if site in bad and not guarded(c, A, g, site, depth - 1):
            return False
    return True


def decide(c, rule, pred=lambda f: True):
    A = access(c)
    for f in subjects(c, pred):
        bad, met, inl = A.explore(f)
        c.functions.add(f['key'])
        for site, (loc, what) in sorted(met.items(), key=lambda x: str(x[0])):
            if site[0] != f['key']:
                continue
            inst = c.fname(f)
            if site not in bad or guarded(c, A, f, site):
                c.ok(rule, '%s %s' % (inst, loc))
            else:
                c.bad(rule, loc, inst, 'uses ' + bad[site][1])


@prop('C43')
def c43(c):
    decide(c, 'guarded-access')
