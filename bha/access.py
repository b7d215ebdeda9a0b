"""Guarded access analysis: every access to an element that may be absent - the pointee of an iterator, the value of an
optional, the element at an index, the first or last element - happens only where the path has established that it is
there.

The analysis runs over the event graphs: a fact is established by a branch (or loop condition), kept until the object it
speaks about is changed, and consumed by an access.  An access in a helper that establishes nothing itself is decided in
the context of the helper's callers."""
from .engine import strip, show, subterms, contains, fn_name, search, Budget
from .rule import norm, method

ITER = ('iterator', 'Iterator')
KINDS = ('branch', 'iter', 'done', 'use', 'deref', 'inc', 'call', 'ucall', 'assign', 'decl', 'exit')
MUTATE = {'erase', 'clear', 'pop_back', 'pop_front', 'resize', 'assign', 'swap', 'insert', 'emplace', 'push_back', 'emplace_back', 'reserve',
          'append', 'operator+=', 'operator=', 'push_front', 'emplace_front', 'rehash', 'reset', 'shrink_to_fit'}
NODE = ('std::map<', 'std::set<', 'std::multimap<', 'std::list<', 'std::unordered_map<')
SEQ = ('std::vector<', 'std::array<', 'std::deque<', 'std::basic_string<', 'boost::container::small_vector', 'boost::container::vector',
       'blackhole::stdext::basic_string_view', 'std::__cxx11::basic_string<')
OPTION = 'blackhole::config::option<blackhole::config::node_t>'
VALUES = ('to_bool', 'to_sint64', 'to_uint64', 'to_double', 'to_string', 'each', 'each_map', 'operator[]')
SKIP = ('rapidjson::', 'cds::', 'std::', 'boost::', 'blackhole::fmt::', '__gnu_cxx::')


def unwrap(t):
    """The object a term denotes, without copies and conversions."""
    t = strip(t)
    while True:
        if t[0] == 'copy':
            t = strip(t[1])
        elif t[0] == 'ctor' and 'iterator' in str(t[1]) and len(t) > 2 and isinstance(t[2], tuple) and len(t[2]) == 1:
            t = strip(t[2][0])
        elif t[0] == 'op' and len(t) == 3 and isinstance(t[2], tuple) and str(t[1]).startswith(('cast', '(')):
            t = strip(t[2])
        else:
            return t


def size_of(t):
    """Container whose size a term is."""
    t = strip(t)
    if t[0] == 'call' and fn_name(t[1]) in ('size', 'length') and t[2] is not None:
        return unwrap(t[2])
    return None


def steps(t):
    """(base iterator, constant distance)"""
    n = 0
    t = unwrap(t)
    while t[0] == 'call' and fn_name(t[1]) == 'next' and t[3]:
        n += 1
        t = unwrap(t[3][0])
    return t, n


def facts_of(ev):
    """Facts that a decided condition establishes: [(fact...)]"""
    t, pol = norm(ev)
    out = []
    if t[0] == 'truth':
        x = unwrap(t[1])
        if pol:
            out.append(('some', x))
        if x[0] == 'call' and fn_name(x[1]) == 'empty' and x[2] is not None and not pol:
            out.append(('size', unwrap(x[2]), 1))
        c = size_of(x)
        if c is not None and pol:
            out.append(('size', c, 1))
        if held_key(x) and pol:
            out.append(('has',) + held_key(x))
        if x[0] == 'call' and fn_name(x[1]) in ('starts_with', 'istarts_with') and pol and x[3] and len(x[3]) == 2:
            r, s = strip(x[3][0]), strip(x[3][1])
            if r[0] == 'call' and fn_name(r[1]) == 'make_iterator_range' and r[3] and s[0] == 'str':
                b, n = steps(r[3][0])
                out.append(('rem', b, n + len(s[1])))
    elif t[0] == 'cmp':
        a, b = unwrap(t[2]), unwrap(t[3])
        if t[1] == '==':
            if not pol:
                for x, y in ((a, b), (b, a)):
                    if x[0] not in ('const', 'null', 'end') and y[0] not in ('const', 'str'):
                        bb, n = steps(x)
                        out.append(('rem', bb, n + 1))
                    if y[0] == 'null':
                        out.append(('some', x))
                    c = size_of(x)
                    if c is not None and y == ('const', 0):
                        out.append(('size', c, 1))
                    if held_key(x) and y == ('const', 0):
                        out.append(('has',) + held_key(x))
            else:
                for x, y in ((a, b), (b, a)):
                    c = size_of(x)
                    if c is not None and y[0] == 'const' and isinstance(y[1], int):
                        out.append(('size', c, y[1]))
        elif t[1] == '<':
            signed = getattr(ev, 'signed', None)
            if pol:
                c = size_of(b)
                if c is not None:
                    if a[0] == 'const' and isinstance(a[1], int):
                        out.append(('size', c, a[1] + 1))
                    else:
                        out.append(('lt', a, c))
                        if signed is False or signed is None:
                            out.append(('nonneg', a))
                if a[0] == 'const' and isinstance(a[1], int) and a[1] >= -1:
                    out.append(('nonneg', b))
                if size_of(b) is None and a[0] != 'const':
                    bb, n = steps(a)
                    out.append(('rem', bb, n + 1))
                    out.append(('below', a, b))
            else:
                # !(a < b): b <= a
                c = size_of(a)
                if c is not None and b[0] == 'const' and isinstance(b[1], int):
                    out.append(('size', c, b[1]))
                if b == ('const', 0):
                    out.append(('nonneg', a))
    return out


def held_key(t):
    """(container, key) of a lookup."""
    t = strip(t)
    if t[0] == 'call' and fn_name(t[1]) in ('count', 'contains', 'find') and t[2] is not None and t[3] and len(t[3]) == 1:
        return unwrap(t[2]), unwrap(t[3][0])
    return None


class Access:
    def __init__(self, c):
        self.c = c
        self.cache = {}
        self.sites = {}          # site -> (loc, function, kind, shown)

    def has_access(self, f):
        for n in f['nodes'].values():
            k = n['k']
            if k == 'ArraySubscriptExpr' or (k == 'UnaryOperator' and n.get('op') == '*'):
                return True
            fn = n.get('fn')
            if fn and k in ('CXXOperatorCallExpr', 'CXXMemberCallExpr', 'CallExpr'):
                q = fn_name(fn['qn'])
                cls = fn.get('cls') or ''
                if q in ('operator*', 'operator->') and not cls.startswith(('std::unique_ptr', 'std::shared_ptr', 'std::__shared')):
                    return True
                if q == 'get' and cls.startswith('boost::optional'):
                    return True
                if q in ('operator[]', 'front', 'back', 'pop_back') and cls.startswith(SEQ):
                    return True
                if q in ('operator++', 'next', 'operator+=', 'advance') and ('iterator' in cls or 'iterator' in str(fn.get('qn'))):
                    return True
        return False

    def needed(self, g):
        """The iterators, optionals, containers and indices that are accessed somewhere in the graph."""
        out = set()
        for e in g.events():
            for t in ([e.over] if e.kind in ('deref', 'inc') and isinstance(e.over, tuple) else [e.obj] if e.kind == 'use' and e.obj else []):
                b, n = steps(t)
                out.add(b)
                if b[0] == 'iter':
                    out.add(unwrap(b[1]))
            if e.kind == 'call' and e.obj is not None and method(e) in ('operator[]', 'front', 'back', 'pop_back') and \
                    str((e.fnref or {}).get('cls') or '').startswith(SEQ):
                out.add(unwrap(e.obj))
                if e.args:
                    out.add(unwrap(e.args[0]))
            if e.kind == 'call' and e.qn == 'std::next' and e.args:
                out.add(steps(e.args[0])[0])
        return out

    def explore(self, f, toward=None):
        """{site: (loc, message)} of the unguarded accesses in f, and all access sites met.  With `toward` (a pair of the
        function in question and the functions that reach it) other callees stay opaque."""
        k = f['key'] if toward is None else (f['key'], toward[0])
        if k in self.cache:
            return self.cache[k]
        bad, met = {}, {}
        c = self.c
        try:
            if toward is not None:
                g = c.graph(f, KINDS, uses=True, opaque=('boost::apply_visitor',), inline=lambda x: x['key'] in toward[1])
            else:
                g = c.graph(f, KINDS, uses=True, opaque=('boost::apply_visitor',), max_nodes=12000)
        except Budget:
            if toward is not None:
                raise
            g = c.graph(f, KINDS, uses=True, opaque=('boost::apply_visitor',) + tuple('%s::%s' % (OPTION, x) for x in VALUES))
        # what a grammar fills in is the grammar's guarantee
        parsed = {unwrap(a) for e in g.events() if e.kind == 'call' and e.qn in ('boost::spirit::qi::parse', 'boost::spirit::qi::phrase_parse')
                  for a in e.args[3:]}
        memo = {}

        def check(s, ev, ok, what):
            site = ev.site
            met[site] = (ev.loc, what)
            if not ok:
                bad.setdefault(site, (ev.loc, what))
            return s

        def rem(s, t):
            b, n = steps(t)
            best = 0
            for x in s:
                if x[0] == 'rem' and x[1] == b:
                    best = max(best, x[2])
                if b[0] == 'iter' and x[0] == 'size' and x[1] == unwrap(b[1]):
                    best = max(best, x[2])
            if b[0] == 'call' and fn_name(b[1]) in ('insert', 'emplace', 'emplace_hint', 'resolve', 'insert_or_assign') or \
                    b[0] == 'field' and strip(b[1])[0] == 'call' and fn_name(strip(b[1])[1]) in ('insert', 'emplace', 'try_emplace'):
                best = max(best, 1)
            if held_key(b) and fn_name(b[1]) == 'find' and ('has',) + held_key(b) in s:
                best = max(best, 1)
            if b[0] == 'found':
                best = max(best, 1)
            return best - n

        def some(s, t):
            t = unwrap(t)
            if t[0] in ('ctor', 'new', 'lambda', 'str', 'this', 'addr') and not (t[0] == 'ctor' and not t[2]):
                return True
            if t[0] == 'call' and str(t[1]).startswith('blackhole::config::node_t::to_'):
                return True       # a value of a node that is there
            return ('some', t) in s or any(contains(t, x) for x in parsed)

        def drop(s, t):
            t = unwrap(t)
            return frozenset(x for x in s if not contains(x[1], t) and not (len(x) > 2 and isinstance(x[2], tuple) and contains(x[2], t)))

        def step(s, ev):
            k = ev.kind
            if k in ('branch', 'iter', 'done') and ev.cond is not None and not getattr(ev, 'switch', None):
                if id(ev) not in memo:
                    t, pol = norm(ev)
                    away = ()
                    if t[0] == 'cmp' and t[1] == '==' and not pol:
                        a, b = unwrap(t[2]), unwrap(t[3])
                        away = tuple((x, size_of(y)) for x, y in ((a, b), (b, a)) if size_of(y) is not None)
                    memo[id(ev)] = (frozenset(x for x in facts_of(ev) if relevant(x)), ev, away)
                for i, C in memo[id(ev)][2]:
                    if ('le', i, C) in s or i[0] == 'phi' and len(i) > 2 and isinstance(i[2], tuple) and strip(i[2]) == ('const', 0) and ('touched', i) not in s:
                        s = s | {('lt', i, C)}
                return s | memo[id(ev)][0]
            if k == 'iter' and isinstance(ev.over, tuple):
                return s | {('rem', ('iter', unwrap(ev.over)), 1)}
            if k == 'use':
                if str(ev.cls).startswith('boost::optional'):
                    s = check(s, ev, some(s, ev.obj), 'the value of %s, which may be absent' % show(ev.obj))
                return s
            if k == 'deref':
                t = unwrap(ev.over)
                if ev.index is not None:
                    return s
                ty = ev.t or ''
                if ev.post:
                    if ('post', t) in s or rem(s, t) >= 1:
                        return check(s - {('post', t)}, ev, True, 'the element at %s' % show(t))
                    return check(s, ev, False, 'the element at %s, which may be the end' % show(t))
                if 'terator' in ty or t[0] == 'phi':
                    if 'move_iterator' in ty:
                        return s
                    return check(s, ev, rem(s, t) >= 1, 'the element at %s, which may be the end' % show(t))
                if t[0] == 'call' and not str(t[1]).startswith('__') and ty.rstrip().endswith('*'):
                    if fn_name(t[1]) in ('get', 'find', 'strchr', 'getenv', 'dynamic_cast', 'get_ptr', 'target') and 'unique_ptr' not in str(t[1]):
                        return check(s, ev, some(s, t) or rem(s, t) >= 1, 'the object at %s, which may be null' % show(t))
                return s
            if k == 'inc' and ev.over is not None:
                t = unwrap(ev.over)
                k = ev.n or 1
                if ev.op == '++' and 'terator' in str(ev.t or ''):
                    check(s, ev, rem(s, t) >= k, 'a step beyond the end of the range at %s' % show(t))
                n = rem(s, t)
                le = {('le', t, x[2]) for x in s if x[0] == 'lt' and x[1] == t} if ev.op == '++' and k == 1 else set()
                nn = {x for x in s if x[0] == 'nonneg' and x[1] == t} if le else set()
                s = drop(s, t) | le | nn | {('touched', t)}
                if ev.post and n >= 1:
                    s = s | {('post', t)}
                if ev.op == '++' and n > k:
                    s = s | {('rem', t, n - k)}
                return s
            if k == 'assign':
                return drop(s, ev.lhs) | {('touched', unwrap(ev.lhs))}
            if k == 'decl':
                for v in ev.vars:
                    if v[3] is not None and v[3][0] in ('phi', 'var'):
                        s = drop(s, v[3])
                return s
            if k in ('call', 'ucall'):
                q = method(ev)
                fr = ev.fnref or {}
                cls = fr.get('cls') or ''
                if cls.startswith(SEQ) and q in ('operator[]', 'front', 'back', 'pop_back') and ev.obj is not None:
                    C = unwrap(ev.obj)
                    n = max([x[2] for x in s if x[0] == 'size' and x[1] == C] or [0])
                    if q == 'operator[]':
                        i = unwrap(ev.args[0])
                        if i[0] == 'const' and isinstance(i[1], int):
                            ok = n > i[1] or cls.startswith('std::array<')
                        else:
                            ok = index_ok(s, i, C)
                        s = check(s, ev, ok, 'the element of %s at %s, which may be outside' % (show(C), show(i)))
                    else:
                        s = check(s, ev, n >= 1, 'the %s element of %s, which may be empty' % ('first' if q == 'front' else 'last', show(C)))
                if ev.qn == 'std::next' and ev.args and not (len(ev.args) > 1 and unwrap(ev.args[1]) != ('const', 1)):
                    s = check(s, ev, rem(s, ev.args[0]) >= 1, 'the position after %s, which may be the end' % show(ev.args[0]))
                if ev.obj is not None and q in MUTATE and not fr.get('const'):
                    C = unwrap(ev.obj)
                    if q in ('push_back', 'emplace_back', 'append', 'operator+=', 'insert', 'emplace'):
                        keep = frozenset(x for x in s if x[0] in ('size', 'lt', 'le', 'some', 'nonneg', 'touched') or (x[0] == 'rem' and cls.startswith(NODE)))
                        s = frozenset(x for x in s if x in keep or not contains(x[1], C))
                        if q in ('push_back', 'emplace_back'):
                            s = s | {('size', C, 1)}
                    else:
                        s = drop(s, C)
                        if q == 'erase' and ev.args:
                            key = unwrap(ev.args[0])
                            s = frozenset(x for x in s if not contains(x[1], key) or x[0] not in ('rem', 'some'))
                elif ev.obj is not None and not fr.get('const') and not fr.get('static') and strip(ev.obj) == ('this',) and str(ev.qn).startswith('blackhole::'):
                    s = frozenset(x for x in s if not (isinstance(x[1], tuple) and x[1][0] == 'field' and strip(x[1][1]) == ('this',)))
                return s
            return s

        def index_ok(s, i, C):
            if ('lt', i, C) in s:
                return i[0] == 'phi' and isinstance(i[2], tuple) and strip(i[2])[0] == 'const' or ('nonneg', i) in s
            # size - k with enough elements
            if i[0] == 'op' and i[1] == '-' and size_of(i[2]) == C and unwrap(i[3])[0] == 'const':
                n = max([x[2] for x in s if x[0] == 'size' and x[1] == C] or [0])
                return 1 <= unwrap(i[3])[1] <= n
            return False

        need = self.needed(g)
        keys = {held_key(x) for x in need if held_key(x)}

        def relevant(x):
            if x[0] in ('lt', 'le', 'below'):
                return x[2] in need
            if x[0] == 'nonneg':
                return x[1] in need
            if x[0] == 'has':
                return x[1:] in keys
            return x[1] in need

        def keep(s, ev):
            s = step(s, ev)
            return frozenset(x for x in s if relevant(x))
        try:
            r, n = search(g, frozenset(), keep, limit=15000)
        except Budget:
            bad.clear()
            met.clear()
            n = must(g, keep)
        c.stats['product_states'] += n
        self.cache[k] = (bad, met, g.inlined)
        return self.cache[k]


def must(g, step):
    """Facts that hold on every path (forward must-analysis), for graphs whose paths are too many to tell apart.
    Accesses are recorded with the final, smallest fact sets only."""
    state = {g.start: frozenset()}
    work = [g.start]
    n = 0
    while work:
        k = work.pop()
        n += 1
        for ev, t in g.edges.get(k, ()):
            s = state[k] if ev is None else step(state[k], ev)
            if t == -1:
                continue
            new = s if t not in state else state[t] & s
            if t not in state or new != state[t]:
                state[t] = new
                work.append(t)
    return n
