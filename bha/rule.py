"""Framework for the checks: a property is a function over a Ctx that registers rules (obligations)
and reports violations; nothing here executes code of the repository."""
import collections

from .engine import Engine, search, show, strip, subterms, contains, fkey_name, fn_name, Budget
from .prog import AnalysisError

PROPS = {}


def prop(pid):
    def deco(f):
        PROPS[pid] = f
        f.pid = pid
        return f
    return deco


class Violation:
    def __init__(self, rule, where, instance, msg, path=()):
        self.rule = rule
        self.where = where
        self.instance = instance
        self.msg = msg
        self.path = [repr(e)[:300] for e in path]

    def ident(self):
        return '%s|%s|%s' % (self.rule, self.instance, self.msg)

    def json(self):
        return {'rule': self.rule, 'where': self.where, 'instance': self.instance, 'message': self.msg,
                'path': self.path}


def libname(fn):
    return fkey_name(fn['qn']) if fn else ''


class Ctx:
    def __init__(self, prog, pid, tier='quick'):
        self.p = prog
        self.pid = pid
        self.tier = tier
        self.violations = []
        self.obligations = collections.OrderedDict()   # rule -> list of (instance, ok)
        self.stats = collections.Counter()
        self.functions = set()
        self.entries = set()
        self.witness = {}
        self.notes = []
        self._seen = set()

    # ------------------------------------------------------------ reporting
    def bad(self, rule, where, instance, msg, path=()):
        v = Violation(rule, where, instance, msg, path)
        if v.ident() not in self._seen:
            self._seen.add(v.ident())
            self.violations.append(v)
        self.obligations.setdefault(rule, []).append((instance, False))

    def ok(self, rule, instance):
        self.obligations.setdefault(rule, []).append((instance, True))

    def expect(self, cond, rule, where, instance, msg, path=()):
        if cond:
            self.ok(rule, instance)
        else:
            self.bad(rule, where, instance, msg, path)
        return cond

    def need(self, x, what):
        """An anchor of the analysis has to exist: its absence is an error of the check, not a verdict."""
        if not x:
            raise AnalysisError('anchor not found: ' + what)
        return x

    def seen(self, rule, example):
        """Positive example of a pattern a zero-expected rule looks for (so that it is not vacuous)."""
        self.witness.setdefault(rule, example)

    # ------------------------------------------------------------ exploration
    def engine(self, **kw):
        return Engine(self.p, **kw)

    def graph(self, f, kinds=None, this=('this',), args=None, env=None, locks=(), lam=None, **kw):
        """Event graph of function f, restricted to the event kinds given."""
        if kinds is not None:
            ks = frozenset(kinds)
            kw['interest'] = lambda ev: ev.kind in ks
        kw.setdefault('throws', lambda fn, kind: False)
        e = Engine(self.p, **kw)
        g = e.explore(f['key'], this=this, args=args, env=env, locks=locks, lam=lam)
        self.account(g)
        return g

    def graph_of(self, t, kinds=None, args=(), **kw):
        """Event graph of a call of the callable term t with the arguments given, or None when it is not followed."""
        t = strip(t)
        while t[0] == 'copy' or t[0] in ('ctor', 'init') and str(t[1]).startswith('std::function') and len(t[2]) == 1:
            t = strip(t[1] if t[0] == 'copy' else t[2][0])
        x = Engine(self.p).callable_target(None, t)
        f = self.p.functions.get(x[0]) if x is not None else None
        if f is None or not f.get('cfg') or any(b[0] == 'global' and 'placeholders' in str(b[1]) for b in x[3]):
            return None
        if x[3]:
            bound = list(x[3])
            if f.get('cls') and not f.get('static') and not f.get('lambda'):
                return self.graph(f, kinds, this=bound[0], args=bound[1:] + list(args), **kw)
            args = bound + list(args)
        lam = tuple(q for q in x[1] if isinstance(q[1], tuple) and q[1][0] not in ('refctx', 'refslot')) if x[1] is not None else None
        return self.graph(f, kinds, this=x[2] or ('this',), args=list(args), lam=lam, **kw)

    def account(self, g):
        self.stats['graph_nodes'] += len(g.edges)
        self.stats['graph_edges'] += sum(len(x) for x in g.edges.values())
        self.stats['explorations'] += 1
        self.functions |= set(g.inlined)
        self.functions.add(g.entry['key'])
        self.entries.add(g.entry['key'])

    def run(self, rule, f, g, init, step, instance=None):
        """Decides a monitor over every path of the graph."""
        r, n = search(g, init, step)
        self.stats['product_states'] += n
        inst = instance or self.fname(f)
        if r is None:
            self.ok(rule, inst)
            return True
        msg, path = r
        last = path[-1] if path else None
        self.bad(rule, last.loc if last is not None else self.p.loc(f), inst, msg, path)
        return False

    # ------------------------------------------------------------ queries
    def fname(self, f):
        return '%s(%s)%s' % (f['qnt'], ', '.join(short(p['t']) for p in f['params']), ' const' if f.get('const') else '')

    def loc(self, f):
        return self.p.loc(f)

    def fns(self, cls=None, name=None, qn=None, pred=None):
        out = []
        for f in self.p.functions.values():
            if cls is not None and f.get('cls') != cls:
                continue
            if name is not None and f['name'] != name:
                continue
            if qn is not None and f['qn'] != qn:
                continue
            if pred is not None and not pred(f):
                continue
            if f.get('lambda') and not pred:
                continue
            out.append(f)
        return sorted(out, key=lambda f: (f['loc'], f['key']))

    def impls(self, base, name):
        """Every implementation of virtual method `name` in classes derived from `base`."""
        cl = set(self.p.derived(base)) | {base}
        return [f for f in self.fns(name=name) if f.get('cls') in cl]

    def rec(self, cls):
        r = self.p.records.get(cls)
        if r is None:
            raise AnalysisError('class not found: ' + cls)
        return r

    def fields(self, cls, tpat=None):
        import re
        r = self.rec(cls)
        return [x for x in r['fields'] if tpat is None or re.search(tpat, x['t'])]


def short(t):
    return t.replace('blackhole::', '').replace('v1::', '').replace('std::', '')


def is_call(ev, *names):
    """Call event (completed or thrown) of a function with one of the (suffix) qualified names."""
    if ev.kind not in ('call', 'thrown', 'ucall'):
        return False
    q = ev.qn or ''
    for n in names:
        if q == n or q.endswith('::' + n):
            return True
    return False


# ---------------------------------------------------------------- shared term helpers
APPEND = {'push_back', 'emplace_back', 'push_front', 'emplace_front', 'insert', 'emplace', 'operator+=', 'append', 'add'}
SHRINK = {'clear', 'pop_back', 'erase', 'resize', 'pop_front', 'assign', 'swap'}


def method(ev):
    return fn_name(ev.qn or '')


def has_field(t, name):
    return any(x[0] == 'field' and x[2] == name for x in subterms(t))


def elem_of(t):
    """Container a term is an element of: (container, kind) or (None, None)."""
    t = strip(t)
    if t[0] == 'elem':
        return t[1], 'elem'
    if t[0] == 'index':
        return t[1], 'index'
    return None, None


def index_from_zero(t):
    """Does an index term run from zero (loop counter initialised with 0)?"""
    t = strip(t)
    if t[0] != 'index':
        return True
    i = t[2]
    return i[0] == 'phi' and strip(i[2]) == ('const', 0)


def empty_when(cond, pol, c):
    """Does a branch outcome mean that container c is empty?"""
    t = strip(cond)
    if t[0] == 'not':
        return empty_when(t[1], not pol, c)
    if t[0] == 'truth':
        x = t[1]
        if x[0] == 'call' and x[2] is not None and strip(x[2]) == c:
            n = fn_name(x[1])
            if n == 'empty':
                return pol
            if n in ('size', 'length'):
                return not pol
        return False
    if t[0] == 'cmp':
        a, b = t[2], t[3]
        for x, y in ((a, b), (b, a)):
            if x[0] == 'call' and fn_name(x[1]) in ('size', 'length') and x[2] is not None and strip(x[2]) == c and y == ('const', 0):
                if t[1] == '==':
                    return pol
                if t[1] == '<' and a is y:       # 0 < size
                    return not pol
        if t[1] == '==' and {a[0], b[0]} == {'iter', 'end'} and strip(a[1]) == c and strip(b[1]) == c:
            return pol
    return False


def each_once(ctx, rule, f, g, container, consume, instance, what, start=None, skip_ok=None, exits=('return',)):
    """Monitor: every element of `container` (predicate on terms) is consumed exactly once, in one pass.

    consume(ev) -> term of the element handled by this event, or None."""
    # state: (in_iter, handled, done, armed)
    def step(s, ev):
        it, n, done = s
        k = ev.kind
        if k == 'iter' and container(ev.over):
            if it and n == 0:
                return ('BAD', '%s can be skipped' % what)
            if done and n == 0 and not it:
                pass
            return (True, 0, done)
        if k == 'done' and container(ev.over):
            if it and n == 0:
                return ('BAD', '%s can be skipped' % what)
            return (False, 0, True)
        if k == 'branch':
            for c in conts(ev.cond):
                if container(c) and empty_when(ev.cond, ev.pol, strip(c)):
                    return (it, n, True)
        x = consume(ev)
        if x is not None:
            c, kind = elem_of(x)
            if c is None or not container(c):
                return ('BAD', '%s is applied to %s, which is not the element of the current iteration' % (what, show(x)))
            if not index_from_zero(x):
                return ('BAD', '%s does not start with the first element' % what)
            if done:
                return ('BAD', '%s is applied again after all elements were visited' % what)
            if not it:
                return ('BAD', '%s is applied outside of a pass over all elements' % what)
            if n >= 1:
                return ('BAD', '%s is applied twice to one element' % what)
            return (it, 1, done)
        if k == 'exit' and ev.how in exits:
            if it:
                return ('BAD', 'the pass over the elements can end before the last one')
            if not done and (start is None):
                return ('BAD', 'the elements are not visited on this path')
        return s
    return ctx.run(rule, f, g, (False, 0, False), step, instance)


def conts(t):
    for x in subterms(strip(t)):
        if x[0] in ('iter', 'end') or (x[0] == 'call' and fn_name(x[1]) in ('size', 'empty', 'length') and x[2]):
            yield x[1] if x[0] != 'call' else x[2]


def norm(ev):
    """Condition and polarity of a branch event with the negations removed."""
    t, pol = strip(ev.cond), ev.pol
    while t[0] == 'not':
        t, pol = t[1], not pol
    return t, pol


def enum_name(t):
    return str(t[1]).split('::')[-1] if t[0] == 'enum' else None


def returned(g):
    return [strip(e.val) for e in g.events() if e.kind == 'exit' and e.how == 'return' and e.val is not None]


def classes_in(t):
    """Library classes of the objects constructed in a term."""
    return {x[1] for x in subterms(t) if x[0] in ('new', 'ctor') and str(x[1]).startswith('blackhole::')}


# the optional configuration node is kept opaque, so that a value reads as config["a"]["b"].to_string()
OPTIONS = tuple('blackhole::config::option<blackhole::config::node_t>::' + x for x in (
    'to_bool', 'to_sint64', 'to_uint64', 'to_double', 'to_string', 'unwrap', 'each', 'each_map', 'operator[]', 'operator bool'))


def strs(t):
    """String literals occurring in a term."""
    return {x[1] for x in subterms(t) if x[0] == 'str'}
