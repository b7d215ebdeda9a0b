"""C33-C37: configuration, registry, factories and builders."""
import re

from .engine import strip, subterms, fn_name, show, strlit, DEAD, WIDTH
from .rule import prop, norm, method, OPTIONS, returned, enum_name
from .fmtout import val
from .rules_pattern import thrown

EACH = {'blackhole::config::option::each': ('eachobj', 0), 'blackhole::config::option::each_map': ('eachobj', 0)}
PRODUCTS = ('blackhole::builder', 'blackhole::sink', 'blackhole::formatter', 'blackhole::handler', 'blackhole::filter')
KINDS = ('call', 'ucall', 'thrown', 'branch', 'iter', 'done', 'exit', 'ctor', 'throw')
CONV = ('to_bool', 'to_sint64', 'to_uint64', 'to_double', 'to_string')


def inl(x):
    k = str(x.get('cls') or '')
    return not k.startswith(PRODUCTS) or 'lambda' in k or k.endswith('_factory_t')


def factories(c):
    """Factory methods that turn a configuration into a product, by product class."""
    out = {}
    for f in c.p.functions.values():
        if f['name'] == 'from' and f.get('cfg') and str(f.get('cls', '')).startswith('blackhole::factory<') and len(f['params']) == 1:
            out[f['cls'][len('blackhole::factory<'):-1]] = f
    return c.need(out, 'factories of the library')


def conf(t):
    """The path of a configuration node, from the node given to the factory: a tuple of keys, '*' for an element."""
    t = strip(t)
    while True:
        if t[0] == 'deref':
            t = strip(t[1])
        elif t[0] == 'call' and fn_name(t[1]) in ('unwrap', 'get') and t[2] is not None:
            t = strip(t[2])
        else:
            break
    if t[0] == 'param':
        return ()
    if t[0] == 'index':
        b, k = conf(t[1]), strlit(t[2])
        return b + (k,) if b is not None and k is not None else None
    if t[0] == 'call' and fn_name(t[1]) == 'operator[]' and t[2] is not None and t[3]:
        b, k = conf(t[2]), strlit(t[3][0])
        return b + (k,) if b is not None and k is not None else None
    if t[0] == 'elem':
        b = conf(t[1])
        return b + ('*',) if b is not None else None
    return None


def value(t):
    """(path, conversion, default or None) of a value read from the configuration."""
    t = strip(t)
    d = None
    while t[0] in ('optval', 'deref'):
        t = strip(t[1])
    if t[0] == 'call' and fn_name(t[1]) in ('get_value_or', 'value_or') and t[2] is not None and t[3]:
        d = strip(t[3][0])
        t = strip(t[2])
    if t[0] == 'call' and fn_name(t[1]) in CONV and t[2] is not None:
        p = conf(t[2])
        if p is not None:
            return p, fn_name(t[1]), d
    return None


def config_fact(ev):
    """(kind, path, detail), truth: what a branch tells about the configuration."""
    t, pol = norm(ev)
    x = strip(t[1]) if t[0] == 'truth' else t
    if x[0] == 'optval':
        v = value(x[1])
        return (('true', v[0], ''), pol) if v else None
    if x[0] == 'call' and fn_name(x[1]).startswith('is_') and x[2] is not None and conf(x[2]) is not None:
        return ('is', conf(x[2]), fn_name(x[1])[3:]), pol
    if x[0] == 'cmp' and x[1] == '==':
        for a, b in ((strip(x[2]), strip(x[3])), (strip(x[3]), strip(x[2]))):
            s = strlit(b)
            if b[0] == 'null' and value(a) and value(a)[2] is None:
                return ('val', value(a)[0], ''), not pol
            if s is None:
                continue
            if a[0] == 'key':
                p = conf(a[1])
                return (('key', p, s), pol) if p is not None else None
            v = value(a)
            if v:
                return ('eq', v[0], s), pol
    v = value(x)
    if v and v[1] == 'to_bool' and v[2] == ('const', False):
        return ('true', v[0], ''), pol
    if v and v[2] is None:
        if ev.kind == 'branch' and v[1] == 'to_bool' and v[0] and v[0][-1] == '*':
            return ('true', v[0], ''), pol      # the node itself, no option
        return ('val', v[0], ''), pol
    p = conf(x)
    if p is not None and p:
        return ('has', p, ''), pol
    return None


def known(facts, kind, path, what=''):
    d = dict(facts)
    r = d.get((kind, path, what))
    if r is not None:
        return r
    if kind == 'val' and d.get(('has', path, '')) is not None:
        return d[('has', path, '')]
    if kind == 'has' and d.get(('val', path, '')) is not None:
        return d[('val', path, '')]
    if kind == 'is' and any(k[0] == 'is' and k[1] == path and k[2] != what and v and not {k[2], what} <= {'sint64', 'uint64', 'double'} for k, v in d.items()):
        return False
    if kind in ('key', 'eq') and any(k[0] == kind and k[1] == path and k[2] != what and v for k, v in d.items()):
        return False
    if kind in ('eq', 'true', 'is') and (d.get(('val', path, '')) is False or d.get(('has', path, '')) is False):
        return False
    if kind in ('val', 'has', 'is', 'eq', 'true'):
        # an absent node has no children
        for i in range(1, len(path)):
            if d.get(('has', path[:i], '')) is False:
                return False
        # a child implies its parent
        if kind == 'has' and any(k[0] in ('has', 'val') and v and k[1][:len(path)] == path and len(k[1]) > len(path) for k, v in d.items()):
            return True
    return None


class Paths:
    """Facts about the configuration and lists collected from it, along one path."""
    init = (frozenset(), frozenset())

    @staticmethod
    def step(s, ev):
        """New (facts, lists), or None if the path is impossible."""
        facts, lists = s
        k = ev.kind
        if k == 'branch':
            x = config_fact(ev)
            if x is not None:
                f, pol = x
                if known(facts, *f) is (not pol):
                    return None
                facts = facts | {(f, pol)}
            return facts, lists
        if k in ('iter', 'done'):
            p = conf(ev.over)
            if p is not None:
                facts = frozenset(x for x in facts if x[0][1][:len(p) + 1] != p + ('*',) and not (x[0][0] == 'key' and x[0][1][:len(p)] == p))
                lists = frozenset((v, o, 'full' if o == p and st == 'one' else ('bad' if o == p and st in ('none', 'many') else st))
                                  for v, o, st in lists)
                if k == 'iter':
                    lists = frozenset((v, o, 'none' if o == p and st == 'full' else st) for v, o, st in lists)
                elif not any(x[1] == p for x in lists):
                    lists = lists | {(None, p, 'seen')}
            return facts, lists
        if k == 'ctor' and ev.val is not None and 'vector' in str(ev.cls):
            o = strip(ev.val)
            return facts, frozenset(x for x in lists if x[0] != o)
        if k == 'call' and method(ev) in ('emplace_back', 'push_back') and ev.obj is not None and ev.args:
            o = strip(ev.obj)
            v = value(ev.args[0])
            if v is not None and v[0] and v[0][-1] == '*':
                p = v[0][:-1]
                old = [x for x in lists if x[0] == o]
                lists = frozenset(x for x in lists if x[0] != o)
                if old and (old[0][1] != p or old[0][2] == 'bad'):
                    return facts, lists | {(o, p, 'bad')}
                return facts, lists | {(o, p, 'many' if old and old[0][2] == 'one' else 'one')}
            return facts, frozenset(x for x in lists if x[0] != o) | {(o, ('?',), 'bad')}
        return facts, lists


def holds_list(lists, t, path):
    """Does a vector hold one value per element of the node at `path`?"""
    t = strip(t)
    if any(x[0] == t and x[1] == path and x[2] == 'full' for x in lists):
        return True
    return t[0] in ('ctor', 'init') and 'vector' in str(t[1]) and not any(x[0] == t for x in lists) and any(x[1] == path and x[2] == 'seen' for x in lists)


class Option:
    """When a setter has to be called, with what."""

    def __init__(self, setter, args, loop=None, when=(), each='each'):
        self.setter, self.args, self.loop, self.when = setter, args, loop, when


def KEY(t, s, L):
    t = strip(t)
    return t[0] == 'key' and conf(t[1]) == L


def VALUE(conv, path=(), default=None, absolute=False):
    def m(t, s, L):
        v = value(t)
        p = tuple(path) if absolute or L is None else L + ('*',) + tuple(path)
        if v is None:
            return default is not None and strip(t) == default and known(s[0], 'has', p) is False
        return v[0] == p and v[1] == conv and (v[2] is None or v[2] == default)
    return m


def LIST(path=()):
    def m(t, s, L):
        return holds_list(s[1], t, (L + ('*',) if L is not None else ()) + tuple(path))
    return m


def DONE(*path):
    return ('has', tuple(path), '')


SETTERS = {
    'blackhole::formatter::json_t': [
        Option('unique', [[]], when=[('true', ('unique',), '')]),
        Option('newline', [[]], when=[('true', ('newline',), '')]),
        Option('rename', [[KEY, VALUE('to_string')]], ('mapping',)),
        Option('format', [[KEY, VALUE('to_string')]], ('formatting',)),
        Option('route', [[KEY], [KEY, LIST()]], ('routing',)),
        Option('timestamp', [[VALUE('to_string')]], ('mutate',), [('key', ('mutate',), 'timestamp')]),
        Option('severity', [[LIST()]], ('mutate',), [('key', ('mutate',), 'severity')]),
    ],
    'blackhole::formatter::tskv_t': [
        Option('create', [[KEY, VALUE('to_string')]], ('create',)),
        Option('rename', [[KEY, VALUE('to_string')]], ('rename',)),
        Option('remove', [[VALUE('to_string')]], ('remove',)),
        Option('timestamp', [[KEY, VALUE('to_string', ('strftime',)), VALUE('to_bool', ('gmtime',), ('const', True))]], ('mutate',),
               [('has', ('mutate', '*', 'strftime'), '')]),
    ],
    'blackhole::sink::file_t': [
        Option('flush_every', 'flush', when=[]),
        Option('rotate_checking_stat', [[]], when=[('eq', ('rotate', 'type'), 'stat')]),
    ],
    'blackhole::sink::syslog_t': [
        Option('priorities', [[LIST(('priorities',))]], when=[('has', ('priorities',), '')]),
    ],
    'blackhole::handler::blocking_t': [
        Option('set', 'product', when=[]),
        Option('add', 'product', ('sinks',)),
    ],
}


def setter_rule(c, f, g, o):
    L = o.loop

    def call(ev):
        return ev.kind == 'call' and method(ev) == o.setter and ev.obj is not None and \
            (ev.fnref or {}).get('cls', '').startswith(('blackhole::builder<', 'blackhole::sink::', 'blackhole::formatter::', 'blackhole::handler::'))

    def required(facts):
        """True / False / None: does the setter have to be called?"""
        r = [known(facts, *w) for w in o.when]
        if any(x is False for x in r):
            return False
        return True if all(r) else None

    def step(s, ev):
        ps, it, n, done, text = s
        q = Paths.step(ps, ev)
        if q is None:
            return DEAD
        k = ev.kind
        if k in ('iter', 'done') and L is not None and conf(ev.over) == L:
            if it and n == 0 and required(ps[0]) is not False:
                return ('BAD', 'an entry of the option %s has no effect' % '/'.join(L))
            return q, k == 'iter', 0, done or k == 'done', None
        if k in ('call', 'thrown') and method(ev) == 'to_string' and ev.obj is not None and conf(ev.obj) == (L or ()) + ('*',):
            text = k == 'call'
        if call(ev):
            if n:
                return ('BAD', '%s is called twice for one option' % o.setter)
            if L is not None and not it:
                return ('BAD', '%s is called outside of the pass over the option %s' % (o.setter, '/'.join(L)))
            if required(ps[0]) is not True:
                return ('BAD', '%s is called although the option does not ask for it' % o.setter)
            why = fits(o, ev, ps, L, text)
            if why:
                return ('BAD', '%s gets %s' % (o.setter, why))
            return q, it, 1, done, text
        if k == 'exit' and ev.how == 'return':
            if L is None:
                if n == 0 and required(ps[0]) is not False:
                    return ('BAD', 'the option for %s has no effect' % o.setter)
            elif it or not done and known(ps[0], 'has', L) is not False:
                return ('BAD', 'the option %s has no effect' % '/'.join(L))
        return q, it, n, done, text
    c.run('option-' + o.setter, f, g, (Paths.init, False, 0, False, None), step)


def fits(o, ev, ps, L, text):
    args = [a for a in ev.args]
    for pat in o.args:
        if len(pat) == len(args) and all(m(a, ps, L) for m, a in zip(pat, args)):
            if o.setter == 'route' and (len(pat) == 1) != (text is True or known(ps[0], 'is', L + ('*',), 'string') is True):
                return 'a list although the option is a string' if len(pat) > 1 else 'no list although the option may be one'
            return None
    return ', '.join(show(val(a))[:80] for a in args) or 'no argument'


def flush_rule(c, f, g):
    """flush: a number of records or a text with a unit."""
    P = ('flush',)

    def step(s, ev):
        ps, n = s
        q = Paths.step(ps, ev)
        if q is None:
            return DEAD
        if ev.kind == 'call' and method(ev) == 'flush_every':
            if n:
                return ('BAD', 'flush_every is called twice')
            a = ev.args[0]
            v = value(a)
            if v is not None:
                if v[:2] != (P, 'to_uint64') or 'binary_unit' in str((ev.fnref or {}).get('pt')) or known(ps[0], 'is', P, 'uint64') is not True:
                    return ('BAD', 'flush_every gets %s' % show(a))
            elif 'binary_unit' not in str((ev.fnref or {}).get('pt')):
                return ('BAD', 'a text with a unit is taken for a number of records')
            elif known(ps[0], 'is', P, 'string') is not True:
                return ('BAD', 'flush_every is called although the option is no text')
            return q, 1
        if ev.kind == 'exit' and ev.how == 'return' and n == 0:
            if known(ps[0], 'is', P, 'uint64') is not False or known(ps[0], 'is', P, 'string') is not False:
                if known(ps[0], 'has', P) is not False:
                    return ('BAD', 'the option flush has no effect')
        return q, n
    c.run('option-flush_every', f, g, (Paths.init, 0), step)


def owned(t):
    """The term without the smart pointers and moves around it."""
    t = strip(t)
    while True:
        if t[0] == 'copy':
            t = strip(t[1])
        elif t[0] in ('ctor', 'init') and str(t[1]).startswith('std::unique_ptr') and t[2]:
            t = strip(t[2][0])
        else:
            return t


def made(t):
    """(kind, type path, node path) of a product made by a registered factory."""
    t = owned(t)
    if t[0] != 'call' or t[2] is None or not t[3]:
        return None
    fac, node = strip(t[2]), conf(t[3][0])
    while fac[0] == 'copy':
        fac = strip(fac[1])
    if fac[0] in ('ctor', 'init') and fac[2]:
        fac = strip(fac[2][0])
    if fac[0] == 'call' and fac[2] is not None and fac[3] and fn_name(fac[1]) in ('sink', 'filter', 'formatter', 'handler'):
        v = value(fac[3][0])
        return fn_name(fac[1]), (v[0] if v else None), node
    return None


def product_rule(c, f, g, setter, kind, path, loop=None, required=True):
    """setter gets what the factory registered under `type` of the node at `path` makes of that node."""
    def step(s, ev):
        ps, it, n, done = s
        q = Paths.step(ps, ev)
        if q is None:
            return DEAD
        k = ev.kind
        if k in ('iter', 'done') and loop is not None and conf(ev.over) == loop:
            if it and n == 0:
                return ('BAD', 'an entry of the option %s has no effect' % '/'.join(loop))
            return q, k == 'iter', 0, done or k == 'done'
        if k == 'call' and method(ev) == setter and (ev.fnref or {}).get('cls', '').startswith('blackhole::builder<'):
            m = made(ev.args[0])
            if m is None or m != (kind, path + ('type',), path):
                return ('BAD', '%s gets something else than the configured %s' % (setter, kind))
            if n or loop is not None and not it:
                return ('BAD', 'the configured %s is set twice' % kind)
            return q, it, 1, done
        if k == 'exit' and ev.how == 'return':
            if loop is None and n == 0 or loop is not None and (it or not done and known(ps[0], 'has', loop) is not False):
                return ('BAD', 'the option %s has no effect' % '/'.join(loop or path))
        return q, it, n, done
    c.run('option-' + setter, f, g, (Paths.init, False, 0, False), step)


def result(t):
    """(class, constructor arguments) of the object a factory returns."""
    t = owned(t)
    if t[0] == 'new' and t[2] and t[2][0] in ('ctor', 'init') and t[2][1] == t[1]:
        t = t[2]
    if t[0] in ('ctor', 'init'):
        return t[1], [owned(x) for x in t[2]]
    return None, t


def constructed(c, f, g, cls, match):
    """Every object returned is a `cls` made of the configured values."""
    def step(s, ev):
        q = Paths.step(s, ev)
        if q is None:
            return DEAD
        if ev.kind == 'exit' and ev.how == 'return' and ev.val is not None:
            k, a = result(ev.val)
            if k is None or not k.startswith(cls):
                return ('BAD', 'the factory returns %s' % show(strip(ev.val))[:100])
            why = match(a, q)
            if why:
                return ('BAD', why)
        return q
    c.run('constructed', f, g, Paths.init, step)


def built(c, f, g, cls):
    """The object returned is built by the builder the options were set in, after the last of them."""
    def step(s, ev):
        b = s
        if ev.kind == 'call' and (ev.fnref or {}).get('cls', '') == 'blackhole::builder<%s>' % cls:
            if method(ev) == 'build':
                return strip(ev.obj)
            if b is not None:
                return ('BAD', 'an option is set after the object was built')
        if ev.kind == 'exit' and ev.how == 'return':
            t = owned(ev.val) if ev.val is not None else ('unk',)
            if t[0] != 'call' or fn_name(t[1]) != 'build' or b is None or strip(t[2]) != b:
                return ('BAD', 'the factory returns something else than the built object')
        return b
    c.run('built', f, g, None, step)


def same(args, pats):
    def ok(a, p):
        v = value(a)
        return v is not None and v[:2] == p
    if len(args) != len(pats) or not all(ok(a, p) for a, p in zip(args, pats)):
        return 'the object is not made of the options %s' % ', '.join('/'.join(p[0]) for p in pats)
    return None


@prop('C35')
def c35(c):
    """Path analysis of every factory with the configuration tree kept symbolic: each entry of each documented option leads to exactly one
    call of its setter with the entry's key and value, a setter is called only when its option asks for it, constructors get
    the values of their options in order, products come from the factory registered under their `type` and get their
    own node, and what is returned was built after the last option was applied."""
    fs = factories(c)
    thr = lambda fn, kind: fkey(fn) == 'blackhole::config::node_t::to_string'

    def graph(f, **kw):
        return c.graph(f, KINDS, opaque=OPTIONS, hof=EACH, inline=inl, **kw)
    done = set()
    for cls, opts in SETTERS.items():
        f = c.need(fs.get(cls), 'factory of ' + cls)
        g = graph(f, throws=thr) if any(o.setter == 'route' for o in opts) else graph(f)
        for o in opts:
            if o.args == 'flush':
                flush_rule(c, f, g)
            elif o.args == 'product':
                product_rule(c, f, g, o.setter, 'formatter' if o.setter == 'set' else 'sink', o.loop + ('*',) if o.loop else ('formatter',), o.loop)
            else:
                setter_rule(c, f, g, o)
        if cls == 'blackhole::sink::syslog_t':
            constructed(c, f, g, cls, lambda a, s: None)
        else:
            built(c, f, g, cls)
        done.add(cls)
    for cls in ('blackhole::sink::socket::tcp_t', 'blackhole::sink::socket::udp_t'):
        f = c.need(fs.get(cls), 'factory of ' + cls)
        constructed(c, f, graph(f), cls, lambda a, s: same(a, [(('host',), 'to_string'), (('port',), 'to_uint64')]))
        done.add(cls)
    cls = 'blackhole::filter::severity_t'
    f = c.need(fs.get(cls), 'factory of ' + cls)
    constructed(c, f, graph(f), cls, lambda a, s: same(a, [(('threshold',), 'to_sint64')]))
    cls = 'blackhole::sink::file_t'
    f, g = fs[cls], graph(fs[cls])
    for e in g.events():
        if e.kind == 'ctor' and e.cls == 'blackhole::builder<%s>' % cls:
            v = value(e.args[0]) if e.args else None
            c.expect(v is not None and v[:2] == (('path',), 'to_string'), 'path', c.loc(f), c.fname(f), 'the file sink is not built for the configured path')
    cls = 'blackhole::sink::console_t'
    f = c.need(fs.get(cls), 'factory of ' + cls)

    def console(a, s):
        want = known(s[0], 'val', ('filter', 'type'))
        ms = [made(x) for x in a]
        if want is True:
            return None if ms == [('filter', ('filter', 'type'), ('filter',))] else 'the configured filter is not used'
        return None if not any(ms) and want is False else 'a filter is used that is not configured'
    constructed(c, f, graph(f), cls, console)
    cls = 'blackhole::sink::asynchronous_t'
    f = c.need(fs.get(cls), 'factory of ' + cls)

    def asynchronous(a, s):
        if len(a) != 3 or made(a[0]) != ('sink', ('sink', 'type'), ('sink',)):
            return 'the asynchronous sink does not wrap the configured one'
        v = value(a[1])
        if v is None or v[:2] != (('factor',), 'to_uint64'):
            return 'the factor is not the configured one'
        d = a[2]
        for w in ('wait', 'drop'):
            if known(s[0], 'eq', ('overflow',), w) is True:
                return None if d[0] in ('ctor', 'init', 'new') and w in str(d[1]) else 'the overflow policy is not the configured one'
        return 'the overflow policy is not the configured one'
    constructed(c, f, graph(f), cls, asynchronous)
    cls = 'blackhole::formatter::string_t'
    f = c.need(fs.get(cls), 'factory of ' + cls)

    def string(a, s):
        v = value(a[0]) if a else None
        if v is None or v[:2] != (('pattern',), 'to_string'):
            return 'the pattern is not the configured one'
        have = known(s[0], 'has', ('sevmap',))
        if have is None:
            return 'the option sevmap has no effect'
        if (len(a) > 1) != have:
            return 'the option sevmap has no effect' if have else 'a severity mapping is used that is not configured'
        if have and not any(x[1] == ('sevmap',) and x[2] in ('full', 'seen') for x in s[1]):
            return 'the severity mapping does not hold every configured name'
        return None
    constructed(c, f, graph(f), cls, string)
    extra = set(fs) - done - {'blackhole::filter::severity_t', 'blackhole::sink::console_t', 'blackhole::sink::asynchronous_t',
                              'blackhole::formatter::string_t', 'blackhole::sink::null_t'}
    for k in sorted(extra):
        c.ok('unlisted-factory', k)


def fkey(fn):
    from .engine import fkey_name
    return fkey_name((fn or {}).get('qn', ''))


NAMES = {'filter::severity_t': 'severity', 'formatter::json_t': 'json', 'formatter::string_t': 'string', 'formatter::tskv_t': 'tskv',
         'sink::asynchronous_t': 'asynchronous', 'sink::console_t': 'console', 'sink::file_t': 'file', 'sink::null_t': 'null',
         'sink::socket::tcp_t': 'tcp', 'sink::socket::udp_t': 'udp', 'sink::syslog_t': 'syslog', 'handler::blocking_t': 'blocking'}
KIND = {'blackhole::sink_t': 'sink', 'blackhole::filter_t': 'filter', 'blackhole::handler_t': 'handler', 'blackhole::formatter_t': 'formatter'}


def kind_of(t):
    """The kind of product a type mentions."""
    ks = {k for n, k in KIND.items() if n in t}
    return ks.pop() if len(ks) == 1 else None


def text_of(t):
    t = owned(t)
    while t[0] == 'ctor' and 'basic_string' in str(t[1]) and t[2]:
        t = owned(t[2][0])
    return t


@prop('C34')
def c34(c):
    """Typestate of registration and lookup over the inlined registry: which factory is stored under which name in which
    table, what a lookup returns or throws, which factories the configured registry holds, and what the logger builder
    makes of every entry of its configuration."""
    cls = [k for k in c.p.derived('blackhole::registry_t') if any(f.get('cls') == k and f.get('cfg') for f in c.p.functions.values())]
    c.need(cls, 'implementation of registry_t')
    for k in cls:
        tables = {}
        adds = [f for f in c.impls('blackhole::registry_t', 'add') if f.get('cls') == k and f.get('cfg') and len(f['params']) == 1 and kind_of(f['params'][0]['t'])]
        c.expect(len(adds) == 4, 'kinds', c.loc(adds[0]) if adds else k, k, 'a kind of component cannot be registered')
        for f in adds:
            tables[kind_of(f['params'][0]['t'])] = stored(c, f)
        for kind in KIND.values():
            fs = [f for f in c.impls('blackhole::registry_t', kind) if f.get('cls') == k and f.get('cfg')]
            for f in c.need(fs, 'lookup of ' + kind):
                looked_up(c, f, tables.get(kind))
    shipped(c)
    logger_built(c)


def stored(c, f):
    """add() stores a function that calls the factory's from() under the factory's type(); returns the table."""
    P = ('param', f['name'], 0, f['params'][0]['name'])
    g = c.graph(f, ('call', 'assign', 'exit', 'branch'))
    table = set()

    def is_type(t):
        t = text_of(t)
        return t[0] == 'call' and fn_name(t[1]) == 'type' and t[2] is not None and strip(t[2]) == P

    def makes(t):
        lg = c.graph_of(t, ('exit', 'call', 'ucall'), [('node',)])
        if lg is None:
            return False
        vals = [owned(e.val) for e in lg.events() if e.kind == 'exit' and e.how == 'return']
        return bool(vals) and all(v[0] == 'call' and fn_name(v[1]) == 'from' and strip(v[2]) == P and [strip(x) for x in v[3]] == [('node',)] for v in vals)

    def step(s, ev):
        if ev.kind == 'assign':
            l = strip(ev.lhs)
            if l[0] == 'index' and strip(l[1])[0] == 'field':
                if not is_type(l[2]):
                    return ('BAD', 'the factory is stored under something else than its type')
                if not makes(ev.rhs):
                    return ('BAD', 'something else than the given factory is stored')
                table.add(strip(l[1]))
                return True
        if ev.kind == 'call' and method(ev) in ('insert', 'emplace', 'insert_or_assign', 'erase', 'clear') and ev.obj is not None and strip(ev.obj)[0] == 'field':
            if method(ev) in ('erase', 'clear'):
                return s
            a = [strip(x) for x in ev.args]
            if len(a) == 1 and a[0][0] in ('ctor', 'init', 'call') and 'pair' in str(a[0][1]):
                a = [strip(x) for x in (a[0][2] if a[0][0] != 'call' else a[0][3])]
            if len(a) == 2 and is_type(a[0]) and makes(a[1]):
                table.add(strip(ev.obj))
                return True
            return ('BAD', 'something else than the given factory under its type is stored')
        if ev.kind == 'exit' and ev.how == 'return' and not s:
            return ('BAD', 'the factory is not stored')
        return s
    c.run('stored', f, g, False, step)
    return table.pop() if len(table) == 1 else None


def looked_up(c, f, table):
    T = ('param', f['name'], 0, f['params'][0]['name'])
    # the standard map throws only std::out_of_range from at()
    g = c.graph(f, ('exit', 'throw', 'thrown', 'call', 'catch'), throws=lambda fn, kind: fkey(fn) in ('std::map::at', 'std::unordered_map::at'))
    c.expect(table is not None, 'lookup-table', c.loc(f), c.fname(f), 'factories of this kind are not stored in one table')

    def entry(t):
        t = owned(t)
        while t[0] == 'ctor' and str(t[1]).startswith('std::function') and t[2]:
            t = owned(t[2][0])
        if t[0] == 'field' and t[2] == 'second':
            t = strip(t[1])
            t = strip(t[1]) if t[0] == 'deref' else t
            return t[0] == 'call' and fn_name(t[1]) == 'find' and strip(t[2]) == table and strip(t[3][0]) == T
        return t[0] == 'index' and strip(t[1]) == table and text_of(t[2]) == T

    def step(s, ev):
        if ev.kind == 'exit' and ev.how == 'return' and (ev.val is None or not entry(ev.val)):
            return ('BAD', 'the lookup returns something else than the factory of that kind stored under the given type')
        if ev.kind == 'throw' or ev.kind == 'exit' and ev.how == 'throw':
            if ev.t not in ('std::out_of_range', 'rethrow', '?'):
                return ('BAD', 'an unknown type is not reported as std::out_of_range')
        return s
    c.run('lookup', f, g, None, step)


def shipped(c):
    """The configured registry knows every component of the library, once, under its own documented name."""
    fs = factories(c)
    made_by = {f['cls']: f for f in fs.values()}
    names = {}
    for t, f in sorted(fs.items()):
        tf = [x for x in c.fns(cls=f['cls'], name='type') if x.get('cfg')]
        kind = kind_of(f['ret']) if f.get('ret') else None
        for x in c.need(tf, 'type() of ' + f['cls']):
            vals = {text_of(e.val) for e in c.graph(x, ('exit',)).events() if e.kind == 'exit' and e.how == 'return'}
            want = NAMES.get(t.replace('blackhole::', ''))
            if want is not None:
                c.expect(vals == {('str', want)}, 'name', c.loc(x), t, 'the component is not known as "%s"' % want)
            for v in vals:
                if v[0] == 'str':
                    c.expect((kind, v) not in names, 'unique-name', c.loc(x), t, 'the type name is taken by another component of the kind')
                    names[(kind, v)] = t
    for f in c.need([x for x in c.fns(qn='blackhole::registry::configured') if x.get('cfg')], 'registry::configured'):
        g = c.graph(f, ('call', 'exit'))
        adds = {}
        for e in g.events():
            if e.kind == 'call' and method(e) == 'add' and e.obj is not None and e.args and owned(e.args[0])[0] in ('ctor', 'init', 'new'):
                k = owned(e.args[0])
                while k[0] in ('ctor', 'init') and 'shared_ptr' in str(k[1]) and k[2]:
                    k = owned(k[2][0])
                adds.setdefault(k[1], []).append((e, k))
        for t, fac in sorted(made_by.items()):
            name = t[len('blackhole::factory<'):-1].replace('blackhole::', '')
            if name not in NAMES:
                continue

            def step(s, ev, t=t):
                if ev.kind == 'call' and any(ev is e for e, _ in adds.get(t, ())):
                    return 'BAD2' if s else strip(ev.obj)
                if ev.kind == 'exit' and ev.how == 'return':
                    if s is None:
                        return ('BAD', 'a component of the library is not registered')
                    if s == 'BAD2' or owned(ev.val) != owned(s):
                        return ('BAD', 'a component is registered somewhere else or twice')
                return s
            c.run('shipped', f, g, None, step, '%s: %s' % (c.fname(f), name))
            for e, k in adds.get(t, ()):
                args = k[2][2] if k[0] == 'new' and k[2] and k[2][0] in ('ctor', 'init') else k[2]
                for a in args:
                    if isinstance(a, tuple) and a and isinstance(a[0], str):
                        c.expect(owned(a) == owned(e.obj), 'nested-registry', e.loc, name, 'the component looks its parts up in another registry')


def logger_built(c):
    fs = [f for f in c.fns(cls='blackhole::builder_t', name='build') if f.get('cfg')]
    for f in c.need(fs, 'builder_t::build'):
        N = ('param', 'build', 0, f['params'][0]['name'])
        g = c.graph(f, ('call', 'iter', 'done', 'exit', 'branch'), opaque=OPTIONS, hof=EACH,
                    inline=lambda x: not str(x.get('cls') or '').startswith('blackhole::root_logger_t'))

        def root(t):
            t = strip(t)
            return t[0] == 'call' and fn_name(t[1]) == 'config' and strip(t[2])[0] in ('field', 'deref', 'call')

        def lists(t):
            t = strip(t)
            while t[0] in ('deref', 'call') and (t[0] == 'deref' or fn_name(t[1]) == 'unwrap'):
                t = strip(t[1] if t[0] == 'deref' else t[2])
            if t[0] == 'index':
                return root(t[1]) and text_of(t[2]) == N
            return t[0] == 'call' and fn_name(t[1]) == 'operator[]' and root(t[2]) and text_of(t[3][0]) == N

        def typed(v, elem):
            n = strip(v[2])
            key = n[2] if n[0] == 'index' else (n[3][0] if n[0] == 'call' and fn_name(n[1]) == 'operator[]' else None)
            return key is not None and strlit(key) == 'type' and strip(n[1] if n[0] == 'index' else n[2]) == elem

        def made_of(t, elem, told):
            t = owned(t)
            if t[0] != 'call' or t[2] is None or not t[3] or strip(t[3][0]) != elem:
                return 'a handler is made of another node'
            fac = owned(t[2])
            while fac[0] in ('ctor', 'init') and fac[2]:
                fac = owned(fac[2][0])
            if fac[0] != 'call' or fn_name(fac[1]) != 'handler' or not fac[3]:
                return 'a handler is made by something else than a registered factory'
            v = owned(fac[3][0])
            d = None
            if v[0] == 'call' and fn_name(v[1]) in ('get_value_or', 'value_or'):
                d, v = text_of(v[3][0]), strip(v[2])
            if strlit(v) == 'blocking' and told is False:
                return None
            if v[0] != 'call' or fn_name(v[1]) != 'to_string':
                return 'a handler is made by another factory than its type asks for'
            if not typed(v, elem) or d not in (None, ('str', 'blocking')) or d is None and told is False:
                return 'a handler is made by another factory than its type asks for'
            return None

        def step(s, ev):
            it, n, done, vec, told = s
            if ev.kind in ('iter', 'done') and lists(ev.over):
                if it and n == 0:
                    return ('BAD', 'no handler is made for an entry')
                return ev.kind == 'iter' and strip(ev.over), 0, done or ev.kind == 'done', vec, None
            if ev.kind == 'branch' and it:
                t, pol = norm(ev)
                x = strip(t[1]) if t[0] == 'truth' else ('none',)
                if x[0] == 'call' and fn_name(x[1]) == 'to_string' and typed(x, ('elem', it)):
                    return it, n, done, vec, pol
                return s
            if ev.kind == 'call' and method(ev) in ('emplace_back', 'push_back') and ev.obj is not None and it:
                why = made_of(ev.args[0], ('elem', it), told)
                if why:
                    return ('BAD', why)
                if n or vec is not None and strip(ev.obj) != vec:
                    return ('BAD', 'an entry gives more than one handler')
                return it, 1, done, strip(ev.obj), told
            if ev.kind == 'call' and vec is not None and ev.obj is not None and strip(ev.obj) == vec and method(ev) in ('clear', 'pop_back', 'erase', 'resize'):
                return ('BAD', 'a handler is lost')
            if ev.kind == 'exit' and ev.how == 'return':
                if it or not done:
                    return ('BAD', 'not every entry of the logger is visited')
                t = owned(ev.val)
                a = owned(t[2][-1]) if t[0] in ('ctor', 'init') and 'root_logger_t' in str(t[1]) and t[2] else None
                if a is None or vec is not None and strip(a) != vec or 'vector' not in str(a)[:80]:
                    return ('BAD', 'the logger does not get the handlers made')
            return s
        c.run('handlers', f, g, (False, 0, False, None, None), step)


MUTATE = ('insert', 'emplace', 'emplace_back', 'push_back', 'erase', 'clear', 'append', 'assign', 'reset', 'swap', 'operator+=', 'resize')


def deep(t):
    """The term without copies, sites and the frames lambdas were made in."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'copy':
        return deep(t[1])
    if t[0] in ('ctor', 'new', 'init') and len(t) > 2:
        if t[0] == 'new' and t[2] and t[2][0] == 'ctor' and t[2][1] == t[1]:
            return ('new', t[1], tuple(deep(x) for x in t[2][2]))
        if str(t[1]).startswith(('std::function', 'std::unique_ptr')) and len(t[2]) == 1:
            return deep(t[2][0])
        return (t[0], t[1], tuple(deep(x) for x in t[2]))
    if t[0] == 'call':
        return t[:2] + (deep(t[2]), tuple(deep(x) for x in t[3]))
    if t[0] == 'lambda':
        return ('lambda', tuple(sorted(repr(deep(x[1])) for x in t[3] if isinstance(x[1], tuple) and x[1][0] not in ('refctx', 'refslot'))))
    if t[0] == 'param':
        return ('param', t[2])
    return tuple(deep(x) if isinstance(x, tuple) else x for x in t)


def own(t):
    """Is the location a part of the builder?"""
    while t[0] in ('field', 'index', 'deref'):
        t = t[1]
    return t == ('this',)


def effects(c, f):
    """What a setter does to its builder on every path: (ordered effects of one path, raw right-hand sides), or None when paths differ."""
    g = c.graph(f, ('assign', 'call', 'exit'))
    ends = set()
    raw = {}

    def step(s, ev):
        if ev.kind == 'assign' and own(ev.lhs):
            e = ('=', deep(ev.lhs), deep(ev.rhs))
            raw[e] = ev.rhs
            return s + (e,)
        if ev.kind == 'call' and method(ev) in MUTATE and ev.obj is not None and own(ev.obj) and ev.obj != ('this',):
            e = (method(ev), deep(ev.obj), tuple(deep(a) for a in ev.args))
            return s + (e,)
        if ev.kind == 'exit' and ev.how == 'return':
            ends.add((s, deep(ev.val) if ev.val is not None else None))
        return s if len(s) < 20 else ('BAD', 'a setter without bound')
    c.run('setter', f, g, (), step)
    return ends, raw


@prop('C36')
def c36(c):
    """Comparison of the effect summaries of all builder overloads, provenance of every stored parameter, and reachability
    of every stored setting from what build() makes."""
    groups = {}
    for f in c.fns(pred=lambda f: str(f.get('cls', '')).startswith('blackhole::builder<') and f.get('cfg') and not f.get('lambda') and not f.get('ctor') and not f.get('dtor')):
        if f['name'] != 'build' and f.get('refq'):
            groups.setdefault((f['cls'], f['name'], tuple(p['t'] for p in f['params'])), []).append(f)
    c.need(groups, 'setters of the builders')
    seen = {}
    written = {}
    for (cls, name, pt), fs in sorted(groups.items()):
        inst = '%s::%s(%s)' % (cls, name, ', '.join(x[:30] for x in pt))
        effs = {}
        for f in fs:
            ends, raw = effects(c, f)
            c.expect(len(ends) == 1, 'one-effect', c.loc(f), c.fname(f), 'what the setter does depends on something else than its arguments')
            for seq, val in sorted(ends, key=repr)[:1]:
                c.expect(val == ('this',), 'returns-itself', c.loc(f), c.fname(f), 'the setter does not return its builder')
                effs[f['refq']] = seq
                c.expect(bool(seq), 'no-effect', c.loc(f), c.fname(f), 'the setter does nothing')
                provenance(c, f, seq, raw)
                if name == 'colorize' and len(f['params']) == 2:
                    colours(c, f, raw)
                for e in seq:
                    loc = e[1]
                    while loc[0] == 'index':
                        loc = loc[1]
                    written.setdefault(cls, {})[loc] = f
        if len(fs) > 1:
            c.expect(len(set(effs.values())) == 1, 'overloads-agree', c.loc(fs[0]), inst, 'the overloads for lvalues and rvalues have different effects')
        for s in set(effs.values()):
            k = (cls, anonymous(s))
            c.expect(seen.get(k, (name, pt)) == (name, pt), 'distinct', c.loc(fs[0]), inst, 'two setters have the same effect')
            seen[k] = (name, pt)
    for cls, locs in sorted(written.items()):
        bs = [f for f in c.fns(cls=cls, name='build') if f.get('cfg')]
        for f in c.need(bs, 'build() of ' + cls):
            used_by_build(c, f, locs)


def colours(c, f, raw):
    """colorize(severity, color): that severity gets the colour, every other what it had before."""
    for (op, loc, _), rhs in raw.items():
        t = strip(rhs)
        while t[0] == 'copy' or t[0] in ('ctor', 'init') and len(t[2]) == 1:
            t = strip(t[1] if t[0] == 'copy' else t[2][0])
        R = ('record',)
        if t[0] == 'lambda':
            c.expect(any(isinstance(x[1], tuple) and deep(x[1]) == loc for x in t[3]), 'colour', c.loc(f), c.fname(f), 'the mapping stored does not keep the previous one')
        g = c.graph_of(t, ('branch', 'exit', 'call', 'ucall'), [R])
        if not c.expect(g is not None, 'colour', c.loc(f), c.fname(f), 'the mapping stored is not a function of its own'):
            continue

        def step(s, ev):
            if ev.kind == 'branch':
                x, pol = norm(ev)
                if x[0] == 'cmp' and x[1] == '==':
                    ab = [deep(x[2]), deep(x[3])]
                    for a, b in (ab, ab[::-1]):
                        if params_in(a) == {0} and not params_in(b) and any(y == R for y in subterms(b)) and 'severity' in repr(b):
                            return pol
            if ev.kind == 'exit' and ev.how == 'return':
                v = deep(ev.val) if ev.val is not None else ('unk',)
                new = v == ('param', 1)
                old = v[0] == 'call' and any(x == loc for x in subterms(v)) and R in [deep(a) for a in v[3]]
                if s is None or not (new if s else old):
                    return ('BAD', 'a severity gets another colour than the one set for it')
            return s
        c.run('colour', f, g, None, step)


def anonymous(s):
    """Effects with lambdas made comparable."""
    return repr(s)


def params_in(t):
    return {x[1] for x in subterms(t) if x[0] == 'param'} | {int(m) for m in re.findall(r"\('param', (\d+)\)", ' '.join(str(x[1]) for x in subterms(t) if x[0] == 'lambda'))}


def provenance(c, f, seq, raw):
    n = len(f['params'])
    got = set()
    for op, loc, v in seq:
        keys = set()
        l = loc
        while l[0] in ('index', 'field'):
            if l[0] == 'index':
                keys |= params_in(l[2])
                c.expect(text_of(l[2]) == ('param', 0), 'key', c.loc(f), c.fname(f), 'an entry is stored under something else than the given name')
            l = l[1]
        vals = params_in(v) if op == '=' else set().union(*[params_in(x) for x in v]) if v else set()
        if keys:
            c.expect(0 not in vals, 'key', c.loc(f), c.fname(f), 'the name of an entry is stored as its value')
        got |= keys | vals
        if op == '=' and n - len(keys) == 1 and 'string' in f['params'][-1]['t'] and v[0] == 'param' and len(seq) == 1:
            c.expect(v == ('param', n - 1), 'value', c.loc(f), c.fname(f), 'something else than the given value is stored')
    c.expect(got >= set(range(n)), 'argument', c.loc(f), c.fname(f), 'an argument of the setter is dropped')


def used_by_build(c, f, locs):
    """Everything the setters store is handed to the object built, on every path."""
    g = c.graph(f, ('assign', 'ctor', 'call', 'iter', 'done', 'exit', 'branch'))

    def whole_of(ev, loc):
        if ev.kind != 'assign' or own(deep(ev.lhs)):
            return False
        while loc[0] == 'field':
            loc = loc[1]
            if deep(ev.rhs) == loc:
                return True
        return False

    def mentions(ev, loc):
        ts = [getattr(ev, a, None) for a in ('rhs', 'over', 'obj', 'val')] + list(ev.args or ())
        if ev.kind == 'assign' and own(deep(ev.lhs)):
            return False
        return any(x == loc for t in ts if isinstance(t, tuple) for x in subterms(deep(t)))

    for loc in sorted(locs, key=repr):
        def step(s, ev):
            if ev.kind in ('assign', 'ctor', 'iter', 'done', 'call', 'exit') and mentions(ev, loc) and not (ev.kind == 'call' and method(ev) in ('empty', 'size', 'clear')):
                s = True
            if whole_of(ev, loc):
                s = True
            if ev.kind == 'branch':
                t, pol = norm(ev)
                if not pol and deep(t[1] if t[0] == 'truth' else t) == loc:
                    s = True        # nothing was set
            if ev.kind == 'exit' and ev.how == 'return' and not s:
                return ('BAD', 'what %s() was given does not reach the object built' % locs[loc]['name'])
            return s
        c.run('built-from', f, g, False, step, '%s: %s' % (c.fname(f), show(loc)))


# ---------------------------------------------------------------- C33
REQUIRED = {
    'blackhole::formatter::string_t': [('pattern',)],
    'blackhole::sink::file_t': [('path',)],
    'blackhole::sink::socket::tcp_t': [('host',), ('port',)],
    'blackhole::sink::socket::udp_t': [('host',), ('port',)],
    'blackhole::sink::asynchronous_t': [('sink', 'type')],
    'blackhole::filter::severity_t': [('threshold',)],
    'blackhole::handler::blocking_t': [('formatter', 'type'), ('sinks', '*', 'type')],
}
CLOSED = {
    'blackhole::sink::file_t': [('eq', ('rotate', 'type'), ('stat',))],
    'blackhole::formatter::json_t': [('key', ('mutate',), ('timestamp', 'severity'))],
}
ASYNC = 'blackhole::sink::asynchronous_t'
UNCHECKED = {'atoi', 'atol', 'atoll', 'strtol', 'strtoul', 'strtoll', 'strtoull', 'sscanf', 'atof', 'strtod'}


class Ranges:
    """What comparisons with constants tell about integers along one path: {(term, low or None, high or None)}."""
    init = frozenset()

    @staticmethod
    def step(s, ev):
        if ev.kind in ('iter', 'done'):
            return frozenset(x for x in s if not any(y[0] == 'elem' for y in subterms(x[0])))
        if ev.kind != 'branch':
            return s
        t, pol = norm(ev)
        if t[0] != 'cmp':
            return s
        op, a, b = t[1], deep(strip(t[2])), deep(strip(t[3]))
        if a[0] == 'const' and b[0] != 'const':
            a, b, op = b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if b[0] != 'const' or a[0] == 'const' or not isinstance(b[1], int):
            return s
        n = b[1]
        if not pol:
            op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!='}[op] if op in ('<', '>', '<=', '>=', '==') else '!='
        lo, hi = {'<': (None, n - 1), '<=': (None, n), '>': (n + 1, None), '>=': (n, None), '==': (n, n)}.get(op, (None, None))
        o = next((x for x in s if x[0] == a), (a, None, None))
        lo = o[1] if lo is None else lo if o[1] is None else max(lo, o[1])
        hi = o[2] if hi is None else hi if o[2] is None else min(hi, o[2])
        if lo is not None and hi is not None and lo > hi:
            return None
        return frozenset(x for x in s if x[0] != a) | {(a, lo, hi)}

    @staticmethod
    def of(s, t, src=''):
        """(low, high) of a term of type src."""
        t = deep(strip(t))
        lo, hi = next((x[1:] for x in s if x[0] == t), (None, None))
        a, b = limits(src)
        return (a if lo is None else lo if a is None else max(a, lo)), (b if hi is None else hi if b is None else min(b, hi))


def limits(t):
    t = t.replace('const ', '').strip()
    if t not in WIDTH:
        return None, None
    if t.startswith('unsigned') or t == 'bool':
        return 0, (1 << WIDTH[t]) - 1
    return -(1 << WIDTH[t] - 1), (1 << WIDTH[t] - 1) - 1


@prop('C33')
def c33(c):
    """Path analysis of every factory and the helpers that read configured numbers: no path on which a required option is absent, a closed
    option has an unlisted value or a failed conversion was swallowed returns an object; every narrowing of a configured
    number and every product of one is dominated by a sufficient range test; every exception is a std::exception."""
    fs = factories(c)

    def graph(f, **kw):
        return c.graph(f, KINDS + ('narrow', 'catch'), opaque=OPTIONS, hof=EACH, inline=inl, narrow=True, **kw)
    for cls in sorted(fs):
        f = fs[cls]
        g = graph(f)
        for path in REQUIRED.get(cls, ()):
            required(c, f, g, path)
        for kind, path, names in CLOSED.get(cls, ()):
            closed(c, f, g, kind, path, names)
        in_range(c, f, g)
        CONVERT = {'blackhole::config::node_t::' + x for x in CONV} | {x for x in OPTIONS if x.rsplit('::', 1)[1] in CONV}
        if any(n['k'] == 'CXXCatchStmt' for h in [f] + [h for h in c.p.functions.values() if h.get('lambda') and h['file'] == f['file'] and h.get('cfg')]
               for n in h['nodes'].values()):
            swallowed(c, f, graph(f, throws=lambda fn, kind: fkey(fn) in CONVERT))
    for cls in REQUIRED:
        c.need(fs.get(cls), 'factory of ' + cls)
    # numbers reach the object as they are, so that the checks done there see them
    for cls, i, path, conv in (('blackhole::sink::socket::tcp_t', 1, ('port',), 'to_uint64'), ('blackhole::sink::socket::udp_t', 1, ('port',), 'to_uint64'),
                               ('blackhole::filter::severity_t', 0, ('threshold',), 'to_sint64'), (ASYNC, 1, ('factor',), 'to_uint64')):
        f = c.need(fs.get(cls), 'factory of ' + cls)

        def match(a, q, i=i, path=path, conv=conv):
            v = value(a[i]) if len(a) > i else None
            return None if v is not None and v[:2] == (path, conv) else 'a configured %s is replaced by another number instead of being rejected' % path[-1]
        constructed(c, f, c.graph(f, KINDS, opaque=OPTIONS, hof=EACH, inline=inl), cls, match)
    units(c)
    factor(c)
    policies(c)
    thrown(c, lambda f: True)


def required(c, f, g, path):
    """Without the option nothing is made."""
    loop = path[:path.index('*')] if '*' in path else None

    def step(s, ev):
        ps, seen = s
        if ev.kind in ('iter', 'done') and loop is not None and conf(ev.over) == loop:
            if seen and not (known(ps[0], 'val', path) or known(ps[0], 'has', path)):
                return ('BAD', 'an entry without %s is accepted' % path[-1])
        q = Paths.step(ps, ev)
        if q is None:
            return DEAD
        if ev.kind in ('iter', 'done') and loop is not None and conf(ev.over) == loop:
            return q, ev.kind == 'iter'
        if ev.kind == 'exit' and ev.how == 'return':
            if loop is None and not (known(q[0], 'val', path) or known(q[0], 'has', path)):
                return ('BAD', 'the required option %s may be missing' % '/'.join(path))
            if loop is not None and seen and not (known(q[0], 'val', path) or known(q[0], 'has', path)):
                return ('BAD', 'an entry without %s is accepted' % path[-1])
        if ev.kind == 'exit' and ev.how in ('terminate', 'noreturn'):
            return ('BAD', 'a bad configuration ends the process')
        return q, seen
    c.run('required-' + '/'.join(path), f, g, (Paths.init, False), step)


def closed(c, f, g, kind, path, names):
    """Another value than the documented ones is an error."""
    def listed(ps):
        return any(known(ps[0], kind, path, n) is True for n in names)

    def step(s, ev):
        ps, seen = s
        if kind == 'key' and ev.kind in ('iter', 'done') and conf(ev.over) == path and seen and not listed(ps):
            return ('BAD', 'an unknown entry of %s is accepted' % '/'.join(path))
        q = Paths.step(ps, ev)
        if q is None:
            return DEAD
        if kind == 'key' and ev.kind in ('iter', 'done') and conf(ev.over) == path:
            return q, ev.kind == 'iter'
        if ev.kind == 'exit' and ev.how == 'return':
            if kind == 'key' and seen and not listed(q):
                return ('BAD', 'an unknown entry of %s is accepted' % '/'.join(path))
            if kind == 'eq' and known(q[0], 'val', path) is not False and known(q[0], 'has', path) is not False and not listed(q):
                return ('BAD', 'an unknown value of %s is accepted' % '/'.join(path))
        return q, seen
    c.run('closed-' + '/'.join(path), f, g, (Paths.init, False), step)


def in_range(c, f, g):
    """Configured numbers are only cut after a test that they fit."""
    for e in g.events():
        if e.kind == 'narrow' and value(e.over) is not None:
            c.ok('narrowed', '%s at %s' % (c.fname(f), e.loc))

    def step(s, ev):
        s = Ranges.step(s, ev)
        if s is None:
            return DEAD
        if ev.kind == 'narrow':
            v = value(ev.over)
            if v is None or v[1] not in ('to_sint64', 'to_uint64', 'to_double'):
                return s
            lo, hi = Ranges.of(s, ev.over, ev.src)
            a, b = limits(ev.t)
            if v[1] == 'to_double' or a is None or lo is None or hi is None or lo < a or hi > b:
                return ('BAD', 'the number configured as %s is cut to %s unchecked' % ('/'.join(v[0]), ev.t))
        return s
    c.run('in-range', f, g, Ranges.init, step)


def swallowed(c, f, g):
    """A value of the wrong type is either read as something else or reported."""
    def step(s, ev):
        caught, loops = s
        if ev.kind == 'catch':
            return True, loops
        if ev.kind == 'call' and method(ev) in CONV + ('each', 'each_map', 'unwrap'):
            return False, loops
        if ev.kind in ('iter', 'done'):
            p = conf(ev.over)
            if caught and p in loops:
                return ('BAD', 'a value of the wrong type is ignored')
            return False, (loops | {p} if ev.kind == 'iter' else loops - {p})
        if caught and ev.kind == 'exit' and ev.how == 'return':
            return ('BAD', 'a value of the wrong type is ignored')
        return s
    c.run('swallowed', f, g, (False, frozenset()), step)


def units(c):
    """Sizes with units: the unit is known, the number is read checked, and the product fits."""
    fs = [f for f in c.p.functions.values() if f['name'] == 'parse_dunit' and f.get('cfg')]
    for f in c.need(fs, 'parse_dunit'):
        g = c.graph(f, ('branch', 'exit', 'call', 'narrow', 'throw'), narrow=True)

        def step(s, ev):
            ranges, fits, found = s
            if ev.kind == 'call' and method(ev) in UNCHECKED:
                return ('BAD', 'the number is read by %s(), which reports no error' % method(ev))
            if ev.kind == 'branch':
                t, pol = norm(ev)
                u = strip(t[1]) if t[0] == 'truth' else t
                if u[0] == 'call' and 'mul_overflow' in fn_name(u[1]):
                    fits = fits | {(None, None)} if not pol else fits
                if t[0] == 'cmp':
                    a, b, op = deep(strip(t[2])), deep(strip(t[3])), t[1]
                    if not pol:
                        op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!='}.get(op, op)
                    if op in ('>', '>='):
                        a, b, op = b, a, {'>': '<', '>=': '<='}[op]
                    if op in ('<', '<=') and b[0] == 'op' and b[1] == '/' and b[2][0] == 'const' and b[2][1] == (1 << 64) - 1:
                        fits = fits | {(a, b[3])}
                    if t[1] == '==' and any(strip(x)[0] == 'end' for x in t[2:4]):
                        x = next(x for x in t[2:4] if strip(x)[0] != 'end') if strip(t[2])[0] != strip(t[3])[0] else t[2]
                        found = found | {(deep(strip(x)), not pol)}
                for x in ([t[1]] if t[0] == 'truth' else t[2:4] if t[0] == 'cmp' and ('const', 0) in t else []):
                    x = deep(strip(x))
                    if x[0] == 'call' and fn_name(x[1]) == 'count':
                        found = found | {(x[2:], pol if t[0] == 'truth' or t[1] == '<' else not pol)}
            if ev.kind == 'exit' and ev.how == 'return' and ev.val is not None:
                v = deep(strip(ev.val))
                if v[0] == 'op' and v[1] in ('*', '<<'):
                    if v[1] == '<<' or not ({(v[2], v[3]), (v[3], v[2]), (None, None)} & fits) and 'const' not in (v[2][0], v[3][0]):
                        return ('BAD', 'the size may not fit in 64 bits')
                for x in subterms(v):
                    if x[0] == 'deref' and x[1][0] == 'call' and fn_name(x[1][1]) == 'find' and not {(x[1], True), (x[1][2:], True)} & found:
                        return ('BAD', 'an unknown unit is accepted')
            return ranges, fits, found
        c.run('units', f, g, (None, frozenset(), frozenset()), step)


def factor(c):
    """The queue of an asynchronous sink has between 2^2 and 2^20 entries."""
    fs = [f for f in c.fns(cls=ASYNC, pred=lambda f: f.get('cls') == ASYNC and f.get('ctor') and f.get('cfg')) if any(p['t'] in WIDTH for p in f['params'])]
    for f in c.need(fs, 'constructors of %s with a factor' % ASYNC):
        i = next(i for i, p in enumerate(f['params']) if p['t'] in WIDTH)
        g = c.graph(f, ('branch', 'exit', 'narrow'), narrow=True)

        def step(s, ev):
            s = Ranges.step(s, ev)
            if s is None:
                return DEAD
            lo, hi = next((x[1:] for x in s if x[0] == ('param', i)), (None, None))
            if ev.kind == 'narrow' and any(deep(y) == ('param', i) for y in subterms(strip(ev.over))) and (hi is None or hi > 20):
                return ('BAD', 'the factor is used before it is checked')
            if ev.kind == 'exit' and ev.how == 'return' and (lo is None or hi is None or lo < 2 or hi > 20):
                return ('BAD', 'a factor out of range is accepted')
            if ev.kind == 'exit' and ev.how == 'throw' and lo is not None and hi is not None and lo >= 2 and hi <= 20:
                return ('BAD', 'a factor in range is rejected')
            return s
        c.run('factor', f, g, Ranges.init, step)


def policies(c):
    """There are the overflow policies `wait` and `drop`, and no others."""
    fs = [f for f in c.fns(name='create') if 'overflow_policy_factory' in str(f.get('cls')) and f.get('cfg')]
    for f in c.need(fs, 'overflow_policy_factory_t::create'):
        g = c.graph(f, ('branch', 'exit'))

        def step(s, ev):
            if ev.kind == 'branch':
                t, pol = norm(ev)
                if t[0] == 'cmp' and t[1] == '==':
                    for a, b in ((t[2], t[3]), (t[3], t[2])):
                        if deep(strip(a)) == ('param', 0) and strlit(strip(b)) is not None and pol:
                            return strlit(strip(b))
            if ev.kind == 'exit' and ev.how == 'return':
                ks = [str(x[1]) for x in subterms(strip(ev.val)) if x[0] in ('new', 'ctor') and 'overflow_policy' in str(x[1])]
                if s not in ('wait', 'drop') or not ks or any(s not in k for k in ks):
                    return ('BAD', 'an unknown overflow policy is accepted' if s is None else 'the policy %s is something else' % s)
            return s
        c.run('overflow-policy', f, g, None, step)
