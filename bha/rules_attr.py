"""C21: attribute values and their views keep value, kind and sign."""
from .engine import strip, subterms, fn_name, show
from .rule import prop, norm, method, returned
from .fmtout import val

NS = 'blackhole::attribute::'
VALUE, VIEW = NS + 'value_t', NS + 'view_t'
SIGNED = ('signed char', 'char', 'short', 'int', 'long', 'long long')
UNSIGNED = tuple('unsigned ' + x for x in ('char', 'short', 'int', 'long', 'long long'))
EVENTS = ('call', 'ucall', 'ctor', 'pnew', 'narrow', 'copy', 'assign', 'branch', 'exit')


def plain(t):
    """A type without references and qualifiers at both ends."""
    t = (t or '').strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    return t[6:] if t.startswith('const ') else t


def kind(t):
    t = plain(t)
    if t in SIGNED:
        return 'signed integer'
    if t in UNSIGNED:
        return 'unsigned integer'
    if t in ('float', 'double'):
        return 'floating point number'
    if t == 'bool':
        return 'boolean'
    if 'nullptr_t' in t:
        return 'null'
    if t.startswith(('std::basic_string<', 'std::string', 'blackhole::stdext::basic_string_view<', 'blackhole::string_view')):
        return 'text'
    if t.startswith(('std::function<', VIEW + '::function_type', 'blackhole::attribute::view_t::function_type')):
        return 'function'
    return t


def content(t):
    """The variant inside of an attribute: (attribute, ) or None."""
    t = strip(t)
    while t[0] == 'copy':
        t = strip(t[1])
    path = []
    while t[0] == 'field':
        path.append(t[2])
        t = strip(t[1])
    return t if path and 'storage' in path else None


def stored(ev):
    """(type, term) of what is put into the variant of an attribute."""
    if ev.kind == 'ctor' and (ev.qn or '').startswith('boost::variant<') or ev.kind == 'ctor' and (ev.qn or '') == 'boost::variant::variant':
        a = [x for x in ev.args or () if strip(x) != ('const', True)]
        pt = (ev.fnref or {}).get('pt') or ['']
        if len(a) == 1:
            return pt[0], strip(a[0])
    return None


def constructor(c, f, cls):
    ps = f['params']
    P = ps[0]['t'] if ps else 'std::nullptr_t'
    g = c.graph(f, EVENTS, narrow=True)
    other = plain(P) in (VALUE, VIEW)
    custom = len(ps) > 1 or '::type' in P

    def is_p(t):
        t = val(t)
        return t[0] == 'param' and t[2] == 0

    def step(s, ev):
        n, ok, src = s
        if ev.kind == 'narrow':
            return ('BAD', '%s can change when it is converted to %s' % (show(ev.over), ev.t))
        x = stored(ev)
        if x is not None:
            t, v = x
            if other:
                if v[0] == 'alt' and content(v[1]) is not None and is_p(content(v[1])):
                    if kind(t) != kind(v[2]):
                        return ('BAD', 'a %s becomes a %s' % (kind(v[2]), kind(t)))
                    return n, True, v[2]
                if kind(t) == 'function' and v[0] in ('init', 'ctor') and v[2]:
                    a = strip(v[2][0])
                    if a[0] == 'alt' and content(a[1]) is not None and is_p(content(a[1])) and kind(a[2]) == 'function':
                        return n, True, a[2]
                return ('BAD', 'the attribute holds %s instead of the given value' % show(v))
            if kind(P) in ('signed integer', 'unsigned integer', 'floating point number', 'boolean', 'null', 'text'):
                if kind(t) != kind(P):
                    return ('BAD', 'a %s becomes a %s' % (kind(P), kind(t)))
                if kind(P) != 'null' and not is_p(v):
                    return ('BAD', 'the attribute holds %s instead of the given value' % show(v))
            return n, True, None
        if ev.kind == 'copy' and other and content(ev.val) is not None:
            if not is_p(content(ev.val)):
                return ('BAD', 'the attribute holds a copy of %s' % show(ev.val))
            return n, True, None
        if ev.kind == 'pnew' and str(ev.t).startswith(NS):
            if n:
                return ('BAD', 'the content of an attribute is constructed twice')
            if not any(y[0] == 'field' and y[1] == ('this',) for t in (ev.at or ()) for y in subterms(strip(t))):
                return ('BAD', 'the content is constructed outside of the attribute')
            return 1, ok, src
        if ev.kind == 'exit' and ev.how == 'return':
            if not n:
                return ('BAD', 'the content of an attribute is not constructed')
            if not ok and not custom:
                return ('BAD', 'the attribute does not hold the given value')
        return s
    c.run('holds-value', f, g, (0, False, None), step, '%s(%s)' % (cls.rsplit('::', 1)[-1], P[:60]))


def assignment(c, f):
    g = c.graph(f, EVENTS)

    def same(t):
        """An address comparison of this and the parameter."""
        return t[0] == 'cmp' and t[1] == '==' and ('this',) in (strip(t[2]), strip(t[3]))

    def step(s, ev):
        if ev.kind == 'branch' and same(norm(ev)[0]):
            return s if not norm(ev)[1] else 'self'
        if ev.kind == 'pnew':
            return ('BAD', 'the content is constructed over the old one')
        if ev.kind == 'assign' and content(ev.lhs) == ('this',):
            r = content(ev.rhs)
            if r is None or r[0] != 'param':
                return ('BAD', 'assigns %s instead of the content of the other attribute' % show(ev.rhs))
            return 'done'
        if ev.kind == 'exit' and ev.how == 'return':
            if s is None:
                return ('BAD', 'the content of the other attribute is not taken over')
            if strip(ev.val) != ('this',):
                return ('BAD', 'returns something else than the attribute itself')
        return s
    c.run('assigns-value', f, g, None, step)


def destruction(c, f):
    from .rules_sink import nodes_of
    seen, work = set(), [f['key']]
    n = 0
    while work:
        k = work.pop()
        if k in seen or k not in c.p.functions:
            continue
        seen.add(k)
        for _, x in nodes_of(c.p.functions[k]):
            fn = x.get('fn') or {}
            if 'args' in x and fn.get('dtor') and str(fn.get('cls', '')).endswith('inner_t'):
                n += 1
            elif 'args' in x and fn.get('key') and str(fn.get('cls') or '').startswith(NS):
                work.append(fn['key'])
    c.expect(n == 1, 'destroys-value', c.loc(f), c.fname(f), 'the content of an attribute is destroyed %d times' % n)
    g = c.graph(f, EVENTS)
    c.expect(not any(e.kind == 'branch' for e in g.events()), 'destroys-value', c.loc(f), c.fname(f), 'the content of an attribute is destroyed on some paths only')


def visiting(c, f):
    """apply() hands the alternative that is held to the visitor, once."""
    g = c.graph(f, EVENTS)

    def step(s, ev):
        if ev.kind in ('call', 'ucall') and method(ev) == 'operator()':
            a = [strip(x) for x in ev.args or ()]
            if s:
                return ('BAD', 'the visitor is called twice')
            if not (strip(ev.obj)[0] == 'param'):
                return ('BAD', 'another visitor is called')
            if len(a) != 1 or a[0][0] != 'alt' or content(a[0][1]) != ('this',):
                return ('BAD', 'the visitor gets %s instead of the value' % show(a[0] if a else ('unk', 0)))
            pt = ((ev.fnref or {}).get('pt') or [''])[0]
            if kind(pt) != kind(a[0][2]):
                return ('BAD', 'the visitor gets a %s as a %s' % (kind(a[0][2]), kind(pt)))
            return 1
        if ev.kind == 'exit' and ev.how == 'return' and not s:
            return ('BAD', 'the visitor is not called')
        return s
    c.run('visits-value', f, g, 0, step)
    got = {kind((e.fnref or {}).get('pt', [''])[0]) for e in g.events() if e.kind in ('call', 'ucall') and method(e) == 'operator()'}
    c.expect(len(got) == 7, 'visits-value', c.loc(f), c.fname(f), 'visitors see %d kinds of values only' % len(got))


def getter(c, f):
    """get<T>() returns the value held, and only when it is of that type."""
    g = c.graph(f, EVENTS + ('throw',))

    def pick(t):
        t = strip(t)
        if t[0] == 'call' and t[1] == 'boost::get' and len(t[3]) == 1:
            x = content(t[3][0])
            return x is not None and x[0] == 'param'
        return False

    def step(s, ev):
        if ev.kind == 'branch':
            t, pol = norm(ev)
            if t[0] == 'truth' and pick(t[1]):
                return pol
            if t[0] == 'cmp' and t[1] == '==':
                a, b = strip(t[2]), strip(t[3])
                if pick(a) and b[0] == 'null' or pick(b) and a[0] == 'null':
                    return not pol
        if ev.kind == 'exit' and ev.how == 'return':
            if s is not True:
                return ('BAD', 'a value of another type is returned')
            v = strip(ev.val)
            if not (pick(v) or v[0] == 'deref' and pick(v[1])):
                return ('BAD', 'returns %s instead of the value held' % show(v))
        if ev.kind == 'exit' and ev.how == 'throw':
            if s is not False:
                return ('BAD', 'a value of the right type is refused')
            if 'bad_cast' not in str(ev.t):
                return ('BAD', 'a wrong type is reported by %s' % ev.t)
        return s
    c.run('gets-value', f, g, None, step, plain(f['ret'])[:60])


@prop('C21')
def c21(c):
    """Flow analysis of every constructor, assignment, destructor and accessor of attribute values and their views: each
    constructor stores exactly its argument, once, in the storage of the attribute, without a narrowing conversion and
    as the alternative of its kind (signed, unsigned, floating point, boolean, text, null, function); a view of a value
    has the kind of the value, for every alternative; assignment takes over the other content, destruction destroys
    the content once, visitors get the alternative that is held, and get<T> returns it or throws std::bad_cast."""
    for cls in (VALUE, VIEW):
        ctors = [f for f in c.fns(cls=cls, pred=lambda f: f.get('cfg') and f.get('ctor') or f.get('cfg') and f['name'] == cls.rsplit('::', 1)[1])]
        c.need(ctors, 'constructors of ' + cls)
        kinds = set()
        for f in ctors:
            if f['params'] and plain(f['params'][0]['t']) == VIEW:
                continue
            constructor(c, f, cls)
            kinds.add(plain(f['params'][0]['t']) if f['params'] else '')
        for t in SIGNED[1:] + UNSIGNED + ('bool', 'double'):
            c.expect(t in kinds, 'constructible', c.loc(ctors[0]), cls, 'no constructor keeps a value of type %s' % t)
        for f in c.need(c.fns(cls=cls, name='apply', pred=lambda f: f.get('cfg')), cls + '::apply'):
            visiting(c, f)
    for f in c.need([f for f in c.fns(cls=VALUE, name='operator=', pred=lambda f: f.get('cfg'))], 'assignment of attribute values'):
        assignment(c, f)
    for f in c.need([f for f in c.fns(cls=VALUE, name='~value_t', pred=lambda f: f.get('cfg'))], 'destructor of attribute values'):
        destruction(c, f)
    for f in c.need([f for f in c.fns(qn=NS + 'get', pred=lambda f: f.get('cfg'))], NS + 'get'):
        getter(c, f)
    views(c)
    precise(c)


def precise(c):
    from .rules_sink import nodes_of
    n = 0
    for f in c.p.functions.values():
        if str(f.get('cls') or f['qn']).startswith(NS) and f.get('cfg'):
            n += 1
            for _, x in nodes_of(f):
                c.expect(not (x.get('ck') == 'FloatingCast' and plain(x.get('t')) == 'float'), 'holds-value', c.loc(f), c.fname(f), 'a floating point number loses digits')
    c.need(n, 'functions of attributes')


def views(c):
    """A function seen through a view is the function stored in the value."""
    eq = c.need(c.fns(cls=VIEW, name='operator==', pred=lambda f: f.get('cfg')), VIEW + '::operator==')
    for f in eq:
        g = c.graph(f, EVENTS)
        for t in returned(g):
            t = strip(t)
            a = [content(x) for x in t[2:4]] if t[0] == 'cmp' else [None]
            c.expect(t[0] == 'cmp' and t[1] == '==' and None not in a and {x[0] for x in a} == {'this', 'param'}, 'compares-value', c.loc(f), c.fname(f),
                     'compares %s' % show(t))
    ctor = [f for f in c.fns(cls=VIEW, pred=lambda f: f.get('cfg') and f['name'] == 'view_t' and f['params'] and plain(f['params'][0]['t']) == VALUE)]
    n = 0
    for f in ctor:
        g = c.graph(f, EVENTS)
        for e in g.events():
            x = stored(e)
            if x is None or kind(x[0]) != 'function' or x[1][0] not in ('init', 'ctor'):
                continue
            for y in subterms(x[1]):
                if y[0] == 'fn' and len(y) > 1:
                    for h in [h for h in c.p.functions.values() if h['key'] == y[1] and h.get('cfg')]:
                        n += 1
                        callee(c, h)
    c.need(n, 'function that calls a value seen through a view')


def callee(c, h):
    g = c.graph(h, EVENTS)

    def step(s, ev):
        if ev.kind in ('call', 'ucall') and method(ev) == 'operator()':
            a = [strip(x) for x in ev.args or ()]
            if s:
                return ('BAD', 'the function is called twice')
            if not any(y[0] == 'param' and y[2] == 0 for y in subterms(strip(ev.obj))):
                return ('BAD', 'calls %s instead of the function stored' % show(ev.obj))
            if len(a) != 1 or a[0][0] != 'param' or a[0][2] != 1:
                return ('BAD', 'the function gets another writer')
            return 1
        if ev.kind == 'exit' and ev.how == 'return' and not s:
            return ('BAD', 'the function is not called')
        return s
    c.run('calls-function', h, g, 0, step)
