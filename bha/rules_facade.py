"""C40: the logging facade."""
from .engine import strip, subterms, contains, fn_name, show, DEAD
from .rule import prop, norm, method
from .fmtout import fout, writer_of

FACADE = 'blackhole::logger_facade<'
FORMATTER = 'blackhole::detail::formatter<'
HANDLES = ('push_back', 'emplace_back', 'insert', 'bind', 'ref', 'cref', 'forward', 'move', 'addressof', 'log', 'select', 'apply', 'tie', 'forward_as_tuple')


def unwrap(t):
    """A term without copies, conversions to views and reference wrappers."""
    t = strip(t)
    while True:
        if t[0] == 'copy':
            t = strip(t[1])
        elif t[0] in ('ctor', 'init') and len(t[2]) == 1 and 'reference_wrapper' in str(t[1]):
            t = strip(t[2][0])
        else:
            return t


def is_attributes(t):
    return 'small_vector' in t and 'attribute' in t


def site_of(t):
    return t[3][0] if t[0] == 'ctor' and len(t) > 3 and isinstance(t[3], tuple) and t[3] else None


def overload(c, f):
    P = [('param', f['name'], i, p['name']) for i, p in enumerate(f['params'])]
    attrs = [i for i, p in enumerate(f['params']) if i >= 2 and is_attributes(p['t'])]
    vals = [P[i] for i in range(2, len(P)) if i not in attrs]
    parsed = 'formatter<' in f['params'][1]['t']
    g = c.graph(f, ('call', 'ucall', 'copy', 'branch', 'exit', 'throw', 'catch', 'ret'), throws=lambda fn, kind: True, captures=True)

    def own(ev):
        return ev.kind in ('call', 'ucall') and method(ev) == 'log' and ev.obj is not None and \
            any(x[0] == 'field' and strip(x[1]) == ('this',) for x in subterms(strip(ev.obj)))

    def step(st, ev):
        s, put = st
        if own(ev):
            if s:
                return ('BAD', 'the message is passed on twice')
            if unwrap_severity(ev.args[0]) != P[0]:
                return ('BAD', 'the severity passed on is %s' % show(ev.args[0]))
            pack = strip(ev.args[2]) if len(ev.args) > 2 else None
            given = {x for x in subterms(pack)} if pack is not None else set()
            given |= {x for o, x in put if o == pack}
            for i in attrs:
                if P[i] not in given:
                    return ('BAD', 'the attributes given are not passed on')
            if any(x[0] == 'copy' and strip(x[1]) in {P[i] for i in attrs} for x in subterms(pack or ('none',))):
                return ('BAD', 'the attributes are copied to a place that does not outlive the call')
            return (True, put)
        if ev.kind in ('call', 'ucall') and method(ev) in ('push_back', 'emplace_back', 'insert') and ev.obj is not None:
            put |= {(strip(ev.obj), unwrap(a)) for a in ev.args or ()}
        if ev.kind == 'catch':
            return ('BAD', 'an exception of the logger is kept from the caller')
        if ev.kind == 'copy' and strip(ev.val) in vals:
            return ('BAD', 'the argument %s is copied although the message may be rejected' % show(ev.val))
        if ev.kind in ('call', 'ucall') and method(ev) not in HANDLES:
            if any(contains(strip(a), v) for a in list(ev.args or ()) + ([ev.obj] if ev.obj else []) for v in vals) or fout(ev):
                return ('BAD', 'the message is formatted before the logger asks for it: %s' % method(ev))
        if ev.kind == 'exit' and ev.how == 'return' and not s:
            return ('BAD', 'the message is not passed on')
        return (s, put)
    c.run('passed-on', f, g, (False, frozenset()), step, c.fname(f))
    calls = [e for e in g.events() if own(e)]
    c.expect(calls, 'passed-on', c.loc(f), c.fname(f), 'the message is not passed on')
    for e in calls:
        m = strip(e.args[1])
        while m[0] in ('copy',):
            m = strip(m[1])
        if not vals:
            c.expect(unwrap(m) == P[1] or m[0] in ('ctor', 'init') and any(unwrap(x) == P[1] for x in m[2]), 'message', e.loc, c.fname(f),
                     'another message is passed on: %s' % show(m))
            continue
        if not (m[0] in ('init', 'ctor') and 'lazy_message_t' in str(m[1]) and len(m[2]) == 2):
            c.expect(False, 'message', e.loc, c.fname(f), 'the message is not passed on as a lazy one: %s' % show(m))
            continue
        if not parsed:
            c.expect(unwrap(m[2][0]) == P[1], 'message', e.loc, c.fname(f), 'the pattern passed on is %s' % show(m[2][0]))
        supplier(c, f, e, m[2][1], P, vals, parsed)


def unwrap_severity(t):
    t = unwrap(t)
    while t[0] in ('ctor', 'init') and len(t[2]) == 1:
        t = unwrap(t[2][0])
    return t


def supplier(c, f, ev0, fn, P, vals, parsed):
    """Asked once, the supplier writes the pattern with every argument, in order, to a writer of the calling frame and returns that text."""
    t = unwrap(fn)
    while t[0] in ('ctor', 'init') and len(t[2]) == 1:
        t = unwrap(t[2][0])
    g = c.graph_of(t, ('call', 'ucall', 'enter', 'ret', 'exit'), [], inline=(lambda h: not str(h.get('qn', '')).startswith(FORMATTER)) if parsed else None) \
        if parsed else c.graph_of(t, ('call', 'ucall', 'enter', 'ret', 'exit'), [])
    if g is None:
        c.expect(False, 'supplier', ev0.loc, c.fname(f), 'what makes the text cannot be followed: %s' % show(t))
        return
    me = g.entry['key']

    def same(a, i):
        """The term stands for the i-th parameter of the facade."""
        return unwrap(a) == P[i]
    first = 2

    def step(s, ev):
        w, done, ret = s
        x = fout(ev) if ev.kind in ('call', 'ucall') else None
        call = None
        if parsed and ev.kind in ('call', 'ucall', 'enter') and method(ev) == 'format' and ev.obj is not None and len(ev.args or ()) == 1 + len(vals):
            call = (writer_of(ev.args[0]) or unwrap(ev.args[0]), ev.args[1:])
            if not same(ev.obj, 1):
                return ('BAD', 'another pattern is formatted: %s' % show(ev.obj))
        elif x and not parsed:
            call = (x[0], list(ev.args)[1:])
            if not ev.args or not any(same(y, 1) for y in subterms(strip(ev.args[0]))):
                return ('BAD', 'another pattern is formatted: %s' % show(ev.args[0] if ev.args else None))
        elif x and parsed:
            return ('BAD', 'something else than the pattern is written')
        if call:
            if done:
                return ('BAD', 'the text is written twice')
            if len(call[1]) != len(vals) or not all(same(a, first + k) for k, a in enumerate(call[1])):
                return ('BAD', 'the arguments formatted are (%s)' % ', '.join(show(a) for a in call[1]))
            o = strip(call[0])
            if site_of(o) == me:
                return ('BAD', 'the text lies in a writer that is gone when the logger reads it')
            return (o, True, ret)
        if ev.kind == 'ret' and ev.val is not None:
            v = strip(ev.val)
            got = {fn_name(y[1]): strip(y[2]) for y in subterms(v) if y[0] == 'call' and y[2] is not None and fn_name(y[1]) in ('data', 'size', 'str', 'c_str', 'result')}
            if not done:
                return ('BAD', 'the text is returned before it is written')
            if got.get('data') is None or got.get('size') is None or got['data'] != got['size'] or (writer_of(got['data']) or got['data']) not in (w, writer_of(w)) and not alike(got['data'], w):
                return ('BAD', 'something else than the text written is returned: %s' % show(v))
            return (w, done, True)
        if ev.kind == 'exit' and ev.how == 'return' and not ret:
            return ('BAD', 'the text is not returned')
        return s

    c.run('supplier', g.entry, g, (None, False, False), step, '%s for %s' % (c.fname(g.entry)[:80], c.fname(f)[:120]))


def parsed_pattern(c, f):
    """A pattern parsed at compile time: the literal, then, when a placeholder follows, the first argument, then the rest."""
    P = [('param', f['name'], i, p['name']) for i, p in enumerate(f['params'])]
    last = ('formatter<1>' in f['qn'] or 'formatter<1>' in str(f.get('cls'))) or len(P) == 1
    g = c.graph(f, ('call', 'ucall', 'enter', 'branch', 'exit'), inline=lambda h: not str(h.get('qn', '')).startswith(FORMATTER) and not str(h.get('cls', '')).startswith(FORMATTER))

    def step(s, ev):
        lit, arg, rest, place = s
        if ev.kind == 'branch':
            t, pol = norm(ev)
            if t[0] == 'truth' and any(x[0] == 'field' and x[2] == 'placeholder_next' for x in subterms(t[1])):
                return (lit, arg, rest, pol)
            return s
        x = fout(ev) if ev.kind in ('call', 'ucall') else None
        if x:
            vs = [strip(v) for v in x[2]]
            if any(y[0] == 'field' and y[2] == 'literal' for v in vs for y in subterms(v)):
                return ('BAD', 'the literal is written twice') if lit else (True, arg, rest, place)
            if len(P) > 1 and vs and all(contains(v, P[1]) for v in vs):
                if not lit or arg or not place:
                    return ('BAD', 'an argument is written where there is no placeholder')
                return (lit, True, rest, place)
            return ('BAD', 'something else is written: %s' % ', '.join(show(v) for v in vs))
        if ev.kind in ('call', 'ucall') and method(ev) == 'format' and ev.obj is not None and any(y[0] == 'field' and y[2] == 'next' for y in subterms(strip(ev.obj))):
            want = P[2:] if place else P[1:]
            if not lit or place is None or place and not arg:
                return ('BAD', 'the rest is written too early')
            if rest:
                return ('BAD', 'the rest is written twice')
            if [unwrap(a) for a in ev.args[1:]] != want:
                return ('BAD', 'the rest gets (%s)' % ', '.join(show(a) for a in ev.args[1:]))
            return (lit, arg, True, place)
        if ev.kind == 'exit' and ev.how == 'return':
            if not lit:
                return ('BAD', 'the literal is not written')
            if not last and not rest:
                return ('BAD', 'the rest of the pattern is not written')
        return s
    c.run('parsed', f, g, (False, False, False, None), step, c.fname(f))


@prop('C40')
def check_c40(c):
    """Path analysis of every overload of the facade, instantiated by a witness for both kinds of loggers: one call of the logger with
    the caller's severity, pattern and attributes; formatting only in the supplier, which is analysed for what it writes and returns."""
    fs = [f for f in c.fns(pred=lambda f: f['name'] == 'log' and f.get('nodes') and str(f.get('cls', '')).startswith(FACADE))]
    c.need(len(fs) >= 8, 'instances of the logging facade')
    for f in fs:
        overload(c, f)
    ps = [f for f in c.fns(pred=lambda f: f['name'] == 'format' and f.get('nodes') and str(f.get('cls', '')).startswith(FORMATTER))]
    for f in ps:
        parsed_pattern(c, f)
