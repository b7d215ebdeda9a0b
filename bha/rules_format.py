"""Formatters: string patterns (C14, C15), text safety (C16, C17), JSON (C18, C19), TSKV (C20), attribute values (C21),
severity names (C22)."""
import re

from .rule import (prop, method, norm, returned, each_once, index_from_zero, is_call, strip, subterms, contains, fn_name, show,
                   OPTIONS, strs)
from .engine import subst, fkey_name
from .prog import AnalysisError
from .fmtout import fout, val, writer_of, empty_fact

REC = tuple('blackhole::record_t::' + x for x in ('formatted', 'message', 'pid', 'lwp', 'tid', 'severity', 'timestamp', 'attributes'))
VISIT = ('boost::apply_visitor',)
STD = REC + VISIT + ('blackhole::stdext::operator==', 'blackhole::stdext::operator!=', 'blackhole::gmtime', 'blackhole::localtime', 'blackhole::procname',
                     'blackhole::datetime::generator_t::operator()')
S = 'blackhole::formatter::string_t'
EV = ('call', 'ucall', 'thrown', 'assign', 'branch', 'iter', 'done', 'throw', 'exit', 'inc', 'decl')


def rec_call(t, what):
    """Is a term the accessor `what` of a record?"""
    t = val(t)
    while t[0] == 'field' and t[2] == 'value':
        t = val(t[1])
    return t[0] == 'call' and t[1] == 'blackhole::record_t::' + what


def visit(ev):
    """(visitor, variant) of a visitor dispatch."""
    if ev.kind not in ('call', 'ucall', 'thrown') or method(ev) != 'apply_visitor':
        return None
    a = list(ev.args or ())
    if ev.obj is not None and len(a) == 1:
        return strip(a[0]), strip(ev.obj)
    if len(a) == 2:
        return strip(a[0]), strip(a[1])
    return None


def bound(g, vis):
    """Members of a visitor object as its constructor set them."""
    out = {}
    for e in g.events():
        if e.kind == 'assign':
            l = strip(e.lhs)
            if l[0] == 'field' and l[1] == vis:
                out[l[2]] = strip(e.rhs)
    return out


def operators(c, f, vis):
    """The call operators of a visitor used in f."""
    if vis[0] not in ('ctor', 'init', 'var', 'new'):
        raise AnalysisError('visitor of unknown class in ' + c.fname(f))
    cls = vis[1]
    ops = [o for o in c.fns(name='operator()', pred=lambda o: o.get('cls') == cls and o.get('cfg'))]
    here = [o for o in ops if c.loc(o).split(':')[0] == c.loc(f).split(':')[0]]
    return c.need(here or ops, 'call operators of %s' % cls)


def ptype(o):
    return o['params'][0]['t'] if o['params'] else ''


def P(o, i=0):
    return ('param', o['name'], i, o['params'][i].get('name', ''))


def pterm(c, o, g, i=0):
    """The term of parameter i of o, as the graph uses it."""
    for e in g.events():
        for t in (getattr(e, 'args', None) or ()) + tuple(x for x in (getattr(e, 'obj', None), getattr(e, 'cond', None), getattr(e, 'rhs', None)) if x):
            for x in subterms(t):
                if x[0] == 'param' and x[2] == i:
                    return x
    return None


def is_param(t, i=0):
    t = val(t)
    return t[0] == 'param' and t[2] == i


def spec_of(t):
    """Is a term the format specification of the token parameter?"""
    t = val(t)
    return t[0] == 'field' and t[2] in ('spec', 'format') and is_param(t[1])


def tok_field(t, name):
    t = val(t)
    return t[0] == 'field' and t[2] == name and is_param(t[1])


def printed(c, rule, o, g, W, want, what, spec=spec_of, skip_empty=False):
    """Exactly one value is written to W on every returning path; it satisfies want(value)."""
    def step(s, ev):
        n, empty = s
        e = empty_fact(ev)
        if e is not None:
            empty = empty | {e}
        x = fout(ev)
        if x is not None and x[0] == W:
            if ev.kind == 'thrown':
                return (n, empty)
            if n:
                return ('BAD', '%s is printed twice' % what)
            _, sp, vs = x
            if len(vs) != 1:
                return ('BAD', '%s is printed as a format of its own' % what)
            v = vs[0]
            if not (want(v) or (v == ('str', '') and any(want(q) for q in empty))):
                return ('BAD', 'prints %s instead of %s' % (show(v), what))
            if spec is not None and not (sp is not None and spec(sp)):
                return ('BAD', 'the format specification of the placeholder is not applied to %s' % what)
            return (1, empty)
        if ev.kind == 'exit' and ev.how == 'return' and n != 1:
            if skip_empty and any(want(q) for q in empty):
                return (n, empty)
            return ('BAD', '%s is not printed' % what)
        return (n, empty)
    return c.run(rule, o, g, (0, frozenset()), step)


def graph(c, o, **kw):
    return c.graph(o, EV, opaque=STD, **kw)


def raw_or_spec(sp):
    return True


def check_values(c, f, g, seen, depth=0):
    """Visitors of attribute values reached from g: every alternative prints its value once, with the specification."""
    for e in g.events():
        v = visit(e)
        if v is None:
            continue
        vis = v[0]
        cls = vis[1] if vis[0] in ('ctor', 'init', 'new') else None
        if (cls, c.loc(f).split(':')[0]) in seen:
            continue
        seen.add((cls, c.loc(f).split(':')[0]))
        yield vis, operators(c, f, vis)


def value_ops(c, vis, ops, instance):
    """Operators of a visitor over attribute values that prints to a writer."""
    kinds = set()
    for o in ops:
        t = ptype(o)
        g = graph(c, o)
        ws = {x[0] for x in (fout(e) for e in g.events()) if x}
        kinds.add(t)
        if 'nullptr_t' in t:
            W = one_writer(c, o, ws)
            printed(c, 'attribute-value', o, g, W, lambda v: v[0] in ('str', 'const'), 'a constant for an attribute without value',
                    spec=lambda s: val(s)[0] == 'field')
        elif 'function_type' in t:
            def step(s, ev):
                n, w = s
                if ev.kind in ('call', 'ucall') and not fout(ev) and ev.args and any(contains(strip(a), pt) for a in list(ev.args) + ([ev.obj] if ev.obj is not None else [])):
                    if 'operator()' in (method(ev) or '') or ev.kind == 'ucall':
                        return (n + 1, w) if n == 0 else ('BAD', 'a user-defined value is rendered twice')
                if ev.kind == 'exit' and ev.how == 'return' and n != 1:
                    return ('BAD', 'a user-defined attribute value is not rendered')
                return s
            pt = pterm(c, o, g)
            c.expect(pt is not None, 'attribute-value', c.loc(o), c.fname(o), 'a user-defined attribute value is not rendered')
            if pt is not None:
                c.run('attribute-value', o, g, (0, None), step)
        else:
            W = one_writer(c, o, ws)
            printed(c, 'attribute-value', o, g, W, is_param, 'the value of the attribute', spec=lambda s: val(s)[0] == 'field')
    return kinds


def one_writer(c, o, ws):
    ws = [w for w in ws if w[0] in ('field', 'param')]
    if not ws:
        c.bad('attribute-value', c.loc(o), c.fname(o), 'nothing is printed to the writer of the record')
        return ('none',)
    return ws[0]


TOKENS = [
    ('literal_t', 'literal', None),
    ('message_t', 'formatted', 'the formatted message'),
    ('placeholder::process<formatter::string::id>', 'pid', 'the process id'),
    ('placeholder::thread<formatter::string::id>', 'lwp', 'the lightweight process id'),
    ('placeholder::thread<formatter::string::hex>', 'tid', 'the thread id'),
    ('placeholder::severity<formatter::string::num>', 'severity', 'the severity'),
    ('placeholder::timestamp<formatter::string::num>', 'timestamp', 'the timestamp'),
    ('placeholder::process<formatter::string::name>', 'procname', None),
    ('placeholder::thread<formatter::string::name>', 'tname', None),
    ('placeholder::severity<formatter::string::user>', 'sevmap', None),
    ('placeholder::timestamp<formatter::string::user>', 'time', None),
    ('placeholder::generic<formatter::string::required>', 'required', None),
    ('placeholder::generic<formatter::string::optional>', 'optional', None),
    ('leftover_t', 'leftover', None),
]


def sig(t):
    return t.replace('blackhole::', '').replace('v1::', '')


@prop('C14')
def c14(c):
    """Path-sensitive output analysis of the string formatter: format() visits every token of the pattern exactly once and
    in order; each kind of placeholder prints its own property of the record exactly once with its specification;
    required attributes that are missing raise an error after all attributes were looked at, optional ones fall back;
    the leftover placeholder visits every attribute of every list with separators in between; the tokenizer keeps
    every parsed token and the names and type letters select the documented placeholders."""
    f = c.need(c.fns(cls=S, name='format'), S + '::format')[0]
    g = graph(c, f)
    R, W = ('param', 0), ('param', 1)
    toks = [x['name'] for x in c.rec(S)['fields'] if 'variant' in x['t'] or 'token' in x['t']]
    c.need(toks, 'tokens of the string formatter')
    T = ('field', ('this',), toks[0])
    visitors = []

    def consume(ev):
        v = visit(ev)
        if v is None or ev.kind == 'thrown':
            return None
        if not any(v[0] == x for x in visitors):
            visitors.append(v[0])
        return v[1]
    each_once(c, 'every-token', f, g, lambda t: strip(t) == T, consume, c.fname(f), 'a token of the pattern')
    c.need(visitors, 'visitor of the string formatter')
    for vis in visitors:
        b = bound(g, vis)
        rf = [n for n, t in b.items() if t[0] == 'param' and t[2] == 0]
        wf = [n for n, t in b.items() if writer_of(t)[0] == 'param' and writer_of(t)[2] == 1]
        if not c.expect(rf and wf, 'visitor-binding', c.loc(f), c.fname(f), 'the visitor is not bound to the record and the writer'):
            continue
        R, W = ('field', ('this',), rf[0]), ('field', ('this',), wf[0])
        sm = [n for n, t in b.items() if t[0] == 'field' and t[1] == ('this',)]
        ops = operators(c, f, vis)
        for key, kind, what in TOKENS:
            os = [o for o in ops if key in sig(ptype(o))]
            if not c.expect(os, 'placeholder', c.loc(f), kind, 'no operator for %s' % key):
                continue
            token(c, os[0], kind, what, R, W, sm)
    mappings(c)
    faithful(c, 'faithful-number', f)
    tokenizer(c)
    selection(c)


NARROW = ('unsigned char', 'signed char', 'short', 'unsigned short')


def unsugar(t):
    return (t or '').replace('const ', '').replace('volatile ', '').replace('std::', '').strip(' &')


def faithful(c, rule, f):
    """No number on its way to the output is squeezed through a narrow type and no time through a coarse unit."""
    from .rules_sink import nodes_of, reachable
    n = 0
    for k in sorted(reachable(c, f)):
        h = c.p.functions[k]
        if not h['qn'].startswith('blackhole::'):
            continue
        n += 1
        nodes = dict(nodes_of(h))
        for i, x in nodes.items():
            if x.get('ck') == 'IntegralCast' and x.get('c'):
                a, b = unsugar(nodes[x['c'][0]].get('t')), unsugar(x.get('t'))
                b = {'uint8_t': 'unsigned char', 'int8_t': 'signed char', 'uint16_t': 'unsigned short', 'int16_t': 'short'}.get(b, b)
                if b in NARROW and nodes[x['c'][0]].get('v') is None and a not in NARROW + ('char', 'bool', 'uint8_t', 'int8_t', 'uint16_t', 'int16_t'):
                    c.bad(rule, x.get('l') or c.loc(h), c.fname(h), 'a number of type %s is converted to %s and can change' % (a, b))
            key = str((x.get('fn') or {}).get('key') or '')
            m = re.search(r'\|std::chrono::duration_cast<(.*)', key)
            if m:
                to = re.match(r'std::chrono::duration<[^,<>]*, std::ratio<(\d+), *(\d+)>', m.group(1))
                if to and to.group(1) == '1' and to.group(2) not in ('1', '1000000', '1000000000'):
                    c.bad(rule, x.get('l') or c.loc(h), c.fname(h), 'a time is rounded to 1/%s of a second' % to.group(2))
    c.expect(n > 0, rule, c.loc(f), c.fname(f), 'nothing was examined')


def rdata(v, R, what):
    """v derives from the accessor `what` of record R and from nothing else of the record."""
    calls = [x for x in subterms(val(v)) if x[0] == 'call' and x[1] in REC]
    return bool(calls) and all(fn_name(x[1]) == what and x[2] is not None and strip(x[2]) == R for x in calls)


def token(c, o, kind, what, R, W, sm):
    g = graph(c, o)
    if kind == 'literal':
        printed(c, 'placeholder', o, g, W, lambda v: tok_field(v, 'value'), 'the literal', spec=None)
    elif what is not None:
        printed(c, 'placeholder', o, g, W, lambda v: rdata(v, R, kind), what)
    elif kind == 'procname':
        printed(c, 'placeholder', o, g, W, lambda v: v[0] == 'call' and fn_name(v[1]) == 'procname', 'the process name')
    elif kind == 'tname':
        thread_name(c, o, g, R, W)
    elif kind == 'sevmap':
        def step(s, ev):
            if ev.kind in ('ucall', 'call') and ev.obj is not None and strip(ev.obj)[0] == 'field' and strip(ev.obj)[1] == ('this',) and method(ev) in ('operator()', ''):
                if s:
                    return ('BAD', 'the severity is mapped twice')
                a = [strip(x) for x in ev.args]
                if len(a) != 3 or not rdata(a[0], R, 'severity') or not spec_of(a[1]) or writer_of(a[2]) != W:
                    return ('BAD', 'the severity mapping does not get severity, specification and writer')
                return 1
            x = fout(ev)
            if x and x[0] == W and ev.kind == 'call':
                return ('BAD', 'something is printed besides the mapped severity')
            if ev.kind == 'exit' and ev.how == 'return' and not s:
                return ('BAD', 'the severity is not printed')
            return s
        c.run('placeholder', o, g, 0, step)
    elif kind == 'time':
        user_time(c, o, g, R, W)
    elif kind in ('required', 'optional'):
        generic(c, o, g, kind, R, W)
    elif kind == 'leftover':
        leftover(c, o, g, R, W)


def thread_name(c, o, g, R, W):
    def named(x):
        return x.kind == 'call' and method(x) == 'pthread_getname_np'
    bufs = [strip(e.args[1]) for e in g.events() if named(e)]
    c.expect(all(rdata(e.args[0], R, 'tid') for e in g.events() if named(e)), 'placeholder', c.loc(o), c.fname(o), 'the name of another thread is printed')
    base = {val(b[2]) if b[0] == 'call' and b[2] is not None else b for b in bufs}

    def want(v):
        return v[0] == 'str' or any(contains(v, b) for b in base)
    printed(c, 'placeholder', o, g, W, want, 'the thread name')

    def step(s, ev):
        # the buffer holds a name only when the call succeeded
        if ev.kind == 'branch':
            t, pol = norm(ev)
            if contains(t, ('fnmark',)):
                return s
            if t[0] == 'cmp' and t[1] == '==' and any(x[0] == 'call' and fn_name(x[1]) == 'pthread_getname_np' for x in (t[2], t[3])) and ('const', 0) in (t[2], t[3]):
                return pol
            if t[0] == 'truth' and t[1][0] == 'call' and fn_name(t[1][1]) == 'pthread_getname_np':
                return not pol
        x = fout(ev)
        if x and ev.kind == 'call' and any(contains(v, b) for v in x[2] for b in base) and not s:
            return ('BAD', 'the name buffer is printed although no name was stored there')
        return s
    c.run('placeholder', o, g, False, step)


def user_time(c, o, g, R, W):
    def step(s, ev):
        zone, tm, buf, done, empty, plain = s
        e = empty_fact(ev)
        if e is not None:
            empty = empty | {e}
        n = method(ev) if ev.kind in ('call', 'ucall') else None
        if ev.kind == 'branch':
            t, pol = norm(ev)
            if t[0] == 'cmp' and t[1] == '==' and pol and any(spec_of(x) for x in t[2:4]) and any(val(x) == ('str', '{}') for x in t[2:4]):
                plain = True
            if t[0] == 'truth' and t[1][0] == 'call' and fn_name(t[1][1]) == 'operator==' and pol:
                o = [val(x) for x in ([t[1][2]] if t[1][2] is not None else []) + list(t[1][3])]
                plain = plain or any(spec_of(x) for x in o) and ('str', '{}') in o
            if t[0] == 'truth' and tok_field(t[1], 'gmtime'):
                return ('gm' if pol else 'local', tm, buf, done, empty, plain)
        if n in ('gmtime', 'gmtime_r', 'localtime', 'localtime_r') and len(ev.args) == 2:
            k = 'gm' if n.startswith('gm') else 'local'
            if zone != k:
                return ('BAD', 'the timestamp is broken down as %s time although the placeholder asks for the other' % k)
            if not rdata(ev.args[0], R, 'timestamp'):
                return ('BAD', 'something else than the timestamp of the record is broken down')
            return (zone, strip(ev.args[1]), buf, done, empty, plain)
        if n == 'operator()' and ev.obj is not None and tok_field(ev.obj, 'generator') and len(ev.args) == 3:
            if tm is None or strip(ev.args[1]) != tm:
                return ('BAD', 'the time is formatted before it was broken down')
            if not rdata(ev.args[2], R, 'timestamp'):
                return ('BAD', 'the fraction of a second is not that of the timestamp')
            return (zone, tm, writer_of(ev.args[0]), done, empty, plain)
        x = fout(ev)
        if x and ev.kind == 'call' and x[0] == W:
            if done:
                return ('BAD', 'the timestamp is printed twice')
            if buf is None:
                return ('BAD', 'the timestamp is printed before it was formatted')
            v = x[2][0] if len(x[2]) == 1 else None
            if v is None or not (writer_of(v) == buf or (v == ('str', '') and buf in empty)):
                return ('BAD', 'prints %s instead of the formatted timestamp' % show(v))
            if x[1] is None or not spec_of(x[1]):
                return ('BAD', 'the specification is not applied to the timestamp')
            return (zone, tm, buf, True, empty, plain)
        if ev.kind == 'exit' and ev.how == 'return' and not done:
            if buf == W and plain:
                return s
            return ('BAD', 'the timestamp is not printed with its specification')
        return (zone, tm, buf, done, empty, plain)
    c.run('placeholder', o, g, (None, None, None, False, frozenset(), False), step)
    # seconds have six digits of fraction
    gs = [e for e in g.events() if e.kind in ('call', 'ucall') and method(e) == 'operator()' and e.obj is not None and tok_field(e.obj, 'generator')]
    c.expect(gs and all(any(x[0] == 'op' and x[1] == '%' and x[3] == ('const', 1000000) for x in subterms(strip(e.args[2]))) for e in gs if len(e.args) == 3),
             'placeholder', c.loc(o), c.fname(o), 'the fraction is not reduced to microseconds of a second')


def attr_of(t):
    """Attribute element a term is a part of: record.attributes() -> list -> attribute."""
    for x in subterms(strip(t)):
        if x[0] in ('elem', 'index') and strip(x[1])[0] in ('elem', 'index') and any(rec_call(y, 'attributes') for y in subterms(x)):
            return x
    return None


def lists_of(t):
    """'lists' if a container is record.attributes(), 'attrs' if it is one of its lists."""
    t = strip(t)
    if rec_call(t, 'attributes'):
        return 'lists'
    if t[0] in ('elem', 'index') and rec_call(t[1], 'attributes'):
        return 'attrs'
    return None


def name_test(ev, name):
    """(attribute, equal) of a comparison of an attribute name with `name`."""
    if ev.kind != 'branch':
        return None
    t, pol = norm(ev)
    pair = None
    if t[0] == 'cmp' and t[1] == '==':
        pair = (t[2], t[3])
    elif t[0] == 'truth' and t[1][0] == 'call' and fn_name(t[1][1]) in ('operator==', 'operator!='):
        x = t[1]
        a = ([x[2]] if x[2] is not None else []) + list(x[3])
        pair = tuple(a[:2])
        if fn_name(x[1]) == 'operator!=':
            pol = not pol
    if pair is None or len(pair) != 2:
        return None
    a, b = val(pair[0]), val(pair[1])
    for x, y in ((a, b), (b, a)):
        if x[0] == 'field' and x[2] == 'first' and attr_of(x) is not None and name(y):
            return attr_of(x), pol
    return None


def generic(c, o, g, kind, R, W):
    """Monitor of attribute placeholders: the first attribute with the name is printed; absence is established only
    after every attribute of every list was compared."""
    def step(s, ev):
        if s == 'DEAD':
            return s
        phase, cmpd, found, seq = s
        if ev.kind == 'branch':
            t, pol = norm(ev)
            if found and t[0] == 'truth' and attr_of(t[1]) is not None and not pol:
                return 'DEAD'
            x = name_test(ev, lambda y: tok_field(y, 'name'))
            if x is not None:
                if found:
                    return s
                return (phase, True, x[1], seq)
        if ev.kind == 'iter':
            w = lists_of(ev.over)
            if w == 'attrs':
                if found:
                    return ('BAD', 'the search goes on after the attribute was found')
                if phase == 'attr' and not cmpd:
                    return ('BAD', 'an attribute is skipped in the search')
                return ('attr', False, False, seq)
            if w == 'lists':
                if phase == 'attr':
                    return ('BAD', 'the search leaves a list before its end')
                if phase == 'list':
                    return ('BAD', 'a list of attributes is skipped in the search')
                return ('list', False, False, seq)
        if ev.kind == 'done':
            w = lists_of(ev.over)
            if w == 'attrs':
                if phase == 'attr' and not cmpd:
                    return ('BAD', 'an attribute is skipped in the search')
                return ('between', False, found, seq)
            if w == 'lists':
                if phase == 'list':
                    return ('BAD', 'a list of attributes is skipped in the search')
                return ('all', False, found, seq)
        v = visit(ev) if ev.kind in ('call', 'ucall') else None
        x = fout(ev) if ev.kind == 'call' else None
        if v is not None:
            if tok_field(v[1], 'otherwise'):
                if found or phase != 'all':
                    return ('BAD', 'the fallback is printed although not every attribute was looked at or one was found')
                if seq:
                    return ('BAD', 'the fallback is printed after %s' % (seq,))
                return (phase, cmpd, found, seq + ('otherwise',))
            a = attr_of(v[1])
            if a is None or not found:
                return ('BAD', 'prints %s, which is not the attribute that was found' % show(v[1]))
            if 'value' in seq:
                return ('BAD', 'the attribute is printed twice')
            if not any(y[0] == 'field' and y[2] == 'second' for y in subterms(v[1])):
                return ('BAD', 'not the value of the attribute is printed')
            return (phase, cmpd, found, seq + ('value',))
        if x is not None and x[0] == W:
            vs = ([x[1]] if x[1] is not None and not x[2] else []) + x[2]
            n = val(vs[0])[2] if len(vs) == 1 and val(vs[0])[0] == 'field' and is_param(val(vs[0])[1]) else None
            if n == 'prefix' and found and not seq:
                return (phase, cmpd, found, ('prefix',))
            if n == 'suffix' and found and seq and seq[-1] == 'value':
                return (phase, cmpd, found, seq + ('suffix',))
            if n == 'otherwise' and not found and phase == 'all':
                return (phase, cmpd, found, seq + ('otherwise',))
            return ('BAD', 'prints %s at the wrong place' % show(vs[0] if vs else ('unk', 0)))
        if ev.kind == 'exit':
            if ev.how == 'throw':
                if kind == 'optional' and not getattr(ev, 'via', None):
                    return ('BAD', 'an optional placeholder raises an error')
                if found or phase != 'all':
                    return ('BAD', 'the attribute is reported missing before every attribute was looked at')
                t = strip(ev.val) if ev.val is not None else None
                return s
            if ev.how == 'return':
                if found and 'value' not in seq:
                    return ('BAD', 'an attribute that was found is not printed')
                if not found:
                    if kind == 'required':
                        return ('BAD', 'a missing required attribute is not reported')
                    if 'otherwise' not in seq:
                        return ('BAD', 'the fallback of an optional attribute is not printed')
        return s
    c.run('attribute-search', o, g, ('start', False, False, ()), step)
    for e in g.events():
        if e.kind == 'exit' and e.how == 'throw' and kind == 'required':
            c.expect(std_exception(c, e), 'attribute-search', c.loc(o), c.fname(o), 'the missing attribute is not reported as std::exception')
    nested(c, o, g, W)


def std_exception(c, e):
    t = getattr(e, 't', None) or ''
    return 'logic_error' in str(t) or 'runtime_error' in str(t) or 'std::' in str(t)


def nested(c, o, g, W, done=None):
    """Visitors over attribute values used in g: bound to the writer and the specification."""
    for e in g.events():
        v = visit(e)
        if v is None or e.kind == 'thrown':
            continue
        b = bound(g, v[0])
        c.expect(any(writer_of(t) == W for t in b.values()) or vterm_has(v[0], W), 'visitor-binding', e.loc, c.fname(o), 'the value is printed to another writer')
        c.expect(any(spec_of(t) for t in b.values()) or any(spec_of(x) for x in subterms(v[0])), 'visitor-binding', e.loc, c.fname(o), 'the specification is not applied to the value')
        key = (v[0][1], c.loc(o).split(':')[0])
        if key in c.witness:
            continue
        c.seen(key, '')
        c.witness.pop(key)
        if key not in _done(c):
            _done(c).add(key)
            value_ops(c, v[0], operators(c, o, v[0]), c.fname(o))


def vterm_has(v, W):
    return any(writer_of(x) == W for x in subterms(v))


def _done(c):
    if not hasattr(c, '_visitors'):
        c._visitors = set()
    return c._visitors


def zero_test(ev):
    """(counter, outcome says it is zero) for a branch that compares a counter starting at zero with zero."""
    if ev.kind != 'branch' or ev.switch:
        return None
    t, pol = norm(ev)
    x = None
    if t[0] == 'truth':
        x, pol = t[1], not pol
    elif t[0] == 'cmp' and t[1] == '==' and t[3] == ('const', 0):
        x = t[2]
    elif t[0] == 'cmp' and t[1] == '<' and t[2] == ('const', 0):
        x, pol = t[3], not pol
    elif t[0] == 'cmp' and t[1] == '<' and t[3] == ('const', 1):
        x = t[2]
    return (x, pol) if x is not None and x[0] == 'phi' and x[2] == ('const', 0) else None


def counted(step):
    """A monitor that also knows whether a counter that starts at zero was advanced by an earlier iteration."""
    def run(s, ev):
        if s == 'DEAD':
            return s
        s, pend, up = s
        if ev.kind == 'inc' and ev.op == '++' and ev.over is not None and ev.over[0] == 'phi':
            pend = pend | {ev.over}
        elif ev.kind == 'decl':
            ids = {v[0] for v in ev.vars}
            pend = frozenset(x for x in pend if x[1] not in ids)
            up = frozenset(x for x in up if x[1] not in ids)
        elif ev.kind in ('iter', 'done'):
            pend, up = frozenset(), up | pend
        z = zero_test(ev)
        if z is not None and z[1] == (z[0] in up) and (z[0] in up or z[0] not in pend):
            return 'DEAD'
        r = step(s, ev)
        return r if isinstance(r, tuple) and r and r[0] == 'BAD' else (r, pend, up)
    return run


def leftover(c, o, g, R, W):
    bufs = {x[0] for x in (fout(e) for e in g.events()) if x and x[0] != W and x[0][0] in ('ctor', 'init', 'var')}
    for e in g.events():
        v = visit(e)
        if v is not None:
            bufs |= {writer_of(t) for t in bound(g, v[0]).values() if writer_of(t)[0] in ('ctor', 'init', 'var') and 'writer' in str(writer_of(t)[1]).lower()}
    if not c.expect(len(bufs) <= 1, 'leftover', c.loc(o), c.fname(o), 'the attributes are rendered into several buffers'):
        return
    B = next(iter(bufs)) if bufs else W

    def toks(t):
        return tok_field(t, 'tokens')

    def step(s, ev):
        phase, any_, inner, cur, out, empty, around = s
        e = empty_fact(ev)
        if e is not None:
            empty = empty | {e}
        if ev.kind in ('iter', 'done'):
            w = lists_of(ev.over)
            if toks(ev.over):
                if ev.kind == 'iter':
                    if inner == 'tok':
                        return ('BAD', 'a part of the attribute pattern is skipped')
                    if cur not in ('start', 'sep', 'pat'):
                        return ('BAD', 'the attribute pattern is printed without an attribute')
                    if cur == 'start' and any_:
                        return ('BAD', 'no separator between two attributes')
                    return (phase, any_, 'tok', 'pat', out, empty, around)
                if inner == 'tok':
                    return ('BAD', 'a part of the attribute pattern is skipped')
                if cur == 'start' and any_:
                    return ('BAD', 'no separator between two attributes')
                return (phase, True, None, 'end', out, empty, around)
            if w == 'attrs':
                if cur in ('start', 'sep', 'pat'):
                    return ('BAD', 'an attribute is not printed')
                if ev.kind == 'iter':
                    return ('in', any_, None, 'start', out, empty, around)
                return ('list-done', any_, None, None, out, empty, around)
            if w == 'lists':
                if phase == 'list':
                    return ('BAD', 'a list of attributes is skipped')
                if phase == 'in':
                    return ('BAD', 'the rest of a list of attributes is skipped')
                return ('list' if ev.kind == 'iter' else 'all', any_, None, None, out, empty, around)
        v = visit(ev) if ev.kind in ('call', 'ucall') else None
        if v is not None:
            if strip(v[1])[0] not in ('elem', 'index') or not toks(strip(v[1])[1]):
                return ('BAD', 'prints %s instead of the attribute pattern' % show(v[1]))
            if inner != 'tok':
                return ('BAD', 'a part of the attribute pattern is printed twice')
            b = bound(g, v[0])
            if not any(attr_of(t) is not None for t in b.values()):
                return ('BAD', 'the attribute pattern is not applied to the attribute')
            return (phase, any_, 'done', 'pat', out, empty, around)
        x = fout(ev) if ev.kind == 'call' else None
        if x is not None and x[0] in (B, W):
            vs = ([x[1]] if x[1] is not None and not x[2] else []) + x[2]
            t = vs[0] if len(vs) == 1 else None
            if t is not None and tok_field(t, 'prefix') and cur == 'start' and not any_:
                if 'prefix' in around:
                    return ('BAD', 'the prefix is printed twice')
                return (phase, any_, inner, cur, out, empty, around + ('prefix',))
            if t is not None and tok_field(t, 'suffix') and phase == 'all':
                if not any_:
                    return ('BAD', 'the suffix is printed although there are no attributes')
                if 'suffix' in around:
                    return ('BAD', 'the suffix is printed twice')
                return (phase, any_, inner, cur, out, empty, around + ('suffix',))
            if t is not None and tok_field(t, 'separator'):
                if cur != 'start' or not any_:
                    return ('BAD', 'a separator is printed that separates nothing')
                return (phase, any_, inner, 'sep', out, empty, around)
            if B != W and x[0] == W and t is not None and (writer_of(val(t)) == B or (val(t) == ('str', '') and B in empty)):
                if phase != 'all':
                    return ('BAD', 'the attributes are printed before all were collected')
                if out:
                    return ('BAD', 'the attributes are printed twice')
                if x[1] is None or not spec_of(x[1]):
                    return ('BAD', 'the specification is not applied to the attributes')
                if any_ and around != ('prefix', 'suffix'):
                    return ('BAD', 'the attributes are printed without their prefix and suffix')
                return (phase, any_, inner, cur, True, empty, around)
            return ('BAD', 'prints %s at the wrong place' % show(t if t is not None else ('unk', 0)))
        if ev.kind == 'exit' and ev.how == 'return':
            if phase != 'all':
                return ('BAD', 'not every list of attributes is printed')
            if B != W and not out and B not in empty:
                return ('BAD', 'the collected attributes are not printed')
        return (phase, any_, inner, cur, out, empty, around)
    c.run('leftover', o, g, (('start', False, None, None, False, frozenset(), ()), frozenset(), frozenset()), counted(step))
    # the visitor of the attribute pattern
    for e in g.events():
        v = visit(e)
        if v is None:
            continue
        b = bound(g, v[0])
        af = [n for n, t in b.items() if attr_of(t) is not None]
        wf = [n for n, t in b.items() if writer_of(t) == B]
        if not c.expect(af and wf, 'visitor-binding', e.loc, c.fname(o), 'the attribute pattern is not bound to attribute and buffer'):
            return
        A, WW = ('field', ('this',), af[0]), ('field', ('this',), wf[0])
        ops = operators(c, o, v[0])
        for key, what in (('literal_t', 'the literal'), ('placeholder::attribute<formatter::string::name>', 'the name of the attribute'),
                          ('placeholder::attribute<formatter::string::value>', 'the value of the attribute')):
            os = [q for q in ops if key in sig(ptype(q))]
            if not c.expect(os, 'leftover', c.loc(o), key, 'no operator for ' + key):
                continue
            gg = graph(c, os[0])
            if key == 'literal_t':
                printed(c, 'leftover', os[0], gg, WW, lambda t: tok_field(t, 'value'), what, spec=None)
            elif 'name' in key:
                printed(c, 'leftover', os[0], gg, WW, lambda t: t == ('field', A, 'first'), what)
            else:
                def step2(s, ev):
                    x = visit(ev) if ev.kind in ('call', 'ucall') else None
                    if x is not None:
                        if s:
                            return ('BAD', what + ' is printed twice')
                        if not contains(x[1], ('field', A, 'second')):
                            return ('BAD', 'prints %s instead of %s' % (show(x[1]), what))
                        return 1
                    if ev.kind == 'exit' and ev.how == 'return' and not s:
                        return ('BAD', what + ' is not printed')
                    return s
                c.run('leftover', os[0], gg, 0, step2)
                nested(c, os[0], gg, WW)
        return
    c.bad('leftover', c.loc(o), c.fname(o), 'the attribute pattern is not used')


def mappings(c):
    """Severity mappings of the library print the name from the table exactly for the severities inside of it, and the
    number for all others, in the given format."""
    fs = [f for f in c.fns(name='operator()', pred=lambda f: f.get('cfg') and len(f['params']) == 3) if f['params'][0]['t'] == 'int'
          and 'string' in f['params'][1]['t'] and 'writer_t' in f['params'][2]['t'] and f['qn'].startswith('blackhole::')]
    c.need(fs, 'severity mapping')
    for f in fs:
        g = c.graph(f, ('call', 'ucall', 'branch', 'exit'))

        def at(v):
            """(table, index) of a look-up by the severity."""
            if v[0] == 'index':
                t, i = v[1], strip(v[2])
            elif v[0] == 'call' and fn_name(v[1]) in ('operator[]', 'at') and len(v[3]) == 1:
                t, i = v[2], strip(v[3][0])
            else:
                return None
            return (strip(t), i) if is_param(i, 0) else None
        tables = {at(v)[0] for e in g.events() for v in ((fout(e) or (0, 0, ()))[2]) if at(v)}

        def step(s, ev):
            lo, hi, n = s
            if ev.kind == 'branch':
                t, pol = norm(ev)
                if t[0] == 'cmp' and t[1] == '<':
                    a, b = strip(t[2]), strip(t[3])
                    if is_param(a, 0) and b == ('const', 0):
                        return not pol, hi, n
                    if a == ('const', -1) and is_param(b, 0):
                        return pol, hi, n
                    if is_param(a, 0) and b[0] == 'call' and fn_name(b[1]) == 'size' and b[2] is not None and strip(b[2]) in tables:
                        # an unsigned comparison excludes negative numbers as well
                        return (True if pol and not ev.signed else lo), pol, n
                return s
            x = fout(ev)
            if x and ev.kind == 'call' and is_param(x[0], 2):
                v = x[2][0] if len(x[2]) == 1 else ('?',)
                if n:
                    return ('BAD', 'a severity is printed twice')
                if x[1] is None or not is_param(val(x[1]), 1):
                    return ('BAD', 'the specification is not applied to the severity')
                if at(v):
                    if not (lo and hi):
                        return ('BAD', 'the table of severity names is read outside of its bounds')
                elif is_param(v, 0):
                    if tables and lo is not False and hi is not False:
                        return ('BAD', 'a severity that has a name can be printed as a number')
                else:
                    return ('BAD', 'prints %s instead of the severity' % show(v))
                return lo, hi, 1
            if ev.kind == 'exit' and ev.how == 'return' and not n:
                return ('BAD', 'a severity is not printed')
            return s
        c.run('severity-name', f, g, (None, None, 0), step)


def tokenizer(c):
    """Whoever pulls tokens from the parser keeps each of them, in order, until there are no more."""
    NEXT = 'blackhole::formatter::string::parser_t::next'
    use = [f for f in c.p.functions.values() if f.get('cfg') and f.get('cls') != 'blackhole::formatter::string::parser_t' and
           any(n.get('fn', {}).get('qn') == NEXT for n in f['nodes'].values())]
    c.need(use, 'users of ' + NEXT)
    for f in use:
        g = c.graph(f, EV, opaque=(NEXT,))

        def isnext(t):
            return any(x[0] == 'call' and x[1] == NEXT for x in subterms(strip(t)))

        def step(s, ev):
            pend, into = s
            if ev.kind == 'call' and ev.qn == NEXT:
                if pend == 'some':
                    return ('BAD', 'a parsed token is dropped')
                return ('maybe', into)
            if ev.kind == 'call' and method(ev) in ('emplace_back', 'push_back') and any(isnext(a) for a in ev.args):
                if pend not in ('some', 'maybe'):
                    return ('BAD', 'a parsed token is stored twice')
                return (None, strip(ev.obj))
            pol = None
            if ev.kind == 'branch' and isnext(ev.cond):
                t, pol = norm(ev)
            if ev.kind in ('iter', 'done') and isinstance(ev.over, tuple) and ev.over and ev.over[0] == 'cond' and isnext(ev.over):
                pol = ev.kind == 'iter'
            if pol is not None and pend:
                return ('some' if pol else 'none', into)
            if ev.kind == 'exit' and ev.how == 'return':
                if pend != 'none':
                    return ('BAD', 'tokenizing ends before the parser has no more tokens')
                if into is not None and ev.val is not None and val(strip(ev.val)) != into and not contains(strip(ev.val), into):
                    return ('BAD', 'the collected tokens are not returned')
            return s
        c.run('tokenizer', f, g, (None, None), step)


NAMES = {
    'message': ('message_t', {}),
    'process': ('process<blackhole::formatter::string::id>', {'s': 'process<blackhole::formatter::string::name>'}),
    'thread': ('thread<blackhole::formatter::string::hex>', {'d': 'thread<blackhole::formatter::string::id>', 's': 'thread<blackhole::formatter::string::name>',
                                                            'x': 'thread<blackhole::formatter::string::hex>'}),
    'severity': ('severity<blackhole::formatter::string::user>', {'d': 'severity<blackhole::formatter::string::num>'}),
    'timestamp': ('timestamp<blackhole::formatter::string::user>', {'d': 'timestamp<blackhole::formatter::string::num>',
                                                                    'l': 'timestamp<blackhole::formatter::string::user>'}),
    '...': ('leftover_t', {}),
}


def selection(c):
    """Placeholder names and type letters select the documented placeholders."""
    PRS = 'blackhole::formatter::string::parser_t'
    ctors = [f for f in c.fns(cls=PRS, name='parser_t', pred=lambda f: f.get('cfg') and f.get('ctor') or f['name'] == 'parser_t') if f['params'] and 'parser_t' not in f['params'][0]['t']]
    f = c.need(ctors, PRS + ' constructor')[0]
    g = c.graph(f, ('call', 'assign', 'ctor'))
    found = {}
    for e in g.events():
        ts = [strip(t) for t in list(getattr(e, 'args', None) or ()) + [getattr(e, 'lhs', None), getattr(e, 'rhs', None)] if t]
        for t in ts:
            for u in ts if len(ts) > 1 else [t]:
                pass
        names = {s for t in ts for s in strs(t) if s in NAMES}
        cls = {x[1] for t in ts for x in subterms(t) if x[0] in ('ctor', 'new') and 'factory' in str(x[1]) and str(x[1]).startswith('blackhole::')}
        if len(names) == 1 and len(cls) == 1:
            found.setdefault(next(iter(names)), set()).update(cls)
    for name, (default, letters) in NAMES.items():
        if not c.expect(len(found.get(name, ())) == 1, 'placeholder-name', c.loc(f), name, 'the placeholder {%s} has no unique meaning' % name):
            continue
        cls = next(iter(found[name]))
        for q in methods_of(c, cls, 'initialize'):
            gi = c.graph(q, ('exit',), opaque=('blackhole::datetime::make_generator',))
            for t in returned(gi):
                c.expect(token_type(t, default), 'placeholder-name', c.loc(q), name, '{%s} does not give %s' % (name, default))
        for q in methods_of(c, cls, 'match'):
            letter_paths(c, q, name, default, letters)


def methods_of(c, cls, name):
    out = c.fns(cls=cls, name=name, pred=lambda f: f.get('cfg'))
    seen = [cls]
    while not out and seen:
        k = seen.pop()
        r = c.p.records.get(k)
        for b in (r or {}).get('bases', ()):
            out = out or c.fns(cls=b['t'], name=name, pred=lambda f: f.get('cfg'))
            seen.append(b['t'])
    return c.need(out, '%s::%s' % (cls, name))


def token_type(t, want):
    full = [x for x in subterms(t) if x[0] in ('ctor', 'init') and str(x[1]).startswith('blackhole::formatter::string::')]
    if full:
        return any(str(x[1]).endswith('::' + want) for x in full[:1])
    return any(x[0] == 'call' and want.split('_')[0] in str(x[1]) for x in subterms(t))


def letter_paths(c, f, name, default, letters):
    g = c.graph(f, ('branch', 'exit'), opaque=('blackhole::datetime::make_generator', 'blackhole::formatter::string::parse_leftover'))

    def last(t):
        """Is a term the type letter, the last character before the closing brace?"""
        t = strip(t)
        if t[0] == 'index' and is_param(t[1]):
            i = t[2]
            return i[0] == 'op' and i[1] == '-' and i[3] == ('const', 2)
        return t[0] == 'call' and fn_name(t[1]) in ('at', 'operator[]')

    def step(s, ev):
        if ev.kind == 'branch':
            t, pol = norm(ev)
            if t[0] == 'cmp' and t[1] == '==' and s is None:
                for a, b in ((t[2], t[3]), (t[3], t[2])):
                    if last(a) and b[0] == 'const' and isinstance(b[1], int) and pol:
                        return chr(b[1]) if 0 < b[1] < 128 else '?'
            return s
        if ev.kind == 'exit' and ev.how == 'return':
            want = letters.get(s, default)
            t = strip(ev.val)
            if not token_type(t, want):
                return ('BAD', '{%s:%s} does not give %s' % (name, s or '', want))
            tok = [x for x in subterms(t) if x[0] in ('ctor', 'init') and str(x[1]).endswith('::' + want)]
            if name == 'timestamp' and tok and 'user' in want and len(tok[0][2]) == 3:
                b = tok[0][2][2]
                if b != ('const', s != 'l') and b != ('const', int(s != 'l')):
                    return ('BAD', '{timestamp:%s} is not %s time' % (s or '', 'local' if s == 'l' else 'universal'))
            if tok and not tok[0][2]:
                return ('BAD', 'the specification of {%s:%s} is dropped' % (name, s or ''))
        return s
    c.run('type-letter', f, g, None, step)
