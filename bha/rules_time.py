"""C38: time patterns and broken-down times."""
from .engine import strip, subterms, contains, fn_name, show, strlit, DEAD
from .rule import prop, norm, method, each_once
from .rules_node import simple
from .fmtout import fout, writer_of, whole, val

GEN = 'blackhole::datetime::generator_t'
RENDER = GEN + '::operator()'
MAKE = 'blackhole::datetime::make_generator'
OWN = ('blackhole::gmtime', 'blackhole::localtime')
REENTRANT = {'gmtime_r': 'universal', 'localtime_r': 'local', 'gmtime': 'universal', 'localtime': 'local'}
TM = ('tm_sec', 'tm_min', 'tm_hour', 'tm_mday', 'tm_mon', 'tm_year', 'tm_wday', 'tm_yday', 'tm_isdst', 'tm_gmtoff', 'tm_zone')
GROW = ('push_back', 'append', 'operator+=', 'assign', 'insert')


def tokens_of(c):
    fs = [x['name'] for x in c.fields(GEN, 'vector<')]
    c.need(len(fs) == 1, 'the tokens of a time pattern')
    return fs[0]


def bare(t):
    return str(t or '').replace('const ', '').rstrip(' &*')


def text_of(t):
    """A string literal or a single character as a text."""
    t = strip(t)
    s = strlit(t)
    if s is not None:
        return s
    if t[0] == 'const' and isinstance(t[1], int) and 0 <= t[1] < 256:
        return chr(t[1])
    return None


def prefix_fact(ev):
    """(text, holds) of a branch asking whether the rest of the pattern starts with a text."""
    if ev.kind != 'branch':
        return None
    t, pol = norm(ev)
    if t[0] == 'truth':
        t = strip(t[1])
    if t[0] == 'call' and fn_name(t[1]) == 'starts_with':
        for x in t[3]:
            if strlit(strip(x)) is not None:
                return strlit(strip(x)), pol
    if t[0] == 'cmp' and t[1] == '==':
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            a, b = strip(a), strip(b)
            if a[0] == 'call' and fn_name(a[1]) == 'compare' and b == ('const', 0) and len(a[3]) == 3:
                x, n = strlit(strip(a[3][2])), strip(a[3][1])
                if x is not None and n == ('const', len(x)):
                    return x, pol
            if a[0] in ('elem', 'index') and b[0] == 'const' and b[1] == 37 and not pol:
                return '', pol
    return None


def overloads(c):
    """{type of a token: (what its overload of the visitor prints, function)}."""
    r = c.fns(cls=GEN, name='operator()')
    c.need(len(r) == 1, 'the rendering of time patterns')
    g = c.graph(r[0], ('enter', 'exit'))
    entered = {str(e.qn) for e in g.events() if e.kind == 'enter' and any(strip(a)[0] == 'alt' for a in e.args or ())}
    c.need(entered, 'the overloads for the tokens of a time pattern')
    out = {}
    for f in c.fns(pred=lambda f: f.get('qn') in entered and f.get('nodes') and len(f['params']) == 1):
        gi = c.graph(f, ('call', 'ucall', 'exit'))
        names = {method(e) for e in gi.events() if e.kind in ('call', 'ucall')}
        k = 'text' if 'strftime' in names else 'epoch' if names & {'timegm', 'mktime', 'timelocal', 'gmtime_r'} else \
            'fraction' if any(fout(e) for e in gi.events() if e.kind == 'call') else 'nothing'
        out[bare(f['params'][0]['t'])] = (k, f)
    return r[0], out


def tokenize(c, roles):
    """Every character of the pattern ends up in exactly one token, in order."""
    toks = ('field', ('this',), tokens_of(c))
    short = {k.split('::')[-1]: v[0] for k, v in roles.items()}
    want = {'%f': 'fraction', '%s': 'epoch'}
    found = 0
    for f in c.fns(pred=lambda f: f.get('ctor') and f.get('cls') == GEN and len(f['params']) == 1 and 'basic_string' in f['params'][0]['t']):
        found += 1
        pat = ('param', f['name'], 0, f['params'][0]['name'])
        ofpat = lambda t: any(x[0] == 'param' for x in subterms(strip(t)))
        g = c.graph(f, ('call', 'iter', 'done', 'inc', 'branch', 'assign', 'exit', 'throw'))

        def index(t):
            t = strip(t)
            return t[0] == 'phi' and (('const', 0) in t[2:] or None in t[2:])

        def buffer(t):
            t = strip(t) if t is not None else None
            return t is not None and t[0] in ('ctor', 'init', 'local', 'opaque') and 'basic_string' in str(t[1])

        def token(t):
            for x in subterms(strip(t)):
                if x[0] in ('init', 'ctor') and str(x[1]).split('::')[-1] in short:
                    return str(x[1]).split('::')[-1], x
            return None, None

        def step(s, ev):
            # text gathered: empty / filled / already a token; what the turn consumed, the known beginning, what it made of it
            lit, turn = s
            if ev.kind in ('iter', 'done') and ofpat(ev.over):
                if turn is not None:
                    adv, begin, out, tok, no = turn
                    if begin is None or tok is None and begin not in want:
                        if tok is not None:
                            return ('BAD', 'a token is made although no placeholder was found')
                        if adv != len(out) or begin is not None and out != begin[:adv] and out != '?':
                            return ('BAD', 'the pattern is advanced by %d where %d characters are taken' % (adv, len(out)))
                        if begin is not None and (out == '?' or adv != len(begin)):
                            return ('BAD', 'an escaped percent sign is taken apart')
                        if begin is None and not {'%f', '%s', '%%'} <= no:
                            return ('BAD', 'a character is taken as text without looking for %s' % ', '.join(sorted({'%f', '%s', '%%'} - no)))
                    elif begin in want and tok != want[begin]:
                        return ('BAD', '%s of a time pattern becomes %s instead of %s' % (begin, tok or 'text', want[begin]))
                    elif begin in want and (adv != 2 or out):
                        return ('BAD', 'the placeholder %s is not exactly replaced by its token' % begin)
                return (lit, (0, None, '', None, frozenset()) if ev.kind == 'iter' else None)
            p = prefix_fact(ev)
            if p is not None and turn is not None:
                if p[1]:
                    return (lit, (turn[0], p[0]) + turn[2:])
                return (lit, turn[:4] + (turn[4] | ({p[0]} if p[0] else {'%f', '%s', '%%'}),))
            if ev.kind == 'branch':
                t, pol = norm(ev)
                if t[0] == 'truth' and t[1][0] == 'call' and fn_name(t[1][1]) in ('size', 'length') and buffer(t[1][2]):
                    if not pol and lit == 'filled':
                        return ('empty', turn)
                    if pol and lit == 'empty':
                        return DEAD
                return s
            hop = None
            if ev.kind == 'inc' and (ofpat(ev.over) or index(ev.over)):
                hop = ev.n if isinstance(ev.n, int) else 1
            elif ev.kind == 'assign' and strip(ev.rhs)[0] == 'op' and strip(ev.rhs)[1] in ('+', '+=') and index(strip(ev.rhs)[2]) and strip(ev.rhs)[3][0] == 'const':
                hop = strip(ev.rhs)[3][1]
            if hop is not None:
                if turn is None:
                    return ('BAD', 'a character of the pattern is passed over')
                n = turn[0] + hop
                return (lit, (n,) + turn[1:4] + (turn[4] | {'post'} if ev.post and n == 1 else turn[4] - {'post'},))
            if ev.kind == 'assign' and (buffer(ev.lhs) or strip(ev.lhs)[0] == 'var' and 'basic_string::operator=' in str(ev.qn)):
                return ('BAD', 'text of the pattern is overwritten') if lit == 'filled' else ('empty', turn)
            if ev.kind != 'call':
                if ev.kind == 'exit' and ev.how == 'return':
                    if lit == 'filled':
                        return ('BAD', 'the text at the end of the pattern is lost')
                    if turn is not None:
                        return ('BAD', 'the rest of the pattern is not read')
                return s
            m = method(ev)
            if ev.obj is not None and strip(ev.obj) == toks:
                if m in ('push_back', 'emplace_back'):
                    k, x = token(ev.args[0]) if ev.args else (None, None)
                    if k is None:
                        return ('BAD', 'a token of unknown kind is added: %s' % show(ev.args[0] if ev.args else None))
                    if short[k] == 'text':
                        if not any(buffer(y) for y in subterms(x)):
                            return ('BAD', 'a text token is made of %s' % show(x))
                        if lit == 'token':
                            return ('BAD', 'the same text becomes a token twice')
                        return ('token', turn)
                    if lit == 'filled':
                        return ('BAD', 'a placeholder gets before the text in front of it')
                    if turn is None or turn[3] is not None:
                        return ('BAD', 'a placeholder is added twice')
                    return (lit, turn[:3] + (short[k], turn[4]))
                if m in ('reserve', 'size', 'empty', 'begin', 'end', 'shrink_to_fit', 'capacity'):
                    return s
                return ('BAD', '%s changes the order or number of the tokens' % m)
            if buffer(ev.obj):
                if m in ('clear',):
                    return ('BAD', 'text of the pattern is dropped') if lit == 'filled' else ('empty', turn)
                if m in GROW:
                    if lit == 'token':
                        return ('BAD', 'the same text becomes a token twice')
                    t = [text_of(a) for a in ev.args]
                    t = next((x for x in t if x is not None), None)
                    if t is None:
                        if not any(x[0] in ('elem', 'iter', 'index') for a in ev.args for x in subterms(strip(a))):
                            return ('BAD', 'the text gets %s, which is not in the pattern' % ', '.join(show(a) for a in ev.args))
                        if turn is None or turn[0] != ('post' in turn[4]):
                            return ('BAD', 'another character than the current one is taken')
                        t = '?'
                    if turn is None:
                        return ('BAD', 'text that is not in the pattern is added')
                    return ('filled', turn[:2] + (turn[2] + t,) + turn[3:])
                if m in ('resize', 'erase', 'pop_back', 'swap', 'insert', 'replace'):
                    return ('BAD', 'text of the pattern is changed by %s' % m)
            return s
        c.run('tokenize', f, g, ('empty', None), step, c.fname(f))
    c.need(found == 1, 'the constructor of time patterns')


def render(c, r, roles):
    """Every token is printed once, in order, to the stream given."""
    toks = ('field', ('this',), tokens_of(c))
    g = c.graph(r, ('iter', 'done', 'enter', 'branch', 'exit'))

    def printing(ev):
        if ev.kind == 'enter':
            for a in ev.args or ():
                x = strip(a)
                if x[0] == 'alt':
                    return x[1]
        return None
    each_once(c, 'render', r, g, lambda t: strip(t) == toks, printing, c.fname(r), 'printing a token')
    c.expect(sorted(k for k, f in roles.values()) == ['epoch', 'fraction', 'text'], 'render', c.loc(r), c.fname(r),
             'the kinds of tokens are printed as %s' % ', '.join(sorted(k for k, f in roles.values())))


def text_overload(c, f):
    """All that strftime makes of the text is printed: nothing is cut at a NUL, and a result that did not fit is not taken for none."""
    g = c.graph(f, ('call', 'ucall', 'ctor', 'branch', 'assign', 'decl', 'exit', 'iter', 'done'))
    par = ('param', f['name'], 0, f['params'][0]['name'])
    calls = [e for e in g.events() if e.kind == 'call' and method(e) == 'strftime']
    c.need(calls, 'the call of strftime')
    for e in calls:
        buf, n, fmt, tm = (strip(a) for a in e.args)
        fits = n[0] == 'call' and fn_name(n[1]) == 'size' and simple(n[2]) == simple(buf[2] if buf[0] == 'call' and buf[2] else buf) \
            or n[0] == 'const' and any(n[1] == x for x in extents(c, f, buf))
        c.expect(fits, 'strftime', e.loc, c.fname(f), 'the size given for the buffer of strftime is %s' % show(n))
        c.expect(any(x == par for x in subterms(fmt)), 'strftime', e.loc, c.fname(f), 'strftime gets another format than the text: %s' % show(fmt))
        c.expect(fmt[0] == 'call' and fn_name(fmt[1]) in ('c_str', 'data') and any(splits(x) for x in subterms(fmt)), 'strftime', e.loc, c.fname(f),
                 'text after a NUL character is lost: strftime gets %s' % show(fmt))

    def result(t):
        return [x for x in subterms(strip(t)) if x[0] == 'call' and fn_name(x[1]) == 'strftime']

    def step(s, ev):
        # the result of the last call: none / unknown / known to have fitted / printed; whether the format has a character of its own at the end
        st, grown, tail = s
        if ev.kind == 'call' and method(ev) == 'strftime':
            if st == 'unknown':
                return ('BAD', 'the result of strftime is not looked at')
            if st == 'failed' and not grown:
                return ('BAD', 'strftime is called again with the same buffer')
            if st == 'fits':
                return ('BAD', 'what strftime made of the text is not printed')
            return ('unknown', False, tail)
        if ev.kind in ('branch', 'iter', 'done') and ev.cond is not None and st in ('unknown', 'failed', 'fits'):
            t, pol = norm(ev)
            ok = None
            if t[0] == 'truth' and strip(t[1])[0] == 'call' and fn_name(strip(t[1])[1]) == 'strftime':
                ok = pol
            elif t[0] == 'cmp' and any(result(x) for x in (t[2], t[3])):
                a, b = strip(t[2]), strip(t[3])
                zero = ('const', 0) in (a, b)
                if t[1] == '==' and zero:
                    ok = not pol
                elif t[1] == '<' and a == ('const', 0):
                    ok = pol
                elif t[1] == '<' and b == ('const', 1):
                    ok = not pol
            if ok is not None:
                return ('fits' if ok else 'failed', grown, tail)
            return s
        if ev.kind == 'call' and method(ev) in ('resize', 'reserve', 'assign') and ev.obj is not None and any(contains(strip(e.args[0]), strip(ev.obj)) for e in calls):
            x = strip(ev.args[0])
            if method(ev) != 'reserve' and x[0] in ('op', 'bin') and x[1] in ('*', '+', '<<') and any(y[0] == 'call' and fn_name(y[1]) in ('size', 'capacity') for y in subterms(x)):
                return (st, True, tail)
            return s
        if ev.kind == 'call' and method(ev) in ('push_back', 'append', 'operator+=') and ev.obj is not None and any(contains(strip(e.args[2]), strip(ev.obj)) for e in calls):
            t = text_of(ev.args[-1])
            if t is None or len(t) != 1 or t in '%\0':
                return ('BAD', 'the format is changed by appending %s' % show(ev.args[-1]))
            return (st, grown, True)
        x = fout(ev)
        if x and ev.kind == 'call' and any(result(v) for v in list(x[2]) + list(ev.args or ())):
            if st != 'fits':
                return ('BAD', 'text is lost when it does not fit: the result of strftime is printed although it may be 0')
            ln = next((v for v in lengths(x[2])), None)
            if ln is None or ln != (1 if tail else 0):
                return ('BAD', 'the text printed is not what strftime made of the format')
            return ('printed', False, False)
        if ev.kind == 'exit' and ev.how == 'return':
            if st in ('unknown', 'failed', 'fits'):
                return ('BAD', 'the text is lost: nothing is printed after strftime')
        return s

    def lengths(vs):
        for v in vs:
            for x in subterms(strip(v)):
                if x[0] in ('init', 'ctor') and len(x[2]) == 2:
                    n = strip(x[2][1])
                    if n[0] == 'call' and fn_name(n[1]) == 'strftime':
                        yield 0
                    elif n[0] == 'op' and n[1] == '-' and strip(n[2])[0] == 'call' and fn_name(strip(n[2])[1]) == 'strftime' and strip(n[3])[0] == 'const':
                        yield strip(n[3])[1]
    c.run('strftime', f, g, ('none', False, False), step, c.fname(f))


def values(c, r, roles):
    """Everything goes to the stream given, the fraction is the one given in six digits, the epoch that of the time given."""
    g = c.graph(r, ('call', 'ucall', 'copy', 'assign', 'iter', 'done', 'enter', 'leave', 'exit'))
    ps = [('param', r['name'], i, p['name']) for i, p in enumerate(r['params'])]
    c.need(len(ps) == 3, 'the parameters of the rendering')
    kinds = {k: bare(t).split('::')[-1] for t, (k, f) in roles.items()}
    given = {ps[1]}
    for e in g.events():
        if e.kind == 'assign' and strip(e.rhs) == ps[1]:
            given.add(strip(e.lhs))

    def step(s, ev):
        kind, copied, n = s
        if ev.kind == 'enter':
            for x in [strip(a) for a in ev.args or ()]:
                    if x[0] == 'alt':
                        return (next((k for k, t in kinds.items() if bare(x[2]).split('::')[-1] == t), None), False, 0)
        if ev.kind in ('iter', 'done') and kind in ('fraction', 'epoch'):
            if n != 1:
                return ('BAD', 'the %s is printed %d times' % (kind, n))
            return (None, False, 0)
        if ev.kind == 'copy' and strip(ev.val) in given:
            return (kind, True, n)
        if ev.kind in ('call', 'ucall') and method(ev) in ('timegm', 'mktime', 'timelocal'):
            if method(ev) != 'timegm':
                return ('BAD', '%s takes the time given for one of the current time zone' % method(ev))
            if not copied:
                return ('BAD', 'the time given is changed by timegm, so that what is printed after it is not what was asked for')
        x = fout(ev) if ev.kind == 'call' else None
        if x:
            if writer_of(x[0]) != writer_of(ps[0]) and strip(x[0]) != ps[0]:
                return ('BAD', 'the text goes to %s and not to the stream given' % show(x[0]))
            if kind in ('fraction', 'epoch'):
                if len(x[2]) != 1:
                    return ('BAD', 'the %s is printed with %d values' % (kind, len(x[2])))
                v = strip(x[2][0])
                spec = strlit(strip(x[1])) if isinstance(x[1], tuple) else x[1]
                if kind == 'fraction':
                    if v != ps[2]:
                        return ('BAD', 'the fraction is printed as %s' % show(v))
                    if spec not in ('{:06d}', '{:06}', '{:0>6}', '{:0>6d}', '{0:06d}', '{0:06}'):
                        return ('BAD', 'the fraction is not printed in six digits: %s' % show(x[1]) if isinstance(x[1], tuple) else 'the fraction is not printed in six digits: %s' % x[1])
                else:
                    ok = v[0] == 'op' and v[1] == '-' and strip(v[2])[0] == 'call' and fn_name(strip(v[2])[1]) == 'timegm' and \
                        strip(strip(v[2])[3][0]) in given and strip(v[3])[0] == 'field' and strip(v[3])[2] == 'tm_gmtoff' and strip(strip(v[3])[1]) in given
                    if not ok:
                        return ('BAD', 'the epoch is %s, which is not that of the time given' % show(v))
                    if spec not in (None, '{}', '{:d}', '{0}'):
                        return ('BAD', 'the epoch is printed as %s' % spec)
                return (kind, copied, n + 1)
        return s
    c.run('values', r, g, (None, False, 0), step, c.fname(r))


def breakdown(c):
    """Every time given to a time pattern was completely taken from the record's own timestamp, in the zone asked for."""
    ops = (RENDER,) + OWN
    fs = [f for f in c.fns(pred=lambda f: f.get('nodes') and f.get('cls') != GEN and str(f.get('file', '')).startswith(c.p.root))
          if 'datetime::generator_t' in repr(f['nodes']) and 'operator()' in repr(f['nodes'])]
    n = 0
    for f in fs:
        g = c.graph(f, ('call', 'ucall', 'branch', 'assign', 'decl', 'ctor', 'exit'), opaque=ops)
        uses = [e for e in g.events() if e.kind in ('call', 'ucall') and str(e.qn or (e.fnref or {}).get('qn')) == RENDER]
        if not uses:
            continue
        n += 1

        def source(t):
            """Timestamp a term was made from."""
            for x in subterms(strip(t)):
                if x[0] == 'call' and fn_name(x[1]) in ('to_time_t', 'time_since_epoch'):
                    y = x[3][0] if fn_name(x[1]) == 'to_time_t' and x[3] else x[2]
                    return simple(y)
            return None

        def step(s, ev):
            zone, filled = s
            if ev.kind == 'branch':
                t, pol = norm(ev)
                if t[0] == 'truth':
                    x = strip(t[1])
                    if x[0] in ('field', 'param') and x[-1] == 'gmtime':
                        return ('universal' if pol else 'local', filled)
                return s
            if ev.kind not in ('call', 'ucall'):
                return s
            m = method(ev)
            if m in REENTRANT and len(ev.args or ()) == 2:
                k = REENTRANT[m]
                if zone is not None and zone != k or zone is None and k == 'local':
                    return ('BAD', 'the time is broken down as %s time although the other was asked for' % k)
                ts = source(ev.args[0])
                if ts is None or 'now' in show(strip(ev.args[0])):
                    return ('BAD', 'the time broken down is %s and not the timestamp of the record' % show(ev.args[0]))
                return (zone, (simple(ev.args[1]), ts))
            if str(ev.qn or (ev.fnref or {}).get('qn')) == RENDER:
                if len(ev.args) != 3:
                    return ('BAD', 'the time pattern is not given a time and a fraction')
                if filled is None or simple(ev.args[1]) != filled[0]:
                    return ('BAD', 'the time given to the pattern was not filled on this path')
                u = strip(ev.args[2])
                us = source(u)
                if us is None or us != filled[1]:
                    return ('BAD', 'the fraction is %s, not that of the timestamp broken down' % show(u))
                ok = u[0] == 'op' and u[1] == '%' and strip(u[3]) == ('const', 1000000)
                if u[0] == 'call' and fn_name(u[1]) == 'count' and strip(u[2])[0] == 'call' and fn_name(strip(u[2])[1]) == 'operator%':
                    one = strip(strip(u[2])[3][-1])
                    ok = one[0] in ('init', 'ctor') and 'ratio<1, 1>' in str(one[1]) and [strip(x) for x in one[2]] == [('const', 1)]
                if not ok:
                    return ('BAD', 'the fraction is %s, not the microseconds of a second' % show(u))
            return s
        c.run('breakdown', f, g, (None, None), step, c.fname(f))
        for e in g.events():
            if e.kind in ('call', 'ucall') and method(e) == 'duration_cast':
                q = str((e.fnref or {}).get('ta') or (e.fnref or {}).get('qn')) + str((e.fnref or {}).get('ret'))
                c.expect('ratio<1, 1000000>' in q, 'breakdown', e.loc, c.fname(f), 'the fraction is not counted in microseconds: %s' % q[:120])
    c.need(n >= 3, 'uses of time patterns')


def conversions(c):
    """The library's own conversion fills every field of the broken-down time; local time is the reentrant one of the system."""
    for q in OWN:
        for f in c.fns(qn=q):
            g = c.graph(f, ('call', 'ucall', 'assign', 'exit'))
            out = ('param', f['name'], 1, f['params'][1]['name'])
            src = ('param', f['name'], 0, f['params'][0]['name'])

            def step(s, ev):
                if ev.kind == 'assign':
                    l = strip(ev.lhs)
                    if l == out or str(ev.qn) == 'tm::operator=':
                        return frozenset(TM)
                    if l[0] == 'field' and strip(l[1]) == out:
                        return s | {l[2]}
                if ev.kind in ('call', 'ucall') and method(ev) in ('gmtime_r', 'localtime_r') and len(ev.args) == 2:
                    if REENTRANT[method(ev)] != REENTRANT[q.split('::')[-1]]:
                        return ('BAD', '%s gives %s time' % (q.split('::')[-1], REENTRANT[method(ev)]))
                    if strip(ev.args[1]) == out and strip(ev.args[0]) == src:
                        return frozenset(TM)
                    return ('BAD', 'another time is broken down: %s' % show(ev.args[0]))
                if ev.kind == 'exit' and ev.how == 'return':
                    left = [x for x in TM if x not in s]
                    if left:
                        return ('BAD', '%s of the time is left unset' % ', '.join(left))
                return s
            c.run('conversion', f, g, frozenset(), step, c.fname(f))


@prop('C38')
def check_c38(c):
    """Typestate analysis of the reading of time patterns (every character in one token, in order), of their rendering (each
    token once, nothing cut or lost by strftime) and of every place that gives them a time."""
    r, roles = overloads(c)
    tokenize(c, roles)
    render(c, r, roles)
    values(c, r, roles)
    for k, f in roles.values():
        if k == 'text':
            text_overload(c, f)
    breakdown(c)
    conversions(c)


def splits(x):
    """A piece of the text that ends where its first NUL is."""
    return x[0] == 'call' and fn_name(x[1]) in ('find', 'memchr', 'strnlen', 'find_first_of') and any(y in (('const', 0), ('str', '\0'), ('char', 0)) for a in (x[3] or ()) for y in subterms(strip(a)))


def extents(c, f, buf):
    import re
    for k in c.p.records.values() if hasattr(c.p, 'records') else ():
        for x in k.get('fields', ()):
            if buf[0] == 'field' and x['name'] == buf[2]:
                m = re.search(r'\[(\d+)\]', x['t'])
                if m:
                    yield int(m.group(1))
