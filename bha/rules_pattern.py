"""C15: malformed patterns are rejected, well-formed ones are read completely."""
from .engine import strip, subterms, contains, fn_name, show
from .rule import prop, norm, method, enum_name, strs
from .prog import AnalysisError

PARSER = 'blackhole::formatter::string::parser_t'
KINDS = ('branch', 'iter', 'done', 'inc', 'deref', 'call', 'assign', 'throw', 'exit', 'ctor')
CTYPE = {'isalpha', 'isdigit', 'isalnum', 'isspace', 'isupper', 'islower', 'ispunct', 'isprint', 'iscntrl', 'isxdigit', 'isgraph', 'isblank', 'tolower', 'toupper'}
GROW = {'push_back', 'append', 'operator+=', 'insert', 'emplace_back'}


def cursor(c):
    """The member of the tokenizer that walks over the pattern."""
    fs = [f['name'] for f in c.fields(PARSER) if 'iterator' in f['t'].lower()]
    c.need(fs, 'position member of ' + PARSER)
    return ('field', ('this',), fs[0])


def ahead(t, pos):
    """Distance of an iterator term from the cursor."""
    n = 0
    t = strip(t)
    while True:
        if t == pos:
            return n
        if t[0] == 'call' and fn_name(t[1]) == 'next' and t[3]:
            k = strip(t[3][1]) if len(t[3]) > 1 else ('const', 1)
            if k[0] != 'const':
                return None
            n += k[1]
            t = strip(t[3][0])
        elif t[0] == 'op' and t[1] == '+' and strip(t[3])[0] == 'const':
            n += strip(t[3])[1]
            t = strip(t[2])
        else:
            return None


def peeked(ev, pos, used, readat):
    """What a branch says about the text from the cursor on: (text, offset in the window, holds) or
    ('class', name, offset, holds)."""
    t, pol = norm(ev)
    if t[0] == 'truth':
        x = strip(t[1])
        if x[0] == 'call' and fn_name(x[1]) in ('starts_with',) and x[3] and len(x[3]) == 2:
            r, s = strip(x[3][0]), strip(x[3][1])
            if r[0] == 'call' and fn_name(r[1]) == 'make_iterator_range' and r[3] and s[0] == 'str':
                n = ahead(r[3][0], pos)
                if n is not None:
                    return (s[1], n + used, pol)
        if x[0] == 'call' and fn_name(x[1]) in CTYPE and x[3] and at(x[3][0], pos) == 0:
            return ('class', fn_name(x[1]), readat, pol)
    if t[0] == 'cmp' and t[1] == '==':
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            b = strip(b)
            if b[0] == 'const' and isinstance(b[1], int) and 0 < b[1] < 128 and at(a, pos) is not None:
                return (chr(b[1]), at(a, pos) + (readat if at(a, pos) == 0 else used), pol)
    return None


def at(t, pos):
    """Offset from the cursor of the character a term is."""
    t = strip(t)
    while t[0] == 'op' and len(t) == 3 and isinstance(t[2], tuple):
        t = strip(t[2])
    if t[0] == 'deref':
        return ahead(t[1], pos)
    if t[0] == 'call' and fn_name(t[1]) == 'operator*':
        return ahead(t[2] or t[3][0], pos)
    return None


def consumers(c, pos, pred):
    out = []
    for f in c.fns(cls=PARSER, pred=lambda f: f.get('cfg') and pred(f)):
        g = c.graph(f, KINDS, uses=True)
        if any(e.kind == 'inc' and strip(e.over) == pos for e in g.events()):
            out.append((f, g))
    return out


class Window:
    """What happened since the loop over the pattern was last entered: characters consumed, characters kept, what the
    text at the cursor is known (not) to start with."""

    def __init__(self, pos, verdict):
        self.pos = pos
        self.verdict = verdict

    def init(self):
        return ((0, 0, 0), frozenset())

    def step(self, s, ev):
        (used, kept, readat), facts = s
        k = ev.kind
        if k in ('branch', 'iter', 'done') and ev.cond is not None:
            p = peeked(ev, self.pos, used, readat)
            if p:
                facts = facts | {p}
            return self.edge(((used, kept, readat), facts), ev)
        if k in ('iter', 'done'):
            return self.edge(s, ev)
        if k == 'deref' and ahead(ev.over, self.pos) == 0:
            return ((used, kept, used - 1 if ev.post else used), facts)
        if k == 'inc' and strip(ev.over) == self.pos:
            if used > 3:
                return s
            return ((used + (ev.n or 1), kept, readat), facts)
        if k in ('call', 'assign') and self.keeps(ev):
            if any(at(a, self.pos) is not None for a in self.kept_values(ev)):
                ok = readat == kept
            else:
                ok = any(strip(a) == ('const', ord(x[0][0])) for a in self.kept_values(ev) for x in facts if x[-1] is True and x[0] and x[1] == kept)
            if not ok:
                return ('BAD', 'a character other than the current one of the pattern is kept')
            return ((used, min(kept + 1, 4), readat), facts)
        if k == 'exit':
            return self.edge(s, ev)
        return s

    def keeps(self, ev):
        return ev.kind == 'call' and method(ev) in GROW and ev.obj is not None and strip(ev.obj)[0] in ('ctor', 'var', 'phi', 'slot') and \
            any(at(a, self.pos) is not None or strip(a)[0] == 'const' for a in self.kept_values(ev))

    def kept_values(self, ev):
        out = []
        for a in ev.args or ():
            a = strip(a)
            if method(ev) in ('append', 'insert') and len(ev.args) == 2 and a == ('const', 1):
                continue
            out.append(a)
        return out

    def edge(self, s, ev):
        """Closes the window at the next look at the loop condition or at the end."""
        k = ev.kind
        loop = k in ('iter', 'done') and self.over_pattern(ev)
        if not loop and k == 'branch':
            t, pol = norm(ev)
            loop = t[0] == 'cmp' and t[1] == '==' and any(strip(x)[0] == 'end' for x in t[2:4]) and any(ahead(x, self.pos) == 0 for x in t[2:4])
        if loop:
            msg = self.verdict(s[0][0], s[0][1], s[1], None)
            return ('BAD', msg) if msg else self.init()
        if k == 'exit':
            msg = self.verdict(s[0][0], s[0][1], s[1], ev)
            return ('BAD', msg) if msg else s
        return s

    def over_pattern(self, ev):
        o = ev.over
        if ev.cond is not None and any(x == self.pos for x in subterms(ev.cond)):
            return True
        return isinstance(o, tuple) and any(x[0] == 'field' and x[1] == ('this',) for x in subterms(o) if len(x) > 1)


def holds(facts, text, n=0):
    return (text, n, True) in facts or len(text) == 2 and (text[0], n, True) in facts and (text[1], n + 1, True) in facts


def excluded(facts, text):
    if (text, 0, False) in facts or len(text) == 2 and (text[1], 1, False) in facts or len(text) == 2 and (text[0], 0, False) in facts:
        return True
    return any(len(x) == 3 and x[2] is True and x[1] == 0 and x[0][0] != text[0] for x in facts) or \
        any(x[0] == 'class' and x[2] == 0 and x[3] for x in facts)


def literal_verdict(used, kept, facts, end):
    if end is not None and end.how != 'return':
        return None
    if used == 0 and kept == 0:
        return None
    if used == 2 and kept == 1:
        if holds(facts, '{{') or holds(facts, '}}'):
            return None
        return 'two characters of the literal text become one although they are no doubled brace'
    if used == 1 and kept == 1:
        if excluded(facts, '{') and excluded(facts, '}'):
            return None
        return 'a character that may be a single brace is taken as literal text'
    if used == 1 and kept == 0:
        if holds(facts, '{') and excluded(facts, '{{') and end is not None:
            return None
        return 'a character of the literal text is dropped'
    return '%d characters of the literal text become %d' % (used, kept)


def spec_verdict(used, kept, facts, end):
    if end is not None and end.how != 'return':
        return None
    if end is not None and not (holds(facts, '}') and used == 1):
        return 'a format specification ends although no closing brace was read'
    if used != kept:
        return '%d characters of the format specification become %d' % (used, kept)
    return None


def name_char(facts):
    return any(x[0] == 'class' and x[1] in ('isalpha', 'isdigit', 'isalnum') and x[2] == 0 and x[3] for x in facts) or \
        any(x[0] in ('_', '.') and x[1] == 0 and x[2] is True for x in facts)


def name_verdict(used, kept, facts, end):
    if end is not None and end.how != 'return':
        return None
    if end is not None:
        if holds(facts, '}') or holds(facts, ':'):
            return None if kept == 0 else 'the closing character becomes a part of the placeholder name'
        return 'a placeholder ends although no closing brace was read'
    if used == 0 and kept == 0:
        return None
    if used == 1 and kept == 1:
        return None if name_char(facts) else 'a character that is not allowed in placeholder names is accepted'
    return '%d characters of the placeholder name become %d' % (used, kept)


def nesting(c, f, g, pos):
    """The braces of a specification are balanced: the counter that ends it goes up with every opening brace and down with
    every closing one, by one."""
    inits = {}
    for e in g.events():
        for v in (e.vars or ()) if e.kind == 'decl' else ():
            if v[3] is not None and ('int' in v[2] or 'long' in v[2] or 'short' in v[2]):
                t = strip(v[3])
                if t[0] == 'phi' and t[2] is not None:
                    t = strip(t[2])
                if t[0] == 'const':
                    inits[v[0]] = t[1]

    def changed(e):
        """(counter, difference or None) of an event that changes a counter."""
        if e.kind == 'inc':
            t = strip(e.over)
            if t[0] == 'phi' and t[1] in inits:
                return t[1], (e.n or 1) * (-1 if e.op in ('--', '-=') else 1)
        if e.kind == 'assign' and strip(e.lhs)[0] in ('var', 'phi') and strip(e.lhs)[1] in inits:
            v = strip(e.lhs)[1]
            x = strip(e.rhs)
            if x[0] == 'op' and x[1] in ('+', '-', '+=', '-=') and strip(x[2])[0] == 'phi' and strip(x[2])[1] == v and strip(x[3])[0] == 'const':
                return v, strip(x[3])[1] * (1 if x[1][0] == '+' else -1)
            return v, None
        return None

    def tested(e, v):
        """The number a branch compares a counter with, and whether the counter is that number or below."""
        t, pol = norm(e)
        if t[0] != 'cmp':
            return None
        a, b = strip(t[2]), strip(t[3])

        def is_v(x):
            return x[0] == 'phi' and x[1] == v
        if t[1] == '==' and (is_v(a) and b[0] == 'const' or is_v(b) and a[0] == 'const'):
            return (b if is_v(a) else a)[1], pol
        if t[1] == '<' and is_v(a) and b[0] == 'const':
            return b[1] - 1, pol
        if t[1] == '<' and is_v(b) and a[0] == 'const':
            return a[1], not pol
        return None
    for V in sorted({changed(e)[0] for e in g.events() if changed(e)}):
        if not c.expect(any(e.kind == 'branch' and tested(e, V) for e in g.events()), 'spec-depth', c.loc(f), c.fname(f), 'the depth of a specification is counted and not used'):
            continue
        w = Window(pos, lambda *a: None)

        def step(s, ev):
            ws, d, ended = s
            r = w.step(ws, ev)
            if r and r[0] == 'BAD':
                return s
            facts = ws[1]
            if ev.kind in ('iter', 'done', 'branch') and r == w.init() and ws != w.init() or ev.kind == 'exit' and ev.how == 'return':
                if ev.kind != 'exit' and ws[0][0]:
                    want = 1 if holds(facts, '{') else -1 if holds(facts, '}') else 0
                    if d != want:
                        return ('BAD', 'the depth of a specification changes by %d where %s' % (d, {1: 'a brace opens', -1: 'a brace closes', 0: 'no brace is'}[want]))
                if ev.kind == 'exit' and ended is not True:
                    return ('BAD', 'a specification ends although a brace of it is still open')
                d = 0
                ended = None
            x = changed(ev)
            if x and x[0] == V:
                if x[1] is None:
                    return ('BAD', 'the depth of a specification is set to %s' % show(ev.rhs))
                d += x[1]
            if ev.kind == 'branch':
                k = tested(ev, V)
                if k:
                    # all braces are closed when the closing one at hand is counted
                    ended = k[1] and k[0] == inits[V] + d
            return r, d, ended
        c.run('spec-depth', f, g, (w.init(), 0, None), step)


def progress(c, f, g, pos):
    """Every cycle of the graph advances the cursor."""
    adj = {}
    where = {}
    for k, es in g.edges.items():
        for ev, t in es:
            if t == -1 or ev is not None and (ev.kind == 'inc' and strip(ev.over) == pos and ev.op == '++' or
                                              ev.kind == 'iter' and isinstance(ev.over, tuple) and ev.over[0] != 'cond' and
                                              not any(x == pos or x[0] == 'field' and x[1] == ('this',) for x in subterms(ev.over) if len(x) > 1)):
                continue
            adj.setdefault(k, []).append(t)
            if ev is not None:
                where[(k, t)] = ev
    color = {}
    for root in list(adj):
        if color.get(root):
            continue
        stack = [(root, iter(adj.get(root, ())))]
        color[root] = 1
        while stack:
            n, it = stack[-1]
            for t in it:
                if color.get(t) == 1:
                    ev = where.get((n, t))
                    c.bad('progress', ev.loc if ev is not None else c.loc(f), c.fname(f),
                          'an iteration over the pattern may come back without having advanced')
                    return
                if not color.get(t):
                    color[t] = 1
                    stack.append((t, iter(adj.get(t, ()))))
                    break
            else:
                color[n] = 2
                stack.pop()
    c.ok('progress', c.fname(f))


def narrow(c, f, i, depth=4):
    """Does the value of an argument of a character class function come from a plain char?"""
    while True:
        n = f['nodes'][i]
        t = n.get('t', '').replace('const ', '').strip()
        if t in ('char', 'signed char') and n['k'] not in ('CharacterLiteral',):
            return True
        if t == 'unsigned char' or n['k'] in ('CharacterLiteral', 'IntegerLiteral'):
            return False
        if n['k'] == 'DeclRefExpr' and depth:
            d = n.get('d') or {}
            for m in f['nodes'].values():
                if m['k'] == 'DeclStmt':
                    for v in m.get('vars', ()):
                        if v.get('id') == d.get('id') and v.get('init'):
                            return narrow(c, f, v['init'], depth - 1)
            return False
        cc = n.get('c') or ()
        if n['k'] in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'ParenExpr', 'ExprWithCleanups') and cc:
            i = cc[0]
            continue
        return False


def character_classes(c):
    n = 0
    for f in sorted(c.p.functions.values(), key=lambda f: f['key']):
        if not f.get('cfg') or 'fmt' in f['file'].split('/'):
            continue
        for node in f['nodes'].values():
            fn = node.get('fn')
            if fn and fn['qn'].split('::')[-1] in CTYPE and fn['qn'] in (fn['qn'].split('::')[-1], 'std::' + fn['qn'].split('::')[-1]) and \
                    len(node.get('args', ())) == 1:
                n += 1
                c.expect(not narrow(c, f, node['args'][0]), 'character-class', '%s:%s' % (f['file'], node['l']), c.fname(f),
                         '%s is asked about a char, which may be negative' % fn['qn'])
    return n


def std_exception(c, t, seen=()):
    """Is an exception type derived from std::exception?"""
    t = t.replace('const ', '').replace('&', '').strip()
    if t.startswith('std::') or t.startswith('boost::system::') or t.startswith('boost::'):
        return True
    r = c.p.records.get(t) or c.p.records.get('blackhole::' + t)
    if r is None:
        for k in c.p.records:
            if k.endswith('::' + t.split('::')[-1]):
                r = c.p.records[k]
                break
    return bool(r) and any(std_exception(c, b['t']) for b in r.get('bases', ()))


def thrown(c, pred, rule='exception-type'):
    """Types of the exceptions the library throws itself."""
    n = 0
    for f in sorted(c.p.functions.values(), key=lambda f: f['key']):
        if not f.get('cfg') or not pred(f):
            continue
        for node in f['nodes'].values():
            if node['k'] == 'CXXThrowExpr' and node.get('c'):
                t = f['nodes'][node['c'][0]].get('t', '')
                if 'T' == t or 'Exception' == t:
                    continue
                n += 1
                c.expect(std_exception(c, t), rule, '%s:%s' % (f['file'], node['l']), c.fname(f), 'throws %s, which is no std::exception' % t)
    return n


def stays_broken(c, f, g, pos):
    """Rejecting a pattern marks the tokenizer, so that it never continues in the middle of a rejected one."""
    st = [x['name'] for x in c.fields(PARSER) if 'state' in x['t']]
    c.need(st, 'state member of ' + PARSER)
    S = ('field', ('this',), st[0])

    def step(s, ev):
        if ev.kind == 'assign' and strip(ev.lhs) == S:
            return enum_name(strip(ev.rhs)) or '?'
        if ev.kind == 'branch':
            t, pol = norm(ev)
            if t[0] == 'cmp' and t[1] == '==':
                for a, b in ((t[2], t[3]), (t[3], t[2])):
                    if strip(a) == S and enum_name(strip(b)):
                        n = enum_name(strip(b))
                        if pol:
                            return n
                        if s is None or s.startswith('!'):
                            return (s or '') + '!' + n
        if ev.kind == 'exit':
            if ev.how == 'throw' and s != 'broken':
                return ('BAD', 'a pattern is rejected without marking the tokenizer as broken')
            if ev.how == 'return' and ev.val is not None:
                v = strip(ev.val)
                empty = v[0] == 'null' or v[0] == 'ctor' and 'optional' in str(v[1]) and (not v[2] or strip(v[2][0])[0] in ('null', 'global') or 'none' in str(v[2][0]))
                if s == 'broken':
                    return ('BAD', 'a token is returned after the pattern was rejected')
                if empty and not (s in ('unknown', 'literal') or '!placeholder' in (s or '')):
                    return ('BAD', 'the end of the pattern is accepted within a placeholder')
        return s
    c.run('broken-stays', f, g, None, step)


def dispatch(c, f, pos, literal, name):
    """Outside of placeholders a single opening brace starts one and anything else is literal text."""
    g = c.graph(f, KINDS, uses=True, opaque=tuple(literal | name))
    st = [x['name'] for x in c.fields(PARSER) if 'state' in x['t']]
    S = ('field', ('this',), st[0])
    w = Window(pos, lambda *a: None)

    def step(s, ev):
        inside, x = s
        if ev.kind == 'branch':
            t, pol = norm(ev)
            if t[0] == 'cmp' and t[1] == '==' and pol and any(strip(a) == S for a in t[2:4]):
                for a in t[2:4]:
                    if enum_name(strip(a)):
                        inside = enum_name(strip(a)) == 'placeholder'
        if ev.kind == 'call' and ev.qn in literal | name:
            (used, kept, _), facts = x
            if ev.qn in literal and used:
                return ('BAD', 'text before a literal is dropped')
            if ev.qn in name and used == 0 and not inside:
                return ('BAD', 'a placeholder is read although no opening brace was')
            if ev.qn in name and used and not (used == 1 and holds(facts, '{') and excluded(facts, '{{')):
                return ('BAD', 'a placeholder is read although no single opening brace was')
            return (inside, w.init())
        y = w.step(x, ev)
        if isinstance(y, tuple) and y and y[0] == 'BAD':
            return y
        # whether the pattern ended says nothing about a placeholder
        return (inside, y if ev.kind != 'branch' or y != w.init() else x)
    c.run('dispatch', f, g, (False, w.init()), step)


@prop('C15')
def c15(c):
    """Window analysis of the tokenizer: between two looks at the loop condition the characters consumed from the pattern
    and the characters kept are compared along every path - literal text keeps each character once, a doubled brace
    becomes one, a single opening brace starts a placeholder and a single closing brace leads to an exception;
    specifications are kept completely and end only at a closing brace; placeholder names accept only the documented
    characters. Every cycle of the flow graph of the tokenizer advances its position (termination); a rejected pattern
    leaves the tokenizer marked; everything thrown derives from std::exception; character class functions never get a
    plain char."""
    pos = cursor(c)
    kinds = {'literal': [], 'spec': [], 'name': []}
    for f, g in consumers(c, pos, lambda f: True):
        progress(c, f, g, pos)
        ret = f['ret']
        if ret.endswith('::literal_t'):
            kinds['literal'].append((f, g))
        elif any(x[0] == 'ctor' and '{:' in strs(x) for e in g.events() if e.kind == 'exit' and e.how == 'return' and e.val is not None
                 for x in subterms(strip(e.val))) and 'string' in ret and 'optional' not in ret:
            kinds['spec'].append((f, g))
    c.need(kinds['literal'], 'reader of literal text')
    c.need(kinds['spec'], 'reader of format specifications')
    spec = {f['qn'] for f, _ in kinds['spec']}
    for f in c.fns(cls=PARSER, pred=lambda f: f.get('cfg') and f['ret'].startswith('boost::variant<')):
        g = c.graph(f, KINDS, uses=True, opaque=tuple(spec))
        if any(e.kind == 'inc' and strip(e.over) == pos for e in g.events()):
            kinds['name'].append((f, g))
    c.need(kinds['name'], 'reader of placeholders')
    for kind, verdict in (('literal', literal_verdict), ('spec', spec_verdict), ('name', name_verdict)):
        for f, g in kinds[kind]:
            w = Window(pos, verdict)
            c.run(kind + '-text', f, g, w.init(), w.step)
            if kind == 'spec':
                nesting(c, f, c.graph(f, KINDS + ('decl',), uses=True), pos)
    for f in c.fns(cls=PARSER, name='next', pred=lambda f: f.get('cfg')):
        g = c.graph(f, KINDS, uses=True)
        progress(c, f, g, pos)
        stays_broken(c, f, g, pos)
        dispatch(c, f, pos, {x['qn'] for x, _ in kinds['literal']}, {x['qn'] for x, _ in kinds['name']})
    character_classes(c)
    thrown(c, lambda f: 'formatter' in f['file'])
