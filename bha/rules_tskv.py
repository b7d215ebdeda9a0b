"""C20: the TSKV formatter."""
from .engine import strip, subterms, fn_name, show
from .rule import prop, norm, method, elem_of, index_from_zero
from .fmtout import val, fout, whole
from .rules_format import faithful, STD, REC, attr_of, lists_of, visit
from .rules_sink import callees
from .rules_views import library
from .rules_json import lookup, found_value, temporary

KINDS = ('call', 'ucall', 'branch', 'exit', 'iter', 'done', 'ctor', 'enter')
ESC = {7: '\\a', 8: '\\b', 9: '\\t', 10: '\\n', 11: '\\v', 12: '\\f', 13: '\\r', 27: '\\e', 0: '\\0', 92: '\\\\', 61: '\\='}
VALUE = frozenset(k for k in ESC if k != 61)
KEY = frozenset(ESC)
TEXT = ('basic_string', 'basic_string_view', 'char *')


def textual(t):
    return any(x in t for x in TEXT)


def below(c, f):
    """Functions of the library that f can call, f excluded."""
    out, work, seen = [], sorted(set(callees(c, f))), {f['key']}
    while work:
        k = work.pop()
        if k in seen:
            continue
        seen.add(k)
        x = c.p.functions.get(k)
        if not x or not x.get('cfg') or x['qn'].startswith(('std::', 'boost::', 'blackhole::fmt::', 'rapidjson::', 'blackhole::stdext::')):
            continue
        out.append(x)
        work += sorted(set(callees(c, x)))
    return sorted(out, key=lambda x: (x['loc'], x['key']))


def element(t):
    """Is a term the character of the current iteration over a text, from its first one on?"""
    t = val(t)
    while t[0] in ('cast', 'deref') and isinstance(t[-1], tuple):
        t = val(t[-1])
    if t[0] == 'phi':
        o = strip(t[2])
        return o[0] == 'call' and fn_name(o[1]) in ('data', 'begin', 'cbegin', 'c_str') or o[0] == 'iter'
    if t[0] == 'call' and fn_name(t[1]) in ('at', 'operator[]') and t[3]:
        i = strip(t[3][0])
        return i[0] == 'phi' and strip(i[2]) == ('const', 0)
    if t[0] == 'op' and t[1] == '+' and len(t) == 4:
        o, i = strip(t[2]), strip(t[3])
        return o[0] == 'call' and fn_name(o[1]) in ('data', 'c_str') and i[0] == 'phi' and strip(i[2]) == ('const', 0)
    if t[0] == 'index':
        return index_from_zero(t)
    return t[0] == 'elem'


def char_fact(ev):
    """(equal to k or None, characters known to be different) of a branch on the current character."""
    if ev.kind != 'branch':
        return None
    t, pol = norm(ev)
    if t[0] == 'default':
        ks = [strip(x[3])[1] for x in ev.cases or () if x[0] == 'cmp' and element(x[2]) and strip(x[3])[0] == 'const']
        return (None, tuple(ks)) if element(t[1]) else None
    if t[0] == 'truth' and element(t[1]):
        return (None, (0,)) if pol else (0, ())
    if t[0] == 'cmp' and t[1] == '==':
        for a, b in ((strip(t[2]), strip(t[3])), (strip(t[3]), strip(t[2]))):
            if b[0] == 'const' and element(a):
                return (b[1], ()) if pol else (None, (b[1],))
    return None


def one_char(t):
    """Is a term the text that consists of the current character only?"""
    t = val(t)
    if t[0] in ('ctor', 'init') and any(x in str(t[1]) for x in ('basic_string', 'basic_string_view')):
        a = [strip(x) for x in t[2] if not (strip(x)[0] == 'ctor' and 'allocator' in str(strip(x)[1]))]
        if len(a) == 2:
            if a[1] == ('const', 1):
                return element(a[0]) or a[0][0] in ('addr', 'addrof') and element(a[0][1])
            if a[0] == ('const', 1):
                return element(a[1])
    return False


class Escaper:
    """A function that writes a text character by character, and the characters it writes as they are."""

    def __init__(self, c, f, g, known):
        self.f, self.raw, self.but = f, set(), None
        p = [i for i, x in enumerate(f['params']) if textual(x['t'])][0]

        def over(t):
            t = val(t)
            return t[0] == 'param' and t[2] == p

        def literal(s):
            return s[1] if s[0] == 'str' else None

        def step(s, ev):
            it, eq, ne, n = s
            if ev.kind in ('iter', 'done') and over(ev.over):
                if it and n != 1:
                    return ('BAD', 'a character is dropped')
                return ev.kind == 'iter', None, frozenset(), 0
            if ev.kind == 'exit' and ev.how == 'return':
                if it:
                    return ('BAD', 'the text is cut off')
                return s
            if ev.kind == 'branch':
                x = char_fact(ev)
                if x is not None and it:
                    if x[0] is not None:
                        if x[0] in ne or eq is not None and eq != x[0]:
                            return DEAD
                        return it, x[0], ne, n
                    if eq in x[1]:
                        return DEAD
                    return it, eq, ne | frozenset(x[1]), n
                return s
            o = fout(ev) if ev.kind == 'call' else None
            k = (ev.fnref or {}).get('key') if ev.kind == 'call' else None
            if o is None and k not in known:
                return s
            if not it:
                return ('BAD', 'something is written outside of the pass over the characters')
            if n:
                return ('BAD', 'a character is written twice')
            if k in known:
                if not any(one_char(a) for a in ev.args):
                    return ('BAD', 'another text is written for a character')
                self.note(known[k], eq, ne)
                return it, eq, ne, 1
            w, sp, vs = o
            if sp is not None and vs:
                if sp == ('str', '{}') and len(vs) == 1 and 'char' in (ev.fnref or {}).get('ta', ()):
                    sp = None
                else:
                    return ('BAD', 'a character is written by a format')
            v = sp if sp is not None else vs[0]
            lit = literal(v)
            if lit is None and v[0] == 'const' and isinstance(v[1], int):
                lit = chr(v[1] & 255)
            if lit is not None:
                if eq is None:
                    return ('BAD', 'several characters are written as %r' % lit)
                if lit != ESC.get(eq) and lit != chr(eq):
                    return ('BAD', 'the character %d is written as %r' % (eq, lit))
                if lit == chr(eq):
                    self.raw.add(eq)
                return it, eq, ne, 1
            if element(v) and not any('Ref' in x or '*' in x for x in (ev.fnref or {}).get('pt', ())) or one_char(v):
                self.note(None, eq, ne)
                return it, eq, ne, 1
            return ('BAD', 'another text is written for a character: %s' % show(v))
        c.run('escape', f, g, (False, None, frozenset(), 0), step)

    def note(self, other, eq, ne):
        if eq is not None:
            if other is None or not other.escapes({eq}):
                self.raw.add(eq)
            return
        esc = set(ne) | (set(other.clean()) if other is not None else set())
        self.but = esc if self.but is None else self.but & esc

    def clean(self):
        """Special characters that are never written as they are."""
        return {k for k in ESC if k not in self.raw and (self.but is None or k in self.but)}

    def escapes(self, ks):
        return set(ks) <= self.clean()


def escapers(c, f):
    """Functions below f that write one text, looking at its characters."""
    out, cand = {}, []
    for x in below(c, f):
        if len(x['params']) == 1 and textual(x['params'][0]['t']) and x['name'] != 'operator()':
            g = c.graph(x, KINDS, max_nodes=6000)
            if any(char_fact(e) for e in g.events()) and any(fout(e) for e in g.events()):
                cand.append(x)
    keys = {x['key'] for x in cand}
    own = {}
    for x in cand:
        g = c.graph(x, KINDS, opaque=tuple({y['qn'] for y in cand if y['key'] != x['key']}))
        own[x['key']] = any(char_fact(e) for e in g.events())
    cand = [x for x in cand if own[x['key']]]
    keys = {x['key'] for x in cand}
    while cand:
        # those that use no other escaper first
        now = [x for x in cand if not any(k in keys and k not in out and k != x['key'] for k in callees(c, x))] or cand
        for x in now:
            g = c.graph(x, KINDS, opaque=tuple({c.p.functions[k]['qn'] for k in out}))
            out[x['key']] = Escaper(c, x, g, dict(out))
        cand = [x for x in cand if x['key'] not in out]
    return out


def emitters(c, f, esc):
    """The outermost functions below f that write one named value."""
    out, work, seen = [], sorted(set(callees(c, f))), {f['key']}

    def writes(x):
        return x['key'] in esc or any(y['key'] in esc for y in below(c, x))
    while work:
        k = work.pop()
        if k in seen:
            continue
        seen.add(k)
        x = c.p.functions.get(k)
        if not x or not x.get('cfg') or x['qn'].startswith(('std::', 'boost::', 'blackhole::fmt::', 'blackhole::stdext::')):
            continue
        if len(x['params']) > 1 and textual(x['params'][0]['t']) and x['name'] != 'operator()' and writes(x):
            out.append(x)
            continue
        work += sorted(set(callees(c, x)))
    return sorted(out, key=lambda x: (x['loc'], x['key']))


def mapped(c, t):
    """Does a term denote an associative container from names to names (True), a set of names (False)?"""
    t = strip(t)
    if t[0] != 'field':
        return None
    for r in c.p.records.values():
        for x in r.get('fields', ()):
            if x['name'] == t[2] and ('map<' in x['t'] or 'set<' in x['t']):
                return 'map<' in x['t']
    return None


def one_field(c, f, esc):
    """A field is written as a tab, the escaped (new) name, an equals sign and the escaped value - or, if removed, not at all."""
    g = c.graph(f, KINDS, opaque=tuple({e.f['qn'] for e in esc.values()}))
    number = not textual(f['params'][1]['t'])

    def name(t):
        t = val(t)
        return t[0] == 'param' and t[2] == 0

    def value(t):
        t = val(t)
        return t[0] == 'param' and t[2] == 1

    def step(s, ev):
        removed, renamed, st = s
        if ev.kind == 'branch':
            x = lookup(ev)
            if x is not None:
                m, k, found = x
                kind = mapped(c, m)
                if kind is None:
                    return s
                if not name(k):
                    return ('BAD', 'a list of names is searched for %s' % show(k))
                if kind:
                    return removed, found, st
                return found, renamed, st
            return s
        if ev.kind == 'exit' and ev.how == 'return':
            if st == 0 and removed is True or st == 4 and removed is False:
                return s
            if st == 0:
                return ('BAD', 'a field that is not removed is not written')
            return ('BAD', 'a field is written in part')
        if ev.kind != 'call':
            return s
        e = esc.get((ev.fnref or {}).get('key'))
        o = fout(ev) if e is None else None
        if e is None and o is None:
            return s
        if removed is not False:
            return ('BAD', 'a field is written although its name may be removed')
        if e is not None:
            t = val(ev.args[[i for i, p in enumerate(e.f['params']) if textual(p['t'])][0]])
            if st == 1:
                if not e.escapes(KEY):
                    return ('BAD', 'characters of a name are written without escaping: %s' % missing(e, KEY))
                fv = found_value(t)
                if renamed is True and fv is not None and mapped(c, fv[0]) and name(fv[1]) or renamed is False and name(t):
                    return removed, renamed, 2
                if renamed is None:
                    return ('BAD', 'a name is written without looking up its new name')
                return ('BAD', 'the name %s is written instead of the %s' % (show(t), 'new name' if renamed else 'name of the field'))
            if st == 3:
                if not e.escapes(VALUE):
                    return ('BAD', 'characters of a value are written without escaping: %s' % missing(e, VALUE))
                if not value(t):
                    return ('BAD', '%s is written instead of the value' % show(t))
                return removed, renamed, 4
            return ('BAD', 'a name or value is written at the wrong place')
        w, sp, vs = o
        parts = literal(sp, vs)
        if parts is None:
            return ('BAD', 'text is written without escaping')
        for p in parts:
            if p == '\t' and st == 0:
                st = 1
            elif p == '=' and st == 2:
                st = 3
            elif isinstance(p, tuple) and st == 3 and value(p) and number:
                st = 4
            elif isinstance(p, tuple):
                return ('BAD', '%s is written without escaping' % show(p))
            else:
                return ('BAD', '%r is written at the wrong place of a field' % p)
        return removed, renamed, st
    c.run('field', f, g, (None, None, 0), step)


def missing(e, ks):
    return ', '.join('%d' % k for k in sorted(set(ks) - e.clean()))


def literal(sp, vs):
    """The characters and values an output call writes one after another."""
    if sp is None:
        v = vs[0]
        if v[0] == 'str':
            return list(v[1])
        if v[0] == 'const' and isinstance(v[1], int):
            return [chr(v[1] & 255)]
        return [v]
    if sp[0] != 'str':
        return None
    if not vs:
        return list(sp[1]) if '{' not in sp[1] else None
    out, vs = [], list(vs)
    for i, x in enumerate(sp[1].split('{}')):
        if i:
            if not vs:
                return None
            out.append(vs.pop(0))
        if '{' in x or '}' in x:
            return None
        out += list(x)
    return out if not vs else None


def over_map(t):
    """(field, of an object) of an iterated configuration container."""
    t = strip(t)
    return t if t[0] == 'field' else None


def record(c, f, em, esc):
    """The header comes first; every field of the record, every constant, every timestamp and every attribute follow once."""
    keys = {x['key'] for x in em}
    g = c.graph(f, KINDS, opaque=tuple(sorted({x['qn'] for x in em})) + STD)
    W = [('param', f['key'], i, p['name']) for i, p in enumerate(f['params']) if 'writer' in p['t']]
    c.need(W, 'the writer of the record')
    want = ('severity', 'pid', 'tid', 'message')
    src = {'severity': 'severity', 'pid': 'pid', 'message': 'formatted'}
    loops = {}
    for e in g.events():
        if e.kind == 'iter':
            t = over_map(e.over)
            if t is not None and mapped(c, t):
                loops.setdefault(t[2], t)
    c.need(loops, 'loops over constants and timestamps')

    def rec(v, what):
        calls = [x for x in subterms(val(v)) if x[0] == 'call' and x[1] in REC]
        return bool(calls) and all(fn_name(x[1]) == what for x in calls)

    def root(v):
        v = val(v)
        while v[0] == 'field':
            v = val(v[1])
        return v

    def fill(filled, w, k):
        return filled | {(w, 'other' if any(x[0] == w for x in filled) else k)}

    def step(s, ev):
        head, seen, filled = s
        if ev.kind == 'exit' and ev.how == 'return':
            miss = [x for x in want if x not in seen]
            if miss:
                return ('BAD', 'a record is written without %s' % ', '.join(miss))
            if not head:
                return ('BAD', 'a record is written without its header')
            return s
        if ev.kind == 'ctor' or ev.kind == 'enter' and fn_name(ev.qn or '') in (ev.qn or '').split('::')[-2:-1] or ev.kind == 'call' and method(ev) == 'clear':
            o = strip(ev.val) if ev.kind == 'ctor' else root(ev.obj)
            return head, seen, frozenset(x for x in filled if x[0] != o)
        if ev.kind == 'enter':
            return s
        x = fout(ev)
        if x is not None and ev.kind == 'call':
            if temporary(x[0]) or root(x[0])[0] in ('ctor', 'init', 'var'):
                k = 'tid' if x[1] == ('str', '{:#x}') and len(x[2]) == 1 and rec(x[2][0], 'tid') else 'other'
                return head, seen, fill(filled, root(x[0]), k)
            if head:
                return ('BAD', 'text is written outside of a field')
            if literal(x[1], x[2]) != list('tskv'):
                return ('BAD', 'a record does not start with its header')
            return True, seen, filled
        if ev.kind == 'ucall' or visit(ev) is not None or ev.kind == 'call' and 'generator_t' in (ev.qn or ''):
            ws = [root(a) for a in ev.args or () if temporary(a) or root(a)[0] in ('ctor', 'init', 'var')]
            if visit(ev) is not None:
                vis, var = visit(ev)
                a = attr_of(val(var)[1]) if val(var)[0] == 'field' else None
                a = next((attr_of(y) for y in subterms(val(var)) if attr_of(y) is not None), None)
                ws = [root(y) for y in vis[2]] if vis[0] in ('ctor', 'init') else []
                ws = [y for y in ws if y[0] in ('ctor', 'init', 'var') and 'string' not in str(y[1])]
                k = ('attr', a)
                if len(vis[2]) > 1 and not any(val(y) == ('str', '{}') for y in vis[2]):
                    k = 'other'
            else:
                o = [y for y in subterms(ev.obj) if constant(('field', y, 'first')) is not None] if ev.obj is not None else []
                k = ('time', o[0]) if o and any(rec(a, 'timestamp') for a in ev.args) else 'other'
            if ws:
                return head, seen, fill(filled, ws[0], k)
            return s
        if ev.kind == 'call' and (ev.fnref or {}).get('key') in keys:
            if not head:
                return ('BAD', 'a field is written before the header')
            n, v = val(ev.args[0]), val(ev.args[1])
            ks = {k for a, k in filled if a == root(v)}
            if n[0] == 'str':
                what = n[1]
                if what not in want:
                    return ('BAD', 'a field is written that the record does not have')
                if not (ks == {'tid'} if what == 'tid' else rec(v, src[what])):
                    return ('BAD', 'the field %s does not get the %s of the record' % (what, what))
                if what in seen:
                    return ('BAD', 'the field %s is written twice' % what)
                return head, seen | {what}, filled
            a = attr_of(n)
            if a is not None and n == ('field', a, 'first'):
                if ks != {('attr', a)}:
                    return ('BAD', 'an attribute is written with the value of another one')
                return head, seen, filled
            k = constant(n)
            if k is not None:
                if v == ('field', k, 'second') or ks == {('time', k)}:
                    return head, seen, filled
                return ('BAD', 'a constant or timestamp gets %s' % (show(v) if not ks else sorted(str(x)[:80] for x in ks)))
            return ('BAD', 'a field is neither a part of the record nor an attribute or constant: %s' % show(n))
        return s

    def constant(n):
        """The element of a configured container that n is the name of."""
        if n[0] == 'field' and n[2] == 'first':
            e = strip(n[1])
            m, _ = elem_of(e)
            if m is not None and over_map(m) is not None and mapped(c, m):
                return e
        return None
    c.run('complete', f, g, (False, frozenset(), frozenset()), step)

    # every loop is complete
    def passes(which, what):
        def run(s, ev):
            it, n, done = s
            if ev.kind in ('iter', 'done') and over_map(ev.over) is not None and over_map(ev.over) == which:
                if it and n == 0:
                    return ('BAD', '%s is skipped' % what)
                return (True, 0, done) if ev.kind == 'iter' else (False, 0, True)
            if ev.kind == 'call' and (ev.fnref or {}).get('key') in keys:
                k = constant(val(ev.args[0]))
                if k is not None and strip(elem_of(k)[0]) == which:
                    if not it or n:
                        return ('BAD', '%s is written twice' % what)
                    return it, 1, done
            if ev.kind == 'exit' and ev.how == 'return' and (it or not done):
                return ('BAD', 'the pass over %s ends early or does not happen' % what)
            return s
        c.run('each-' + which[2], f, g, (False, 0, False), run)
    for nm, t in sorted(loops.items()):
        passes(t, 'an entry of ' + nm)
    # the record's attributes
    def lists(t):
        return lists_of(t) == 'lists'

    def attrs(s, ev):
        outer, inner, n, done = s
        if ev.kind in ('iter', 'done') and lists(ev.over):
            if inner or outer == 'armed':
                return ('BAD', 'a list of attributes is skipped or left early')
            return ('armed', False, 0, True) if ev.kind == 'iter' else (False, False, 0, True)
        if ev.kind in ('iter', 'done') and lists_of(ev.over) == 'attrs':
            if inner and n == 0:
                return ('BAD', 'an attribute is skipped')
            return (outer, True, 0, done) if ev.kind == 'iter' else ('listed', False, 0, done)
        if ev.kind == 'call' and (ev.fnref or {}).get('key') in keys and attr_of(val(ev.args[0])) is not None:
            if not inner or n:
                return ('BAD', 'an attribute is written twice')
            return outer, inner, 1, done
        if ev.kind == 'exit' and ev.how == 'return' and (outer or inner or not done):
            return ('BAD', 'the pass over the attributes is left early or does not happen')
        return s
    c.run('each-attribute', f, g, (False, False, 0, False), attrs)


def formatter(c):
    out = []
    for f in c.impls('blackhole::formatter_t', 'format'):
        if f.get('cfg') and any(x['key'] for x in below(c, f) if len(x['params']) == 1 and textual(x['params'][0]['t'])):
            e = escapers(c, f) if 'rapidjson' not in str(sorted(callees(c, f))) else {}
            if e:
                out.append((f, e))
    return c.need(out, 'a formatter that escapes its fields')


@prop('C20')
def c20(c):
    """Path analysis of the TSKV formatter. Each escaping function writes every character of its text exactly once, either
    as it is or as its own escape sequence; the special characters of values (control characters and the backslash) and
    of names (also '=') are never written as they are. Each function that writes a named field tests the original name
    against the removed names first, and then writes tab, escaped new name, '=', escaped value, numbers excepted.
    format() writes the header first and then, once each and through these functions only, the record's own fields, every
    constant, every timestamp and every attribute of every list."""
    for f, esc in formatter(c):
        em = c.need(emitters(c, f, esc), 'functions that write a field')
        for e in em:
            one_field(c, e, esc)
        record(c, f, em, esc)
        faithful(c, 'faithful-number', f)
