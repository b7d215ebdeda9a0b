"""C18, C19: the JSON formatter."""
from .engine import strip, subterms, contains, fn_name, show
from .rule import prop, norm, method, enum_name, each_once
from .fmtout import val, fout, writer_of, whole
from .rules_format import faithful, REC, rec_call, rdata, lists_of, attr_of
from .rules_sink import nodes_of, callees, reachable
from .rules_views import library

GROW = {'AddMember', 'PushBack', 'Set', 'SetString', 'SetDouble', 'SetFloat', 'Create', 'Swap', 'Double', 'Float', 'Key', 'String'}
LOCAL = ('blackhole::writer_t', 'std::basic_string', 'blackhole::fmt::BasicMemoryWriter', 'std::array', 'std::vector')
USER = 'blackhole::attribute::view_t::function_type::operator()'
KINDS = ('call', 'ucall', 'ctor', 'branch', 'exit', 'enter', 'iter', 'done', 'assign')


def fnrefs(f):
    for _, n in nodes_of(f):
        for k in ('fn', 'ctor'):
            if isinstance(n.get(k), dict):
                yield n[k]
        for k in ('m', 'd'):
            if isinstance(n.get(k), dict) and isinstance(n[k].get('fn'), dict):
                yield n[k]['fn']


def mutators(c):
    """Functions of the library that hand data to rapidjson."""
    return [f for f in library(c) if any(str(r.get('qn', '')).startswith('rapidjson::') and fn_name(r['qn']) in GROW for r in fnrefs(f))]


def formatter(c):
    out = [f for f in c.impls('blackhole::formatter_t', 'format') if f.get('cfg') and emitters(c, f)]
    return c.need(out, 'a formatter that builds JSON')


def emitters(c, f):
    """The outermost functions below f that add one named value: a name first, then the value."""
    m = {x['key'] for x in mutators(c)}
    out, work, seen = [], [f['key']], set()
    while work:
        k = work.pop()
        if k in seen:
            continue
        seen.add(k)
        x = c.p.functions[k]
        if not x.get('cfg') or x['qn'].startswith(('rapidjson::', 'std::', 'boost::', 'blackhole::fmt::')):
            continue
        if k != f['key'] and x['name'] != 'operator()' and x['params'] and 'basic_string_view' in x['params'][0]['t'] and len(x['params']) > 1 and \
                reachable(c, x) & m:
            out.append(x)
            continue
        work += sorted(set(callees(c, x)))
    return sorted(out, key=lambda x: x['loc'])


def aggregate(c, t):
    """A member of an object built in place, resolved to its initializer."""
    t = strip(t)
    if t[0] == 'field' and strip(t[1])[0] in ('ctor', 'init'):
        o = strip(t[1])
        names = [x['name'] for x in (c.p.records.get(o[1]) or {}).get('fields', [])]
        if t[2] in names and len(names) == len(o[2]):
            return strip(o[2][names.index(t[2])])
    return t


def data_of(t):
    t = strip(t)
    return strip(t[2]) if t[0] == 'call' and fn_name(t[1]) in ('data', 'c_str') and t[2] is not None else None


def temporary(t):
    """A string or buffer that lives in the current function only."""
    t = strip(t)
    while t[0] in ('field', 'elem', 'index'):
        t = strip(t[1])
    if t[0] == 'call' and fn_name(t[1]) in ('to_string', 'str', 'substr'):
        return True
    return t[0] in ('ctor', 'init') and (str(t[1]).startswith(LOCAL) and 'view' not in str(t[1]).split('<')[0])


def owner(c, t):
    """A std::string, whose pointer is never null."""
    t = aggregate(c, t)
    if t[0] in ('ctor', 'init') and 'string_view' in str(t[1]) and len(t[2]) == 1:
        x = strip(t[2][0])
        return x[0] == 'str' or x[0] == 'field' and strip(x[1])[0] in ('deref', 'elem')
    return False


def string_ref(ev):
    """(term, pointer, length or None) of a text reference given to rapidjson."""
    if ev.kind == 'call' and fn_name(ev.qn) == 'StringRef' and ev.qn.startswith('rapidjson::'):
        a = list(ev.args)
        return a[0], (a[1] if len(a) > 1 else None), False
    if ev.kind == 'ctor' and (ev.qn or ev.cls or '').startswith('rapidjson::Generic') and ev.args and is_text(ev):
        a = list(ev.args)
        copied = any('llocator' in p for p in (ev.fnref or {}).get('pt', [])[1:])
        return a[0], (a[1] if len(a) > 1 else None), copied
    return None


def is_text(ev):
    pt = (ev.fnref or {}).get('pt') or ['']
    return pt[0].replace('const ', '').replace(' ', '') in ('char*', 'Ch*') or 'Ch *' in pt[0]


def rjcall(ev, *names):
    return ev.kind == 'call' and (ev.qn or '').startswith('rapidjson::') and fn_name(ev.qn) in names


def object_fact(ev):
    """(value, is an object)"""
    t, pol = norm(ev)
    if t[0] == 'truth':
        t = strip(t[1])
    if t[0] == 'call' and fn_name(t[1]) == 'IsObject':
        return strip(t[2]), pol
    if t[0] == 'cmp' and t[1] == '==':
        for a, b in ((strip(t[2]), strip(t[3])), (strip(t[3]), strip(t[2]))):
            if a[0] == 'call' and fn_name(a[1]) == 'GetType' and enum_name(b) == 'kObjectType':
                return strip(a[2]), pol
    return None


def document(t):
    """The root of the document: a parameter, a member or a local of document type."""
    t = strip(t)
    return not any(x[0] == 'call' for x in subterms(t)) or t[0] == 'ctor' and 'GenericDocument' in str(t[1])


def finite(ev, facts):
    t, pol = norm(ev)
    if t[0] == 'truth':
        t = strip(t[1])
    if t[0] == 'call' and fn_name(t[1]) in ('isfinite', 'isnan', 'isinf', '__builtin_isfinite', '__builtin_isnan', '__builtin_isinf_sign', 'finite') and t[3]:
        n = fn_name(t[1])
        v = strip(t[3][0])
        if 'finite' in n:
            return facts | {(v, 'finite') if pol else (v, 'odd')}
        if pol:
            return facts | {(v, 'odd')}
        facts = facts | {(v, 'isnan' if 'nan' in n else 'isinf')}
        if {(v, 'isnan'), (v, 'isinf')} <= facts:
            facts = facts | {(v, 'finite')}
    return facts


def well_formed(c, f, g):
    """Every value handed to rapidjson can be represented, points to text and stays alive."""
    def step(s, ev):
        facts, refs, objs = s
        if ev.kind == 'branch':
            facts = finite(ev, facts)
            o = object_fact(ev)
            if o is not None:
                objs = objs | {o} if (o[0], not o[1]) not in objs else frozenset(x for x in objs if x[0] != o[0]) | {o}
            t, pol = norm(ev)
            if t[0] == 'truth':
                t = strip(t[1])
                d = data_of(t)
                if d is not None:
                    facts = facts | {(d, 'text' if pol else 'null')}
                if t[0] == 'call' and fn_name(t[1]) == 'empty' and not pol:
                    facts = facts | {(strip(t[2]), 'text')}
            elif t[0] == 'cmp' and t[1] == '==' and not pol:
                for a, b in ((strip(t[2]), strip(t[3])), (strip(t[3]), strip(t[2]))):
                    if a[0] == 'null' or a == ('const', 0):
                        d = data_of(b)
                        if d is not None:
                            facts = facts | {(d, 'text')}
                        elif b[0] == 'call' and fn_name(b[1]) in ('size', 'length'):
                            facts = facts | {(strip(b[2]), 'text')}
            return facts, refs, objs
        r = string_ref(ev)
        if r is not None:
            p, n, copied = r
            p = strip(p)
            d = data_of(p)
            if d is None and n is None and 'basic_string<' in ((ev.fnref or {}).get('pt') or [''])[0]:
                d = p
            ok = p[0] == 'str' or p[0] in ('param', 'alt', 'var') and n is not None
            if d is not None:
                ok = (d, 'text') in facts or temporary(d) or owner(c, d)
            if not ok:
                return ('BAD', 'rapidjson gets the pointer of a text that may be empty, hence null')
            if d is not None and not copied and (temporary(d) or temporary(val(d))):
                return ('BAD', 'the document refers to the text of a temporary object')
            return facts, refs, objs
        if ev.kind in ('call', 'ctor') and (ev.qn or '').startswith('rapidjson::') and (ev.kind == 'ctor' or fn_name(ev.qn) in GROW):
            for a, pt in zip(ev.args or (), (ev.fnref or {}).get('pt') or ()):
                if pt.replace('const ', '').strip(' &') in ('double', 'float') and (strip(a), 'finite') not in facts and strip(a)[0] != 'const':
                    return ('BAD', 'a number that may be infinite or NaN is put into the document')
            if ev.kind == 'call' and fn_name(ev.qn) in ('AddMember', 'PushBack'):
                o = aggregate(c, ev.obj)
                if not document(o) and (o, True) not in objs:
                    return ('BAD', 'a member is added to a value that may not be an object')
        return facts, refs, objs
    c.run('json-value', f, g, (frozenset(), frozenset(), frozenset()), step)


def framing(c, f, em):
    """One document per record: an object, written once into the writer, optionally followed by a newline."""
    g = c.graph(f, KINDS, opaque=tuple(sorted({x['qn'] for x in em})) + REC)
    keys = {x['key'] for x in em}
    W = [('param', f['key'], i, p['name']) for i, p in enumerate(f['params']) if 'writer_t' in p['t']]
    c.need(W, 'the output of the formatter')

    def to_out(t):
        return any(x[0] == 'param' and x[2] == W[0][2] and x[1] in (f['key'], f['name']) for x in subterms(strip(t)))

    def step(s, ev):
        root, acc, nl, opt = s
        if ev.kind == 'branch':
            t, pol = norm(ev)
            x = strip(t[1]) if t[0] == 'truth' else t
            if x[0] == 'field' and x[2] == 'newline':
                return root, acc, nl, pol
            return s
        if rjcall(ev, 'SetObject') and strip(ev.obj)[0] == 'ctor':
            return True, acc, nl, opt
        if ev.kind == 'ctor' and 'GenericDocument' in (ev.qn or ev.cls or '') and ev.args and enum_name(strip(ev.args[0])) == 'kObjectType':
            return True, acc, nl, opt
        if ev.kind == 'call' and (ev.fnref or {}).get('key') in keys or rjcall(ev, 'AddMember'):
            if not root:
                return ('BAD', 'members are added before the document is an object')
            if acc:
                return ('BAD', 'members are added after the document was written')
            return s
        if rjcall(ev, 'Accept'):
            if acc:
                return ('BAD', 'the document is written twice')
            if not to_out(ev.args[0]):
                return ('BAD', 'the document is not written into the output of the formatter')
            if nl:
                return ('BAD', 'the newline precedes the document')
            if not root:
                return ('BAD', 'the document is written before it is an object')
            return root, True, nl, opt
        if ev.kind == 'call' and rjcall(ev, 'Clear', 'RemoveMember', 'EraseMember', 'RemoveAllMembers', 'SetNull', 'SetArray'):
            return ('BAD', 'members of the document are removed')
        x = fout(ev)
        if x is not None and ev.kind == 'call' and to_out(x[0]):
            if x[1] is None and len(x[2]) == 1 and x[2][0] in (('const', 10), ('str', '\n')):
                if opt is not True:
                    return ('BAD', 'a newline is written that was not asked for')
                if nl:
                    return ('BAD', 'two newlines are written')
                if not acc:
                    return ('BAD', 'the newline precedes the document')
                return root, acc, True, opt
            return ('BAD', 'something besides the document is written')
        if ev.kind == 'exit' and ev.how == 'return':
            if not acc:
                return ('BAD', 'the document is not written')
            if opt is True and not nl:
                return ('BAD', 'the newline asked for is missing')
        return s
    c.run('one-document', f, g, (False, False, False, None), step)
    # the stream forwards each character
    puts = [x for x in c.fns(name='Put') if x.get('cfg') and x['qn'].startswith('blackhole::')]
    accepts = [e for e in g.events() if rjcall(e, 'Accept')]
    for e in accepts:
        cls = {str(x[1]).split('<')[0] for x in subterms(strip(e.args[0])) if x[0] in ('ctor', 'init') and str(x[1]).startswith('blackhole::')}
        own = c.need([p for p in puts if p['cls'].split('<')[0] in cls], 'the stream the document is written to')
        for p in own:
            ch = lambda v: v[0] == 'param'

            def put(s, ev):
                x = fout(ev)
                if x is not None and ev.kind == 'call':
                    if s:
                        return ('BAD', 'a character is written twice')
                    if x[1] is not None or len(x[2]) != 1 or not ch(x[2][0]):
                        return ('BAD', 'something else is written instead of the character')
                    return 1
                if ev.kind == 'exit' and ev.how == 'return' and not s:
                    return ('BAD', 'a character of the document is lost')
                return s
            c.run('stream', p, c.graph(p, KINDS), 0, put)
    return g


def routes(c, f):
    """Every JSON pointer of an instance is validated before its constructor ends, or where it is used."""
    cls = set()
    for k in reachable(c, f):
        x = c.p.functions[k]
        for r in fnrefs(x):
            if str(r.get('qn', '')).startswith('rapidjson::GenericPointer') and fn_name(r['qn']) in ('GetWithDefault', 'Create', 'Set', 'Get'):
                cls.add(x.get('cls'))
    cls = {k for k in cls if k} | {k.rsplit('::', 1)[0] for k in cls if k and '::' in k}
    n = 0
    for q, r in sorted(c.p.records.items()):
        fl = [x for x in r.get('fields', []) if 'GenericPointer' in x['t']]
        if not fl or not q.startswith('blackhole::'):
            continue
        for f2 in [x for x in c.fns(cls=q) if x.get('ctor') or x['name'] == q.split('::')[-1]]:
            if not f2.get('cfg') or not f2['params'] or q in f2['params'][0]['t']:
                continue
            g = c.graph(f2, KINDS + ('throw',))
            for m in fl:
                n += 1
                pointer(c, f2, g, m['name'], 'map' in m['t'] or 'vector' in m['t'])
        for f2 in library(c):
            if f2.get('cls') == q and (f2.get('ctor') or f2['name'] == q.split('::')[-1]):
                continue
            g = None
            for _, nd in nodes_of(f2):
                if nd['k'] == 'MemberExpr' and (nd.get('m') or {}).get('name') in {m['name'] for m in fl} and str((nd.get('m') or {}).get('cls', '')) == q:
                    g = True
            if g:
                gg = c.graph(f2, KINDS)
                for e in gg.events():
                    w = None
                    if e.kind == 'assign':
                        w = strip(e.lhs)
                    elif e.kind == 'call' and method(e) in ('insert', 'emplace', 'operator[]', 'clear', 'erase') and e.obj is not None:
                        w = strip(e.obj)
                    if w is not None and w[0] == 'field' and w[2] in {m['name'] for m in fl}:
                        c.bad('valid-route', e.loc, c.fname(f2), 'a route is changed after it was validated')
    c.need(n, 'routes of the JSON formatter')


def pointer(c, f, g, name, many):
    me = ('field', ('this',), name)

    def of(t):
        """The route (or a route of the map) that a term denotes."""
        t = strip(t)
        while t[0] in ('field', 'deref') and t != me:
            t = strip(t[1])
        return t == me or t[0] in ('elem', 'index', 'iter') and strip(t[1]) == me

    def valid(ev):
        t, pol = norm(ev)
        x = strip(t[1]) if t[0] == 'truth' else t
        if x[0] == 'call' and fn_name(x[1]) == 'IsValid':
            return strip(x[2]), pol
        if x[0] == 'cmp' and x[1] == '==':
            for a, b in ((strip(x[2]), strip(x[3])), (strip(x[3]), strip(x[2]))):
                if a[0] == 'call' and fn_name(a[1]) == 'GetParseErrorCode' and enum_name(b) == 'kPointerParseErrorNone':
                    return strip(a[2]), pol
        return None

    def step(s, ev):
        ok, inloop, good, known = s
        if ev.kind == 'branch':
            v = valid(ev)
            if v is not None:
                if not v[1]:
                    return (ok, inloop, False, known) if not of(v[0]) else ('bad-route',)
                if of(v[0]):
                    return (True if not many else ok, inloop, True, known)
                return ok, inloop, good, known | {v[0]}
            return s
        if not many and ev.kind == 'assign' and strip(ev.lhs) == me:
            return (strip(ev.rhs) in known or strip(ev.rhs)[0] == 'ctor' and not strip(ev.rhs)[2], inloop, good, known)
        if many:
            if ev.kind == 'call' and ev.obj is not None and strip(ev.obj) == me and method(ev) in ('insert', 'emplace', 'operator[]', 'push_back', 'emplace_back', 'insert_or_assign'):
                if any(contains(strip(a), k) for a in ev.args for k in known):
                    return s
                return ('open', inloop, good, known)
            if ev.kind == 'iter' and strip(ev.over) == me:
                if inloop and not good:
                    return ('BAD', 'a route is not validated')
                return (ok, True, False, known)
            if ev.kind == 'done' and strip(ev.over) == me:
                if inloop and not good:
                    return ('BAD', 'a route is not validated')
                return (True, False, False, known)
        if ev.kind == 'exit' and ev.how == 'return':
            if s == ('bad-route',):
                return ('BAD', 'an invalid route is accepted')
            if ok == 'open' or ok is False or inloop:
                return ('BAD', 'the route %s is not validated' % name)
        return s

    def guarded(s, ev):
        if s == ('bad-route',):
            if ev.kind == 'exit' and ev.how == 'return':
                return ('BAD', 'an invalid route is accepted')
            return s
        return step(s, ev)
    c.run('valid-route', f, g, (False if not many else None, False, False, frozenset()), guarded)


@prop('C18')
def c18(c):
    """Path analysis of the JSON formatter with its visitors inlined: numbers reach rapidjson only where they were tested to
    be finite, text pointers only where they were tested not to be null (or point to a buffer), and never point into a
    temporary that is gone before the document is written; members are only added to the document or to a value tested to
    be an object; all routes are validated before construction succeeds; each call of format() writes one document, then
    the newline if and only if it is configured, and its stream forwards each character once."""
    for f in formatter(c):
        em = emitters(c, f)
        for e in em:
            well_formed(c, e, c.graph(e, KINDS))
        g = framing(c, f, em)
        well_formed(c, f, g)
        routes(c, f)


# ---- completeness ---------------------------------------------------------------------------------------------------

def key_of(t):
    """The text a lookup key was made of."""
    return val(t)


def lookup(ev):
    """(map, key, found) of a test whether a map has a key."""
    t, pol = norm(ev)
    x = strip(t[1]) if t[0] == 'truth' else t
    if x[0] == 'call' and fn_name(x[1]) in ('count', 'contains') and x[2] is not None:
        return strip(x[2]), key_of(x[3][0] if x[3] else ('unk', 'deep')), pol
    if x[0] == 'cmp':
        for a, b in ((strip(x[2]), strip(x[3])), (strip(x[3]), strip(x[2]))):
            if a[0] == 'call' and fn_name(a[1]) == 'find' and b[0] in ('end', 'call') and x[1] == '==':
                return strip(a[2]), key_of(a[3][0] if a[3] else ('unk', 'deep')), not pol
            if a[0] == 'call' and fn_name(a[1]) == 'count' and b == ('const', 0) and x[1] == '==':
                return strip(a[2]), key_of(a[3][0] if a[3] else ('unk', 'deep')), not pol
            if a[0] == 'call' and fn_name(a[1]) == 'count' and b == ('const', 0) and x[1] == '<' and strip(x[3]) == a:
                return strip(a[2]), key_of(a[3][0] if a[3] else ('unk', 'deep')), pol
    return None


def found_value(t):
    """(map, key) of the value found by a lookup."""
    t = strip(t)
    if t[0] == 'field' and t[2] == 'second':
        x = strip(t[1])
        if x[0] in ('deref', 'elem'):
            x = strip(x[1])
        if x[0] == 'call' and fn_name(x[1]) == 'find':
            return strip(x[2]), key_of(x[3][0] if x[3] else ('unk', 'deep'))
    if t[0] == 'call' and fn_name(t[1]) in ('at', 'operator[]') and t[2] is not None and t[3]:
        return strip(t[2]), key_of(t[3][0] if t[3] else ('unk', 'deep'))
    if t[0] == 'index':
        return strip(t[1]), key_of(t[2])
    return None


def text(t):
    """The object whose complete text is given to rapidjson, or None."""
    t = strip(t)
    a = None
    if t[0] == 'call' and t[1] == 'rapidjson::StringRef':
        a = [strip(x) for x in t[3]]
    elif t[0] in ('ctor', 'init') and str(t[1]).startswith('rapidjson::Generic'):
        a = [strip(x) for x in t[2] if not any(y[0] == 'call' and fn_name(y[1]) == 'GetAllocator' for y in subterms(strip(x))) and not
             (strip(x)[0] == 'field' and 'alloc' in strip(x)[2])]
        if len(a) == 1:
            return text(a[0]) or val(a[0])
    if a is None:
        return None
    if len(a) == 1:
        return val(a[0])
    if len(a) != 2:
        return None
    if a[0] == ('str', '') and a[1][0] == 'call' and fn_name(a[1][1]) in ('size', 'length') and a[1][2] is not None:
        return val(a[1][2])
    w = whole(a[0], a[1])
    if w is not None:
        return val(w)
    if a[0][0] in ('param', 'alt') and a[1][0] in ('param', 'alt'):
        return ('pair', a[0], a[1])
    return None


class Roles:
    """Members of the formatter that hold the routes, the new names and the formats."""

    def __init__(self):
        self.route = set()
        self.rename = set()
        self.spec = set()
        self.default = []        # (maps without the name, location, maps with it) where the default place is used
        self.plain = []          # the same where the name itself is used
        self.ends = []           # (facts, function, location)


def one_member(c, f, roles):
    """One named value: added once, at the place and under the name configured for its name, in the configured format."""
    g = c.graph(f, KINDS, opaque=REC + (USER,))

    def is_name(t):
        t = val(t)
        return t[0] == 'param' and t[2] == 0 and t[1] in (f['key'], f['name'])

    def is_value(t):
        t = val(t)
        while t[0] == 'field':
            t = val(t[1])
        return t[0] == 'param' and t[2] >= 1 and t[1] in (f['key'], f['name'])

    def whole_value(v, alt):
        """The complete value, directly or as a reference to its text."""
        v = val(v)
        if is_value(v) or alt is not None and v == alt:
            return True
        if v[0] in ('ctor', 'init') and len(v[2]) == 2:
            return all(is_value(x) or alt is not None and contains(strip(x), alt) for x in v[2])
        return v[0] == 'pair' and all(is_value(x) for x in v[1:]) and v[1][2] == 1 and v[2][2] == 2

    def step(s, ev):
        done, facts, alt, wrote, odd, place = s
        if ev.kind == 'branch':
            odd = finite(ev, odd)
            o = object_fact(ev)
            if o is not None:
                place = place | {o}
            x = lookup(ev)
            if x is not None:
                if not is_name(x[1]):
                    return ('BAD', 'something else than the name of the value is looked up')
                facts = facts | {(x[0], x[2])}
            return done, facts, alt, wrote, odd, place
        if ev.kind == 'enter':
            a = [strip(x) for x in ev.args if strip(x)[0] == 'alt']
            if a and alt is None:
                return done, facts, a[0], wrote, odd, place
            return s
        x = fout(ev)
        own = None
        if x is not None and ev.kind == 'call':
            own, sp, vs = x
            own = strip(own)
            if not temporary(own):
                return ('BAD', 'the value is written outside of the document')
            how = 'raw'
            if sp is not None:
                fv = found_value(sp)
                if fv is None:
                    return ('BAD', 'the value is not written with the configured format')
                roles.spec.add(fv[0])
                if not is_name(fv[1]):
                    return ('BAD', 'the format of another name is used')
                if (fv[0], True) not in facts:
                    return ('BAD', 'a format is used that was not looked up')
                how = fv[0]
            if not (len(vs) == 1 and (whole_value(vs[0], alt) or vs[0][0] == 'str' and (alt is not None and 'nullptr' in alt[2] or vs[0][1] == ''))):
                return ('BAD', 'something else than the value is formatted')
        elif (ev.kind == 'ucall' or ev.kind == 'call' and ev.qn == USER) and any(temporary(a) for a in ev.args or ()):
            own, how = next(strip(a) for a in ev.args if temporary(a)), 'user'
            if ev.obj is None or strip(ev.obj) != alt:
                return ('BAD', 'something else than the value writes itself')
        if own is not None:
            while own[0] == 'field':
                own = strip(own[1])
            if own in {w for w, _ in wrote}:
                return ('BAD', 'the value is formatted twice')
            return done, facts, alt, wrote | {(own, how)}, odd, place
        if rjcall(ev, 'GetWithDefault'):
            fv = found_value(ev.obj)
            if fv is not None:
                roles.route.add(fv[0])
                if not is_name(fv[1]):
                    return ('BAD', 'the value is routed by another name')
                if (fv[0], True) not in facts:
                    return ('BAD', 'a route is used that was not looked up')
            else:
                roles.default.append((frozenset(m for m, y in facts if not y), ev.loc, frozenset(m for m, y in facts if y)))
            return done, facts, alt, wrote, odd, place | {(('placed',), strip(ev.d.get('term') or ev.obj))}
        if rjcall(ev, 'AddMember'):
            if done:
                return ('BAD', 'a value is added twice')
            who = text(ev.args[0])
            if who is None:
                return ('BAD', 'the member is not named by the complete name of the value')
            fv = found_value(who)
            if fv is not None:
                roles.rename.add(fv[0])
                if not is_name(fv[1]):
                    return ('BAD', 'the new name of another value is used')
                if (fv[0], True) not in facts:
                    return ('BAD', 'a new name is used that was not looked up')
            elif is_name(who):
                roles.plain.append((frozenset(m for m, y in facts if not y), ev.loc))
            else:
                return ('BAD', 'the member is not named by the name of the value')
            o = strip(ev.obj)
            if not (o[0] == 'call' and fn_name(o[1]) == 'GetWithDefault') and \
                    not any(v is False for t, v in place if t != ('placed',)):
                return ('BAD', 'the value is added to the document without looking for its route')
            v = strip(ev.args[1])
            t = text(v)
            how = None
            if t is None:
                t = val(v)
            w = t
            while w[0] == 'field':
                w = strip(w[1])
            h = [b for a, b in wrote if a == w]
            if h:
                how = h[0]
            elif enum_name(v) == 'kNullType' or enum_name(t) == 'kNullType':
                if not (alt is not None and 'nullptr' in alt[2] or any(b == 'odd' for a, b in odd if alt is None or a == alt)):
                    return ('BAD', 'a value is replaced by null')
            elif not whole_value(t, alt):
                return ('BAD', 'something else than the value is added to the document')
            used = facts | {('used', how)}
            return True, used, alt, wrote, odd, place
        if ev.kind == 'exit' and ev.how == 'return':
            if not done:
                return ('BAD', 'the value is not added to the document')
            roles.ends.append((facts, f, ev.loc))
        return s
    c.run('one-member', f, g, (False, frozenset(), None, frozenset(), frozenset(), frozenset()), step)


def agreement(c, f, roles):
    """What was found is used: the maps of routes, names and formats are told apart by their use."""
    inst = c.fname(f)
    for m, what in ((roles.route, 'routes'), (roles.rename, 'new names'), (roles.spec, 'formats')):
        c.expect(len(m) == 1, 'roles', c.loc(f), inst, 'the %s are looked up in %d places' % (what, len(m)))
    if len(roles.route) != 1 or len(roles.rename) != 1 or len(roles.spec) != 1:
        return
    route, name, spec = (next(iter(x)) for x in (roles.route, roles.rename, roles.spec))
    c.expect(len({route, name, spec}) == 3, 'roles', c.loc(f), inst, 'routes, names and formats are not kept apart')
    for miss, loc, hit in roles.default:
        c.expect(route in miss, 'route', loc, inst, 'the default place is used without looking for the route of the value')
    for miss, loc in roles.plain:
        c.expect(name in miss, 'rename', loc, inst, 'the name is used without looking for a new one')
    for facts, e, loc in roles.ends:
        used = {b for a, b in facts if a == 'used'}
        if (spec, True) in facts:
            c.expect(used <= {spec, 'user'}, 'format', loc, c.fname(e), 'the configured format is not applied')
        elif (spec, False) in facts:
            c.expect(used <= {None, 'user'}, 'format', loc, c.fname(e), 'a value is turned into text without a configured format')
        else:
            c.bad('format', loc, c.fname(e), 'the configured format is not looked up')


def complete(c, f, em):
    """All data of the record is added once before the document is written."""
    keys = {x['key'] for x in em}
    g = c.graph(f, KINDS, opaque=tuple(sorted({x['qn'] for x in em})) + REC)
    R = [('param', f['key'], i, p['name']) for i, p in enumerate(f['params']) if 'record_t' in p['t']]
    c.need(R, 'the record')
    want = ('message', 'lwp', 'thread', 'process', 'severity', 'timestamp')

    def rec(v, what):
        calls = [x for x in subterms(val(v)) if x[0] == 'call' and x[1] in REC]
        return bool(calls) and all(fn_name(x[1]) == what for x in calls)

    def step(s, ev):
        seen, attr, filled = s
        if ev.kind == 'branch':
            return s
        x = fout(ev)
        if x is not None and ev.kind == 'call' and temporary(x[0]):
            w = strip(x[0])
            while w[0] == 'field':
                w = strip(w[1])
            k = 'tid' if x[1] == ('str', '{:#x}') and len(x[2]) == 1 and rec(x[2][0], 'tid') else 'other'
            return seen, attr, frozenset(filled | {(w, k)})
        if ev.kind == 'ucall' and any(temporary(a) for a in ev.args or ()):
            w = next(strip(a) for a in ev.args if temporary(a))
            k = 'timestamp' if any(rec(a, 'timestamp') for a in ev.args) else 'other'
            return seen, attr, frozenset(filled | {(w, k)})
        if ev.kind == 'call' and (ev.fnref or {}).get('key') in keys:
            n = val(ev.args[0])
            vs = [val(a) for a in ev.args[1:]]
            if len(vs) == 2:
                t = whole(strip(ev.args[1]), strip(ev.args[2]))
                if t is None:
                    return ('BAD', 'a length does not belong to its text')
                vs = [val(t)]
            v = vs[0]
            w = v
            while w[0] == 'field' and not any(y[0] == 'call' and y[1] in REC for y in subterms(w)):
                w = strip(w[1])
            ks = {k for a, k in filled if a == w}
            if n[0] == 'str':
                what = n[1]
                ok = {'message': rec(v, 'formatted'), 'lwp': rec(v, 'lwp'), 'process': rec(v, 'pid'), 'thread': ks == {'tid'},
                      'severity': rec(v, 'severity'), 'timestamp': ks == {'timestamp'} or rec(v, 'timestamp')}.get(what)
                if ok is None:
                    return ('BAD', 'a member is added that the record does not have')
                if not ok:
                    return ('BAD', 'the member %s does not get the %s of the record' % (what, what))
                if what in seen:
                    return ('BAD', 'the member %s is added twice' % what)
                return seen | {what}, attr, filled
            a = attr_of(n)
            if a is None or attr_of(v) != a or n != ('field', a, 'first') or v != ('field', a, 'second'):
                return ('BAD', 'a member is neither a field of the record nor an attribute with its own name')
            return s
        if rjcall(ev, 'Accept'):
            miss = [x for x in want if x not in seen]
            if miss:
                return ('BAD', 'the document is written without %s' % ', '.join(miss))
        return s
    c.run('complete', f, g, (frozenset(), False, frozenset()), step)
    attributes(c, f, g, keys)


def attributes(c, f, g, keys):
    """Each attribute of each list is added once; with `unique`, once per name."""
    def lists(t):
        return lists_of(t) == 'lists'

    def step(s, ev):
        outer, inner, n, done, fresh, uniq = s
        k = ev.kind
        if k == 'branch':
            t, pol = norm(ev)
            x = strip(t[1]) if t[0] == 'truth' else t
            if x[0] == 'field' and x[2] == 'unique':
                return outer, inner, n, done, fresh, pol
            y = x
            if y[0] == 'field' and y[2] == 'second':
                y = strip(y[1])
            if y[0] == 'call' and fn_name(y[1]) in ('insert', 'emplace') and 'set' in str(y[1]) or y[0] == 'call' and fn_name(y[1]) in ('count', 'contains') and 'set' in str(y[1]):
                if uniq is not True:
                    return ('BAD', 'attributes are filtered although duplicates are allowed')
                k2 = val(y[3][-1]) if y[3] else None
                if k2 is not None and k2[0] == 'field' and k2[2] == 'first':
                    k2 = None
                if k2 is not None and inner:
                    return ('BAD', 'duplicates are told by something else than the name of the attribute')
                ins = fn_name(y[1]) in ('insert', 'emplace')
                return outer, inner, n, done, pol if ins else not pol, uniq
            return s
        if outer and (k == 'ctor' and str(ev.cls or '').startswith(('std::set<', 'std::unordered_set<')) or
                      k == 'call' and ev.qn.startswith(('std::set<', 'std::unordered_set<', 'std::set::', 'std::unordered_set::')) and fn_name(ev.qn) == 'clear'):
            return ('BAD', 'the names already seen are forgotten before the last list')
        if k == 'iter' and lists(ev.over):
            if inner:
                return ('BAD', 'the pass over the attributes of a list is left early')
            return True, False, 0, done, None, uniq
        if k == 'done' and lists(ev.over):
            if inner:
                return ('BAD', 'the pass over the attributes of a list is left early')
            if outer == 'armed':
                return ('BAD', 'a list of attributes is skipped')
            return False, False, 0, True, None, uniq
        if k == 'iter' and lists_of(ev.over) == 'attrs':
            if inner and n == 0 and fresh is not False:
                return ('BAD', 'an attribute is skipped')
            return outer, True, 0, done, None, uniq
        if k == 'done' and lists_of(ev.over) == 'attrs':
            if inner and n == 0 and fresh is not False:
                return ('BAD', 'an attribute is skipped')
            return 'listed', False, 0, done, None, uniq
        if k == 'call' and (ev.fnref or {}).get('key') in keys and val(ev.args[0])[0] != 'str':
            if not inner:
                return ('BAD', 'an attribute is added outside of the pass over its list')
            if n:
                return ('BAD', 'an attribute is added twice')
            if uniq is True and fresh is not True:
                return ('BAD', 'an attribute is added again although names are unique')
            return outer, inner, 1, done, fresh, uniq
        if rjcall(ev, 'Accept'):
            if outer or inner:
                return ('BAD', 'the pass over the attributes is left early')
            if not done:
                return ('BAD', 'the attributes are missing')
        return s

    def armed(s, ev):
        r = step(s, ev)
        if r and r[0] == 'BAD':
            return r
        if ev.kind == 'iter' and lists(ev.over):
            if s[0] == 'armed':
                return ('BAD', 'a list of attributes is skipped')
            return ('armed',) + tuple(r[1:])
        return r
    c.run('each-attribute', f, g, (False, False, 0, False, None, None), armed)


@prop('C19')
def c19(c):
    """Path analysis of the JSON formatter. format(): message, thread, process, severity, timestamp and light-weight process
    are each added once, from the record's field of that name, and each attribute of each list is added once (once per
    name under `unique`) before the document is written. Each function that adds a named value adds it exactly once on
    every path, at the route looked up by the original name, under the new name looked up by it, in the format looked up
    by it, and adds the complete value; nothing is replaced by null but null and numbers that are not finite."""
    for f in formatter(c):
        em = emitters(c, f)
        complete(c, f, em)
        faithful(c, 'faithful-number', f)
        roles = Roles()
        for e in em:
            one_member(c, e, roles)
        agreement(c, f, roles)
