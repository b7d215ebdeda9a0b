"""C37: values of a configuration tree."""
from .engine import strip, subterms, fn_name, show, strlit, DEAD
from .rule import prop, norm, method, enum_name, each_once
from .rules_pattern import std_exception

NODE = 'blackhole::config::json_t'
OPTION = 'blackhole::config::option<blackhole::config::node_t>'
FACTORY = 'blackhole::config::factory<blackhole::config::json_t>'
TESTS = {'is_bool': 'IsBool', 'is_sint64': 'IsInt64', 'is_uint64': 'IsUint64', 'is_double': 'IsDouble', 'is_string': 'IsString',
         'is_vector': 'IsArray', 'is_object': 'IsObject'}
READS = {'to_bool': ('IsBool', 'GetBool'), 'to_sint64': ('IsInt64', 'GetInt64'), 'to_uint64': ('IsUint64', 'GetUint64'),
         'to_double': ('IsDouble', 'GetDouble'), 'to_string': ('IsString', 'GetString')}
# what a value must be known to be before rapidjson may be asked for a part of it
NEEDS = {'GetBool': ('IsBool',), 'GetInt': ('IsInt',), 'GetUint': ('IsUint',), 'GetInt64': ('IsInt64', 'IsInt', 'IsUint'),
         'GetUint64': ('IsUint64', 'IsUint'), 'GetDouble': ('IsDouble', 'IsNumber', 'IsInt64', 'IsUint64', 'IsInt', 'IsUint'),
         'GetFloat': ('IsFloat',), 'GetString': ('IsString',), 'GetStringLength': ('IsString',), 'GetArray': ('IsArray',),
         'GetObject': ('IsObject',), 'Begin': ('IsArray',), 'End': ('IsArray',), 'Size': ('IsArray',), 'Empty': ('IsArray',),
         'MemberBegin': ('IsObject',), 'MemberEnd': ('IsObject',), 'MemberCount': ('IsObject',), 'FindMember': ('IsObject',),
         'HasMember': ('IsObject',), 'ObjectEmpty': ('IsObject',), 'Capacity': ('IsArray',)}
KINDS_OF_JSON = {'kNullType': 'null', 'kTrueType': 'bool', 'kFalseType': 'bool', 'kNumberType': 'number', 'kStringType': 'string',
                 'kArrayType': 'array', 'kObjectType': 'object'}
TYPES = {'kStringType': 'IsString', 'kArrayType': 'IsArray', 'kObjectType': 'IsObject', 'kNumberType': 'IsNumber'}
KINDS = ('call', 'ucall', 'branch', 'iter', 'done', 'inc', 'enter', 'ctor', 'exit', 'throw', 'narrow', 'switch')


def field_of(c, cls, pat, what):
    fs = [x['name'] for x in c.fields(cls, pat)]
    c.need(len(fs) == 1, what)
    return ('field', ('this',), fs[0])


def is_json(ev):
    return ev.kind == 'call' and str((ev.fnref or {}).get('cls', '')).startswith('rapidjson::')


def type_fact(ev):
    """(value, test, holds) of a branch on the type of a JSON value."""
    if ev.kind != 'branch':
        return None
    t, pol = norm(ev)
    if t[0] == 'truth':
        t = strip(t[1])
    if t[0] == 'call' and fn_name(t[1]) in set(TESTS.values()) | {'IsInt', 'IsUint', 'IsNumber'} and t[2] is not None:
        return strip(t[2]), fn_name(t[1]), pol
    k = by_type(t)
    if k is not None:
        return k[0], k[1], pol
    return None


def by_type(t):
    """(value, test) of a comparison of the type of a value with one that stands for a test of its own."""
    if t[0] == 'cmp' and t[1] == '==':
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            a, n = strip(a), enum_name(strip(b))
            if a[0] == 'call' and fn_name(a[1]) == 'GetType' and n in TYPES:
                return strip(a[2]), TYPES[n]
    return None


def constructs(ev):
    """The class whose constructor is entered, or None."""
    q = str(ev.qn or (ev.fnref or {}).get('qn') or '')
    k = q.rsplit('::', 1)
    return k[0] if len(k) == 2 and k[0].split('<')[0].split('::')[-1] == k[1] else None


def simple(t):
    """A term without copies, dereferences and the frames it was made in."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] in ('copy', 'deref') and len(t) > 1 and isinstance(t[1], tuple):
        return simple(t[1])
    if t[0] == 'phi' and len(t) > 2 and strip(t[2])[0] == 'iter':
        return ('elem', simple(strip(t[2])[1]))
    if t[0] == 'iter':
        return ('elem', simple(t[1]))
    if t[0] in ('ctor', 'init') and len(t) > 2:
        if str(t[1]).startswith(('std::basic_string', 'rapidjson::GenericValue', 'rapidjson::GenericStringRef')) and len(t[2]) == 1:
            return simple(t[2][0])
        return (t[0], t[1], tuple(simple(x) for x in t[2]))
    if t[0] == 'new' and len(t) > 2:
        return ('new', t[1])
    if t[0] == 'call':
        return ('call', t[1], simple(t[2]), tuple(simple(x) for x in t[3]))
    if t[0] == 'param':
        return ('param', t[2]) if len(t) > 2 else t
    return tuple(simple(x) if isinstance(x, tuple) else x for x in t)


@prop('C37')
def c37(c):
    """Type-guard analysis of every access to a JSON value, provenance of everything the nodes return, multiplicity of the
    visits, and forwarding summaries of the optional node."""
    V = field_of(c, NODE, r'rapidjson', 'JSON value of ' + NODE)
    cur = field_of(c, NODE, r'basic_string', 'path of ' + NODE)
    fs = {}
    for f in c.fns(cls=NODE, pred=lambda f: f.get('cfg') and not f.get('ctor') and not f.get('dtor') and f.get('cls') == NODE):
        fs.setdefault(f['name'], []).append(f)
    for name, test in sorted(TESTS.items()):
        for f in c.need(fs.get(name), NODE + '::' + name):
            tests(c, f, V, test)
    wanted = {}
    for name, (test, get) in sorted(READS.items()):
        for f in c.need(fs.get(name), NODE + '::' + name):
            wanted.setdefault(reads(c, f, V, cur, test, get), set()).add(name)
    for name, test, members in (('each', 'IsArray', False), ('each_map', 'IsObject', True)):
        for f in c.need(fs.get(name), NODE + '::' + name):
            wanted.setdefault(reads(c, f, V, cur, test, None), set()).add(name)
            visits(c, f, V, cur, test, members)
    for w, names in sorted(wanted.items(), key=str):
        c.expect(w is None or len(names) == 1, 'expected-type', NODE, str(w), '%s report the same expected type' % ' and '.join(sorted(names)))
    subs = c.need(fs.get('operator[]'), NODE + '::operator[]')
    for f in subs:
        child(c, f, V, cur)
    for name in sorted(fs):
        for f in fs[name]:
            guarded(c, f, V)
            kind_names(c, f, V)
    option(c)
    parsed(c)


def growing(cur, step):
    """The monitor, with the texts appended to copies of the path so far as its third argument."""
    def run(s, ev):
        inner, more = s
        if ev.kind == 'call' and method(ev) in ('operator+=', 'append') and ev.obj is not None and simple(strip(ev.obj)) == cur and ev.args:
            more = more | {simple(strip(ev.args[0]))}
        r = step(inner, ev, more)
        if r is DEAD or isinstance(r, tuple) and r[:1] == ('BAD',):
            return r
        return r, more if ev.kind not in ('iter', 'done') else frozenset()
    return run


def tests(c, f, V, test):
    """is_T is true exactly when the value is of JSON type T."""
    g = c.graph(f, ('branch', 'exit', 'call'))

    def step(s, ev):
        x = type_fact(ev)
        if x is not None and x[0] == V and x[1] == test:
            return x[2]
        if ev.kind == 'exit':
            v = strip(ev.val) if ev.how == 'return' and ev.val is not None else ('unk',)
            while v[0] == 'truth':
                v = strip(v[1])
            if v[0] == 'call' and fn_name(v[1]) == test and v[2] is not None and strip(v[2]) == V:
                return s
            if by_type(v) == (V, test):
                return s
            if v[0] == 'const' and s is not None and bool(v[1]) == s:
                return s
            return ('BAD', '%s() is not the test for that type of value' % f['name'])
        return s
    c.run('type-test', f, g, None, step)


def reads(c, f, V, cur, test, get):
    """to_T returns the value when it is a T and throws otherwise. Returns the name of the expected type reported."""
    g = c.graph(f, KINDS, narrow=True)
    names = set()

    def step(s, ev):
        known, top = s
        x = type_fact(ev)
        if x is not None and x[0] == V and x[1] == test:
            return (x[2], top) if known in (None, x[2]) else DEAD
        if ev.kind == 'branch':
            t, pol = norm(ev)
            u = strip(t[1]) if t[0] == 'truth' else t
            if u[0] == 'call' and fn_name(u[1]) == 'size' and strip(u[2]) == cur:
                return known, not pol
        if ev.kind in ('enter', 'ctor') and constructs(ev) and std_exception(c, constructs(ev)) and \
                constructs(ev).startswith('blackhole::') and ev.args and len(ev.args) == 3:
            a = [simple(x) for x in ev.args]
            names.add(strlit(ev.args[1]) or strlit(strip(ev.args[1])) or repr(a[1]))
            if a[0] != cur and not (strlit(a[0]) is not None and top) and not (a[0][0] == 'phi' or a[0][0] == 'unk'):
                return ('BAD', 'a type mismatch is reported for another place than the node')
            return s
        if ev.kind == 'narrow' and known is not None and get and any(y[0] == 'call' and fn_name(y[1]) == get for y in subterms(strip(ev.over))):
            return ('BAD', 'the value is cut to %s' % ev.t)
        if ev.kind == 'exit' and ev.how == 'return':
            if known is not True:
                return ('BAD', 'a value of another type is accepted')
            if get is None:
                return s
            v = simple(strip(ev.val)) if ev.val is not None else ('unk',)
            calls = {fn_name(y[1]) for y in subterms(v) if y[0] == 'call' and y[2] == V}
            want = {get, 'GetStringLength'} if get == 'GetString' else {get}
            if calls != want or get != 'GetString' and v[0] != 'call':
                return ('BAD', 'something else than the value is returned')
        if ev.kind == 'exit' and ev.how == 'throw':
            if known is True and get is not None:
                return ('BAD', 'a value of the right type is rejected')
            if known is False and not std_exception(c, str(ev.t)):
                return ('BAD', 'a type mismatch is thrown as something else than a std::exception')
        if ev.kind == 'exit' and ev.how in ('terminate', 'noreturn'):
            return ('BAD', 'a type mismatch ends the process')
        return s
    c.run('typed-value', f, g, (None, False), step)
    return sorted(names)[0] if len(names) == 1 else None


def visits(c, f, V, cur, test, members):
    """Every element or member is visited once, as the node of its own place."""
    g = c.graph(f, KINDS)

    def is_list(t):
        t = simple(strip(t))
        return t == V or t[0] == 'call' and fn_name(t[1]) in ('GetArray', 'GetObject') and t[2] == V

    def consume(ev):
        if ev.kind != 'ucall' or not ev.args:
            return None
        n = simple(strip(ev.args[-1]))
        if n[0] not in ('ctor', 'init') or n[1] != NODE or not n[2]:
            return ('unk',)
        e = n[2][0]
        if members:
            if e[0] != 'field' or e[2] != 'value':
                return ('unk',)
            return e[1]
        return e
    each_once(c, 'visited-once', f, g, is_list, consume, c.fname(f), 'the function given')

    def step(s, ev, more):
        x = type_fact(ev)
        if x is not None and x[0] == V and x[1] == test and not x[2]:
            return DEAD
        if ev.kind in ('iter', 'done'):
            if s == 'visited':
                return ('BAD', 'the loop does not go on with the next one')
            return 'iter' if ev.kind == 'iter' else None
        if ev.kind == 'inc' and simple(strip(ev.over))[0] == 'elem':
            if ev.op == '--' or s == 'moved':
                return ('BAD', 'elements are passed over')
            return 'moved'
        if ev.kind == 'ucall' and ev.args:
            if s == 'moved':
                return ('BAD', 'the element is taken after the loop went on')
            n = simple(strip(ev.args[-1]))
            if n[0] not in ('ctor', 'init') or len(n[2]) < 2:
                return ('BAD', 'the node visited does not know its place')
            e, path = n[2][0], (n[2][1],) + tuple(more)
            if members:
                K = e[1] if e[0] == 'field' else None
                names = [y for y in subterms(simple(strip(ev.args[0]))) if y[0] == 'call' and y[2] == ('field', K, 'name')]
                if {fn_name(y[1]) for y in names} != {'GetString', 'GetStringLength'}:
                    return ('BAD', 'the key given is not the whole name of the member')
                if not any(y == ('field', K, 'name') for y in subterms(path)):
                    return ('BAD', 'the place of the node does not name its key')
            elif not any(y[0] in ('call', 'phi', 'op') for y in subterms(path)):
                return ('BAD', 'the place of the node does not name its position')
            if not any(y == cur for y in subterms(path)):
                return ('BAD', 'the place of the node does not start with the place of its parent')
            return 'visited' if any(y[0] in ('phi', 'iter') for a in ev.args for y in subterms(strip(a)) if y[0] == 'phi' and strip(y[2])[0] == 'iter') else s
        return s
    c.run('visited-place', f, g, (None, frozenset()), growing(cur, step))


def child(c, f, V, cur):
    """operator[] yields the child at the index or key when there is one, and nothing otherwise."""
    key = 'string' in f['params'][0]['t']
    P = ('param', 0)
    g = c.graph(f, KINDS, narrow=True)

    def idx(t):
        return simple(strip(t)) == P

    def size(t):
        t = simple(strip(t))
        return t[0] == 'call' and fn_name(t[1]) in ('Size', 'size') and t[2] == V

    def whole(t):
        """Is it the complete key?"""
        t = simple(strip(t))
        if t == P:
            return True
        cs = {fn_name(y[1]) for y in subterms(t) if y[0] == 'call' and y[2] == P}
        return bool(cs) and ('size' in cs or 'length' in cs) and ('data' in cs or 'c_str' in cs)

    def found(t):
        t = simple(strip(t))
        return t[0] == 'call' and fn_name(t[1]) in ('FindMember', 'HasMember') and t[2] == V and t[3] and whole(t[3][0])

    # state: (type known, present known, index in bounds, children made)
    def step(s, ev, more):
        typed, present, made = s
        x = type_fact(ev)
        if x is not None and x[0] == V and x[1] == ('IsObject' if key else 'IsArray'):
            return x[2], present, made
        if ev.kind == 'branch':
            t, pol = norm(ev)
            u = strip(t[1]) if t[0] == 'truth' else t
            if key and u[0] == 'call' and fn_name(u[1]) == 'HasMember':
                if not found(u):
                    return ('BAD', 'the member looked up does not have the whole key as its name')
                return typed, pol, made
            if t[0] == 'cmp':
                a, b = t[2], t[3]
                if key and t[1] == '==':
                    for p, q in ((a, b), (b, a)):
                        if strip(q)[0] == 'end' or fn_name(strip(q)[1]) == 'MemberEnd' if strip(q)[0] in ('end', 'call') else False:
                            if not found(p) and simple(strip(p))[0] == 'call':
                                return ('BAD', 'the member looked up does not have the whole key as its name')
                            if found(p):
                                return typed, not pol, made
                if not key:
                    if t[1] == '<' and idx(a) and size(b) or t[1] == '>' and size(a) and idx(b):
                        return typed, pol, made
                    if t[1] == '>=' and idx(a) and size(b) or t[1] == '<=' and size(a) and idx(b):
                        return typed, not pol, made
        if ev.kind == 'narrow' and not key and idx(ev.over) and present is not True:
            return ('BAD', 'the index is cut to %s before it is compared' % ev.t)
        if ev.kind == 'enter' and constructs(ev) == NODE and ev.args:
            a = [simple(strip(x)) for x in ev.args]
            if len(a) < 2 or not any(y == cur for y in subterms(a[1])) or not any(y == P for y in subterms((a[1],) + tuple(more))):
                return ('BAD', 'the child does not know its place')
            v = a[0]
            if key:
                ok = v[0] == 'field' and v[2] == 'value' and found(v[1]) or v[0] == 'index' and v[1] == V and whole(v[2]) or \
                    v[0] == 'call' and fn_name(v[1]) == 'operator[]' and v[2] == V and whole(v[3][0])
            else:
                ok = v in (('index', V, P),) or v[0] == 'call' and fn_name(v[1]) == 'operator[]' and v[2] == V and v[3] == (P,)
            if not ok:
                return ('BAD', 'the child is not the one asked for')
            if typed is not True or present is not True:
                return ('BAD', 'a child is taken without knowing that it exists')
            return typed, present, made + 1
        if ev.kind == 'exit' and ev.how == 'return':
            if typed is True and present is True and made != 1:
                return ('BAD', 'an existing child is not found')
            if typed is None:
                return ('BAD', 'the type of the value does not matter')
        if ev.kind == 'exit' and ev.how in ('throw', 'terminate', 'noreturn'):
            return ('BAD', 'asking for a missing child is an error')
        return s
    c.run('child', f, g, ((None, None, 0), frozenset()), growing(cur, step))


def guarded(c, f, V):
    """JSON values are only asked for what they are known to have."""
    g = c.graph(f, ('call', 'branch', 'iter', 'exit'))

    def step(s, ev):
        x = type_fact(ev)
        if x is not None:
            v, test, pol = x
            s = frozenset(y for y in s if y[:2] != (v, test))
            return s | {(v, test)} if pol else s
        if is_json(ev) and ev.obj is not None and method(ev) in NEEDS:
            o = strip(ev.obj)
            if simple(o)[0] == 'field' and simple(o)[2] == 'name':
                return s        # names of members are strings
            if not any((o, t) in s for t in NEEDS[method(ev)]):
                return ('BAD', '%s() is called on a value that is not known to have it' % method(ev))
        if is_json(ev) and ev.obj is not None and method(ev) == 'operator[]':
            o = strip(ev.obj)
            if (o, 'IsArray') not in s and (o, 'IsObject') not in s:
                return ('BAD', 'a child is taken of a value that is not known to have any')
        return s
    c.run('guarded', f, g, frozenset(), step)


def kind_names(c, f, V):
    """The name reported for the actual type of a value is the one of its type."""
    if 'basic_string' not in f['ret'] or f['params'] or f['name'] in READS:
        return
    g = c.graph(f, ('branch', 'exit', 'call', 'ctor'))
    if not any(e.kind == 'call' and method(e) == 'GetType' for e in g.events()):
        return
    kinds = set()

    def step(s, ev):
        if ev.kind == 'branch':
            t, pol = norm(ev)
            if t[0] == 'cmp' and t[1] == '==':
                for a, b in ((t[2], t[3]), (t[3], t[2])):
                    if enum_name(strip(b)) in KINDS_OF_JSON and pol:
                        return KINDS_OF_JSON[enum_name(strip(b))]
            if t[0] == 'default':
                return 'default'
        if ev.kind == 'exit' and ev.how == 'return' and s not in (None, 'default'):
            w = strlit(ev.val) if ev.val is not None else None
            kinds.add(s)
            if w is not None and w != s:
                return ('BAD', 'the type of a value that is %s is reported as %s' % (s, w))
        return s
    c.run('actual-type', f, g, None, step)


def option(c):
    """The optional node forwards to the node it has and is empty otherwise."""
    N = field_of(c, OPTION, r'unique_ptr|shared_ptr|node_t', 'node of ' + OPTION)
    names = set()
    for f in c.fns(cls=OPTION, pred=lambda f: f.get('cls') == OPTION and f.get('cfg') and not f.get('lambda') and not f.get('ctor') and not f.get('dtor')):
        name = f['name']
        if f.get('access') == 'private' or name not in set(READS) | {'each', 'each_map', 'operator[]', 'unwrap', 'operator bool'}:
            continue
        names.add(name)
        g = c.graph(f, ('branch', 'call', 'exit'))
        args = tuple(('param', i) for i in range(len(f['params'])))

        def step(s, ev):
            present, n = s
            if ev.kind == 'branch':
                t, pol = norm(ev)
                u = strip(t[1]) if t[0] == 'truth' else t
                if u == N:
                    return pol, n
                if t[0] == 'cmp' and t[1] == '==' and {strip(t[2])[0], strip(t[3])[0]} == {'null', 'field'}:
                    return not pol, n
            if ev.kind == 'call' and str((ev.fnref or {}).get('cls', '')).endswith('config::node_t'):
                if present is not True:
                    return ('BAD', 'the node is used without knowing that there is one')
                if method(ev) != name or strip(ev.obj) != N or tuple(simple(strip(a)) for a in ev.args) != args:
                    return ('BAD', 'something else is asked than %s() of the node' % name)
                return present, n + 1
            if ev.kind == 'exit' and ev.how == 'return':
                v = strip(ev.val) if ev.val is not None else None
                if name == 'operator bool':
                    u = v
                    while u is not None and u[0] == 'truth':
                        u = strip(u[1])
                    good = u == N or v is not None and v[0] == 'const' and present is not None and bool(v[1]) == present or \
                        v is not None and v[0] == 'not' and v[1][0] == 'cmp' and N in v[1]
                    return s if good else ('BAD', 'an option is not present exactly when it has a node')
                if present is None:
                    return ('BAD', 'it does not matter whether there is a node')
                if name == 'unwrap':
                    if present and simple(v) != N:
                        return ('BAD', 'something else than the node is unwrapped')
                elif n != (1 if present else 0):
                    return ('BAD', 'the node is asked %d times' % n)
                elif present and v is not None and f['ret'] != 'void':
                    w = simple(v)
                    if not (w[0] == 'call' and fn_name(w[1]) == name and w[2] == N or w == ('index', N) + args):
                        return ('BAD', 'something else than the answer of the node is returned')
                if not present and v is not None and not (v[0] == 'null' or v[0] in ('ctor', 'init') and not v[2]):
                    return ('BAD', 'a value is made up for an absent node')
            return s
        c.run('forwards', f, g, (None, 0), step)
    c.need(names >= set(READS) | {'each', 'each_map', 'operator[]', 'unwrap', 'operator bool'}, 'members of ' + OPTION)


def parsed(c):
    """The factory parses the stream given, rejects what is malformed, and its root node is the document parsed."""
    doc = field_of(c, FACTORY, r'rapidjson', 'document of ' + FACTORY)
    root = field_of(c, FACTORY, r'json_t$|node_t', 'root node of ' + FACTORY)
    ctors = [f for f in c.fns(cls=FACTORY, pred=lambda f: f.get('cls') == FACTORY and f.get('ctor') and f.get('cfg') and len(f['params']) == 1
             and 'stream' in f['params'][0]['t'])]
    c.need(len(ctors) >= 2, 'constructors of ' + FACTORY)

    def document(t):
        """The document itself, or the reference to it that parsing returns."""
        t = strip(t)
        return t == doc or t[0] == 'call' and fn_name(t[1]).startswith('Parse') and strip(t[2]) == doc
    for f in ctors:
        g = c.graph(f, ('call', 'ctor', 'enter', 'branch', 'exit', 'assign'))

        def step(s, ev):
            parse, bad, src, node = s
            if ev.kind == 'ctor' and ev.args and 'IStreamWrapper' in str((ev.fnref or {}).get('cls', '')):
                if simple(strip(ev.args[0])) != ('param', 0):
                    return ('BAD', 'another stream is read')
                return parse, bad, True, node
            if ev.kind == 'assign' and ev.lhs == root:
                r = simple(strip(ev.rhs))
                return parse, bad, src, r[0] in ('ctor', 'init') and r[2][:1] == (doc,) and not (len(r[2]) > 1 and strlit(r[2][1]) != '')
            if is_json(ev) and ev.obj is not None and document(ev.obj):
                if method(ev).startswith('Parse'):
                    if parse:
                        return ('BAD', 'the document is parsed twice')
                    return True, None, src, node
                if not parse and method(ev) != 'operator=':
                    return ('BAD', 'the document is used before it is parsed')
            if ev.kind == 'branch':
                t, pol = norm(ev)
                u = strip(t[1]) if t[0] == 'truth' else t
                if u[0] == 'call' and fn_name(u[1]) == 'HasParseError' and document(u[2]):
                    return parse, pol, src, node
            if ev.kind == 'exit' and ev.how == 'return':
                if not parse or bad is not False:
                    return ('BAD', 'a malformed configuration is accepted')
                if not src:
                    return ('BAD', 'the stream given is not read')
                if not node:
                    return ('BAD', 'the root node is not the document')
            if ev.kind == 'exit' and ev.how == 'throw':
                if bad is False:
                    return ('BAD', 'a well-formed configuration is rejected')
                if not std_exception(c, str(ev.t)):
                    return ('BAD', 'a parse error is thrown as something else than a std::exception')
            if ev.kind == 'exit' and ev.how in ('terminate', 'noreturn'):
                return ('BAD', 'a parse error ends the process')
            return s
        c.run('parsed', f, g, (False, None, False, False), step)
    for f in c.need([f for f in c.fns(cls=FACTORY, name='config') if f.get('cfg')], FACTORY + '::config'):
        g = c.graph(f, ('exit',))
        for e in g.events():
            c.expect(e.how == 'return' and simple(strip(e.val)) == root, 'root', c.loc(f), c.fname(f), 'config() is not the root of the document')
