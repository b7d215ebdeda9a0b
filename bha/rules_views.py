"""C16, C17: log data is neither a format string nor a C string."""
from .engine import strip, subterms, fn_name, fkey_name, Budget, show
from .rule import prop, norm, method
from .prog import AnalysisError

VIEW = 'blackhole::stdext::basic_string_view<char, std::char_traits<char>>'
ACC = ('blackhole::stdext::basic_string_view::data', 'blackhole::stdext::basic_string_view::size',
       'blackhole::stdext::basic_string_view::length', 'blackhole::record_t::message', 'blackhole::record_t::formatted', 'blackhole::record_t::attributes')
SKIP = ('rapidjson::', 'cds::', 'std::', 'boost::', 'blackhole::fmt::', '__gnu_cxx::')
KINDS = ('call', 'ucall', 'ctor', 'branch', 'exit', 'assign')
FORMAT = {'blackhole::fmt::BasicWriter::write': 0, 'blackhole::fmt::format': 0, 'blackhole::fmt::print': 0, 'blackhole::fmt::sprintf': 0,
          'blackhole::fmt::printf': 0, 'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'syslog': 1, 'vsyslog': 1, 'dprintf': 1,
          'std::printf': 0, 'std::fprintf': 1, 'std::sprintf': 1, 'std::snprintf': 2, 'strftime': 2, 'std::strftime': 2}
LOOKUP = {'find', 'count', 'at', 'operator[]', 'lower_bound', 'equal_range', 'contains'}
NUMBER = {'size', 'length', 'empty', 'operator==', 'operator!=', 'operator<', 'compare', 'size_hint', 'capacity', 'max_size'}
DATA = {'message', 'formatted', 'attributes'}


def library(c):
    return [f for f in sorted(c.p.functions.values(), key=lambda f: (f['loc'], f['key']))
            if f.get('cfg') and not f['qn'].startswith(SKIP) and 'fmt' not in f['file'].split('/')]


def flow(c, f, inline=None):
    """Event graph of one function; other functions stay calls."""
    m = getattr(c.p, '_flows', None)
    if m is None:
        m = c.p._flows = {}
    if f['key'] not in m:
        m[f['key']] = c.graph(f, KINDS, inline=lambda x: '(lambda)' in x['qn'] and x['key'].startswith(f['key'].split('|')[0]), opaque=ACC)
    return m[f['key']]


def relevant(f):
    """Does a function handle text through pointers or format strings?"""
    for n in f['nodes'].values():
        fn = n.get('fn')
        if fn and (fn_name(fn['qn']) in ('data', 'StringRef', 'BasicStringRef', 'BasicCStringRef') or 'fmt::' in fn['qn'] or fn['qn'] in FORMAT):
            return True
    return False


class Taint:
    """Which parameters, members and results carry text of a record, to a fixed point over the calls of the library."""

    def __init__(self, c):
        self.c = c
        self.params = set()      # (function key, index)
        self.fields = set()      # (class, member)
        self.rets = set()        # function keys
        self.flows = []
        for f in library(c):
            try:
                g = flow(c, f)
            except Budget:
                continue
            self.flows.append((f, g))
            if '/blackhole/extensions/facade' in f['file']:
                continue
            for i, p in enumerate(f['params']):
                if 'basic_string_view' in p['t'] or 'view_of<' in p['t'] or 'attribute::view_t' in p['t'] or 'attribute_list' in p['t']:
                    self.params.add((f['key'], i))
        # functions whose results are known for themselves
        self.made = {fkey_name(f['qn']) for f, g in self.flows if self.textual(f['ret'])}
        more = True
        while more:
            more = False
            for f, g in self.flows:
                for e in g.events():
                    if e.kind in ('call', 'ctor', 'ucall'):
                        k = (e.fnref or {}).get('key') if e.fnref else e.fkey
                        if k in c.p.functions:
                            for i, a in enumerate(e.args or ()):
                                if (k, i) not in self.params and i < len(c.p.functions[k]['params']) and self.of(f, a) and self.textual(c.p.functions[k]['params'][i]['t']):
                                    self.params.add((k, i))
                                    more = True
                    elif e.kind == 'assign':
                        l = strip(e.lhs)
                        if l[0] == 'field' and strip(l[1]) == ('this',) and (f.get('cls'), l[2]) not in self.fields and self.of(f, e.rhs):
                            self.fields.add((f.get('cls'), l[2]))
                            more = True
                    elif e.kind == 'exit' and e.how == 'return' and e.val is not None and f['key'] not in self.rets and \
                            self.textual(f['ret']) and self.of(f, e.val):
                        self.rets.add(f['key'])
                        more = True

    def textual(self, t):
        return any(x in t for x in ('string', 'char', 'view', 'vector', 'attribute'))

    def of(self, f, t):
        """Does a term of function f carry text of a record?"""
        t = strip(t)
        k = t[0]
        if k == 'param':
            return any((key, t[2]) in self.params for key in (t[1], f['key']) if isinstance(key, str))
        if k == 'field':
            if strip(t[1]) == ('this',):
                return (f.get('cls'), t[2]) in self.fields
            return self.of(f, t[1])
        if k == 'call':
            q = fn_name(t[1])
            if str(t[1]).startswith('blackhole::record_t::'):
                return q in DATA
            if q in NUMBER:
                return False
            if q in LOOKUP and t[2] is not None:
                return self.of(f, t[2])
            if t[1] in self.made:
                return any(fkey_name(self.c.p.functions[key]['qn']) == t[1] for key in self.rets) or t[2] is not None and self.of(f, t[2])
            return any(self.of(f, a) for a in ([t[2]] if t[2] else []) + list(t[3] or ()))
        if k in ('const', 'str', 'this', 'enum', 'null'):
            return False
        return any(self.of(f, x) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)) or \
            any(self.of(f, y) for x in t[1:] if isinstance(x, tuple) and not (x and isinstance(x[0], str)) for y in x
                if isinstance(y, tuple) and y and isinstance(y[0], str))


@prop('C16')
def c16(c):
    """Interprocedural taint analysis: text of a record (its message, its attributes' names and values, the formatted line)
    is followed through parameters, members and results of the library's functions to a fixed point, and never arrives in
    the format argument of a formatting function (cppformat, printf family, syslog, strftime)."""
    T = Taint(c)
    c.need(T.params, 'parameters that carry text of a record')
    n = 0
    for f, g in T.flows:
        for e in g.events():
            i = FORMAT.get(e.qn) if e.kind == 'call' else None
            if i is None or i >= len(e.args):
                continue
            n += 1
            c.expect(not T.of(f, e.args[i]), 'constant-format', e.loc, c.fname(f), 'text of a record is used as a format string')
    c.need(n, 'formatting calls')


RAW = ('blackhole::stdext::basic_string_view', 'blackhole::fmt::', 'std::vector', 'boost::container')


def owners(g):
    """Objects whose unterminated text is accessed through a pointer."""
    return {strip(e.obj) for e in g.events() if e.kind == 'call' and fn_name(e.qn) in ('data', 'begin') and e.obj is not None and e.qn.startswith(RAW)}


def holder(t, own):
    """The owner if a term is the bare pointer of unterminated text."""
    t = strip(t)
    if t[0] == 'call' and fn_name(t[1]) == 'data' and not t[3] and t[2] is not None and strip(t[2]) in own:
        return strip(t[2])
    return None


@prop('C17')
def c17(c):
    """Flow analysis of every pointer taken from a string view or a format buffer, which need not be terminated: each function
    that gets such a pointer also gets the length (or the end) of the same text; a string reference of cppformat, which
    treats length zero as unknown, is only built from such a pointer where the length was tested to be nonzero."""
    n = 0
    for f in library(c):
        if not relevant(f):
            continue
        try:
            g = flow(c, f)
        except Budget:
            raise AnalysisError('too many paths in ' + f['qn'])
        own = owners(g)
        def size_of(x):
            return strip(x[2]) if x[0] == 'call' and fn_name(x[1]) in ('size', 'length', 'end') and x[2] is not None else None

        def passing(s, e):
            if e.kind == 'branch':
                t, pol = norm(e)
                if t[0] == 'cmp' and t[1] == '==' and pol:
                    x, y = size_of(strip(t[2])), size_of(strip(t[3]))
                    if x is not None and y is not None:
                        return s | {(x, y), (y, x)}
                return s
            if e.kind not in ('call', 'ctor', 'ucall'):
                return s
            args = list(e.args or ())
            for a in args:
                h = holder(a, own)
                if h is None:
                    continue
                same = {h} | {y for x, y in s if x == h}
                if not any(size_of(x) in same for b in args for x in subterms(strip(b)) if size_of(x) is not None):
                    return ('BAD', '%s gets the pointer of %s without its length' % (fn_name(e.qn or e.cls or 'call'), show(h)))
            return s
        if own:
            n += 1
            c.run('length-with-pointer', f, g, frozenset(), passing)

        def zero(ev):
            """Terms that a branch says are nonzero."""
            t, pol = norm(ev)
            if t[0] == 'truth' and pol:
                return {strip(t[1])}
            if t[0] == 'truth' and not pol:
                x = strip(t[1])
                if x[0] == 'call' and fn_name(x[1]) == 'empty':
                    return {('size-of', strip(x[2]))}
            if t[0] == 'cmp' and t[1] == '==' and not pol:
                for a, b in ((t[2], t[3]), (t[3], t[2])):
                    if strip(b) == ('const', 0):
                        return {strip(a)}
            if t[0] == 'cmp' and t[1] == '<' and pol and strip(t[2]) == ('const', 0):
                return {strip(t[3])}
            return set()

        def refs(ev):
            """(data, size) of the string references that an event passes on for formatting."""
            ts = []
            if ev.kind == 'call' and fn_name(ev.qn) != 'operator<<' or ev.kind == 'ucall':
                ts = list(ev.args or ())
            elif ev.kind == 'exit' and ev.how == 'return' and ev.val is not None:
                ts = [ev.val]
            for t in ts:
                for x in subterms(strip(t)):
                    if x[0] == 'ctor' and 'BasicStringRef' in str(x[1]) and len(x[2]) == 2:
                        yield strip(x[2][0]), strip(x[2][1])

        def step(s, ev):
            if ev.kind == 'branch':
                return s | frozenset(zero(ev))
            for d, z in refs(ev):
                if d[0] == 'str' or z[0] == 'const' and z[1]:
                    continue
                own = z[2] if z[0] == 'call' and fn_name(z[1]) in ('size', 'length') else None
                if z in s or own is not None and ('size-of', strip(own)) in s:
                    continue
                if d[0] == 'call' and fn_name(d[1]) in ('data', 'c_str') and 'basic_string<' in str(d[1]) + str(d[2:3]) and 'view' not in str(d[1]):
                    continue
                return ('BAD', 'a string reference of length zero may be built from unterminated text')
            return s
        if any(True for e in g.events() for _ in refs(e)):
            c.run('nonzero-length', f, g, frozenset(), step)
    c.need(n, 'pointers of text')
