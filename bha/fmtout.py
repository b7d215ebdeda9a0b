"""Recognition of output through fmt writers: what is written, with which specification, to which writer."""
from .rule import strip, fn_name, method, subterms
from .engine import fkey_name

REFS = ('blackhole::fmt::BasicStringRef', 'blackhole::fmt::BasicCStringRef')
VIEWS = ('blackhole::stdext::basic_string_view', 'std::basic_string')


def writer_of(t):
    """The blackhole writer (or fmt writer) a term denotes."""
    t = strip(t)
    while t[0] == 'field' and t[2] == 'inner':
        t = strip(t[1])
    return t


def val(t):
    """The text or value a term denotes: views and references of the whole of X are X itself."""
    t = strip(t)
    while True:
        if t[0] == 'copy':
            t = strip(t[1])
            continue
        if t[0] in ('ctor', 'init') and str(t[1]).startswith(REFS + VIEWS):
            a = [x for x in t[2] if not (x[0] == 'ctor' and 'allocator' in str(x[1]))]
            if len(a) == 1:
                t = strip(a[0])
                continue
            if len(a) == 2:
                p, n = strip(a[0]), strip(a[1])
                o = whole(p, n)
                if o is not None:
                    t = o
                    continue
                if p[0] == 'str' and n == ('const', len(p[1])):
                    return p
            return t
        if t[0] == 'call' and fn_name(t[1]) in ('to_string', 'str') and t[2] is not None and \
                all(strip(x)[0] == 'ctor' and 'allocator' in str(strip(x)[1]) for x in t[3] or ()):
            t = strip(t[2])
            continue
        return t


def whole(p, n):
    """The object whose complete contents (data(), size()) describe."""
    if p[0] == 'call' and fn_name(p[1]) in ('data', 'c_str') and p[2] is not None and \
            n[0] == 'call' and fn_name(n[1]) in ('size', 'length') and n[2] is not None and strip(p[2]) == strip(n[2]):
        return strip(p[2])
    return None


def is_write(ev):
    q = fkey_name(ev.qn or '')
    return q.startswith(('blackhole::fmt::BasicWriter', 'blackhole::fmt::BasicMemoryWriter', 'blackhole::writer_t'))


def fout(ev):
    """(writer, spec or None for verbatim, [values]) of an output call, or None."""
    if ev.kind not in ('call', 'thrown') or not is_write(ev):
        return None
    n = method(ev)
    a = list(ev.args or ())
    if n == 'write' and a and ev.obj is not None:
        return writer_of(ev.obj), val(a[0]), [val(x) for x in a[1:]]
    if n == 'operator<<' and len(a) == 1 and ev.obj is not None:
        v = val(a[0])
        if v[0] == 'call' and fn_name(v[1]) == 'format' and v[3]:
            return chain(ev.obj), val(v[3][0]), [val(x) for x in v[3][1:]]
        return chain(ev.obj), None, [v]
    return None


def chain(t):
    """w << a << b: the writer at the left end."""
    t = strip(t)
    while t[0] == 'call' and fn_name(t[1]) == 'operator<<' and t[2] is not None:
        t = strip(t[2])
    return writer_of(t)


def empty_fact(ev):
    """The value known to be empty on this branch outcome."""
    from .rule import norm
    if ev.kind != 'branch':
        return None
    t, pol = norm(ev)
    if t[0] == 'cmp' and t[1] == '==' and pol:
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            if y == ('const', 0) and x[0] == 'call' and fn_name(x[1]) in ('size', 'length') and x[2] is not None:
                return writer_of(val(x[2]))
    if t[0] == 'truth' and not pol and t[1][0] == 'call' and fn_name(t[1][1]) in ('size', 'length') and t[1][2] is not None:
        return writer_of(val(t[1][2]))
    if t[0] == 'truth' and pol and t[1][0] == 'call' and fn_name(t[1][1]) == 'empty' and t[1][2] is not None:
        return writer_of(val(t[1][2]))
    if t[0] == 'cmp' and t[1] == '<' and not pol and t[2] == ('const', 0) and t[3][0] == 'call' and \
            fn_name(t[3][1]) in ('size', 'length') and t[3][2] is not None:
        return writer_of(val(t[3][2]))
    return None
