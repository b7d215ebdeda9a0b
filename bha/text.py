"""Recognition of text output: what a function writes to a stream, as a sequence of pieces.

A piece is 'T' (the whole text under observation), 'N' (a newline), ('lit', s), ('val', term) or ('cut', why) for output
that may lose or add bytes of the text."""
from .rule import strip, subterms, contains, fn_name, method, show, is_call

STREAM = ('std::basic_ostream', 'std::ostream', 'std::basic_ofstream', 'std::basic_ostringstream', 'std::basic_iostream')


def is_string(t):
    return t[0] in ('ctor', 'init') and 'basic_string<' in str(t[1]) and 'view' not in str(t[1])


def flat(args):
    out = []
    for a in args or ():
        if a and isinstance(a[0], tuple):
            out.extend(flat(a))
        elif a:
            out.append(a)
    return [a for a in out if not (a[0] == 'ctor' and 'allocator' in str(a[1]))]


def unfold_str(s):
    out = []
    cur = ''
    for ch in s:
        if ch == '\n':
            if cur:
                out.append(('lit', cur))
                cur = ''
            out.append('N')
        else:
            cur += ch
    if cur:
        out.append(('lit', cur))
    return out


def sized(ptr, ln, P, bufs):
    """Pieces written by a (pointer, length) pair."""
    ptr, ln = strip(ptr), strip(ln)
    if ptr[0] == 'call' and fn_name(ptr[1]) in ('data', 'c_str') and ptr[2] is not None:
        o = ptr[2]
        if ln[0] == 'call' and fn_name(ln[1]) in ('size', 'length') and ln[2] == o:
            return pieces(o, P, bufs)
        if contains(ptr, P) or pieces(o, P, bufs) != [('val', o)]:
            return [('cut', 'the text is written with the length %s' % show(ln))]
    if contains(ptr, P):
        return [('cut', 'a part of the text is written (%s, %s)' % (show(ptr), show(ln)))]
    if ptr[0] == 'str':
        if ln == ('const', len(ptr[1])):
            return unfold_str(ptr[1])
        return [('lit', ptr[1])]
    return [('val', ptr)]


def pieces(t, P, bufs):
    t = strip(t)
    if t == P:
        return ['T']
    if t in bufs:
        return list(bufs[t])
    k = t[0]
    if k == 'str':
        return unfold_str(t[1])
    if k == 'const':
        if t[1] == 10:
            return ['N']
        return [('lit', str(t[1]))]
    if k == 'call':
        n = fn_name(t[1])
        if n in ('to_string', 'str') and t[2] is not None:
            return pieces(t[2], P, bufs)
        if n in ('c_str', 'data') and t[2] is not None:
            x = pieces(t[2], P, bufs)
            if x == [('val', t[2])]:
                return [('val', t)]
            return [('cut', 'the text is written as a C-string')]
        if n == 'operator+':
            a = ([t[2]] if t[2] is not None else []) + list(t[3])
            out = []
            for x in a:
                out += pieces(x, P, bufs)
            return out
    if k in ('ctor', 'init'):
        if 'basic_string' in str(t[1]):
            a = flat(t[2])
            if not a:
                return []
            if len(a) == 1:
                return pieces(a[0], P, bufs)
            if len(a) == 2:
                if a[0] == ('const', 1):
                    return pieces(a[1], P, bufs)
                if a[0][0] == 'iter' and a[1][0] == 'end' and a[0][1] == a[1][1]:
                    return pieces(a[0][1], P, bufs)
                return sized(a[0], a[1], P, bufs)
    if contains(t, P):
        return [('cut', 'a part of the text is written: %s' % show(t))]
    return [('val', t)]


def target(t):
    """Stream an output expression writes to."""
    t = strip(t)
    while t[0] == 'call' and fn_name(t[1]) in ('operator<<', 'write', 'put', 'flush', 'endl') and (t[2] is not None or t[3]):
        t = t[2] if t[2] is not None else t[3][0]
    return t


def output(ev, P, bufs):
    """(stream or buffer term, pieces, flushes) of an output event, or None."""
    if ev.kind not in ('call', 'thrown'):
        return None
    q = ev.qn or ''
    n = fn_name(q)
    args = [a for a in ev.args or ()]
    if q.startswith(STREAM):
        o = target(ev.obj) if ev.obj is not None else None
        if n == 'write' and len(args) == 2:
            return o, sized(args[0], args[1], P, bufs), False
        if n == 'put':
            return o, pieces(args[0], P, bufs), False
        if n == 'flush':
            return o, [], True
        if n == 'operator<<' and args:
            a = strip(args[0])
            if a[0] in ('fn', 'global') and 'endl' in str(a):
                return o, ['N'], True
            if a[0] in ('fn', 'global') and 'flush' in str(a):
                return o, [], True
            return o, ([('val', a)] if a[0] == 'const' else pieces(a, P, bufs)), False
    if n == 'operator<<' and ev.obj is None and len(args) == 2 and q.startswith(('std::operator<<', 'blackhole::')):
        return target(args[0]), pieces(args[1], P, bufs), False
    if q in ('std::endl', 'std::flush') and args:
        return target(args[0]), (['N'] if n == 'endl' else []), True
    if q == 'std::operator<<' and len(args) == 2:
        return target(args[0]), pieces(args[1], P, bufs), False
    if ev.obj is not None and q.startswith('std::basic_string::'):
        o = strip(ev.obj)
        if n in ('append', 'assign') and len(args) == 2:
            a, b = strip(args[0]), strip(args[1])
            if b[0] == 'const' and b[1] == 10 and a == ('const', 1):
                return o, ['N'], False
            if a[0] == 'iter' and b[0] == 'end' and a[1] == b[1]:
                return o, pieces(a[1], P, bufs), False
            return o, sized(a, b, P, bufs), False
        if n in ('append', 'operator+=', 'push_back') and len(args) == 1:
            return o, pieces(args[0], P, bufs), False
        if n in ('assign', 'operator=') and len(args) == 1:
            return o, pieces(args[0], P, bufs), False
        if n in ('clear', 'erase', 'pop_back', 'resize', 'insert', 'replace'):
            return o, [('cut', 'the text is modified with %s()' % n)], False
    return None


def grow(bufs, o, ps, ev, P):
    """Buffer contents after an output event to a local string or string stream."""
    d = dict(bufs)
    old = d.get(o)
    if old is None:
        old = tuple(pieces(o, P, {})) if o[0] in ('ctor', 'init') and 'stream' not in str(o[1]) else ()
        if old == (('val', o),):
            old = ()
    if method(ev) in ('assign', 'operator='):
        old = ()
    d[o] = (tuple(old) + tuple(ps))[:12]
    return tuple(sorted(d.items(), key=repr))


def is_local(o):
    return o is not None and o[0] in ('ctor', 'init', 'var', 'phi')
