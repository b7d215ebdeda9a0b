"""Sinks, handlers, filters."""
import re

from .engine import DEAD
from .rule import (prop, is_call, method, strip, subterms, contains, show, norm, enum_name, returned, classes_in, OPTIONS,
                   strs, fn_name, fkey_name, AnalysisError, each_once)
from .text import output, pieces, sized, grow, is_local, target

FILE = 'blackhole::sink::file_t'
SINK = 'blackhole::sink_t'
CONSOLE = 'blackhole::sink::console_t'
SYSLOG = 'blackhole::sink::syslog_t'
TCP = 'blackhole::sink::socket::tcp_t'
UDP = 'blackhole::sink::socket::udp_t'
ROT = 'blackhole::sink::file::'


def param(f, i):
    p = f['params'][i]
    return ('param', f['key'], i, p['name'])


def text_param(f):
    """Term of the formatted text passed to emit()."""
    for i, p in enumerate(f['params']):
        if 'string_view' in p['t']:
            return i
    raise AnalysisError('emit() without a text parameter: ' + f['qnt'])


def emit_args(c, f, kinds):
    """Parameter terms as the engine names them."""
    n = len(f['params'])
    return [('param', f['key'], i, f['params'][i].get('name', '')) for i in range(n)]


def emits(c, cls):
    return c.need([f for f in c.fns(cls=cls, name='emit') if f.get('cfg')], cls + '::emit')


def held(ev):
    """Mutex terms held at an event."""
    return [strip(m) for _, m in ev.locks]


def own_lock(ev, cls_mutexes):
    return any(m[0] == 'field' and m[1] == ('this',) and m[2] in cls_mutexes for m in held(ev))


MUTEX = r'mutex|spinlock'


def line_monitor(P, when_ok=None):
    """Shared part of the line monitors: counts text and newline pieces sent to a non-local stream."""
    def step(bufs, out, ev):
        r = output(ev, P, dict(bufs))
        if r is None:
            return bufs, None
        o, ps, fl = r
        if is_local(o):
            if ev.kind == 'call':
                return grow(bufs, o, ps, ev, P), None
            return bufs, None
        return bufs, (o, ps, fl)
    return step


@prop('C23')
def c23(c):
    """Typestate analysis of file_t::emit: on every path that returns, the whole text and then one newline are written
    exactly once to the backend of the record's file while the sink's mutex is held throughout; a missing backend is
    opened and one that asks for rotation is closed and reopened first; files are opened for appending; a requested
    flush is carried out after the line was written."""
    mx = {x['name'] for x in c.fields(FILE, MUTEX)}
    c.need(mx, 'mutex of the file sink')
    for f in emits(c, FILE):
        a = emit_args(c, f, None)
        P = a[text_param(f)]
        line = line_monitor(P)
        g = c.graph(f, ('call', 'branch', 'lock', 'unlock', 'exit', 'assign'), args=a)
        c.need(any(output(e, P, {}) for e in g.events()), 'output of the file sink')

        def step(s, ev):
            bufs, wrote, nl, found, rot, opened, erased, upd, fl, unl = s
            k = ev.kind
            if k == 'branch':
                t, pol = norm(ev)
                for x in subterms(t):
                    if x[0] == 'call' and fn_name(x[1]) == 'should_rotate':
                        return (bufs, wrote, nl, found, pol if t == ('truth', x) or t == x else rot, opened, erased, upd, fl, unl)
                    if x[0] == 'call' and fn_name(x[1]) in ('find', 'count', 'contains', 'lower_bound') and 'map' in x[1]:
                        if t[0] == 'cmp' and t[1] == '==' and any(y[0] == 'end' for y in t[2:4]):
                            if found is not None and found == pol and not erased and opened != 'done':
                                return DEAD       # nothing changed since this was decided
                            return (bufs, wrote, nl, not pol, rot, opened, erased, upd, fl, unl)
                        if fn_name(x[1]) in ('count', 'contains') and (t in (x, ('truth', x)) or t[0] == 'cmp'):
                            pos = pol if t in (x, ('truth', x)) else (not pol if t[1] == '==' and ('const', 0) in t[2:4] else pol)
                            return (bufs, wrote, nl, pos, rot, opened, erased, upd, fl, unl)
                    if x[0] == 'call' and fn_name(x[1]) == 'update' and 'flusher' in x[1]:
                        e = [enum_name(y) for y in t[2:4] if y[0] == 'enum'] if t[0] == 'cmp' else []
                        if t[0] == 'cmp' and t[1] == '==' and e:
                            want = pol if e[0] == 'flush' else (not pol if e[0] == 'idle' else None)
                            if want is not None:
                                return (bufs, wrote, nl, found, rot, opened, erased, 'flush' if want else 'idle', fl, unl)
                        if ev.switch:
                            return (bufs, wrote, nl, found, rot, opened, erased, upd, fl, unl)
                return s
            if k == 'unlock' and wrote and not nl:
                return ('BAD', 'the lock is released between the text and the newline of a line')
            if k == 'call':
                n = method(ev)
                q = ev.qn or ''
                if n == 'erase' or (n == 'clear' and 'map' in q):
                    if wrote and not nl:
                        return ('BAD', 'the backend is closed in the middle of a line')
                    return (bufs, wrote, nl, found, rot, opened, True, upd, fl, unl)
                if n == 'create' and 'stream_factory' in q:
                    m = [x for x in subterms(strip(ev.args[1])) if x[0] in ('enum', 'global')]
                    names = {str(x[1]).split('::')[-1] for x in m}
                    if not names & {'app', '_S_app'}:
                        return ('BAD', 'the file is not opened for appending')
                    if names & {'trunc', '_S_trunc'}:
                        return ('BAD', 'the file is truncated when it is opened')
                    if not own_lock(ev, mx):
                        return ('BAD', 'the file is opened without holding the lock of the sink')
                    return (bufs, wrote, nl, found, rot, 'stream', erased, upd, fl, unl)
                if n == 'create' and 'rotate_factory' in q and opened is None:
                    return ('BAD', 'the rotation check is created before the file was opened, so it fails for a new file')
                if n in ('insert', 'emplace', 'try_emplace') and 'map' in q:
                    if opened is None:
                        return ('BAD', 'a backend is registered without opening its file')
                    if found and not erased:
                        return ('BAD', 'the reopened backend does not replace the old one')
                    return (bufs, wrote, nl, found, rot, 'done', erased, upd, fl, unl)
                if n in ('insert_or_assign', 'operator=') and opened == 'stream':
                    return (bufs, wrote, nl, found, rot, 'done', erased, upd, fl, unl)
                if n == 'update' and 'flusher' in q:
                    if upd is not None:
                        return ('BAD', 'a record is reported twice to the flusher')
                    return (bufs, wrote, nl, found, rot, opened, erased, 'asked', fl, unl)
                bufs, r = line(bufs, None, ev)
                if r is not None:
                    o, ps, flush = r
                    if not own_lock(ev, mx):
                        return ('BAD', 'the file is written without holding the lock of the sink')
                    for p in ps:
                        if isinstance(p, tuple):
                            if p[0] == 'cut':
                                return ('BAD', p[1])
                            return ('BAD', 'something else than the text is written: %s' % show(p[1]))
                        if p == 'T':
                            if wrote:
                                return ('BAD', 'the text is written twice')
                            if found and rot is None and not opened:
                                return ('BAD', 'the text is written without asking whether the file has to be rotated')
                            if (rot or found is False) and opened != 'done':
                                return ('BAD', 'the text is written without (re)opening the file')
                            if rot is False and erased and opened != 'done':
                                return ('BAD', 'the text is written to a backend that was closed')
                            wrote = True
                        if p == 'N':
                            if not wrote:
                                return ('BAD', 'the newline is written before the text')
                            if nl:
                                return ('BAD', 'the newline is written twice')
                            nl = True
                    if flush and nl:
                        fl = True
                    return (bufs, wrote, nl, found, rot, opened, erased, upd, fl, unl)
                return (bufs, wrote, nl, found, rot, opened, erased, upd, fl, unl)
            if k == 'assign' and opened == 'stream':
                return (bufs, wrote, nl, found, rot, 'done', erased, upd, fl, unl)
            if k == 'exit' and ev.how == 'return':
                if not wrote:
                    return ('BAD', 'emit() can return without writing the record')
                if not nl:
                    return ('BAD', 'emit() can return without finishing the line')
                if upd is None and not fl:
                    return ('BAD', 'a written record is not reported to the flusher')
                if upd in ('flush', 'asked') and not fl:
                    return ('BAD', 'a flush the flusher asked for is not carried out')
            return s
        c.run('one-line-under-lock', f, g, ((), False, False, None, None, None, False, None, False, False), step)
    # the stream factory opens the file it is asked for, in the mode it is asked for
    for f in c.need([f for f in c.impls(ROT + 'stream_factory_t', 'create') if f.get('cfg')], 'stream factory'):
        a = emit_args(c, f, None)
        g = c.graph(f, ('call', 'ctor', 'exit'), args=a)
        opens = []
        for e in g.events():
            if e.kind == 'call' and method(e) == 'open' and 'fstream' in (e.qn or ''):
                opens.append((e, [strip(x) for x in e.args]))
            if e.kind == 'ctor' and 'basic_ofstream' in str(e.qn) + str(e.d.get('t')) and len(flat_args(e.args)) >= 1:
                opens.append((e, [strip(x) for x in flat_args(e.args)]))
        c.need(opens, 'file opening in ' + f['qnt'])
        for e, ar in opens:
            c.expect(ar and contains(ar[0], a[0]), 'opens-requested-file', e.loc, c.fname(f), 'the opened file is not the requested one')
            c.expect(len(ar) > 1 and contains(ar[1], a[1]), 'opens-in-requested-mode', e.loc, c.fname(f), 'the requested mode is not used to open the file')
    # rotation by stat
    for f in c.need([f for f in c.impls(ROT + 'rotate_t', 'should_rotate') if f.get('cfg')], 'rotation checks'):
        g = c.graph(f, ('call', 'branch', 'exit'))
        if not any(is_call(e, 'stat', '::stat') or method(e) == 'stat' for e in g.events()):
            continue

        def step(s, ev):
            rc, ino = s
            if ev.kind == 'call' and method(ev) in ('stat', 'lstat', 'fstat'):
                return ('asked', ino)
            if ev.kind == 'branch':
                t, pol = norm(ev)
                if t[0] == 'cmp' and any(x[0] == 'call' and fn_name(x[1]) == 'stat' for x in subterms(t)):
                    if t[1] == '==' and ('const', 0) in t[2:4]:
                        return ('ok' if pol else 'fail', ino)
                    if t[1] == '==' and ('const', -1) in t[2:4]:
                        return ('fail' if pol else 'ok', ino)
                if t[0] == 'cmp' and any(x[0] == 'field' and x[2] == 'st_ino' for x in subterms(t)):
                    return (rc, ('same' if pol else 'diff') if t[1] == '==' else ino)
            if ev.kind == 'exit' and ev.how == 'return' and ev.val is not None:
                v = strip(ev.val)
                if v[0] == 'const':
                    if bool(v[1]) and rc == 'ok' and ino == 'same':
                        return ('BAD', 'the file is rotated although it is still the same')
                    if not v[1] and not (rc == 'ok' and ino == 'same'):
                        return ('BAD', 'a removed or replaced file is not noticed')
            return s
        c.run('rotation-detected', f, g, (None, None), step)


def flat_args(args):
    from .text import flat
    return flat(args)


def out_throws(fn, kind):
    if fn and fkey_name(fn['qn']).startswith(('std::basic_ostream::', 'std::operator<<', 'std::ostream::')) and \
            fn_name(fkey_name(fn['qn'])) in ('write', 'put', 'flush', 'operator<<'):
        return 'std::ios_base::failure'
    return False


def failed(ev):
    """Event of a call that threw (also one nobody catches)."""
    return ev.kind == 'thrown' or (ev.kind == 'exit' and ev.how == 'throw' and ev.via is not None and ev.via.kind == 'thrown')


@prop('C24')
def c24(c):
    """Exception-flow analysis of the file sink: a failure while writing, ending the line or flushing closes the backend
    (so that the next record reopens the file) and is reported to the caller; streams are created with exceptions
    enabled for failed and bad states, and a file that cannot be opened is reported as std::system_error; nothing is
    registered as backend unless its file was opened."""
    for f in emits(c, FILE):
        a = emit_args(c, f, None)
        g = c.graph(f, ('call', 'thrown', 'exit', 'catch', 'throw', 'assign'), args=a, throws=out_throws)
        n = sum(1 for e in g.events() if failed(e))
        c.need(n, 'operations of the file sink that can fail')

        def step(s, ev):
            if ev.kind == 'thrown':
                return 'failed'
            if failed(ev) or s in ('failed',):
                if ev.kind == 'call' and method(ev) in ('erase', 'clear') and 'map' in (ev.qn or ''):
                    return 'closed'
                if ev.kind == 'exit':
                    return ('BAD', 'a backend whose stream failed is kept, so that later records are lost')
            if s == 'closed' and ev.kind == 'call' and method(ev) in ('create', 'insert', 'emplace'):
                return 'retry'
            if s == 'closed' and ev.kind == 'exit' and ev.how == 'return':
                return ('BAD', 'a record that could not be written is reported as written')
            return s
        c.run('failure-reopens', f, g, 'ok', step)
    for f in c.need([f for f in c.impls(ROT + 'stream_factory_t', 'create') if f.get('cfg')], 'stream factory'):
        a = emit_args(c, f, None)
        g = c.graph(f, ('call', 'thrown', 'exit', 'catch', 'throw', 'branch'), args=a,
                    throws=lambda fn, kind: bool(fn) and fkey_name(fn['qn']).endswith('fstream::open'))

        def step(s, ev):
            mask, op = s
            if ev.kind == 'call' and method(ev) == 'exceptions' and ev.args:
                names = {str(x[1]).split('::')[-1] for x in subterms(strip(ev.args[0])) if x[0] in ('enum', 'global')}
                return ('full' if {'failbit', 'badbit'} <= {n.replace('_S_', '') for n in names} else 'part', op)
            if ev.kind in ('call', 'thrown') and method(ev) == 'open':
                return (mask, 'failed' if ev.kind == 'thrown' else ('open' if mask else 'unchecked'))
            if ev.kind == 'branch' and op == 'unchecked':
                t, pol = norm(ev)
                for x in subterms(t):
                    if x[0] == 'call' and fn_name(x[1]) in ('fail', 'good', 'is_open', 'operator bool', 'operator!'):
                        okv = pol if fn_name(x[1]) in ('good', 'is_open', 'operator bool') else not pol
                        return (mask, 'open' if okv else 'failed')
            if ev.kind == 'exit':
                if ev.how == 'return':
                    if op == 'failed':
                        return ('BAD', 'a file that could not be opened is returned as a usable stream')
                    if op == 'unchecked':
                        return ('BAD', 'nobody checks whether the file could be opened')
                    if mask != 'full':
                        return ('BAD', 'failed writes of the stream are not reported (exceptions are not enabled for failbit and badbit)')
                if ev.how == 'throw' and op == 'failed' and ev.t and 'system_error' not in str(ev.t) and 'std' not in str(ev.t):
                    return ('BAD', 'a file that cannot be opened is reported as %s' % ev.t)
            return s
        c.run('open-failure-reported', f, g, (None, None), step)


# ---------------------------------------------------------------- network sinks
def buffer_of(t, P):
    """Does a buffer term cover exactly the whole text?"""
    t = strip(t)
    if t[0] == 'call' and fn_name(t[1]) in ('buffer', 'const_buffer', 'mutable_buffer', 'const_buffers_1'):
        a = list(t[3])
    elif t[0] in ('ctor', 'init') and re.search(r'(const|mutable)_buffer', str(t[1])):
        a = flat_args(t[2])
        if len(a) == 1:
            return buffer_of(a[0], P)
    else:
        return None
    if len(a) == 1:
        return pieces(a[0], P, {}) == ['T']
    if len(a) == 2:
        return sized(a[0], a[1], P, {}) == ['T']
    return False


def transfer(ev, P):
    """(kind, whole?) of an event that sends the text through a socket."""
    if ev.kind not in ('call', 'thrown') or not (ev.qn or '').startswith('boost::asio'):
        return None
    n = method(ev)
    if n not in ('write', 'write_some', 'send', 'send_to', 'async_write', 'async_send', 'async_send_to', 'async_write_some'):
        return None
    w = None
    for a in ev.args or ():
        w = buffer_of(a, P)
        if w is not None:
            break
    return n, bool(w)


def asio_throws(names):
    def throws(fn, kind):
        if fn and fkey_name(fn['qn']).startswith('boost::asio') and fn_name(fkey_name(fn['qn'])) in names and \
                not any('error_code &' in t and 'const' not in t for t in fn.get('pt') or ()):
            return 'boost::system::system_error'
        return False
    return throws


def sock_field(c, cls):
    x = [y['name'] for y in c.fields(cls, r'basic_(stream|datagram)_socket|::socket\b')]
    c.need(x, 'socket of ' + cls)
    return ('field', ('this',), x[0])


SENDERS = ('write', 'send', 'send_to', 'write_some')


@prop('C26')
def c26(c):
    """Typestate and exception-flow analysis of tcp_t::emit: under the lock of the sink, the text is sent only through a
    socket that exists and whose connection attempt succeeded; a missing connection is made first; when sending fails
    the socket is dropped, so that the next record reconnects, and the error reaches the caller."""
    S = sock_field(c, TCP)
    mx = {x['name'] for x in c.fields(TCP, MUTEX)}
    c.need(mx, 'mutex of the TCP sink')
    for f in emits(c, TCP):
        a = emit_args(c, f, None)
        P = a[text_param(f)]
        g = c.graph(f, ('call', 'thrown', 'assign', 'branch', 'iter', 'done', 'exit', 'catch', 'throw'), args=a, throws=asio_throws(SENDERS))
        c.need(any(transfer(e, P) for e in g.events()), 'transfer in tcp_t::emit')

        def null(t):
            t = strip(t)
            return t[0] == 'null' or (t[0] in ('ctor', 'init') and 'socket' in str(t[1]) and not any(x[0] == 'field' for x in subterms(t)))

        def step(s, ev):
            if ev.kind in ('iter', 'done'):
                return s[:4] + (ev.kind == 'iter',)
            r = step_(s[:4], ev, s[4])
            return r if r[0] == 'BAD' else r + (s[4],)

        def step_(s, ev, looping):
            have, conn, ec, fail = s       # socket known present / connection / last error code / sending failed
            if have == 'dead':
                return s
            if ev.kind == 'branch':
                t, pol = norm(ev)
                if t in (('truth', S), S):
                    if fail:
                        return s
                    return ('yes' if pol else 'no', 'ok' if pol else conn, ec, fail)
                if t[0] == 'cmp' and t[1] == '==' and S in t[2:4] and ('null',) in t[2:4]:
                    return ('no' if pol else 'yes', conn if pol else 'ok', ec, fail)
                x = t[1] if t[0] == 'truth' else t
                if 'error_code' in str(x) and x[0] in ('ctor', 'init', 'field', 'var', 'unk', 'call'):
                    return (have, ('ok' if not pol else 'none') if conn == 'tried' else conn, 'err' if pol else 'none', fail)
            if ev.kind == 'call':
                n = method(ev)
                q = ev.qn or ''
                if n == 'connect' and q.startswith('boost::asio'):
                    by_ec = any('error_code &' in x and 'const' not in x for x in (ev.fnref or {}).get('pt') or ())
                    return (have, 'tried' if by_ec else 'ok', ec, fail)
                if n == 'throw_error':
                    if conn in ('tried', 'none') and looping:
                        return ('BAD', 'only the first address of the host is tried')
                    e = strip(ev.args[0])
                    if ec == 'err' and not any(x[0] in ('enum', 'global') for x in subterms(e)) or 'not_found' in str(e) or any(x[0] == 'enum' for x in subterms(e)):
                        return ('dead', None, None, None)
                    return (have, 'ok' if conn == 'tried' else conn, ec, fail)
            if ev.kind == 'assign' and strip(ev.lhs) == S:
                if not any(m[0] == 'field' and m[1] == ('this',) and m[2] in mx for m in held(ev)):
                    return ('BAD', 'the socket is replaced without holding the lock of the sink')
                if null(ev.rhs):
                    return ('no', 'none', ec, 'reset' if fail else fail)
                if conn in ('ok',):
                    return ('yes', 'ok', ec, fail)
                return ('early', conn, ec, fail)
            r = transfer(ev, P)
            if r is None and ev.kind == 'exit' and failed(ev) and ev.via is not None:
                r = transfer(ev.via, P)
                if r is not None:
                    return ('BAD', 'the socket is kept although sending failed, so that later records are lost')
            if r is not None:
                if not any(m[0] == 'field' and m[1] == ('this',) and m[2] in mx for m in held(ev)) and ev.kind == 'call':
                    return ('BAD', 'the text is sent without holding the lock of the sink')
                if have == 'no' or have is None:
                    return ('BAD', 'the text is sent although there may be no socket')
                if conn != 'ok':
                    return ('BAD', 'the text is sent although the connection may not be established')
                if ev.kind == 'thrown':
                    return (have, conn, ec, 'failed')
            if ev.kind == 'exit':
                if fail == 'failed':
                    return ('BAD', 'the socket is kept although sending failed, so that later records are lost')
                if have == 'early' and conn != 'ok':
                    return ('BAD', 'a socket that is not connected is kept')
                if fail == 'reset' and ev.how == 'return':
                    return ('BAD', 'a record that could not be sent is reported as sent')
            return s
        c.run('connect-before-send', f, g, (None, 'none', None, None, False), step)
        # a connection attempt that throws leaves no half-made socket behind
        g = c.graph(f, ('call', 'thrown', 'assign', 'exit', 'catch', 'throw'), args=a,
                    throws=asio_throws(('connect', 'resolve', 'throw_error')))

        def step2(s, ev):
            if ev.kind == 'assign' and strip(ev.lhs) == S:
                return 'none' if null(ev.rhs) else 'set'
            if (ev.kind == 'thrown' or (failed(ev) and ev.kind == 'exit')):
                if s == 'set':
                    if ev.kind == 'exit':
                        return ('BAD', 'a socket that could not be connected is kept')
                    return 'setfail'
            if s == 'setfail' and ev.kind == 'exit':
                return ('BAD', 'a socket that could not be connected is kept')
            if s == 'setfail' and ev.kind == 'assign' and strip(ev.lhs) == S:
                return 'none'
            return s
        c.run('failed-connect-forgotten', f, g, 'none', step2)


@prop('C27')
def c27(c):
    """Flow analysis of the network sinks: on every returning path of emit() the text is transferred exactly once,
    completely (start and length of the same text), with an operation that does not return before everything was
    handed over, and to the configured peer."""
    for cls in (TCP, UDP):
        S = sock_field(c, cls)
        ends = [x['name'] for x in c.fields(cls, r'endpoint')]
        for f in emits(c, cls):
            a = emit_args(c, f, None)
            P = a[text_param(f)]
            g = c.graph(f, ('call', 'exit', 'branch', 'assign'), args=a)
            c.need(any(transfer(e, P) for e in g.events()), 'transfer in ' + f['qnt'])

            def step(s, ev):
                r = transfer(ev, P)
                if r is not None and ev.kind == 'call':
                    n, whole = r
                    if s:
                        return ('BAD', 'the text is sent twice')
                    if not whole:
                        return ('BAD', 'not exactly the whole text is sent')
                    if n.startswith('async'):
                        return ('BAD', 'the text is sent asynchronously although it does not outlive the call')
                    if cls == TCP and n in ('write_some', 'send'):
                        return ('BAD', 'only as much of the text as fits is sent')
                    if cls == UDP and n == 'send_to' and not (len(ev.args) > 1 and strip(ev.args[1])[0] == 'field' and strip(ev.args[1])[2] in ends):
                        return ('BAD', 'the datagram is not sent to the configured endpoint')
                    return True
                if ev.kind == 'exit' and ev.how == 'return' and not s:
                    return ('BAD', 'emit() can return without sending the record')
                return s
            c.run('whole-text-once', f, g, False, step)
    # constructors use the configured peer
    for cls in (TCP, UDP):
        for f in c.need([f for f in c.fns(cls=cls) if f.get('ctor') and f.get('cfg') and not f.get('copy') and not f.get('move')], 'constructor of ' + cls):
            a = emit_args(c, f, None)
            g = c.graph(f, ('call', 'assign', 'ctor', 'exit'), args=a)
            uses = [set(), set()]
            for e in g.events():
                ts = [strip(x) for x in list(e.args or ()) + [e.rhs or (), e.val or ()] if x]
                for i in (0, 1):
                    if any(contains(t, a[i]) for t in ts):
                        uses[i].add(e.kind)
            for i, what in ((0, 'host'), (1, 'port')):
                c.expect(uses[i], 'peer-from-arguments', c.loc(f), c.fname(f) + ' ' + what, 'the %s given to the sink is not used' % what)


# ---------------------------------------------------------------- syslog
LOG_ERR = 3


def full_width(c, f, a, what):
    """No value used by f is squeezed through a type narrower than an int."""
    g = c.graph(f, ('narrow', 'exit'), args=a, narrow=True)
    for e in g.events():
        if e.kind == 'narrow':
            t = e.t.replace('const ', '')
            c.expect(not ('char' in t or 'short' in t), 'full-width', e.loc, c.fname(f), '%s can change when %s is converted to %s (%s)' % (show(e.over), show(e.over), t, what))
    c.ok('full-width', c.fname(f))


@prop('C28')
def c28(c):
    """Flow analysis of the syslog sink: exactly one syslog(3) call per record with a constant format that takes the text
    by length, a priority looked up only with a severity inside the table (LOG_ERR otherwise); the identity passed to
    openlog(3) is storage that lives as long as the sink and is not changed afterwards; the log is closed with the
    sink."""
    for f in emits(c, SYSLOG):
        a = emit_args(c, f, None)
        P = a[text_param(f)]
        g = c.graph(f, ('call', 'branch', 'exit'), args=a)
        c.need(any(e.kind == 'call' and method(e) in ('syslog', 'vsyslog') for e in g.events()), 'call of syslog()')

        def step(s, ev):
            guard, n = s
            if ev.kind == 'branch':
                t, pol = norm(ev)
                if t[0] == 'cmp' and t[1] == '<' and t[3][0] == 'call' and fn_name(t[3][1]) == 'size':
                    if pol and ev.signed:
                        return (guard | {('upper', t[2], t[3][2])}, n)
                    if pol:
                        return (guard | {('in', t[2], t[3][2])}, n)
                    return (guard | {('out', t[2], t[3][2])}, n)
                if t[0] == 'cmp' and t[1] == '<' and t[3] == ('const', 0):
                    return (guard | {('neg' if pol else 'nonneg', t[2])}, n)
                if t[0] == 'cmp' and t[1] == '<' and t[2] == ('const', -1) and pol:
                    return (guard | {('nonneg', t[3])}, n)
            if ev.kind == 'call' and method(ev) == 'syslog':
                if n:
                    return ('BAD', 'a record is logged twice')
                ar = [strip(x) for x in ev.args]
                if ar[1][0] != 'str':
                    return ('BAD', 'the format passed to syslog() is not a constant')
                if ar[1][1] == '%.*s':
                    if len(ar) != 4 or sized(ar[3], ar[2], P, {}) != ['T']:
                        return ('BAD', 'syslog() does not get the text and its length')
                elif ar[1][1] == '%s':
                    x = ar[2]
                    if not (x[0] == 'call' and fn_name(x[1]) in ('c_str', 'data') and x[2] is not None and x[2] != P and pieces(x[2], P, {}) == ['T']):
                        return ('BAD', 'syslog() gets text that may not be terminated')
                else:
                    return ('BAD', 'the format %r passed to syslog() does not print exactly the text' % ar[1][1])
                p = ar[0]
                if p[0] == 'index':
                    gs = guard
                    okv = ('in', p[2], p[1]) in gs or (('upper', p[2], p[1]) in gs and ('nonneg', p[2]) in gs)
                    if not okv:
                        return ('BAD', 'the priority table is read with a severity that may be outside of it')
                    x = strip(p[2])
                    while x[0] == 'field' and x[2] != 'severity':
                        x = strip(x[1])
                    if x[0] != 'field':
                        return ('BAD', 'the priority is not looked up with the severity of the record')
                elif p == ('const', LOG_ERR):
                    if not any(x[0] in ('out', 'neg') for x in guard):
                        return ('BAD', 'a mapped severity is logged with the fallback priority')
                elif p[0] == 'call' and fn_name(p[1]) == 'at':
                    return ('BAD', 'an unmapped severity makes emit() fail')
                else:
                    return ('BAD', 'the priority is %s' % show(p))
                return (guard, n + 1)
            if ev.kind == 'exit' and ev.how == 'return' and not n:
                return ('BAD', 'emit() can return without logging the record')
            return s
        c.run('one-constant-format-call', f, g, (frozenset(), 0), step)
        full_width(c, f, a, 'severity, priority and length')
    opened = False
    for f in [f for f in c.fns(cls=SYSLOG) if f.get('cfg')]:
        g = c.graph(f, ('call', 'assign', 'exit'))
        opens = [e for e in g.events() if e.kind == 'call' and method(e) == 'openlog']
        if not opens:
            continue
        opened = True

        def step(s, ev):
            if ev.kind == 'call' and method(ev) == 'openlog':
                x = strip(ev.args[0])
                o = x[2] if x[0] == 'call' and fn_name(x[1]) in ('c_str', 'data') else x
                r = o
                while r[0] == 'field':
                    r = r[1]
                if o[0] not in ('str', 'null') and not (o[0] == 'field' and r == ('this',)) and o[0] != 'global':
                    return ('BAD', 'openlog() keeps a pointer to %s, which does not live as long as the sink' % show(o))
                return o
            if s and s[0] == 'field' and ev.kind == 'assign' and strip(ev.lhs) == s:
                return ('BAD', 'the identity is changed after openlog() got a pointer to it')
            return s
        c.run('identity-outlives-log', f, g, (), step)
        if not f.get('ctor'):
            continue
    for f in c.fns(cls=SYSLOG):
        if f.get('ctor') or f.get('dtor') or not f.get('cfg'):
            continue
        g = c.graph(f, ('assign', 'call'))
        for e in g.events():
            l = strip(e.lhs) if e.kind == 'assign' else (strip(e.obj) if e.obj is not None and e.fnref and not e.fnref.get('const') else None)
            if l is not None and l[0] == 'field' and l[2] == 'identity':
                c.bad('identity-outlives-log', e.loc, c.fname(f), 'the identity is changed while openlog() keeps a pointer to it')
    c.expect(opened, 'log-opened', c.p.rel(c.rec(SYSLOG)['loc']), SYSLOG, 'the log is never opened with the identity of the sink')
    ds = [f for f in c.fns(cls=SYSLOG) if f.get('dtor') and f.get('cfg')]
    c.expect(ds and all(any(e.kind == 'call' and method(e) == 'closelog' for e in c.graph(f, ('call',)).events()) for f in ds),
             'log-closed', c.p.rel(c.rec(SYSLOG)['loc']), SYSLOG, 'the log keeps a pointer to the identity after the sink was destroyed')
    r = c.rec(SYSLOG)
    from .rules_root import undeleted
    c.expect(not undeleted(c, SYSLOG, ''), 'not-copied', c.p.rel(r['loc']), SYSLOG, 'the sink can be copied or moved, its destruction closes the log of the copy')


# ---------------------------------------------------------------- console
def std_stream(o):
    return o is not None and o[0] == 'global' and str(o[1]).split('::')[-1] in ('cout', 'cerr', 'clog')


CSTDIO = {'printf', 'fprintf', 'puts', 'fputs', 'putchar', 'fputc', 'fwrite', 'perror', 'vprintf', 'vfprintf'}


def console_out(ev, P, bufs, own=None):
    """Output of an event to the console: (pieces, target) or None."""
    if ev.kind == 'call' and ev.obj is None and fn_name(ev.qn or '') in CSTDIO and (ev.qn or '').count('::') <= 1:
        return [('val', ('unk', ev.qn))], ('global', ev.qn)
    r = output(ev, P, bufs)
    if r is None:
        return None
    o, ps, fl = r
    if std_stream(o) or (own is not None and o == own):
        return ps, o
    return None


def entries(c):
    out = []
    for b, ns in ((SINK, ['emit']), ('blackhole::handler_t', ['handle']), ('blackhole::filter_t', ['filter']),
                  ('blackhole::logger_t', ['log']), ('blackhole::sink::overflow_policy_t', ['overflow', 'wakeup'])):
        for n in ns:
            out += [f for f in c.impls(b, n) if f.get('cfg')]
    return out


def handler_throws(fn, kind):
    return bool(fn) and bool(fn.get('virt')) and fn_name(fkey_name(fn['qn'])) == 'handle'


STREAMS = {'stdout': 'cout', 'stderr': 'cerr', '1': 'cout', '2': 'cerr'}


@prop('C29')
def c29(c):
    """Typestate analysis of everything that writes to the console: every line is written while one mutex, the same for
    the console sink, the development handler and the error report of the logger, is held from its first byte to its
    newline; the console sink asks its filter, prints nothing for a denied record and otherwise exactly the whole text
    and one newline; colours are only used on a terminal and always reset before the end of the line."""
    S = [x['name'] for x in c.fields(CONSOLE, r'ostream')]
    c.need(S, 'stream of the console sink')
    S = ('field', ('this',), S[0])
    mutexes = {}
    for f in emits(c, CONSOLE):
        a = emit_args(c, f, None)
        P = a[text_param(f)]
        g = c.graph(f, ('call', 'ucall', 'branch', 'lock', 'unlock', 'exit'), args=a)
        c.need(any(console_out(e, P, {}, S) for e in g.events()), 'output of the console sink')

        def step(s, ev):
            bufs, verdict, tty, wrote, nl, color, seq = s
            if ev.kind == 'branch':
                t, pol = norm(ev)
                fs = [x for x in subterms(t) if x[0] == 'call' and fn_name(x[1]) == 'filter']
                if t[0] == 'cmp' and t[1] == '==' and S in t[2:4] and pol:
                    gl = [str(x[1]).split('::')[-1] for x in t[2:4] if x[0] == 'global']
                    if gl and tty is not True:
                        return (bufs, verdict, gl[0], wrote, nl, color, seq)
                if fs and t[0] == 'cmp' and t[1] == '==':
                    e = [enum_name(x) for x in t[2:4] if x[0] == 'enum']
                    if e:
                        if e[0] == 'deny':
                            verdict = 'deny' if pol else 'pass'
                        elif pol:
                            verdict = 'pass'
                        return (bufs, verdict, tty, wrote, nl, color, seq)
                if fs and t[0] == 'default':
                    e = {enum_name(x) for q in ev.cases or () for x in q[2:4] if x[0] == 'enum'}
                    return (bufs, 'pass' if 'deny' in e else ('deny' if {'accept', 'neutral'} <= e else verdict), tty, wrote, nl, color, seq)
                if any(x[0] == 'call' and fn_name(x[1]) == 'isatty' for x in subterms(t)):
                    p = pol
                    if t[0] == 'cmp' and t[1] == '==' and ('const', 0) in t[2:4]:
                        p = not pol
                    fd = [x for x in subterms(t) if x[0] == 'call' and fn_name(x[1]) == 'isatty' and x[3]]
                    names = {STREAMS.get(str(y[1])) for x in fd for y in subterms(x) if y[0] in ('global', 'const') and len(y) > 1} - {None}
                    if p and names and names != {tty}:
                        p = 'other'
                    return (bufs, verdict, p, wrote, nl, color, seq)
                return s
            if ev.kind == 'unlock' and (wrote or color) and not nl:
                return ('BAD', 'the console is released in the middle of a line')
            r = output(ev, P, dict(bufs))
            if r is not None and is_local(r[0]) and ev.kind == 'call':
                return (grow(bufs, r[0], r[1], ev, P), verdict, tty, wrote, nl, color, seq)
            r = console_out(ev, P, dict(bufs), S)
            if r is not None:
                ps, o = r
                if not ps:
                    return s
                if o != S:
                    return ('BAD', 'the console sink writes to another stream than its own')
                if verdict is None:
                    return ('BAD', 'a record is written without asking the filter')
                if verdict == 'deny':
                    return ('BAD', 'a denied record is written')
                if not ev.locks:
                    return ('BAD', 'the console is written without holding its lock')
                for p in ps:
                    if p == 'T':
                        if wrote:
                            return ('BAD', 'the text is written twice')
                        if nl or seq:
                            return ('BAD', 'the text is written after the end of the line')
                        if color == 'reset':
                            return ('BAD', 'the text is written after its colour was reset')
                        wrote = True
                    elif p == 'N':
                        if not wrote or nl:
                            return ('BAD', 'a newline is written that does not end the line of the record')
                        if color == 'set' or seq:
                            return ('BAD', 'the colour is not reset at the end of the line')
                        nl = True
                    elif p[0] == 'cut':
                        return ('BAD', p[1])
                    elif p == ('lit', '\x1b[') and not seq:
                        if tty == 'other':
                            return ('BAD', 'colours are used although another stream is the terminal')
                        if tty is not True:
                            return ('BAD', 'a colour sequence is written to something that is not a terminal')
                        seq = 'open'
                    elif seq == 'open' and p[0] == 'val':
                        v = p[1]
                        rs = v == ('const', 0) or (v[0] == 'field' and v[2] == 'code' and v[1][0] in ('ctor', 'init') and
                                                   flat_args(v[1][2]) and all(x == ('const', 0) for x in flat_args(v[1][2])))
                        seq = 'reset' if rs else 'set'
                    elif seq in ('reset', 'set') and p == ('lit', 'm'):
                        if seq == 'set' and wrote:
                            return ('BAD', 'the colour is changed after the text')
                        color, seq = seq, None
                    elif p[0] == 'lit' and re.match(r'^\x1b\[0?m$', p[1]):
                        color = 'reset'
                    else:
                        return ('BAD', 'something else than the text is written: %s' % show(p[1]) if not isinstance(p[1], str) else repr(p[1]))
                return (bufs, verdict, tty, wrote, nl, color, seq)
            if ev.kind == 'exit' and ev.how == 'return':
                if verdict != 'deny' and not nl:
                    return ('BAD', 'emit() can return without writing an accepted record')
                if color == 'set':
                    return ('BAD', 'the colour is not reset')
            return s
        c.run('one-line-per-record', f, g, ((), None, None, False, False, None, None), step)
    # every writer uses the same mutex, from the first to the last byte of a line
    n = 0
    for f in entries(c):
        a = emit_args(c, f, None)
        g = c.graph(f, ('call', 'lock', 'unlock', 'exit'), args=a, throws=handler_throws)
        outs = [e for e in g.events() if console_out(e, ('none',), {}, S if f.get('cls') == CONSOLE else None)]
        if not outs:
            continue
        n += 1
        for e in outs:
            ps, o = console_out(e, ('none',), {}, S if f.get('cls') == CONSOLE else None)
            ms = frozenset(m for m in held(e) if m[0] == 'global')
            c.expect(ms, 'console-locked', e.loc, c.fname(f), 'the console is written without holding the console lock')
            if ms:
                mutexes.setdefault(ms, []).append(e)
        own = S if f.get('cls') == CONSOLE else None

        def step(s, ev):
            bufs, st = s
            r = output(ev, ('none',), dict(bufs))
            if r is not None and is_local(r[0]) and ev.kind == 'call':
                return (grow(bufs, r[0], r[1], ev, ('none',)), st)
            r = console_out(ev, ('none',), dict(bufs), own)
            if r is not None:
                for p in r[0]:
                    st = 'open' if p != 'N' else 'done'
                return (bufs, st)
            if ev.kind == 'unlock' and st == 'open':
                return ('BAD', 'the console is released in the middle of a line')
            if ev.kind == 'exit' and ev.how == 'return' and st == 'open':
                return ('BAD', 'a line of the console is not ended')
            return s
        c.run('line-under-one-lock', f, g, ((), None), step)
    common = None
    for ms in mutexes:
        common = ms if common is None else common & ms
    ex = next(iter(mutexes.values()))[0] if mutexes else None
    c.need(n >= 2, 'writers to the console')
    c.expect(common, 'one-console-mutex', ex.loc if ex else '', 'console', 'writers to the console do not share one mutex: %s' %
             ', '.join(sorted(v[0].loc for v in mutexes.values())))


# ---------------------------------------------------------------- locks and callbacks
def user_call(ev):
    """Call into code of a user: virtual interfaces a user can implement and std::function objects."""
    if ev.kind == 'ucall':
        return True
    if ev.kind not in ('call', 'thrown') or not ev.fnref or not ev.fnref.get('virt'):
        return False
    return method(ev) in ('filter', 'handle', 'emit', 'format', 'log', 'from', 'apply') and (ev.qn or '').startswith('blackhole::')


@prop('C31')
def c31(c):
    """Lock-order and callback analysis: no path of a library entry point calls user code (handlers, sinks, formatters,
    filters, mapping functions, attribute renderers) while it holds a library lock; no lock is taken twice and the
    locks are acquired in an acyclic order; every lock taken is released before the call ends."""
    es = entries(c)
    for b, ns in (('blackhole::logger_t', ['manager']),):
        for n in ns:
            es += [f for f in c.impls(b, n) if f.get('cfg')]
    for cls in ('blackhole::root_logger_t', 'blackhole::sink::asynchronous_t'):
        for f in c.fns(cls=cls):
            if f.get('cfg') and f not in es and not f.get('lambda') and f.get('access') != 'private':
                es.append(f)
    from .rules_async import workers
    jobs = [(f, ('this',)) for f in es] + workers(c)
    order = {}
    locks = 0
    for f, th in jobs:
        if f.get('deleted'):
            continue
        g = c.graph(f, ('call', 'ucall', 'lock', 'unlock', 'exit'), this=th, throws=handler_throws, opaque=('boost::apply_visitor',))
        seen_user = 0
        for e in g.events():
            if user_call(e):
                seen_user += 1
                if e.locks and e.kind != 'thrown':
                    c.bad('no-callback-under-lock', e.loc, c.fname(f), 'user code (%s) is called while %s is held' % (
                        show(e.obj) if e.obj is not None else e.qn, ', '.join(show(m) for m in held(e))))
            if e.kind == 'lock':
                locks += 1
                hs = held(e)
                m = strip(e.mutex)
                for h in hs:
                    if h != m:
                        order.setdefault(cls_of(f, h), {}).setdefault(cls_of(f, m), e)
                if hs.count(m) > 1:
                    c.bad('no-relock', e.loc, c.fname(f), '%s is locked while it is already held' % show(m))
            if e.kind == 'exit' and e.locks and e.how == 'return':
                c.bad('released', e.loc, c.fname(f), 'a lock is still held when the call ends')
        c.ok('no-callback-under-lock', c.fname(f))
    c.need(locks, 'lock operations')
    # cycles
    def reach(a, b, seen):
        if a == b:
            return True
        for x in order.get(a, {}):
            if x not in seen:
                seen.add(x)
                if reach(x, b, seen):
                    return True
        return False
    bad = None
    for a, xs in order.items():
        for b, e in xs.items():
            if reach(b, a, set()):
                bad = (a, b, e)
    c.expect(bad is None, 'lock-order', bad[2].loc if bad else '', 'lock order', 'locks %s are taken in different orders' % (bad[:2],) if bad else '')


def cls_of(f, m):
    return '%s:%s' % (f.get('cls') if contains(m, ('this',)) else '', show(m))


THREADSAFE = re.compile(r'^(std::(atomic|condition_variable|mutex|__atomic|thread|_V2::condition_variable)|boost::(thread_specific_ptr|mutex)|cds::)')


def root_of(t):
    t = strip(t)
    while t[0] in ('field', 'elem', 'index', 'iter', 'deref') and len(t) > 1 and isinstance(t[1], tuple):
        t = t[1]
    return t


def nodes_of(f):
    n = f.get('nodes') or {}
    return n.items() if isinstance(n, dict) else enumerate(n)


@prop('C30')
def c30(c):
    """Effect analysis of everything that is called concurrently for every record (sinks, handlers, formatters, filters,
    loggers, overflow policies): state that belongs to the object or to the program is written, or used through a
    non-const member function, only while a lock is held; everything else these calls touch is local to the call.
    The functions reachable from formatters change no state of the formatter and no static state at all."""
    for f in entries(c):
        g = c.graph(f, ('assign', 'call', 'inc'), throws=handler_throws, opaque=('boost::apply_visitor',))
        bad = False
        for e in g.events():
            if e.kind == 'assign':
                o = e.lhs
                what = 'written'
            elif e.kind == 'inc':
                o = e.lhs if e.lhs is not None else e.over
                if strip(o)[0] in ('iter', 'end'):
                    continue
                what = 'changed'
            elif e.kind == 'call' and e.obj is not None and not (e.fnref or {}).get('const') and not (e.fnref or {}).get('static'):
                if (e.fnref or {}).get('virt') and (e.qn or '').startswith('blackhole::'):
                    continue
                if THREADSAFE.match(e.qn or ''):
                    continue
                if method(e) in ('operator[]', 'at', 'begin', 'end', 'data', 'get', 'operator*', 'operator->', 'front', 'back', 'find', 'lower_bound', 'count') and \
                        not ('map' in e.qn and method(e) == 'operator[]'):
                    continue      # only gives access; what is done with the element is seen separately
                if (e.qn or '') == 'boost::asio::basic_datagram_socket::send_to':
                    c.seen('one-system-call', e.loc)
                    continue      # one atomic system call per datagram, no state of the socket object changes
                o = e.obj
                what = 'used through %s()' % method(e)
            else:
                continue
            o = strip(o)
            r = root_of(o)
            if o == ('this',) and e.kind == 'call':
                continue
            if r[0] == 'this' or (r[0] == 'global' and not str(r[1]).startswith('std::') and not thread_local(c, r)):
                if f.get('cls') == CONSOLE and r[0] == 'this' and not e.locks:
                    pass
                if not e.locks:
                    bad = True
                    c.bad('shared-state-locked', e.loc, c.fname(f), '%s is %s concurrently without a lock' % (show(o), what))
        for k in set(g.inlined) | {f['key']}:
            x = c.p.functions[k]
            for l, name in static_writes(c, x):
                bad = True
                c.bad('no-static-state', '%s:%s' % (c.p.rel(x['file']), l), c.fname(x), 'static variable %s is shared by concurrent calls' % name)
        if not bad:
            c.ok('shared-state-locked', c.fname(f))
    # formatters: closure of the classes an object consists of, functions reachable from format()
    for f in c.need([f for f in c.impls('blackhole::formatter_t', 'format') if f.get('cfg')], 'formatters'):
        shared = shared_classes(c, f['cls'])
        reach = reachable(c, f)
        bad = False
        for k in reach:
            x = c.p.functions[k]
            owner = x.get('cls')
            if owner in shared and not x.get('ctor') and not x.get('dtor'):
                for l, name in member_writes(c, x, shared):
                    bad = True
                    c.bad('formatter-stateless', '%s:%s' % (c.p.rel(x['file']), l), c.fname(x), 'the shared state %s is changed while formatting' % name)
            for l, name in static_writes(c, x):
                bad = True
                c.bad('no-static-state', '%s:%s' % (c.p.rel(x['file']), l), c.fname(x), 'static variable %s is changed while formatting' % name)
        c.functions |= set(reach)
        if not bad:
            c.ok('formatter-stateless', c.fname(f))
            c.ok('no-static-state', c.fname(f))


def thread_local(c, r):
    g = c.p.globals.get(r[2] if len(r) > 2 else r[1]) or c.p.globals.get('G:' + str(r[1]))
    return bool(g and (g.get('tls') or g.get('thread_local')))


def shared_classes(c, cls):
    out = set()
    work = [cls]
    while work:
        x = work.pop()
        if x in out:
            continue
        out.add(x)
        r = c.p.records.get(x)
        if r is None:
            continue
        for b in r['bases']:
            work.append(b['t'])
        for y in r['fields']:
            if y['t'].startswith('std::function<'):
                continue
            for k in c.p.records:
                if k.startswith('blackhole::') and re.search(r'(^|[^\w:])' + re.escape(k) + r'($|[^\w:])', y['t']):
                    work.append(k)
    return out


def callees(c, f):
    for i, n in nodes_of(f):
        for fld in ('fn', 'ctor'):
            x = n.get(fld)
            if isinstance(x, dict) and x.get('key') in c.p.functions:
                yield x['key']
        m = n.get('m')
        if isinstance(m, dict) and isinstance(m.get('fn'), dict) and m['fn'].get('key') in c.p.functions:
            yield m['fn']['key']
        d = n.get('d')
        if isinstance(d, dict) and isinstance(d.get('fn'), dict) and d['fn'].get('key') in c.p.functions:
            yield d['fn']['key']
        if n.get('lambda') in c.p.functions:
            yield n['lambda']


def reachable(c, f):
    """Functions of the library that can be called from f; a visitor reaches all its overloads, a virtual call every
    implementation, a lambda its body."""
    out = set()
    work = [f['key']]
    byc = {}
    for k, x in c.p.functions.items():
        if x['name'] == 'operator()' and x.get('cls') and x['cls'] != '(lambda)':
            byc.setdefault(x['cls'], []).append(k)
    while work:
        k = work.pop()
        if k in out:
            continue
        x = c.p.functions[k]
        if x['qn'].startswith(('blackhole::fmt::', 'rapidjson::')):
            continue
        out.add(k)
        for y in callees(c, x):
            z = c.p.functions[y]
            work.append(y)
            if z.get('ctor') and z.get('cls') in byc:
                work.extend(byc[z['cls']])
            if z.get('virt'):
                work += [w['key'] for w in c.impls(z['cls'], z['name'])]
    return out


def through(f, i):
    """The member or variable an lvalue expression denotes: ('this', name) or ('var', decl) or None."""
    nodes = f['nodes']
    last = None
    while True:
        n = nodes[i] if not isinstance(nodes, dict) else nodes.get(i, nodes.get(str(i)))
        if n is None:
            return None
        k = n['k']
        if k == 'MemberExpr':
            m = n.get('m') or n.get('d') or {}
            last = m.get('name') or last
            if not n['c']:
                return ('this', last)
            i = n['c'][0]
        elif k == 'CXXThisExpr':
            return ('this', last)
        elif k == 'DeclRefExpr':
            return ('var', n.get('d') or {})
        elif k in ('ParenExpr', 'ImplicitCastExpr', 'ArraySubscriptExpr', 'UnaryOperator', 'CXXOperatorCallExpr', 'CXXMemberCallExpr', 'CXXStaticCastExpr') and n['c']:
            if k == 'CXXOperatorCallExpr':
                if not n.get('args'):
                    return None
                i = n['args'][0]
            elif k == 'CXXMemberCallExpr':
                if n.get('obj') is None:
                    return None
                i = n['obj']
            else:
                i = n['c'][0]
        else:
            return None


def writes(c, f, shared):
    """(line, denoted object) of every write or non-const use in a function."""
    for i, n in nodes_of(f):
        k = n['k']
        t = None
        if n.get('asg') and n['c']:
            t = through(f, n['c'][0])
        elif k == 'UnaryOperator' and n.get('op') in ('++', '--'):
            t = through(f, n['c'][0])
        elif k == 'CXXOperatorCallExpr' and n.get('args') and n.get('fn') and not n['fn'].get('const') and fn_name(fkey_name(n['fn'].get('qn', ''))) in (
                'operator=', 'operator+=', 'operator-=', 'operator++', 'operator--', 'operator<<'):
            t = through(f, n['args'][0])
        elif k == 'CXXMemberCallExpr' and n.get('fn') and n.get('obj') is not None and not n['fn'].get('const') and not n['fn'].get('static'):
            nm = fn_name(fkey_name(n['fn'].get('qn', '')))
            if n['fn'].get('key') in c.p.functions and n['fn'].get('cls') in shared:
                continue      # judged by its own body
            if nm in ('begin', 'end', 'data', 'find', 'at', 'operator[]', 'get', 'operator->', 'operator*', 'front', 'back') or n['fn'].get('virt'):
                continue
            t = through(f, n['obj'])
        if t is not None:
            yield n['l'], t


def member_writes(c, f, shared):
    for l, t in writes(c, f, shared):
        if t[0] == 'this' and t[1]:
            yield l, t[1]


IMMUTABLE = re.compile(r'^(const |std::(atomic|mutex|once_flag|atomic_))|(\*|&)? ?const$| const \[')


def static_writes(c, f):
    """Uses of static variables that are not constant: (line, name)."""
    for i, n in nodes_of(f):
        d = n.get('d')
        if n['k'] == 'DeclRefExpr' and isinstance(d, dict) and d.get('kind') in ('slocal', 'global'):
            if d.get('tls') or d.get('constexpr') or IMMUTABLE.search(d.get('t', '')):
                continue
            if str(d.get('qn', '')).startswith('std::') or d['kind'] == 'global' and not str(d.get('qn', '')).startswith('blackhole::'):
                continue      # environment of the process (program name and the like)
            yield n['l'], d.get('name')


# ---------------------------------------------------------------- blocking handler
@prop('C32')
def c32(c):
    """Flow analysis of the blocking handler: every record is formatted exactly once, and then every sink gets the
    record and exactly the formatted text, once each and in order."""
    B = 'blackhole::handler::blocking_t'
    for f in c.need([f for f in c.fns(cls=B, name='handle') if f.get('cfg')], 'blocking_t::handle'):
        a = emit_args(c, f, None)
        R = a[0]
        sinks = [x['name'] for x in c.fields(B, r'sink_t')]
        c.need(sinks, 'sinks of the blocking handler')
        S = ('field', ('this',), sinks[0])
        g = c.graph(f, ('call', 'ucall', 'iter', 'done', 'branch', 'exit', 'assign'), args=a)
        c.need(any(method(e) == 'emit' for e in g.events() if e.kind == 'call'), 'emit calls of the blocking handler')

        def consume(ev):
            return ev.obj if ev.kind == 'call' and method(ev) == 'emit' and 'sink_t' in (ev.qn or '') else None
        each_once(c, 'every-sink-once', f, g, lambda t: strip(t) == S, consume, c.fname(f), 'writing to a sink')

        def step(s, ev):
            if ev.kind == 'call' and method(ev) == 'format' and 'formatter_t' in (ev.qn or ''):
                if s is not None:
                    return ('BAD', 'a record is formatted more than once')
                if strip(ev.args[0]) != R:
                    return ('BAD', 'another record is formatted')
                return ('w', strip(ev.args[1]))
            if ev.kind == 'call' and method(ev) == 'emit' and 'sink_t' in (ev.qn or ''):
                if s is None:
                    return ('BAD', 'a sink is called before the record was formatted')
                if strip(ev.args[0]) != R:
                    return ('BAD', 'a sink does not get the record that was logged')
                w = s[1]
                t = strip(ev.args[1])
                if not covers(t, w):
                    return ('BAD', 'a sink does not get exactly the formatted text')
            if ev.kind == 'call' and s is not None and ev.obj is not None and contains(strip(ev.obj), s[1]) and not (ev.fnref or {}).get('const') and \
                    method(ev) not in ('result', 'data', 'size', 'str', 'c_str'):
                return ('BAD', 'the formatted text is changed before every sink got it')
            if ev.kind == 'exit' and ev.how == 'return' and s is None:
                return ('BAD', 'handle() can return without formatting the record')
            return s
        c.run('format-once-then-emit', f, g, None, step)


def covers(t, w):
    """Is t a view of (or the owned copy of) everything a writer contains?"""
    t = strip(t)
    if t[0] == 'call' and fn_name(t[1]) in ('result', 'str', 'to_string') and t[2] is not None and contains(t[2], w):
        return True
    if t[0] in ('ctor', 'init'):
        a = flat_args(t[2])
        if len(a) == 1:
            return covers(a[0], w)
        if len(a) == 2 and a[0][0] == 'call' and fn_name(a[0][1]) in ('data', 'c_str') and a[1][0] == 'call' and fn_name(a[1][1]) in ('size', 'length'):
            return a[0][2] == a[1][2] and (contains(a[0][2], w) or covers(a[0][2], w))
    return False


# ---------------------------------------------------------------- filters
@prop('C44')
def c44(c):
    """Path-sensitive analysis of the severity filter: a record whose severity is below the threshold is denied and any
    other is not; the comparison is a signed one of the full severity with the full 64-bit threshold; the filter that
    accepts everything never denies."""
    F = 'blackhole::filter::severity_t'
    fs = [x for x in c.fields(F) if re.match(r'^(const )?(std::)?(int64_t|int_fast64_t|long|long long|blackhole::severity_t|int|unsigned.*|uint.*|short|char)$', x['t'])]
    c.need(fs, 'threshold of the severity filter')
    T = ('field', ('this',), fs[0]['name'])
    c.expect(fs[0]['t'].replace('const ', '') in ('long', 'long long', 'std::int64_t', 'int64_t'), 'threshold-width', c.p.rel(c.rec(F)['loc']), F,
             'the threshold is stored as %s and can change its value' % fs[0]['t'])
    for f in c.need([f for f in c.fns(cls=F) if f.get('ctor') and f.get('params') and f.get('cfg') and not f.get('copy') and not f.get('move')], 'constructor of the severity filter'):
        g = c.graph(f, ('assign', 'exit'), args=emit_args(c, f, None))
        ok = any(e.kind == 'assign' and strip(e.lhs) == T and strip(e.rhs) == emit_args(c, f, None)[0] for e in g.events())
        c.expect(ok and f['params'][0]['t'].replace('const ', '') in ('long', 'long long', 'std::int64_t'), 'threshold-kept', c.loc(f), c.fname(f), 'the threshold given is not the one used')
    for f in c.need([f for f in c.fns(cls=F, name='filter') if f.get('cfg')], 'severity filter'):
        a = emit_args(c, f, None)
        g = c.graph(f, ('branch', 'exit'), args=a)

        def sev(t):
            return any(x[0] == 'field' and x[2] == 'severity' for x in subterms(t)) and contains(t, a[0]) and not any(x[0] == 'op' for x in subterms(t))

        def step(s, ev):
            if ev.kind == 'branch':
                t, pol = norm(ev)
                if t[0] == 'cmp' and t[1] == '<' and sev(t[2]) and t[3] == T:
                    if not ev.signed and ev.signed is not None:
                        return ('BAD', 'severities are compared as unsigned numbers')
                    return 'below' if pol else 'above'
                if t[0] == 'cmp' and t[1] == '<' and sev(t[3]) and t[2] == T:
                    if not pol and s == 'above' or pol:
                        return 'above+' if pol else s
                    return 'le' if s is None else s
            if ev.kind == 'exit' and ev.how == 'return':
                v = enum_name(strip(ev.val))
                if v is None:
                    return s
                if s in ('below',) and v != 'deny':
                    return ('BAD', 'a record below the threshold is not denied')
                if s in ('above', 'above+') and v == 'deny':
                    return ('BAD', 'a record that reaches the threshold is denied')
                if s in (None, 'le'):
                    return ('BAD', 'the decision does not separate records below the threshold from the others')
            return s
        c.run('threshold-decides', f, g, None, step)
        full_width(c, f, a, 'severity and threshold')
    for f in [f for f in c.impls('blackhole::filter_t', 'filter') if f.get('cfg') and f['cls'].endswith('::zen_t')]:
        g = c.graph(f, ('exit',))
        c.expect(all(enum_name(v) in ('neutral', 'accept') for v in returned(g)), 'accept-all', c.loc(f), c.fname(f), 'the filter that accepts everything denies a record')
