"""Asynchronous sink."""
import re

from .rule import (prop, is_call, method, strip, subterms, contains, show, norm, enum_name, returned, classes_in, OPTIONS, strs,
                   fn_name, fkey_name, AnalysisError)

A = 'blackhole::sink::asynchronous_t'
P = 'blackhole::sink::overflow_policy_t'


def is_emit(ev):
    return ev.kind in ('call', 'thrown') and method(ev) == 'emit' and ev.fnref and ev.fnref.get('virt')


def throws_emit(fn, kind):
    return bool(fn) and fkey_name(fn['qn']).endswith('::emit') and bool(fn.get('virt'))


def ctors(c):
    return c.need([f for f in c.fns(cls=A) if f.get('ctor') and f.get('cfg') and not f.get('copy') and not f.get('move')], 'constructors of the asynchronous sink')


def workers(c):
    """Functions started as threads by the constructors: list of (function, this)."""
    out = []
    for f in ctors(c):
        g = c.graph(f, ('thread',))
        for e in g.events():
            t = None
            for a in e.args or ():
                for x in subterms(a):
                    if x[0] == 'fn' and x[1] in c.p.functions:
                        t = (x[1], ('this',))
                    elif x[0] == 'lambda' and x[1] in c.p.functions and t is None:
                        t = (x[1], ('this',))
            if t and t not in out:
                out.append(t)
    c.need(out, 'worker thread of the asynchronous sink')
    return [(c.p.functions[k], th) for k, th in out]


def queue_field(c):
    q = [x['name'] for x in c.fields(A, r'[Qq]ueue')]
    c.need(q, 'queue of the asynchronous sink')
    return ('field', ('this',), q[0])


def flags(c):
    """Members set to true by the destructor before it joins the thread."""
    out = set()
    for f in c.fns(cls=A):
        if f.get('dtor') and f.get('cfg'):
            g = c.graph(f, ('assign', 'call', 'exit'))
            for e in g.events():
                if e.kind == 'assign' and strip(e.lhs)[0] == 'field' and strip(e.rhs) in (('const', True), ('const', 1)):
                    out.add(strip(e.lhs))
    return out


def is_join(ev):
    return ev.kind == 'call' and method(ev) == 'join' and ev.obj is not None and strip(ev.obj)[0] == 'field'


def deq(ev):
    return ev.kind in ('try', 'trying') and 'dequeue' in (ev.qn or '')


def enq(ev):
    return ev.kind in ('try', 'trying') and 'enqueue' in (ev.qn or '')


@prop('C10')
def c10(c):
    """Ordering analysis of producer, worker and destructor of the asynchronous sink: emit() queues the record and its
    text; the worker emits every dequeued value exactly once with its own record and text; the worker ends only after
    a dequeue attempt that failed and that was made after the stop flag had been read as set; the destructor sets the
    flag and then joins the worker."""
    Q = queue_field(c)
    fl = flags(c)
    ds = c.need([f for f in c.fns(cls=A) if f.get('dtor') and f.get('cfg')], 'destructor of the asynchronous sink')
    for f in ds:
        g = c.graph(f, ('assign', 'call', 'branch', 'exit'))

        def step(s, ev):
            st, jn = s
            if ev.kind == 'assign' and strip(ev.lhs) in fl:
                if strip(ev.rhs) not in (('const', True), ('const', 1)):
                    return ('BAD', 'the stop flag is cleared on shutdown')
                return (True, jn)
            if is_join(ev):
                if not st:
                    return ('BAD', 'the worker is joined before it was told to stop')
                return (st, True)
            if ev.kind == 'branch':
                t, pol = norm(ev)
                if t[0] == 'truth' and t[1][0] == 'call' and fn_name(t[1][1]) == 'joinable' and not pol:
                    return (st, True)
            if ev.kind == 'exit' and not jn:
                return ('BAD', 'the sink can be destroyed without waiting for the worker')
            return s
        c.run('shutdown-joins', f, g, (False, False), step)
    for x in fl:
        t = [r['t'] for r in c.rec(A)['fields'] if r['name'] == x[2]]
        c.expect(t and 'atomic' in t[0], 'stop-flag-atomic', c.p.rel(c.rec(A)['loc']), x[2], 'the stop flag is shared between threads but not atomic')
    vals = [k for k, r in c.p.records.items() if k.startswith(A + '::') and any('recordbuf_t' in y['t'] for y in r['fields'])]
    c.need(vals, 'queued value')
    r = c.rec(vals[0])
    frec = {y['name'] for y in r['fields'] if 'recordbuf_t' in y['t']}
    ftxt = {y['name'] for y in r['fields'] if 'basic_string<' in y['t']}
    EL = ('elem', Q)

    def from_cell(t, names):
        return any(x[0] == 'field' and x[2] in names and contains(x[1], EL) for x in subterms(t))
    for f, th in workers(c):
        g = c.graph(f, ('call', 'thrown', 'try', 'trying', 'aload', 'branch', 'exit', 'catch'), this=th, throws=throws_emit)
        c.need(any(deq(e) for e in g.events()), 'dequeue operation of the worker')

        def step(s, ev):
            before, after, known, got, n = s
            if ev.kind == 'aload' and strip(ev.obj) in fl:
                x = ev.site
                return (before - {x}, after | {x}, known - {x}, got, n)
            if deq(ev) and ev.kind == 'try':
                if got and n != 1:
                    return ('BAD', 'a dequeued record is not written')
                return (before | after, frozenset(), known, ev.pol, 0)
            if ev.kind in ('branch', 'iter', 'done') and ev.cond is not None:
                t, pol = norm(ev)
                for x in subterms(t):
                    if x[0] == 'aload' and strip(x[1]) in fl and t in (('truth', x), x):
                        return (before, after, known | {x[2]} if pol else known - {x[2]}, got, n)
            if is_emit(ev):
                if not got:
                    return ('BAD', 'the wrapped sink is called although nothing was dequeued')
                if n:
                    return ('BAD', 'a dequeued record is written twice')
                if not from_cell(ev.args[0], frec):
                    return ('BAD', 'the wrapped sink does not get the dequeued record')
                if not from_cell(ev.args[1], ftxt):
                    return ('BAD', 'the wrapped sink does not get the dequeued text')
                return (before, after, known, got, 1)
            if ev.kind == 'exit':
                if got and n != 1:
                    return ('BAD', 'a dequeued record is not written')
                if got is not False:
                    return ('BAD', 'the worker can end although the queue may not be empty')
                if not (before & known):
                    return ('BAD', 'the worker can end although records may have been queued after its last look at the queue')
            return s
        c.run('worker-drains', f, g, (frozenset(), frozenset(), frozenset(), None, 0), step)
    for f in c.need(c.fns(cls=A, name='emit'), 'asynchronous_t::emit'):
        g = c.graph(f, ('try', 'trying', 'pnew', 'exit', 'assign', 'call', 'branch'), opaque=('blackhole::recordbuf_t::recordbuf_t',))
        R, M = [('param', f['name'], i, f['params'][i]['name']) for i in (0, 1)]

        def step(s, ev):
            win, filled = s
            if enq(ev):
                if ev.kind == 'trying':
                    return (True, False)
                if ev.pol:
                    if not filled:
                        return ('BAD', 'nothing is stored in the queue cell')
                    return (False, False)
                return (False, False)
            v = None
            if win and ev.kind == 'pnew' and any(contains(a, EL) for a in ev.at):
                v = strip(ev.val)
            elif win and ev.kind == 'assign' and strip(ev.lhs) == EL:
                v = strip(ev.rhs)
            if v is not None:
                if not any(x[0] == 'ctor' and 'recordbuf_t' in x[1] and contains(x, R) for x in subterms(v)):
                    return ('BAD', 'the queued value is not made from the record')
                if not contains(v, M):
                    return ('BAD', 'the queued value is not made from the text')
                return (win, True)
            return s
        c.run('producer-queues', f, g, (False, False), step)


@prop('C11')
def c11(c):
    """Exception-flow analysis of the worker of the asynchronous sink: whatever the wrapped sink throws is caught
    inside the worker loop, the worker goes on with the next record, and after each processed record - written or
    failed - waiting producers are notified."""
    for f, th in workers(c):
        g = c.graph(f, ('call', 'thrown', 'try', 'trying', 'exit', 'catch', 'throw'), this=th, throws=throws_emit)
        c.need(any(is_emit(e) for e in g.events()), 'emit call of the worker')

        def step(s, ev):
            got, thrown, woke = s
            if deq(ev) and ev.kind == 'try':
                if got and not woke:
                    return ('BAD', 'waiting producers are not notified after a record was processed')
                return (ev.pol, False, False)
            if ev.kind == 'thrown' and is_emit(ev):
                return (got, True, woke)
            if ev.kind == 'catch':
                return (got, False, woke)
            if ev.kind == 'call' and method(ev) == 'wakeup':
                return (got, thrown, True)
            if ev.kind == 'exit':
                if ev.how in ('throw', 'terminate'):
                    return ('BAD', 'an exception of the wrapped sink terminates the worker')
                if got:
                    return ('BAD', 'the worker ends after a failed write')
            return s
        c.run('worker-survives', f, g, (False, False, False), step)


@prop('C12')
def c12(c):
    """Path-sensitive analysis of emit() and classification of the overflow policies: emit() returns only after the
    record was queued exactly once or the policy chose to drop it, asks the policy exactly once per failed attempt and
    retries otherwise; 'drop' never waits and 'wait' waits with a bound; names, the builder and the configuration
    select the policy they name, 'wait' by default."""
    for f in c.need(c.fns(cls=A, name='emit'), 'asynchronous_t::emit'):
        g = c.graph(f, ('try', 'branch', 'call', 'exit'), opaque=('blackhole::recordbuf_t::recordbuf_t',))

        def step(s, ev):
            # state: attempts: 'none', 'full', 'asked', 'drop', 'retry', 'done'
            if enq(ev):
                if s == 'done':
                    return ('BAD', 'a record can be queued twice')
                if s in ('full', 'asked'):
                    return ('BAD', 'the queue is tried again without asking the overflow policy')
                if s == 'drop':
                    return ('BAD', 'a record is queued although the policy drops it')
                return 'done' if ev.pol else 'full'
            if ev.kind == 'call' and method(ev) == 'overflow':
                if s != 'full':
                    return ('BAD', 'the overflow policy is asked although the queue is not full')
                return 'asked'
            if ev.kind == 'branch' and s == 'asked':
                t, pol = norm(ev)
                if t[0] == 'cmp' and t[1] == '==' and any(x[0] == 'call' and fn_name(x[1]) == 'overflow' for x in subterms(t)):
                    n = enum_name(t[2]) or enum_name(t[3])
                    if n == 'drop':
                        return 'drop' if pol else 'retry'
                    if n == 'retry':
                        return 'retry' if pol else 'drop'
                elif t[0] == 'default':
                    return 'retry*'
            if ev.kind == 'exit' and ev.how == 'return':
                if s in ('none', 'full', 'asked', 'retry'):
                    return ('BAD', 'emit() can return although the record was neither queued nor dropped by the policy')
            return s

        def st(s, ev):
            if s == 'retry*':       # a value the policy cannot return
                if enq(ev):
                    return 'done' if ev.pol else 'full'
                return s
            return step(s, ev)
        c.run('overflow-protocol', f, g, 'none', st)
    # policies by name
    cls = {}
    for f in c.need(c.fns(cls='blackhole::sink::overflow_policy_factory_t', name='create'), 'policy factory'):
        for n in ('drop', 'wait'):
            g = c.graph(f, ('exit',), args=[('str', n)])
            ks = set()
            for e in g.events():
                if e.how == 'return':
                    ks |= {x for x in classes_in(strip(e.val)) if c.p.derives(x, P)}
            thr = any(e.how != 'return' for e in g.events())
            if c.expect(len(ks) == 1 and not thr, 'policy-by-name', c.loc(f), n, 'the name does not always select one policy'):
                cls[n] = ks.pop()
        g = c.graph(f, ('exit',), args=[('str', 'some other name')])
        c.expect(all(e.how == 'throw' and 'invalid_argument' in (e.t or '') for e in g.events()), 'policy-unknown', c.loc(f), 'unknown name',
                 'an unknown overflow policy is not rejected with std::invalid_argument')
    for n, k in sorted(cls.items()):
        for f in c.need(c.fns(cls=k, name='overflow'), k + '::overflow'):
            g = c.graph(f, ('call', 'exit', 'lock', 'unlock'))
            vs = {enum_name(v) for v in returned(g)}
            c.expect(vs == {'drop' if n == 'drop' else 'retry'}, 'policy-action', c.loc(f), c.fname(f), 'the policy "%s" returns another action' % n)
            w = [e for e in g.events() if e.kind == 'call' and method(e) in ('wait', 'wait_for', 'wait_until', 'sleep_for', 'sleep_until', 'usleep', 'nanosleep', 'sleep', 'join')]
            if n == 'drop':
                c.expect(not w, 'drop-never-waits', w[0].loc if w else c.loc(f), c.fname(f), 'the drop policy blocks the caller')
                c.seen('drop-never-waits', 'condition_variable::wait_for in the wait policy')
            else:
                bad = [e for e in w if method(e) == 'wait' and len(e.args) < 2]
                c.expect(not bad, 'wait-bounded', bad[0].loc if bad else c.loc(f), c.fname(f), 'an unbounded wait without condition: a lost notification blocks the producer forever')
                cvs = {strip(e.obj) for e in w if method(e).startswith('wait') and e.obj is not None}
                for e in w:
                    if method(e).startswith('wait'):
                        c.expect(bool(e.locks), 'wait-locked', e.loc, c.fname(f), 'the condition variable is waited for without its mutex')
                for h in c.need(c.fns(cls=k, name='wakeup'), k + '::wakeup'):
                    gh = c.graph(h, ('call', 'exit'))

                    def step(s, ev):
                        if ev.kind == 'call' and method(ev) in ('notify_one', 'notify_all') and strip(ev.obj) in cvs:
                            return True
                        if ev.kind == 'exit' and ev.how == 'return' and cvs and not s:
                            return ('BAD', 'waiting producers are not notified')
                        return s
                    c.run('wakeup-notifies', h, gh, False, step)
    # selection by constructor, builder and configuration
    if 'wait' in cls and 'drop' in cls:
        for f in ctors(c):
            if not any('overflow_policy_t' in p['t'] for p in f['params']):
                g = c.graph(f, ('assign', 'exit'))
                vs = [strip(e.rhs) for e in g.events() if e.kind == 'assign' and strip(e.lhs)[0] == 'field' and strip(e.lhs)[1] == ('this',) and
                      any(r['name'] == strip(e.lhs)[2] and 'overflow_policy_t' in r['t'] for r in c.rec(A)['fields'])]
                c.expect(vs and all(cls['wait'] in classes_in(v) for v in vs), 'policy-default', c.loc(f), c.fname(f), 'the default policy is not to wait')
            else:
                i = [j for j, p in enumerate(f['params']) if 'overflow_policy_t' in p['t']][0]
                g = c.graph(f, ('assign', 'exit'))
                pf = {r['name'] for r in c.rec(A)['fields'] if 'overflow_policy_t' in r['t']}
                vs = [strip(e.rhs) for e in g.events() if e.kind == 'assign' and strip(e.lhs)[0] == 'field' and strip(e.lhs)[1] == ('this',) and strip(e.lhs)[2] in pf]
                c.expect(vs and all(any(x[0] == 'param' and x[2] == i for x in subterms(v)) for v in vs), 'policy-given', c.loc(f), c.fname(f), 'the given policy is not used')
        B = 'blackhole::builder<blackhole::sink::asynchronous_t>'
        for n in ('drop', 'wait'):
            for f in c.need(c.fns(cls=B, name=n), 'builder::' + n):
                policy_set(c, f, cls[n], 'builder-policy')
        for f in c.need([x for x in c.fns(cls=B) if x.get('ctor') and x.get('cfg') and any('sink_t' in p['t'] for p in x['params'])], 'builder constructor'):
            policy_set(c, f, cls['wait'], 'builder-default')
        for f in c.need(c.fns(cls=B, name='build'), 'builder::build'):
            g = c.graph(f, ('exit',), opaque=(A + '::asynchronous_t',))
            for v in returned(g):
                k = [x for x in subterms(v) if x[0] == 'ctor' and x[1] == A]
                c.expect(k and any(y[0] == 'field' and 'policy' in y[2] for y in subterms(k[0])), 'builder-policy-used', c.loc(f), c.fname(f),
                         'the policy set in the builder is not passed to the sink')
        for f in c.need(c.fns(cls='blackhole::factory<blackhole::sink::asynchronous_t>', name='from'), 'factory::from'):
            g = c.graph(f, ('exit',), opaque=(A + '::asynchronous_t', 'blackhole::sink::overflow_policy_factory_t::create') + OPTIONS)
            used = set()
            ok = True
            for v in returned(g):
                k = [x for x in subterms(v) if x[0] == 'call' and fn_name(x[1]) == 'create']
                n = set().union(*[strs(a) for x in k for a in x[3]]) if k else set()
                ok = ok and bool(n) and n <= {'overflow', 'wait'}
                used |= n
            c.expect(ok and used == {'overflow', 'wait'}, 'config-policy', c.loc(f), c.fname(f), 'the configured policy (or "wait" when absent) does not reach the sink')


def policy_set(c, f, want, rule):
    g = c.graph(f, ('assign', 'exit', 'call', 'throw'))

    def step(s, ev):
        vs = []
        if ev.kind == 'assign':
            vs = [ev.rhs]
        elif ev.kind == 'call' and method(ev) in ('reset', 'swap'):
            vs = list(ev.args)
        for v in vs:
            ks = {x for x in classes_in(strip(v)) if c.p.derives(x, P)}
            if ks:
                if ks != {want}:
                    return ('BAD', 'another overflow policy is selected')
                return True
        if ev.kind == 'exit' and ev.how == 'return' and not s:
            return ('BAD', 'the overflow policy is not selected')
        if ev.kind == 'exit' and ev.how == 'throw':
            return ('BAD', 'selecting the overflow policy fails')
        return s
    c.run(rule, f, g, False, step)


@prop('C13')
def c13(c):
    """Initialisation-order and ownership analysis of the asynchronous sink: the worker starts after every other member
    was initialised; a queue cell is raw memory that is constructed in place; conversions that can fail happen before
    a cell is claimed; a retried record is not one that was already moved away; no exception leaves a claimed cell."""
    Q = queue_field(c)
    EL = ('elem', Q)
    names = {x['name'] for x in c.rec(A)['fields']}
    for f in ctors(c):
        g = c.graph(f, ('thread', 'assign', 'exit', 'call'))
        tf = {x['name'] for x in c.fields(A, r'\bthread\b')}

        def step(s, ev):
            if ev.kind == 'thread':
                if s == 'run':
                    return ('BAD', 'two workers are started')
                return 'run'
            if ev.kind == 'assign' and s == 'run':
                l = strip(ev.lhs)
                while l[0] == 'field' and l[1] != ('this',):
                    l = l[1]
                if l[0] == 'field' and l[2] not in tf:
                    return ('BAD', 'the worker is started before the member %s is initialised' % l[2])
            if ev.kind == 'exit' and ev.how == 'return' and s != 'run':
                return ('BAD', 'the worker is not started')
            if ev.kind == 'call' and s == 'run' and method(ev) == 'detach':
                return ('BAD', 'the worker is detached')
            return s
        c.run('worker-starts-last', f, g, 'init', step)
    for f in c.need(c.fns(cls=A, name='emit'), 'asynchronous_t::emit'):
        g = c.graph(f, ('try', 'trying', 'pnew', 'exit', 'assign', 'call', 'ctor', 'copy', 'thrown', 'catch'), opaque=('blackhole::recordbuf_t::recordbuf_t',),
                    throws=lambda fn, kind: False)
        prm = [('param', f['name'], i, f['params'][i]['name']) for i in (0, 1)]
        c.need(any(enq(e) for e in g.events()), 'enqueue operation of emit()')

        def step(s, ev):
            win, raw, failed = s
            if enq(ev):
                if ev.kind == 'trying':
                    if win:
                        return ('BAD', 'a claimed queue cell is never published')
                    return (True, True, failed)
                if ev.pol:
                    if raw:
                        return ('BAD', 'the queue cell is published without an object in it')
                    return (False, False, failed)
                return (False, False, True)
            if win:
                if ev.kind == 'pnew' and any(strip(a) == EL for a in ev.at):
                    return (win, False, failed)
                if ev.kind == 'assign' and raw and contains(strip(ev.lhs), EL):
                    return ('BAD', 'an object is assigned to a raw queue cell, where none was constructed')
                if ev.kind == 'call' and raw and ev.obj is not None and contains(strip(ev.obj), EL):
                    return ('BAD', 'a member function is called on a raw queue cell')
                if ev.kind in ('call', 'ctor') and (ev.kind == 'ctor' and 'recordbuf_t' in (ev.qn or '') or method(ev) == 'to_string') and any(
                        contains(strip(x), p) for p in prm for x in tuple(ev.args or ()) + ((ev.obj,) if ev.obj is not None else ())):
                    return ('BAD', 'the record is converted after a queue cell was claimed: a failure leaves the cell claimed forever')
            else:
                if ev.kind == 'copy' and ev.move and not ev.prv and failed and any(
                        x[0] == 'ctor' and 'recordbuf_t' in x[1] for x in subterms(strip(ev.val))):
                    return ('BAD', 'a retry uses a record that was already moved away')
            if ev.kind == 'exit' and win:
                return ('BAD', 'an exception leaves a queue cell claimed')
            return s
        c.run('cell-lifetime', f, g, (False, False, False), step)
    for f, th in workers(c):
        g = c.graph(f, ('try', 'trying', 'call', 'thrown', 'exit', 'catch', 'assign', 'copy'), this=th, throws=throws_emit)

        def step(s, ev):
            win, out = s
            if deq(ev):
                if win and ev.kind == 'trying':
                    return ('BAD', 'an exception leaves a queue cell claimed')
                if ev.kind == 'try':
                    return (False, out)
                return (True, False)
            if ev.kind == 'assign' and win and contains(strip(ev.rhs), EL):
                if strip(ev.rhs) == EL and ev.d.get('ref'):
                    return (win, out)
                return (win, True)
            if is_emit(ev) and not win and any(uncopied(a, EL) for a in ev.args):
                return ('BAD', 'a queue cell is used after it was given back')
            if ev.kind == 'exit' and win:
                return ('BAD', 'an exception leaves a queue cell claimed')
            return s
        c.run('cell-released', f, g, (False, False), step)


def uncopied(t, el):
    """Does t refer to the cell itself rather than to a copy of its content?"""
    t = t if isinstance(t, tuple) else ()
    if t and t[0] == 'copy':
        return False
    if t == el:
        return True
    return any(uncopied(x, el) for x in t if isinstance(x, tuple))
