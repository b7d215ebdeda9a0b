"""Root logger, wrappers, scopes, records."""
import re

from .rule import (prop, is_call, method, strip, subterms, contains, show, elem_of, index_from_zero, empty_when, conts,
                   fn_name, fkey_name, AnalysisError, APPEND, SHRINK, has_field)
from .fmtout import val, writer_of

ROOT = 'blackhole::root_logger_t'
FLOW = ('call', 'ucall', 'thrown', 'iter', 'done', 'branch', 'assign', 'exit', 'catch', 'throw', 'copy', 'ctor', 'dtor')


def field_names(c, tpat):
    """Names of the data members (of any class of the library) whose type matches."""
    out = set()
    for k, rs in c.p.records_all.items():
        if k.startswith('blackhole::'):
            for r in rs:
                for f in r['fields']:
                    if re.search(tpat, f['t']):
                        out.add(f['name'])
    return out


def is_handle(ev):
    return is_call(ev, 'handler_t::handle') or (ev.kind in ('call', 'thrown') and method(ev) == 'handle' and
                                                ev.fnref and ev.fnref.get('virt'))


def is_filter(ev):
    """Call of the user's filter, a std::function<bool(const record_t&)> (or a filter object)."""
    if ev.kind == 'ucall' or (ev.kind == 'thrown' and ev.ucall):
        cls = (ev.fnref or {}).get('cls') or ''
        return 'bool (const blackhole::record_t &)' in cls or 'bool (const record_t &)' in cls
    return False


def is_supplier(ev):
    if ev.kind == 'ucall':
        cls = (ev.fnref or {}).get('cls') or ''
        return 'string_view' in cls and 'record_t' not in cls
    return False


def throws_handle(fn, kind):
    return bool(fn) and (fkey_name(fn['qn']).endswith('::handle')) and bool(fn.get('virt'))


def root_logs(c):
    fs = [f for f in c.fns(cls=ROOT, name='log')]
    c.need(fs, 'root_logger_t::log overloads')
    return fs


def handlers_pred(c):
    names = field_names(c, r'^(const )?std::vector<std::unique_ptr<blackhole::handler_t')

    def pred(t):
        t = strip(t)
        return t[0] == 'field' and t[2] in names
    return pred


class Accept:
    """Tracks the decision of the filter along a path: None, 'asked', 'yes', 'no'."""

    @staticmethod
    def step(dec, ev):
        if is_filter(ev) and ev.kind == 'ucall':
            return 'asked'
        if ev.kind == 'branch' and dec == 'asked' and filter_cond(ev.cond):
            return 'yes' if truth_pol(ev) else 'no'
        return dec


def filter_cond(t):
    t = strip(t)
    while t[0] in ('truth', 'not'):
        t = t[1]
    return t[0] == 'call' and t[1].endswith('operator()') and any('record_t' in str(x[1]) for x in subterms(t) if x[0] == 'ctor')


def truth_pol(ev):
    t = strip(ev.cond)
    pol = ev.pol
    while t[0] == 'not':
        t = t[1]
        pol = not pol
    return pol


@prop('C01')
def c01(c):
    """Path-sensitive flow analysis of every log() overload of the root logger with exceptional edges out of each
    handler: on every path on which the filter accepted, one complete pass over the handler list is made, each handler
    is invoked exactly once per pass with the record that was filtered, and no exception of a handler leaves log()."""
    isc = handlers_pred(c)
    n = 0
    for f in root_logs(c):
        g = c.graph(f, FLOW, throws=throws_handle)
        n += sum(1 for e in g.events() if is_handle(e))

        def step(s, ev):
            dec, rec, it, cnt, done = s
            dec = Accept.step(dec, ev)
            if is_filter(ev) and ev.kind == 'ucall':
                rec = strip(ev.args[0]) if ev.args else None
            k = ev.kind
            if k in ('iter', 'done') and isc(ev.over):
                if it and cnt == 0:
                    return ('BAD', 'a handler can be skipped')
                if k == 'done':
                    return (dec, rec, False, 0, True)
                return (dec, rec, True, 0, done)
            if k == 'branch' and any(isc(x) and empty_when(ev.cond, ev.pol, strip(x)) for x in conts(ev.cond)):
                done = True
            if is_handle(ev):
                x, kind = elem_of(ev.obj)
                if x is None or not isc(x) or not it:
                    return ('BAD', 'handle() is not called on the current element of the handler list')
                if not index_from_zero(ev.obj):
                    return ('BAD', 'the pass over the handlers does not start with the first one')
                if done or cnt:
                    return ('BAD', 'a handler can be invoked twice for one record')
                if rec is not None and strip(ev.args[0]) != rec:
                    return ('BAD', 'the handler gets another record than the filter')
                return (dec, rec, True, 1, done)
            if k == 'exit':
                if ev.how == 'terminate':
                    return ('BAD', 'an exception of a handler terminates the process')
                if ev.how == 'throw':
                    return ('BAD', 'an exception of a handler leaves log()')
                if ev.how == 'return' and dec != 'no' and (it or not done):
                    return ('BAD', 'log() can return before all handlers got an accepted record')
            return (dec, rec, it, cnt, done)
        c.run('handler-isolation', f, g, (None, None, False, 0, False), step)
    c.need(n, 'a call of handler_t::handle reachable from root_logger_t::log')


@prop('C02')
def c02(c):
    """Path-sensitive flow analysis of every log() overload of the root logger: the filter is asked exactly once,
    before the message supplier and every handler; nothing is evaluated or handled after a rejection; on acceptance the
    supplier runs exactly once, and its result and the current time are stored in the record before the first handler."""
    acc = accessors(c)
    fm, tm = acc.get('formatted'), acc.get('timestamp')
    c.need(fm and tm, 'record accessors')
    isc = handlers_pred(c)
    for f in root_logs(c):
        lazy = any('lazy_message_t' in p['t'] for p in f['params'])
        g = c.graph(f, FLOW)
        c.need(any(is_filter(e) for e in g.events()) or not any(is_handle(e) for e in g.events()), 'filter call in ' + c.fname(f))

        def step(s, ev):
            dec, rec, sup, fmt, ts, dead = s
            if is_filter(ev):
                if dec is not None:
                    return ('BAD', 'the filter can be asked more than once for one record')
                if sup:
                    return ('BAD', 'the message is computed before the filter was asked')
                rec = strip(ev.args[0])
            dec = Accept.step(dec, ev)
            if is_supplier(ev):
                if dec != 'yes':
                    return ('BAD', 'the lazy message is computed although the filter has not accepted the record')
                if sup:
                    return ('BAD', 'the lazy message can be computed twice')
                sup = True
            if ev.kind == 'branch' and sup and not fmt and data_null(ev):
                fmt = True
            if ev.kind == 'assign' and rec is not None:
                p = path_of(ev.lhs, rec)
                if dead and p in (fm, tm):
                    return ('BAD', 'the handlers get the record with different %s' % ('texts' if p == fm else 'timestamps'))
                if p == fm:
                    v = strip(ev.rhs)
                    if lazy:
                        fmt = any(x[0] == 'call' and x[1].endswith('operator()') for x in subterms(v)) and sup
                    elif dec is not None and not null_view(v):
                        return ('BAD', 'the text of an eager message is replaced by %s' % show(v))
                if p == tm:
                    ts = any(x[0] == 'call' and fn_name(x[1]) == 'now' for x in subterms(ev.rhs)) and dec == 'yes'
            if is_handle(ev):
                if dec != 'yes':
                    return ('BAD', 'a handler can get a record that the filter did not accept')
                if lazy and not sup:
                    return ('BAD', 'a handler can get the record before the lazy message was computed')
                if lazy and not fmt:
                    return ('BAD', 'the computed message is not stored in the record before it is handled')
                if not ts:
                    return ('BAD', 'the record has no timestamp when it is handled')
                if strip(ev.args[0]) != rec:
                    return ('BAD', 'the record that was filtered is not the one handled')
                dead = True
            if ev.kind == 'exit' and ev.how == 'return' and dec is None:
                return ('BAD', 'log() can return without asking the filter')
            return (dec, rec, sup, fmt, ts, dead)
        c.run('filter-gate', f, g, (None, None, False, False, False, False), step)
    # the severity and the message seen by the filter are the caller's
    for f in root_logs(c):
        g = c.graph(f, ('ucall', 'assign', 'exit'))
        sev, msg, att = acc.get('severity'), acc.get('message'), acc.get('attributes')
        rec = {strip(e.args[0]) for e in g.events() if is_filter(e)}
        for r in rec:
            for nm, p, want in (('severity', sev, 0), ('message', msg, 1), ('attributes', att, 2)):
                vals = {strip(e.rhs) for e in g.events() if e.kind == 'assign' and path_of(e.lhs, r) == p}
                if want == 2 and len(f['params']) < 3:
                    continue
                ok = vals and all(any(x[0] == 'param' and x[2] == want for x in subterms(v)) for v in vals)
                c.expect(ok, 'record-' + nm, c.loc(f), c.fname(f), 'the %s of the record is not the one passed to log()' % nm)


def data_null(ev):
    """Branch outcome meaning that the supplied view has no data."""
    t = strip(ev.cond)
    pol = ev.pol
    if t[0] == 'not':
        t, pol = t[1], not pol
    if t[0] == 'truth' and t[1][0] == 'call' and fn_name(t[1][1]) == 'data':
        return not pol
    if t[0] == 'truth' and t[1][0] == 'call' and fn_name(t[1][1]) == 'empty':
        return False
    return False


def null_view(v):
    return v[0] in ('ctor', 'init') and 'string_view' in str(v[1]) and not v[2]


def path_of(t, base):
    """Field path of t relative to base, or None."""
    out = []
    t = strip(t)
    while t[0] == 'field':
        out.append(t[2])
        t = t[1]
    if t != base:
        return None
    return tuple(reversed(out))


def accessors(c):
    """Accessor name -> field path, for the accessors of the record."""
    out = {}
    for n in ('message', 'severity', 'timestamp', 'lwp', 'tid', 'formatted', 'attributes'):
        for f in c.fns(cls='blackhole::record_t', name=n):
            g = c.graph(f, ('exit',))
            vals = {strip(e.val) for e in g.events() if e.how == 'return' and e.val is not None}
            if len(vals) == 1:
                p = path_of(vals.pop(), ('this',))
                if p:
                    out[n] = p
    return out


# ------------------------------------------------------------------------------------------ attributes
def pack_param(f):
    for i, p in enumerate(f['params']):
        if 'small_vector<std::reference_wrapper' in p['t'] or 'attribute_pack' in p['t']:
            return i
    return None


def is_pack_ctor(t):
    t = strip(t)
    return t[0] in ('ctor', 'init') and 'reference_wrapper' in str(t[1]) and 'vector' in str(t[1])


def flat_args(args):
    for a in args:
        if isinstance(a, tuple):
            yield a


def attaches(ev, own):
    """Number of times event `ev` puts a term satisfying `own` into a pack; returns (pack term, n)."""
    if ev.kind == 'call' and ev.obj is not None and method(ev) in APPEND:
        n = sum(1 for a in ev.args if any(own(x) for x in subterms(strip(a))))
        if n:
            return strip(ev.obj), 1
    return None, 0


@prop('C03')
def c03(c):
    """Path-sensitive flow analysis of every log() overload of the wrapper and of the root logger and of the scope
    chain: a wrapper forwards every call exactly once with the caller's severity, message and attributes after adding
    its own list exactly once; the root logger collects the scope chain exactly once before filtering, into the very
    pack the record is built from; every scope of the chain adds its list exactly once."""
    # wrapper
    W = 'blackhole::wrapper_t'
    logs = c.need(c.fns(cls=W, name='log'), 'wrapper_t::log overloads')
    lists = {x['name'] for x in c.fields(W, r'small_vector<std::pair<blackhole::stdext|attribute_list')}
    views = {('field', ('this',), n) for n in lists}
    own = lambda t: t in views
    for f in logs:
        pi = pack_param(f)
        g = c.graph(f, ('call', 'exit', 'assign', 'ctor'))
        pk = None

        def step(s, ev):
            fwd, att = s
            if ev.kind == 'call':
                if method(ev) == 'log' and ev.fnref and ev.fnref.get('virt'):
                    if fwd:
                        return ('BAD', 'the record is forwarded twice')
                    if strip(ev.obj)[0] != 'field':
                        return ('BAD', 'the record is not forwarded to the wrapped logger')
                    for j in (0, 1):
                        if len(ev.args) <= j or strip(ev.args[j]) != ('param', 'log', j, f['params'][j]['name']):
                            return ('BAD', 'argument %d of log() is not forwarded unchanged' % j)
                    if len(ev.args) < 3:
                        return ('BAD', 'the attributes are not forwarded')
                    p = strip(ev.args[2])
                    if pi is not None and p[0] != 'param':
                        base = any(x[0] == 'param' and x[2] == pi for x in subterms(p))
                        if not base:
                            return ('BAD', 'the attributes of the caller are not forwarded')
                    a = att
                    if is_pack_ctor(p):
                        a += sum(1 for x in subterms(p) if own(x))
                    if a == 0:
                        return ('BAD', 'the attributes of the wrapper are not attached')
                    if a > 1:
                        return ('BAD', 'the attributes of the wrapper are attached more than once')
                    return (True, att)
                if ev.obj is not None and method(ev) in SHRINK and is_pack(ev.obj):
                    return ('BAD', 'attributes are removed from the pack')
                p, n = attaches(ev, own)
                if n:
                    if fwd:
                        return ('BAD', 'attributes are attached after the record was forwarded')
                    return (fwd, att + n)
            if ev.kind == 'exit' and ev.how == 'return' and not fwd:
                return ('BAD', 'the record is not forwarded to the wrapped logger')
            return s

        def is_pack(t):
            t = strip(t)
            return is_pack_ctor(t) or (t[0] == 'param' and t[2] == pi)
        c.run('wrapper-forward', f, g, (False, 0), step)
    # a copy forwards to the same logger as the original, not to the original itself
    for f in c.fns(cls=W):
        if not (f.get('ctor') or f['name'] == 'operator=') or not f.get('cfg') or not (f.get('copy') or f.get('move')):
            continue
        g = c.graph(f, ('assign',))
        O = ('param', f['name'], 0, f['params'][0]['name'])
        refs = {x['name'] for x in c.rec(W)['fields'] if 'logger_t' in x['t']}
        v = [e for e in g.events() if e.kind == 'assign' and strip(e.lhs)[0] == 'field' and strip(e.lhs)[1] == ('this',) and strip(e.lhs)[2] in refs]
        if v or f.get('ctor'):
            c.expect(v and all(strip(e.rhs) == ('field', O, strip(e.lhs)[2]) for e in v), 'wrapper-same-logger', c.loc(f), c.fname(f),
                     'the copied wrapper does not forward to the logger the original forwards to')
    # the view of the wrapper covers its whole storage
    for f in c.need([x for x in c.fns(cls=W) if x.get('ctor') and not any('deleg' in i for i in x['inits'])], 'wrapper constructors'):
        list_from_storage(c, f, lists, 'wrapper-view')
    # holder
    H = 'blackhole::scope::holder_t'
    hl = {x['name'] for x in c.fields(H, r'small_vector<std::pair<blackhole::stdext|attribute_list')}
    for f in c.need([x for x in c.fns(cls=H) if x.get('ctor') and not x.get('copy') and not x.get('move') and x.get('cfg')], 'holder constructors'):
        list_from_storage(c, f, hl, 'holder-view')
    for f in c.need(c.fns(cls=H, name='attributes'), 'holder_t::attributes'):
        g = c.graph(f, ('exit',))
        vals = {strip(e.val) for e in g.events() if e.how == 'return'}
        c.expect(vals and all(v[0] == 'field' and v[2] in hl for v in vals), 'holder-list', c.loc(f), c.fname(f),
                 'the holder does not expose its own attribute list')
    # scope chain
    for f in c.need(c.fns(cls='blackhole::scope::watcher_t', name='collect'), 'watcher_t::collect'):
        g = c.graph(f, ('call', 'branch', 'exit', 'assign', 'iter', 'done'))
        scope_chain(c, f, g)
    # root
    for f in root_logs(c):
        g = c.graph(f, FLOW, opaque=('blackhole::scope::watcher_t::collect',))
        pi = pack_param(f)
        objs = {strip(e.obj) for e in g.events() if e.kind == 'call' and method(e) == 'collect'}
        if not objs:
            c.bad('scope-collect', c.loc(f), c.fname(f), 'the scoped attributes are never collected')
            continue

        def step(s, ev):
            col, pack, cur = s
            if ev.kind == 'branch':
                t = strip(ev.cond)
                pol = ev.pol
                if t[0] == 'not':
                    t, pol = t[1], not pol
                if t[0] == 'truth' and t[1] in objs:
                    cur = 'set' if pol else 'none'
            if ev.kind == 'call' and method(ev) == 'collect':
                if col:
                    return ('BAD', 'the scoped attributes are collected twice')
                if cur != 'set':
                    return ('BAD', 'the scope chain is dereferenced without knowing that there is one')
                pack = strip(ev.args[0])
                if pi is not None and pack != ('param', 'log', pi, f['params'][pi]['name']):
                    return ('BAD', 'the scoped attributes are collected into another pack')
                return (True, pack, cur)
            if is_filter(ev):
                if cur != 'none' and not col:
                    return ('BAD', 'the record is filtered before the scoped attributes were collected')
                if pack is not None and not contains(strip(ev.args[0]), pack):
                    return ('BAD', 'the record is not built from the pack with the scoped attributes')
            return (col, pack, cur)
        c.run('scope-collect', f, g, (False, None, None), step)
        for p in [i for i in (pi,) if i is not None]:
            bad = [e for e in g.events() if e.kind == 'call' and e.obj is not None and method(e) in SHRINK and
                   strip(e.obj)[0] == 'param' and strip(e.obj)[2] == p]
            c.expect(not bad, 'pack-kept', bad[0].loc if bad else c.loc(f), c.fname(f), 'attributes are removed from the pack')


def list_from_storage(c, f, lists, rule):
    """The list built by constructor f has one entry per stored attribute."""
    g = c.graph(f, ('call', 'iter', 'done', 'branch', 'assign', 'exit', 'ctor'))
    L = {('field', ('this',), n) for n in lists}
    init = None
    for e in g.events():
        if e.kind == 'assign' and e.lhs in L:
            init = strip(e.rhs)

    def target(t):
        t = strip(t)
        return t in L or (t[0] == 'ctor' and 'small_vector<std::pair<blackhole::stdext' in str(t[1]))

    def storage(t):
        t = strip(t)
        return t[0] == 'field' and t[1] == ('this',) and t[2] not in lists

    def step(s, ev):
        it, n, done = s
        if ev.kind in ('iter', 'done') and storage(ev.over):
            if it and n != 1:
                return ('BAD', 'an attribute of the storage is not put into the list')
            return (ev.kind == 'iter', 0, done or ev.kind == 'done')
        if ev.kind == 'branch' and any(storage(x) and empty_when(ev.cond, ev.pol, strip(x)) for x in conts(ev.cond)):
            return (it, n, True)
        if ev.kind in ('call', 'ctor') and range_over(ev, storage):
            return (it, n, True)
        if ev.kind == 'call' and ev.obj is not None and target(ev.obj):
            m = method(ev)
            if m in APPEND:
                el = [x for a in ev.args for x in subterms(strip(a)) if elem_of(x)[0] is not None and storage(elem_of(x)[0])]
                if el:
                    if n:
                        return ('BAD', 'an attribute of the storage is put into the list twice')
                    if not index_from_zero(el[0]):
                        return ('BAD', 'the pass over the storage does not start with the first attribute')
                    return (it, 1, done)
            elif m in SHRINK:
                return ('BAD', 'attributes are removed from the list')
        if ev.kind == 'exit' and ev.how == 'return' and (it or not done):
            return ('BAD', 'the list is not built from the whole storage')
        return s
    c.run(rule, f, g, (False, 0, False), step)


def range_over(ev, pred):
    """Does a call or constructor take the full range begin..end of a container?"""
    its = [strip(a) for a in ev.args or () if isinstance(a, tuple)]
    return any(x[0] == 'iter' and pred(x[1]) for x in its) and any(x[0] == 'end' and pred(x[1]) for x in its)


def scope_chain(c, f, g):
    P = ('param', 'collect', 0, f['params'][0]['name'])
    prevs = {x['name'] for x in c.fields('blackhole::scope::watcher_t', r'watcher_t \*')}
    c.need(prevs, 'link of the scope chain')

    def nxt(t):
        for n in prevs:
            return ('field', t, n)

    def step(s, ev):
        cur, att, known = s     # current scope, whether its list was attached, what is known about the next one
        if ev.kind in ('branch', 'iter', 'done') and ev.cond is not None:
            t = strip(ev.cond)
            pol = ev.pol
            if t[0] == 'not':
                t, pol = t[1], not pol
            if t[0] == 'truth':
                x = t[1]
                if att and (x == nxt(cur) or (known == 'moved' and x[0] == 'phi')):
                    if not pol:
                        return (cur, True, 'end')
                    return (x, False, None) if x[0] == 'phi' else (cur, True, 'more')
            return s
        if ev.kind == 'assign' and ev.lhs is not None and ev.lhs[0] not in ('field',) and not ev.init:
            v = strip(ev.rhs)
            if v == nxt(cur):
                return (cur, att, 'moved') if att else ('BAD', 'a scope of the chain can be skipped')
            if any(x[0] == 'field' and x[2] in prevs for x in subterms(v)):
                return ('BAD', 'the scope chain is not followed link by link')
        if ev.kind == 'call':
            p, n = attaches(ev, lambda x: x[0] == 'call' and fn_name(x[1]) == 'attributes')
            if n:
                if p != P:
                    return ('BAD', 'the scoped attributes go to another pack')
                objs = [strip(x[2]) for a in ev.args for x in subterms(strip(a)) if x[0] == 'call' and fn_name(x[1]) == 'attributes']
                o = objs[0]
                if o == cur and not att:
                    return (cur, True, known)
                if o == nxt(cur) and att and known == 'more':
                    return (o, True, None)
                if o == cur:
                    return ('BAD', 'a scope can add its attributes twice')
                return ('BAD', 'the scope chain is not followed link by link')
            if method(ev) == 'collect':
                o = strip(ev.obj)
                if not att:
                    return ('BAD', 'a scope of the chain can be skipped')
                if o != nxt(cur) or strip(ev.args[0]) != P:
                    return ('BAD', 'the scope chain is not followed link by link')
                if known != 'more':
                    return ('BAD', 'the end of the scope chain is not checked')
                return ('done',), True, 'end'
            if ev.obj is not None and strip(ev.obj) == P and method(ev) in SHRINK:
                return ('BAD', 'attributes are removed from the pack')
        if ev.kind == 'exit' and ev.how == 'return':
            if not att:
                return ('BAD', 'a scope of the chain can be skipped')
            if known != 'end':
                return ('BAD', 'the scope chain can be abandoned before its end')
        return (cur, att, known)
    c.run('scope-chain', f, g, (('this',), False, None), step)


# ------------------------------------------------------------------------------------------ scopes
def undeleted(c, cls, what):
    """Copy/move operations of a class that a user could call: list of names."""
    out = []
    r = c.rec(cls)
    decl = {'copy_ctor': None, 'move_ctor': None, 'copy_assign': None, 'move_assign': None}
    for m in r['methods']:
        k = special_kind(m, cls)
        if k:
            decl[k] = m
    anymove = decl['move_ctor'] or decl['move_assign']
    for k, m in decl.items():
        if m is not None:
            if not m.get('deleted'):
                out.append(k)
            continue
        if anymove or (k.startswith('move') and (decl['copy_ctor'] or decl['copy_assign'])):
            continue        # not declared (moves fall back on the copies judged above)
        blocked = False
        for b in r['bases']:
            if b['t'] in c.p.records and k not in undeleted(c, b['t'], what) and k.replace('move', 'copy') not in undeleted(c, b['t'], what):
                blocked = True
        for f in r['fields']:
            t = f['t']
            if re.match(r'^(const )?(std::(unique_ptr|mutex|atomic|thread|ofstream|basic_ofstream|basic_ostream)|boost::thread_specific_ptr)\b', t) \
                    and k.startswith('copy'):
                blocked = True
            if (f.get('ref') or f.get('const')) and k.endswith('assign'):
                blocked = True
            if t in c.p.records and t != cls and k not in undeleted(c, t, what) and k.replace('move', 'copy') not in undeleted(c, t, what):
                blocked = True
        if not blocked:
            out.append(k)
    return out


def special_kind(m, cls):
    base = cls.split('<')[0]
    short = base.split('::')[-1]
    pt = m.get('pt') or []
    if len(pt) != 1 or not (pt[0].replace('const ', '').rstrip(' &') == cls):
        return None
    if m['name'].split('<')[0] == short:
        return 'move_ctor' if pt[0].endswith('&&') else 'copy_ctor'
    if m['name'] == 'operator=':
        return 'move_assign' if pt[0].endswith('&&') else 'copy_assign'
    return None


@prop('C04')
def c04(c):
    """Typestate analysis of scoped attribute holders: creation remembers the previously active scope of the logger
    and then activates the new one, destruction re-activates exactly the remembered one, on every path, exactly once;
    re-binding reaches every scope of the chain; the active scope is kept per logger and thread, is not deleted by
    thread exit, and holders can be neither copied nor moved."""
    WT = 'blackhole::scope::watcher_t'
    mg = {x['name'] for x in c.fields(WT, 'manager_t')}
    pv = {x['name'] for x in c.fields(WT, r'watcher_t \*')}
    c.need(mg and pv, 'manager and previous scope of the watcher')
    mgr = ('field', ('this',), sorted(mg)[0])
    prev = ('field', ('this',), sorted(pv)[0])
    for f in c.need([x for x in c.fns(cls=WT) if x.get('ctor') and x.get('cfg') and not x.get('copy') and not x.get('move')], 'watcher constructor'):
        g = c.graph(f, ('call', 'assign', 'exit', 'copy'))

        def step(s, ev):
            got, setp, setm, act = s
            if ev.kind == 'assign' and ev.lhs == prev:
                v = strip(ev.rhs)
                if v in (('null',), ('const', 0)) and not act:
                    return (got, False, setm, act)      # a default that has to be replaced
                if not (v[0] == 'call' and fn_name(v[1]) == 'get' and from_manager(v[2])):
                    return ('BAD', 'the previously active scope is not remembered')
                if act:
                    return ('BAD', 'the previous scope is read after the new one was activated')
                return (got, True, setm, act)
            if ev.kind == 'assign' and ev.lhs == mgr:
                if not from_manager(ev.rhs):
                    return ('BAD', 'the scope is not bound to the manager of its logger')
                return (got, setp, True, act)
            if ev.kind == 'call' and method(ev) == 'get' and from_manager(ev.obj) and act:
                return s
            if ev.kind == 'call' and method(ev) == 'reset':
                if not from_manager(ev.obj) or strip(ev.args[0]) != ('this',):
                    return ('BAD', 'another scope than the new one is activated')
                if act:
                    return ('BAD', 'the scope is activated twice')
                return (got, setp, setm, True)
            if ev.kind == 'exit' and ev.how == 'return' and not (setp and setm and act):
                return ('BAD', 'the new scope is not linked to the previous one and activated')
            return s

        def from_manager(t):
            t = strip(t)
            return t == mgr or (t[0] == 'call' and fn_name(t[1]) == 'manager' and t[2] is not None and strip(t[2])[0] == 'param')
        # the value read for prev must be read before reset: calls are events of the same path
        c.run('scope-enter', f, g, (False, False, False, False), step)
        order_get_before_reset(c, f, g)
    for f in c.need([x for x in c.fns(cls=WT) if x.get('dtor') and x.get('cfg')], 'watcher destructor'):
        g = c.graph(f, ('call', 'assign', 'exit', 'delete'))

        def step(s, ev):
            if ev.kind == 'call' and method(ev) == 'reset':
                if strip(ev.obj) != mgr:
                    return ('BAD', 'the wrong manager is told that the scope ended')
                if strip(ev.args[0]) != prev:
                    return ('BAD', 'the previously active scope is not re-activated')
                if s:
                    return ('BAD', 'the scope is left twice')
                return True
            if ev.kind == 'assign' and ev.lhs in (mgr, prev):
                return ('BAD', 'the link to the previous scope is changed before it is used')
            if ev.kind == 'exit' and ev.how == 'return' and not s:
                return ('BAD', 'the scope can end without re-activating the previous one')
            return s
        c.run('scope-leave', f, g, False, step)
    for f in c.need(c.fns(cls=WT, name='rebind'), 'watcher_t::rebind'):
        g = c.graph(f, ('call', 'branch', 'exit', 'assign', 'iter', 'done'))
        chain(c, 'scope-rebind', f, g, prev[2],
              lambda ev: strip(ev.lhs)[1] if ev.kind == 'assign' and strip(ev.lhs)[0] == 'field' and strip(ev.lhs)[2] == mgr[2] and
              any(x[0] == 'param' and x[2] == 0 for x in subterms(strip(ev.rhs))) else None, 'rebind', 'keeps its old manager')
    # nobody else writes the link
    for k, fn in c.p.functions.items():
        if fn.get('cls') != WT:
            continue
        if fn.get('ctor') or fn['name'] == 'rebind' or fn.get('dtor') or not fn.get('cfg'):
            continue
        g = c.graph(fn, ('assign',))
        b = [e for e in g.events() if e.lhs and strip(e.lhs)[0] == 'field' and strip(e.lhs)[2] in pv | mg]
        c.expect(not b, 'scope-link-const', b[0].loc if b else c.loc(fn), c.fname(fn), 'the scope chain is modified outside of scope entry and rebinding')
    for cls in [WT] + [k for k in c.p.derived(WT) if k.startswith('blackhole::')]:
        u = undeleted(c, cls, 'scope')
        c.expect(not u, 'scope-not-copyable', c.p.rel(c.rec(cls)['loc']), cls, 'scopes can be copied or moved (%s), which breaks the chain of pointers' % ', '.join(u))
    # thread local storage
    impl = c.need([k for k in c.p.derived('blackhole::scope::manager_t') if k.startswith('blackhole::')], 'scope manager implementation')
    for cls in impl:
        r = c.rec(cls)
        tss = [x for x in r['fields'] if 'thread_specific_ptr<' in x['t'] and not x.get('static')]
        if not c.expect(len(tss) == 1, 'scope-per-thread', c.p.rel(r['loc']), cls, 'the active scope is not kept in thread-specific storage of the logger'):
            continue
        T = ('field', ('this',), tss[0]['name'])
        for f in c.fns(cls=cls, name='get'):
            g = c.graph(f, ('exit', 'assign'))
            v = {strip(e.val) for e in g.events() if e.kind == 'exit' and e.how == 'return'}
            c.expect(v == {T}, 'manager-get', c.loc(f), c.fname(f), 'the active scope of the thread is not what get() returns')
        for f in c.fns(cls=cls, name='reset'):
            g = c.graph(f, ('exit', 'assign'))

            def step(s, ev):
                if ev.kind == 'assign' and strip(ev.lhs) == T:
                    return strip(ev.rhs) == ('param', 'reset', 0, f['params'][0]['name'])
                if ev.kind == 'exit' and ev.how == 'return' and not s:
                    return ('BAD', 'reset() does not store the scope it is given')
                return s
            c.run('manager-reset', f, g, False, step)
        for f in [x for x in c.fns(cls=cls) if x.get('ctor') and not x.get('copy') and not x.get('move') and x.get('cfg')]:
            g = c.graph(f, ('assign',))
            init = [strip(e.rhs) for e in g.events() if strip(e.lhs) == T]
            ok = False
            for v in init:
                a = v[2] if v[0] == 'ctor' else ()
                if a and a[0] and a[0][0] == 'lambda':
                    lg = c.graph(c.p.functions[a[0][1]], None)
                    ok = not any(e.kind in ('delete', 'call', 'ucall') for e in lg.events())
                elif a and a[0] == ('null',):
                    ok = True
                elif a and a[0][0] == 'fn' and a[0][1] in c.p.functions:
                    lg = c.graph(c.p.functions[a[0][1]], None)
                    ok = not any(e.kind in ('delete', 'call', 'ucall') for e in lg.events())
            c.expect(ok, 'scope-not-owned', c.loc(f), c.fname(f), 'thread exit or re-activation would delete a scope owned by its creator')


def order_get_before_reset(c, f, g):
    def step(s, ev):
        if ev.kind == 'call' and method(ev) == 'reset':
            return True
        if ev.kind == 'call' and method(ev) == 'get' and s and ev.site in used:
            return ('BAD', 'the previous scope is read after the new one was activated')
        return s
    used = {x[4] for e in g.events() if e.kind == 'assign' for x in subterms(strip(e.rhs)) if x[0] == 'call' and fn_name(x[1]) == 'get'}
    c.run('scope-enter-order', f, g, False, step)


def chain(c, rule, f, g, link, visit, rec, msg):
    """Every element of a linked chain starting at `this` is visited once; recursion goes through method `rec`."""
    def nxt(t):
        return ('field', t, link)

    def step(s, ev):
        cur, att, known = s
        if ev.kind in ('branch', 'iter', 'done') and ev.cond is not None:
            t = strip(ev.cond)
            pol = ev.pol
            if t[0] == 'not':
                t, pol = t[1], not pol
            if t[0] == 'truth':
                x = t[1]
                if att and (x == nxt(cur) or (known == 'moved' and x[0] == 'phi')):
                    if not pol:
                        return (cur, True, 'end')
                    return (x, False, None) if x[0] == 'phi' else (cur, True, 'more')
            return s
        v = visit(ev)
        if v is not None:
            v = strip(v)
            if v == cur and not att:
                return (cur, True, known)
            if v == nxt(cur) and att and known == 'more':
                return (v, True, None)
            if v == cur:
                return s
            return ('BAD', 'the scope chain is not followed link by link')
        if ev.kind == 'assign' and ev.lhs is not None and ev.lhs[0] != 'field' and not ev.init:
            v = strip(ev.rhs)
            if v == nxt(cur):
                return (cur, att, 'moved') if att else ('BAD', 'a scope of the chain ' + msg)
        if ev.kind == 'call' and method(ev) == rec:
            o = strip(ev.obj)
            if not att:
                # children first is fine as long as this one follows
                return ('BAD', 'a scope of the chain ' + msg)
            if o != nxt(cur) or known != 'more':
                return ('BAD', 'the scope chain is not followed link by link')
            return (('done',), True, 'end')
        if ev.kind == 'exit' and ev.how == 'return':
            if not att:
                return ('BAD', 'a scope of the chain ' + msg)
            if known != 'end':
                return ('BAD', 'the scope chain can be abandoned before its end')
        return s
    c.run(rule, f, g, (('this',), False, None), step)


# ------------------------------------------------------------------------------------------ shared state of the root
def root_fields(c):
    inner = [x['name'] for x in c.fields(ROOT, r'^std::shared_ptr<')]
    sync = [x['name'] for x in c.fields(ROOT, r'^std::unique_ptr<')]
    c.need(len(inner) == 1 and len(sync) == 1, 'shared state and lock of the root logger')
    return inner[0], sync[0]


def root_entries(c):
    out = [f for f in c.fns(cls=ROOT) if f.get('cfg') and (f['name'] in ('log', 'filter', 'operator=') or (f.get('ctor') and f.get('move')))]
    return c.need(out, 'operations of the root logger')


@prop('C05')
def c05(c):
    """Lockset analysis of every operation of the root logger: the pointer to the shared state is read, copied and
    replaced only while the lock of the very logger that owns it is held; the filter inside is read and replaced only
    under the lock of the state; neither is written back from a stale copy; user code never runs under these locks;
    and the lock class really locks."""
    I, S = root_fields(c)
    filt = field_names(c, r'^std::function<bool \(const blackhole::record_t &\)>')
    c.need(filt, 'filter of the shared state')
    n = 0
    for f in root_entries(c):
        g = c.graph(f, ('copy', 'assign', 'use', 'ucall', 'lock', 'unlock', 'call', 'exit'), uses=True)
        fresh = f.get('ctor')

        def owner(t):
            t = strip(t)
            if t[0] == 'field' and t[2] == I and t[1][0] in ('this', 'param'):
                return t[1]
            return None

        def held(ev, o):
            return any(path_of(m, o) is not None and I not in (path_of(m, o) or ()) for _, m in ev.locks)

        def step(s, ev):
            for t, what in touched(ev):
                o = owner(t)
                if o is not None and not (fresh and o == ('this',)):
                    if not held(ev, o):
                        return ('BAD', 'the shared state of the logger is %s without holding its lock' % what)
                t = strip(t)
                if t[0] == 'field' and t[2] in filt and any(owner(x) is not None for x in subterms(t[1])):
                    base = t[1]
                    if not any(contains(strip(m), base) for _, m in ev.locks):
                        return ('BAD', 'the filter is %s without holding the lock of the shared state' % what)
            if ev.kind == 'assign':
                o = owner(ev.lhs)
                if o is not None and any(x == ('field', o, I) for x in subterms(strip(ev.rhs))):
                    return ('BAD', 'the shared state is overwritten with a value derived from an earlier read: a concurrent change is lost')
            if ev.kind in ('ucall',) and ev.locks:
                return ('BAD', 'user code runs while a lock of the logger is held')
            if ev.kind == 'call' and ev.locks and ev.fnref and ev.fnref.get('virt') and method(ev) in ('handle', 'filter', 'attributes'):
                return ('BAD', 'user code runs while a lock of the logger is held')
            return s

        def touched(ev):
            if ev.kind == 'copy' and not ev.own:
                yield ev.val, 'read'
            elif ev.kind == 'use' and not ev.own:
                yield ev.obj, 'read'
            elif ev.kind == 'assign':
                yield ev.lhs, 'replaced'
                if ev.byop is None and ev.init is None:
                    pass
            elif ev.kind == 'ucall' and not ev.own:
                yield ev.obj, 'called'
            elif ev.kind == 'call' and method(ev) in ('swap', 'exchange', 'iter_swap'):
                for x in ((ev.obj,) if ev.obj is not None else ()) + tuple(a for a in ev.args or () if isinstance(a, tuple)):
                    yield x, 'replaced'
        n += sum(1 for e in g.events() for t, w in touched(e) if owner(t) is not None)
        c.run('shared-state-lock', f, g, 0, step)
    c.need(n, 'accesses to the shared state')
    # writers store exactly once
    for f in c.fns(cls=ROOT, name='filter'):
        g = c.graph(f, ('assign', 'exit', 'ucall', 'call'), uses=True)

        def step(s, ev):
            if ev.kind == 'call' and method(ev) in ('swap', 'exchange', 'assign'):
                xs = ((ev.obj,) if ev.obj is not None else ()) + tuple(a for a in ev.args or () if isinstance(a, tuple))
                if any(strip(x)[0] == 'field' and strip(x)[2] in filt for x in xs):
                    if not any(y[0] == 'param' and y[2] == 0 for x in xs for y in subterms(strip(x))):
                        return ('BAD', 'another filter than the given one is installed')
                    return True
            if ev.kind == 'assign' and strip(ev.lhs)[0] == 'field' and strip(ev.lhs)[2] in filt:
                if not any(x[0] == 'param' and x[2] == 0 for x in subterms(strip(ev.rhs))):
                    return ('BAD', 'another filter than the given one is installed')
                return True
            if ev.kind == 'exit' and ev.how == 'return' and not s:
                return ('BAD', 'the given filter is not installed')
            return s
        c.run('filter-installed', f, g, False, step)
    lock_class(c)


def lock_class(c):
    """A library-defined spinlock has to acquire and release the primitive it wraps."""
    for cls in [k for k in c.p.records if re.match(r'^blackhole::(\w+::)*\w*lock\w*$', k)]:
        prim = [x['name'] for x in c.rec(cls)['fields'] if 'pthread' in x['t'] or x['t'] in ('int', 'volatile int')]
        if not prim:
            continue
        for nm, pat in (('lock', r'^pthread_(spin|mutex)_lock$'), ('unlock', r'^pthread_(spin|mutex)_unlock$')):
            for f in c.need(c.fns(cls=cls, name=nm), cls + '::' + nm):
                g = c.graph(f, ('call', 'exit'))

                def step(s, ev):
                    if ev.kind == 'call' and re.match(pat, ev.qn) and ev.args and any(
                            x[0] == 'field' and x[1] == ('this',) and x[2] in prim for x in subterms(strip(ev.args[0]))):
                        return s + 1
                    if ev.kind == 'exit' and ev.how == 'return' and s != 1:
                        return ('BAD', '%s() does not %s the primitive exactly once' % (nm, nm))
                    return s
                c.run('lock-primitive', f, g, 0, step)


@prop('C06')
def c06(c):
    """Dataflow analysis of move construction and move assignment of the root logger: the target always ends up with
    the handlers and filter of the source, has a lock of its own, takes over the active scopes of the source (and only
    then gives up nothing of its own), re-binds them to itself, and the source forgets them; self-assignment is a no-op."""
    I, S = root_fields(c)
    tss = field_names(c, r'thread_specific_ptr<')
    fs = [f for f in root_entries(c) if f['name'] == 'operator=' or f.get('ctor')]
    for f in fs:
        ctor = bool(f.get('ctor'))
        g = c.graph(f, ('assign', 'call', 'branch', 'exit', 'ctor', 'new'), opaque=('blackhole::scope::watcher_t::rebind',))
        O = ('param', f['name'], 0, f['params'][0]['name'])
        own = {('this',)}
        for e in g.events():
            if e.kind == 'assign' and e.lhs == ('field', ('this',), S):
                own.add(strip(e.rhs))

        def mine(t):
            t = strip(t)
            return not contains(t, O) and any(contains(t, x) for x in own)
        Mo = {strip(e.rhs) for e in g.events() if e.kind == 'assign' and strip(e.lhs)[0] == 'field' and strip(e.lhs)[2] in tss and contains(strip(e.rhs), O)}

        def step(s, ev):
            inner, sync, scope, took, reb, forgot, same = s
            if ev.kind == 'branch':
                t = strip(ev.cond)
                pol = ev.pol
                if t[0] == 'not':
                    t, pol = t[1], not pol
                if t[0] == 'cmp' and t[1] == '==' and {t[2], t[3]} == {('this',), O}:
                    same = pol
                if t[0] == 'truth' and t[1] in Mo:
                    scope = 'some' if pol else 'none'
            if ev.kind == 'assign':
                l = strip(ev.lhs)
                r = strip(ev.rhs)
                if l == ('field', ('this',), I):
                    if r != ('field', O, I):
                        return ('BAD', 'the target does not get the handlers and filter of the source')
                    inner = True
                elif l == ('field', ('this',), S):
                    if contains(r, O):
                        return ('BAD', 'the lock of the source is taken away from it')
                    sync = True
                elif contains(l, ('field', O, I)) or l == ('field', O, I) or l == ('field', O, S):
                    return ('BAD', 'the source is left without state or lock')
                elif l[0] == 'field' and l[2] in tss:
                    if mine(l):
                        if r in Mo:
                            if not ctor and scope != 'some':
                                return ('BAD', 'the own scopes of the target are dropped although the source has none')
                            took = True
                        elif not ctor or r != ('null',):
                            return ('BAD', 'the active scope of the target becomes %s' % show(r))
                    elif r == ('null',):
                        if not (reb and took):
                            return ('BAD', 'the source forgets its scopes before they were handed over')
                        forgot = True
                if not ctor and same is not False and l[0] == 'field' and (contains(l, ('this',)) or contains(l, O)):
                    return ('BAD', 'self-assignment is not recognised')
            if ev.kind == 'call' and method(ev) == 'rebind':
                if strip(ev.obj) not in Mo:
                    return ('BAD', 'scopes other than those of the source are re-bound')
                if not mine(ev.args[0]):
                    return ('BAD', 'the scopes of the source are not re-bound to the target')
                if scope != 'some':
                    return ('BAD', 'the active scope is used without knowing that there is one')
                reb = True
            if ev.kind == 'exit' and ev.how == 'return' and same is not True:
                if not inner:
                    return ('BAD', 'the target does not get the handlers and filter of the source')
                if ctor and not sync:
                    return ('BAD', 'the target has no lock of its own')
                if scope == 'some' and not (took and reb):
                    return ('BAD', 'the active scopes of the source are not handed over')
                if scope == 'some' and not forgot:
                    return ('BAD', 'the source keeps the scopes it handed over')
                if scope is None:
                    return ('BAD', 'the active scopes of the source are not handed over')
            return (inner, sync, scope, took, reb, forgot, same)
        c.run('root-move', f, g, (False, False, None, False, False, False, None), step)


# ------------------------------------------------------------------------------------------ records
REC = 'blackhole::record_t'
BORROW = re.compile(r'^(std::reference_wrapper<|const .*&$|blackhole::stdext::basic_string_view|.*\*$)')


@prop('C07')
def c07(c):
    """Dataflow analysis of the record: construction stores the given severity, message and attributes and the ids of
    the constructing thread where the accessors read them; the formatted text starts as the message; activation stores
    the text whenever there is one and always the current time; a record is active exactly when that time was set."""
    acc = accessors(c)
    for n in ('message', 'severity', 'timestamp', 'lwp', 'tid', 'formatted', 'attributes'):
        fs = c.fns(cls=REC, name=n)
        c.need(fs, 'record_t::' + n)
        for f in fs:
            c.expect(n in acc, 'accessor', c.loc(f), c.fname(f), 'the accessor does not simply report a stored value')
    paths = list(acc.values())
    c.expect(len(set(paths)) == len(paths), 'accessor-distinct', c.loc(c.fns(cls=REC)[0]), REC, 'two accessors report the same stored value')
    ctor = [f for f in c.fns(cls=REC) if f.get('ctor') and len(f['params']) == 3]
    c.need(ctor, 'constructor from severity, message and attributes')
    for f in ctor:
        g = c.graph(f, ('assign', 'call', 'exit'))
        idx = {}
        for i, p in enumerate(f['params']):
            idx['severity' if 'severity' in p['t'] else 'attributes' if 'small_vector' in p['t'] else 'message'] = i

        def ok(name, v):
            v = strip(v)
            if name in ('severity', 'attributes', 'message'):
                return any(x[0] == 'param' and x[2] == idx.get(name) for x in subterms(v)) and not any(
                    x[0] == 'param' and x[2] != idx.get(name) for x in subterms(v))
            if name == 'formatted':
                return any(x[0] == 'param' and x[2] == idx.get('message') for x in subterms(v)) or v == ('field', ('this',), 'x')
            if name == 'timestamp':
                return (v[0] in ('ctor', 'init') and not any(a and a != ('const', 0) for a in v[2])) or v == ('const', 0)
            if name == 'tid':
                return any(x[0] == 'call' and fn_name(x[1]) in ('pthread_self', 'get_id') for x in subterms(v))
            if name == 'lwp':
                return any(x[0] == 'call' and (fn_name(x[1]) == 'gettid' or (fn_name(x[1]) == 'syscall' and x[3] and x[3][0] == ('const', 186)))
                           for x in subterms(v))
            return True

        def step(s, ev):
            if ev.kind == 'assign' and ev.lhs:
                p = path_of(ev.lhs, ('this',))
                for n, q in acc.items():
                    if p == q:
                        if not ok(n, ev.rhs):
                            return ('BAD', 'the %s of a new record is %s' % (n, show(strip(ev.rhs))))
                        return s | {n}
            if ev.kind == 'exit' and ev.how == 'return':
                miss = set(acc) - s
                if miss:
                    return ('BAD', 'a new record has no ' + ', '.join(sorted(miss)))
            return s
        c.run('record-init', f, g, frozenset(), step)
    for f in c.need(c.fns(cls=REC, name='activate'), 'record_t::activate'):
        g = c.graph(f, ('assign', 'call', 'branch', 'exit'))
        A = ('param', 'activate', 0, f['params'][0]['name'])

        def step(s, ev):
            fmt, ts, empty = s
            if ev.kind == 'branch' and data_null(ev):
                empty = True
            if ev.kind == 'assign' and ev.lhs:
                p = path_of(ev.lhs, ('this',))
                if p == acc.get('formatted'):
                    if strip(ev.rhs) != A:
                        return ('BAD', 'activation stores another text')
                    if empty:
                        return ('BAD', 'activation without a text replaces the message')
                    fmt = True
                elif p == acc.get('timestamp'):
                    if not any(x[0] == 'call' and fn_name(x[1]) == 'now' for x in subterms(ev.rhs)):
                        return ('BAD', 'activation does not store the current time')
                    ts = True
                elif p is not None and p in paths:
                    return ('BAD', 'activation changes another property of the record')
            if ev.kind == 'exit' and ev.how == 'return':
                if not ts:
                    return ('BAD', 'activation does not store the current time')
                if not fmt and not empty:
                    return ('BAD', 'activation does not store the text')
            return (fmt, ts, empty)
        c.run('record-activate', f, g, (False, False, False), step)
    for f in c.need(c.fns(cls=REC, name='is_active'), 'record_t::is_active'):
        g = c.graph(f, ('exit', 'branch'))

        def ts(t):
            return path_of(t, ('this',)) == acc.get('timestamp')

        def cond(t, pol):
            """+1: t true means active, -1: inactive, 0: unrelated"""
            t = strip(t)
            if t[0] == 'not':
                return cond(t[1], not pol)
            if t[0] == 'cmp' and t[1] == '==' and (ts(t[2]) != ts(t[3])):
                o = t[3] if ts(t[2]) else t[2]
                if o[0] in ('ctor', 'init') and not any(o[2]) or o == ('const', 0):
                    return -1 if pol else 1
            if t[0] == 'truth':
                return cond(t[1], pol)
            if t[0] == 'call' and t[1].endswith('operator!=') and any(ts(a) for a in t[3]):
                return 1 if pol else -1
            if t[0] == 'call' and t[1].endswith('operator==') and any(ts(a) for a in t[3]):
                return -1 if pol else 1
            return 0

        def step(s, ev):
            if ev.kind == 'branch':
                k = cond(ev.cond, ev.pol)
                return k or s
            if ev.kind == 'exit' and ev.how == 'return':
                v = strip(ev.val)
                if v[0] == 'const':
                    return s if (s == 1) == bool(v[1]) and s else ('BAD', 'activity does not follow the timestamp')
                if cond(v, True) != 1:
                    return ('BAD', 'activity does not follow the timestamp')
            return s
        c.run('record-active', f, g, 0, step)
    for f in c.need(c.fns(cls=REC, name='pid'), 'record_t::pid'):
        g = c.graph(f, ('exit',))
        v = [strip(e.val) for e in g.events() if e.how == 'return']
        c.expect(v and all(any(x[0] == 'call' and fn_name(x[1]) == 'getpid' for x in subterms(t)) for t in v), 'record-pid',
                 c.loc(f), c.fname(f), 'the process id of the record is not the id of the process')


RB = 'blackhole::recordbuf_t'


def rooted(t):
    """Is the term (part of) a member of *this?"""
    t = strip(t)
    while t[0] in ('field', 'index', 'elem'):
        if t[0] == 'field' and t[1] == ('this',):
            return True
        t = t[1]
    return False


@prop('C08')
def c08(c):
    """Ownership analysis of the owned record used by asynchronous delivery: after every constructor and assignment all
    borrowing properties point into the object itself, all others are copied from the source record; the attributes of
    all lists are flattened in order, each exactly once, and converted to values that own their data."""
    acc = accessors(c)
    inner = c.rec('blackhole::record_t::inner_t')
    borrow = {f['name'] for f in inner['fields'] if BORROW.match(f['t'])}
    scal = {f['name'] for f in inner['fields'] if not BORROW.match(f['t']) and not f['name'].startswith('__')}
    c.need(borrow, 'borrowing properties of the record')
    byname = {v[-1]: k for k, v in acc.items()}
    fs = [f for f in c.fns(cls=RB) if f.get('cfg') and (f.get('ctor') or f['name'] == 'operator=') and f['params']]
    c.need(fs, 'constructors of the owned record')
    packs = {x['name'] for x in c.fields(RB, r'small_vector<std::reference_wrapper')}
    for f in fs:
        conv = 'record_t' in f['params'][0]['t'] and 'recordbuf_t' not in f['params'][0]['t']
        g = c.graph(f, ('assign', 'call', 'branch', 'exit', 'ctor'))
        O = ('param', f['name'], 0, f['params'][0]['name'])
        st = {strip(e.lhs)[1] for e in g.events() if e.kind == 'assign' and strip(e.lhs)[0] == 'field' and strip(e.lhs)[2] in borrow and rooted(e.lhs)}
        if not st:
            c.bad('recordbuf-owns', c.loc(f), c.fname(f), 'the borrowed properties are not redirected to the own data')
            continue
        store = sorted(st, key=repr)[0]
        members = {}     # own member -> what it was made from
        for e in g.events():
            if e.kind == 'assign' and path_of(e.lhs, ('this',)) is not None and len(path_of(e.lhs, ('this',))) == 1:
                members.setdefault(path_of(e.lhs, ('this',))[0], set()).add(strip(e.rhs))

        def good(name, rhs):
            r = strip(rhs)
            while r[0] in ('ctor', 'init') and 'basic_string_view' in str(r[1]) and len(r[2]) == 1:
                r = strip(r[2][0])
            if not rooted(r):
                return 'points to data the record does not own'
            m = r
            while m[0] in ('field', 'index', 'elem') and m[1] != ('this',):
                m = m[1]
            mem = m[2]
            if mem in packs:
                return None if byname.get(name) == 'attributes' else 'is not the ' + str(byname.get(name))
            if not members.get(mem):
                return 'points to data that is not initialised'
            for src in members[mem]:
                if conv:
                    want = acc.get(byname.get(name))
                    if not any(path_of(x, O) == want for x in subterms(src) if x[0] == 'field'):
                        return 'is not made from the %s of the source' % byname.get(name)
                    if not any(x[0] == 'call' and fn_name(x[1]) in ('to_string',) or (x[0] == 'ctor' and 'basic_string<' in x[1]) for x in subterms(src)):
                        return 'is not copied'
                else:
                    if not contains(src, ('field', O, mem)):
                        return 'is not taken from the same property of the source'
            return None

        def step(s, ev):
            bound, sc, pk, moved, same = s
            if ev.kind == 'branch':
                t = strip(ev.cond)
                pol = ev.pol
                if t[0] == 'not':
                    t, pol = t[1], not pol
                if t[0] == 'cmp' and t[1] == '==' and {t[2], t[3]} == {('this',), O}:
                    same = pol
            if ev.kind == 'assign':
                l = strip(ev.lhs)
                if l == store:
                    sc = frozenset(scal) if strip(ev.rhs) == ('field', O, store[2]) else sc
                    bound = frozenset()
                elif l[0] == 'field' and l[1] == store:
                    if l[2] in borrow:
                        m = good(l[2], ev.rhs)
                        if m:
                            return ('BAD', 'the %s of the owned record %s' % (byname.get(l[2], l[2]), m))
                        bound = bound | {l[2]}
                    else:
                        r = strip(ev.rhs)
                        want = byname.get(l[2])
                        if want:
                            if conv and not any(path_of(x, O) == acc[want] for x in subterms(r) if x[0] == 'field'):
                                return ('BAD', 'the %s of the owned record is not the one of the source' % want)
                            if not conv and not any(x[0] == 'field' and x[2] == l[2] and contains(x, O) for x in subterms(r)):
                                return ('BAD', 'the %s of the owned record is not the one of the source' % want)
                        sc = sc | {l[2]}
                elif l[0] == 'field' and l[1] == ('this',) and l[2] in packs:
                    r = strip(ev.rhs)
                    pk = 1 if any(rooted(x) for x in subterms(r) if x[0] == 'field') else (2 if contains(r, O) else 0)
                elif l[0] == 'index' and l[1][0] == 'field' and l[1][1] == ('this',) and l[1][2] in packs:
                    if not rooted(ev.rhs):
                        return ('BAD', 'the attribute list of the owned record points to data it does not own')
                    if pk == 2:
                        pk = 1
            if ev.kind == 'call' and ev.obj is not None:
                o = strip(ev.obj)
                if o[0] == 'field' and o[1] == ('this',) and o[2] in packs:
                    m = method(ev)
                    if m in APPEND:
                        if not any(rooted(x) and x[0] == 'field' for a in ev.args for x in subterms(strip(a))):
                            return ('BAD', 'the attribute list of the owned record points to data it does not own')
                        pk = 1 if pk in (0,) else 3
                    elif m in ('clear',):
                        pk = 0
            if ev.kind == 'exit' and ev.how == 'return' and same is not True:
                if bound != frozenset(borrow):
                    return ('BAD', 'the %s of the owned record still points to the data of the source' % ', '.join(
                        sorted(str(byname.get(x, x)) for x in borrow - bound)))
                if sc != frozenset(scal):
                    return ('BAD', 'the %s of the source is lost' % ', '.join(sorted(str(byname.get(x, x)) for x in scal - sc)))
                if pk != 1:
                    return ('BAD', 'the attribute list of the owned record does not refer (only) to its own attributes')
            return (bound, sc, pk, moved, same)
        c.run('recordbuf-owns', f, g, (frozenset(), frozenset(), 0, False, None), step)
        if conv:
            flatten_rule(c, f, O, acc)
    for f in c.need(c.fns(cls=RB, name='into_view'), 'recordbuf_t::into_view'):
        g = c.graph(f, ('exit',))
        v = [strip(e.val) for e in g.events() if e.how == 'return']
        c.expect(v and all(any(rooted(x) for x in subterms(t) if x[0] == 'field') for t in v), 'into-view', c.loc(f), c.fname(f),
                 'the record handed out is not the stored one')
    # conversion of single values
    n = 0
    for f in c.fns(cls='blackhole::into_owned_t', name='operator()'):
        if not f.get('cfg'):
            continue
        n += 1
        t = f['params'][0]['t']
        g = c.graph(f, ('exit', 'call', 'ucall', 'ctor'))
        P = ('param', f['name'], 0, f['params'][0]['name'])
        borrowed = 'string_view' in t or 'function_type' in t
        for e in g.events():
            if e.kind == 'exit' and e.how == 'return':
                v = strip(e.val)
                owned = any((x[0] == 'call' and fn_name(x[1]) == 'to_string') or (x[0] == 'ctor' and x[1].startswith(('std::basic_string', 'basic_string<')) and x[2])
                            for x in subterms(v))
                if borrowed:
                    c.expect(owned, 'owned-value', c.loc(f), c.fname(f), 'a borrowed attribute value is not copied')
                    x = complete(v)
                    ok = x == P if 'string_view' in t else writer_of(x)[0] in ('ctor', 'init', 'local', 'decl') and not contains(x, P)
                    c.expect(not owned or ok, 'owned-value-whole', c.loc(f), c.fname(f), 'the copy of an attribute value is not made from its whole text: %s' % show(x))
                elif 'nullptr_t' not in t:
                    c.expect(contains(v, P), 'owned-value', c.loc(f), c.fname(f), 'an attribute value is not preserved')
        if 'function_type' in t:
            ok = any(e.kind in ('call', 'ucall') and (method(e) == 'operator()' or e.qn == '<indirect>') for e in g.events())
            c.expect(ok, 'owned-value-function', c.loc(f), c.fname(f), 'a user-defined attribute value is not rendered')
    c.need(n >= 3, 'conversions of attribute values into owned ones')


def complete(t):
    """What the text of an owned attribute value is the whole of."""
    t = strip(t)
    while t[0] in ('ctor', 'init') and not str(t[1]).startswith(('std::', 'basic_string', 'blackhole::stdext')) and len(t[2]) == 1:
        t = strip(t[2][0])
    x = val(t)
    if x[0] in ('ctor', 'init') and 'basic_string' in str(x[1]):
        a = [strip(y) for y in x[2] if not (y[0] == 'ctor' and 'allocator' in str(y[1]))]
        if len(a) == 2 and a[0][0] == 'iter' and a[1][0] == 'end' and a[0][1] == a[1][1]:
            return val(a[0][1])
        if len(a) == 2 and all(y[0] == 'call' and y[2] is not None for y in a) and (fn_name(a[0][1]), fn_name(a[1][1])) in (
                ('begin', 'end'), ('cbegin', 'cend')) and strip(a[0][2]) == strip(a[1][2]):
            return val(a[0][2])
    return x


def flatten_rule(c, f, O, acc):
    A = None
    g = c.graph(f, ('call', 'iter', 'done', 'branch', 'exit', 'assign'), opaque=('blackhole::into_owned_t::operator()',), hof={'boost::apply_visitor': None})
    want = acc.get('attributes')

    def outer(t):
        return path_of(t, O) == want

    def inner(t):
        t = strip(t)
        return t[0] in ('elem', 'index') and outer(t[1])

    def elem(t):
        for x in subterms(strip(t)):
            k, kind = elem_of(x)
            if k is not None and inner(k):
                return x
        return None

    def step(s, ev):
        oi, od, ii, idn, n = s
        if ev.kind in ('iter', 'done') and ev.over:
            if outer(ev.over):
                if ii or (oi and not idn):
                    return ('BAD', 'the attributes of a list can be skipped')
                return (ev.kind == 'iter', od or ev.kind == 'done', False, False, 0)
            if inner(ev.over):
                if ii and n != 1:
                    return ('BAD', 'an attribute can be lost when the record is copied')
                return (oi, od, ev.kind == 'iter', ev.kind == 'done', 0)
        if ev.kind == 'branch' and any(inner(x) and empty_when(ev.cond, ev.pol, strip(x)) for x in conts(ev.cond)):
            return (oi, od, False, True, 0)
        if ev.kind == 'branch' and any(outer(x) and empty_when(ev.cond, ev.pol, strip(x)) for x in conts(ev.cond)):
            return (oi, True, False, True, 0)
        if ev.kind == 'call' and ev.obj is not None and method(ev) in APPEND and any(elem(a) for a in ev.args):
            if not ii:
                return ('BAD', 'attributes are copied outside of a pass over their list')
            if n:
                return ('BAD', 'an attribute can be duplicated when the record is copied')
            el = [elem(a) for a in ev.args if elem(a)]
            names = any(has_field(strip(a), 'first') for a in ev.args)
            vals = any(has_field(strip(a), 'second') for a in ev.args)
            if not (names and vals):
                return ('BAD', 'name or value of an attribute is lost when the record is copied')
            if not index_from_zero(el[0]):
                return ('BAD', 'the first attributes of a list are skipped')
            return (oi, od, ii, idn, 1)
        if ev.kind == 'exit' and ev.how == 'return' and (not od or oi):
            return ('BAD', 'the attributes are not copied completely')
        return s
    c.run('recordbuf-flatten', f, g, (False, False, False, False, 0), step)


SELF = ['blackhole::wrapper_t', 'blackhole::scope::holder_t']


@prop('C09')
def c09(c):
    """Representation analysis of the classes that keep a view of data they own (wrapper, scope holder, owned pairs of
    the owned record): every usable constructor and assignment, implicit ones included, rebuilds the view from the
    object's own data after that data got its final value; nothing else replaces the owned data."""
    n = 0
    for cls in SELF:
        r = c.rec(cls)
        lists = {x['name'] for x in c.fields(cls, r'small_vector<std::pair<blackhole::stdext|attribute_list')}
        stor = {x['name'] for x in c.fields(cls, r'^(const )?boost::container::small_vector<std::pair<std::basic_string')}
        c.need(lists and stor, 'storage and view of ' + cls)
        u = undeleted(c, cls, 'copy')
        decl = {special_kind(m, cls) for m in r['methods'] if not m.get('deleted') and special_kind(m, cls) and not m.get('defaulted')}
        imp = [x for x in u if x not in decl and not (x.startswith('move') and x.replace('move', 'copy') in decl and 'move' not in str(decl))]
        c.expect(not imp, 'self-view-implicit', c.p.rel(r['loc']), cls, 'a memberwise %s leaves the view pointing into another object' % ', '.join(imp))
        for f in c.fns(cls=cls):
            if not f.get('cfg') or f.get('dtor'):
                continue
            if f.get('ctor') or f['name'] == 'operator=':
                if f.get('deleted'):
                    continue
                n += 1
                list_from_storage(c, f, lists, 'self-view')
            else:
                g = c.graph(f, ('assign', 'call'))
                L = {('field', ('this',), x) for x in stor}
                b = [e for e in g.events() if (e.kind == 'assign' and strip(e.lhs) in L) or
                     (e.kind == 'call' and e.obj is not None and strip(e.obj) in L and method(e) in APPEND | SHRINK)]
                c.expect(not b, 'self-view-stable', b[0].loc if b else c.loc(f), c.fname(f), 'the owned data changes while views of it exist')
    c.need(n >= 3, 'constructors of self-viewing classes')
    m = 0
    for cls in [k for k in c.p.records if k.startswith('blackhole::owned_pair<')]:
        r = c.rec(cls)
        names = [x['name'] for x in r['fields']]
        tw = {x['name']: x['t'] for x in r['fields']}
        view = [x for x in names if 'string_view' in tw[x]]
        data = [x for x in names if x not in view]
        c.need(view and data, 'data and view of ' + cls)
        V = ('field', ('this',), view[0])
        D = ('field', ('this',), data[0])
        u = undeleted(c, cls, 'copy')
        decl = {special_kind(x, cls) for x in r['methods'] if not x.get('deleted') and special_kind(x, cls) and not x.get('defaulted')}
        imp = [x for x in u if x not in decl and not x.startswith('copy')]
        c.expect(not imp and not [x for x in u if x.startswith('copy') and x not in decl], 'self-view-implicit', c.p.rel(r['loc']), cls,
                 'a memberwise copy leaves the view pointing into another object')
        for f in c.fns(cls=cls):
            if not f.get('cfg') or not (f.get('ctor') or f['name'] == 'operator='):
                continue
            m += 1
            g = c.graph(f, ('assign', 'call', 'branch', 'exit'))
            O = ('param', f['name'], 0, f['params'][0]['name']) if f['params'] else None

            def step(s, ev):
                has, view, same, fill = s
                if ev.kind == 'branch':
                    t = strip(ev.cond)
                    pol = ev.pol
                    if t[0] == 'not':
                        t, pol = t[1], not pol
                    if t[0] == 'cmp' and t[1] == '==' and {t[2], t[3]} == {('this',), O}:
                        same = pol
                if ev.kind == 'call' and (range_over(ev, lambda x: strip(x) == D) or any(strip(a) == ('iter', D) for a in ev.args)):
                    fill = has
                if ev.kind == 'call' and ev.obj is not None and method(ev) in APPEND and any(
                        elem_of(x)[0] == D for a in ev.args for x in subterms(strip(a))):
                    fill = has
                if ev.kind == 'assign':
                    l = strip(ev.lhs)
                    if l == D:
                        return (True, False, same, False)
                    if l == V:
                        r = strip(ev.rhs)
                        if contains(r, D) and not (O and contains(r, O)):
                            return (has, has, same, fill)
                        if 'small_vector' in tw[V[2]] and fill and not (O and contains(r, O)):
                            return (has, True, same, fill)
                        return (has, False, same, fill)
                if ev.kind == 'exit' and ev.how == 'return' and same is not True:
                    if not has:
                        return ('BAD', 'the owned data is not set')
                    if not view:
                        return ('BAD', 'the view is not built from the own data')
                return (has, view, same, fill)
            c.run('owned-pair-view', f, g, (False, False, None, False), step)
    c.need(m >= 3, 'constructors of owned pairs')
