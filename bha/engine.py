"""Interprocedural, path-sensitive flow graph construction over the resolved program.

`explore(prog, entry)` walks every control-flow path of `entry`, following calls into functions of
the repository (helpers, lambdas, bound members, functors) and exceptions into handlers, and returns
a finite graph of *events* (opaque calls, assignments, field accesses, lock operations, branches,
loop iterations, throws, exits).  Values are value numbers ("terms") propagated along the paths:
there is no solver and nothing of the program is executed; branches are pruned only when a term is a
known constant or the same condition was already decided on the path.

Terms (nested tuples):
  ('this',)  ('param', fn, i, name)  ('field', base, name)  ('elem', c)  ('index', c, i)
  ('iter', c[, 'r'])  ('end', c)  ('const', v)  ('enum', qn)  ('str', s)  ('null',)
  ('call', qn, obj, args, site)  ('ctor', type, args, site)  ('init', type, args)
  ('new', type, init, site)  ('lambda', key, ctx, caps, this)  ('fn', key, qn)  ('bind', args)
  ('op', op, args...)  ('truth', t)  ('phi', var, init)  ('global', id)  ('exc', site)  ('unk', site)
References, casts, moves, smart pointers, reference wrappers and iterators are transparent.
"""
import re
import sys

sys.setrecursionlimit(20000)

MAXDEPTH = 14


class Budget(Exception):
    pass


def term_depth(t, lim=MAXDEPTH + 1):
    if not isinstance(t, tuple):
        return 0
    if lim <= 0:
        return 99
    m = 0
    for x in t:
        if isinstance(x, tuple):
            d = term_depth(x, lim - 1)
            if d > m:
                m = d
    return m + 1


def contains(t, sub):
    if t == sub:
        return True
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple) and contains(x, sub):
                return True
    return False


def reaches(t, sub):
    """Is `sub` part of the location t denotes? The arguments an object was constructed from are not part of it."""
    if t == sub:
        return True
    if isinstance(t, tuple) and t and t[0] not in ('ctor', 'init'):
        return any(reaches(x, sub) for x in t if isinstance(x, tuple))
    return False


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def show(t, d=0):
    """Human readable form of a term."""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if d > 4:
        return '..'
    if k == 'this':
        return 'this'
    if k == 'param':
        return t[3] or 'arg%d' % t[2]
    if k == 'field':
        return show(t[1], d + 1) + '.' + t[2]
    if k in ('elem', 'iter', 'end'):
        return '%s(%s)' % (k, show(t[1], d + 1))
    if k == 'index':
        return '%s[%s]' % (show(t[1], d + 1), show(t[2], d + 1))
    if k == 'const':
        return repr(t[1])
    if k in ('enum', 'global'):
        return str(t[1]).split('::')[-1]
    if k == 'str':
        return repr(t[1])
    if k == 'null':
        return 'nullptr'
    if k == 'call':
        o = show(t[2], d + 1) + '.' if t[2] else ''
        return '%s%s(%s)' % (o, t[1].split('::')[-1], ', '.join(show(a, d + 1) for a in t[3]))
    if k in ('ctor', 'init', 'new'):
        a = t[2] if isinstance(t[2], tuple) and (not t[2] or isinstance(t[2][0], tuple)) else (t[2],)
        return '%s{%s}' % (short_type(t[1]), ', '.join(show(x, d + 1) for x in a if x))
    if k == 'cmp':
        return '%s %s %s' % (show(t[2], d + 1), t[1], show(t[3], d + 1))
    if k == 'not':
        return '!' + show(t[1], d)
    if k == 'op':
        return '(' + (' %s ' % t[1]).join(show(x, d + 1) for x in t[2:]) + ')'
    if k == 'truth':
        return show(t[1], d)
    if k == 'copy':
        return show(t[1], d)
    if k == 'lambda':
        return 'lambda@' + t[1].split('lambda@')[-1].split('|')[0].split('/')[-1]
    if k == 'fn':
        return t[2]
    if k == 'phi':
        return 'loopvar'
    return k


def short_type(t):
    return re.sub(r'\b(std|boost|blackhole|v1|sink|formatter|handler|container)::', '', t or '')[:60]


class Ev:
    __slots__ = ('kind', 'loc', 'fn', 'locks', 'd', 'stack', 'cn')

    def __init__(self, kind, loc, fn, locks, stack, **d):
        self.kind = kind
        self.loc = loc
        self.fn = fn
        self.locks = locks
        self.stack = stack
        self.d = d

    def __getattr__(self, n):
        d = object.__getattribute__(self, 'd')
        return d.get(n)

    def __repr__(self):
        s = '%s %s' % (self.loc, self.kind)
        if self.kind in ('call', 'ucall', 'thrown', 'ctor', 'enter'):
            o = show(self.obj) + '.' if self.obj else ''
            s += ' %s%s(%s)' % (o, (self.qn or '').split('::')[-1], ', '.join(show(a) for a in self.args or ()))
        elif self.kind == 'assign':
            s += ' %s = %s' % (show(self.lhs), show(self.rhs))
        elif self.kind == 'branch':
            s += ' %s is %s' % (show(self.cond), self.pol)
        elif self.kind in ('iter', 'done', 'inc', 'deref'):
            s += ' over %s' % show(self.over)
        elif self.kind == 'access':
            s += ' %s %s' % (self.mode, show(self.term))
        elif self.kind in ('ret',):
            s += ' ' + show(self.val)
        elif self.kind in ('throw', 'catch'):
            s += ' %s' % (self.t,)
        elif self.kind in ('lock', 'unlock'):
            s += ' ' + show(self.mutex)
        elif self.kind == 'exit':
            s += ' ' + str(self.how)
        elif self.kind == 'copy':
            s += ' of ' + show(self.val)
        return s


TRANSPARENT_FN = {
    'std::move', 'std::forward', 'std::ref', 'std::cref', 'std::addressof', 'std::__addressof',
    'boost::addressof', 'boost::ref', 'boost::cref', 'std::as_const', 'std::move_if_noexcept',
    'std::atomic_load', 'std::atomic_load_explicit',
}
SMART = re.compile(r'^(std::(unique_ptr|shared_ptr|__shared_ptr|__shared_ptr_access|__uniq_ptr_impl|reference_wrapper|atomic|__atomic_base|_Function_base)|boost::(optional|optional_detail::.*|intrusive_ptr|shared_ptr|thread_specific_ptr|reference_wrapper))\b')
SMART_METHODS = {'get', 'operator*', 'operator->', 'load', 'value', 'unwrap_ptr', 'get_ptr', 'release', 'lock'}
# objects whose construction is irrelevant: the site identifies them
HEAVY = {'rapidjson::GenericDocument', 'rapidjson::MemoryPoolAllocator'}
BEGIN = {'begin', 'cbegin', 'Begin', 'MemberBegin'}
RBEGIN = {'rbegin', 'crbegin'}
END = {'end', 'cend', 'rend', 'crend', 'End', 'MemberEnd'}
ITER_T = re.compile(r'(iterator|vec_iterator)')
LOCK_T = re.compile(r'^(const )?(std::(lock_guard|unique_lock|scoped_lock|shared_lock)|boost::(lock_guard|unique_lock|mutex::scoped_lock))<')
MUTEX_T = re.compile(r'(std::(recursive_|timed_|shared_)*mutex|boost::(recursive_)?mutex|spinlock_t)\b')
DEFER = re.compile(r'(defer_lock|try_to_lock)')
SIZEF = {'size', 'length'}

# Higher-order library functions: qualified name -> (mode, callable argument index)
HOF = {
    'std::for_each': ('each', 2), 'std::find_if': ('search', 2), 'std::find_if_not': ('search', 2),
    'std::any_of': ('search', 2), 'std::all_of': ('search', 2), 'std::none_of': ('search', 2),
    'std::count_if': ('each', 2), 'std::transform': ('each', 3), 'std::accumulate': ('each2', 3),
    'std::copy_if': ('each', 3), 'std::generate_n': ('each0', 2), 'std::partition': ('each', 2),
    'std::remove_if': ('each', 2),
    'blackhole::config::node_t::each': ('eachobj', 0), 'blackhole::config::node_t::each_map': ('eachobj', 0),
    'cds::container::VyukovMPMCCycleQueue::enqueue_with': ('tryonce', 0),
    'cds::container::VyukovMPMCCycleQueue::dequeue_with': ('tryonce', 0),
    'cds::container::VyukovMPSCCycleQueue::dequeue_with': ('tryonce', 0),
    'std::call_once': ('maybe', 1),
}
CNEG = {'!=': '==', '>=': '<'}


class FnInfo:
    """Per function precomputation."""

    def __init__(self, f):
        self.f = f
        self.nodes = f['nodes']
        cfg = f.get('cfg')
        self.ok = cfg is not None
        self.blocks = {b['id']: b for b in cfg['blocks']} if cfg else {}
        self.entry = cfg['entry'] if cfg else None
        self.exit = cfg['exit'] if cfg else None
        self.parent = {}
        for i, n in self.nodes.items():
            for c in n.get('c', ()):
                if c and c not in self.parent:
                    self.parent[c] = i
        self.handler_block = {}
        for b in self.blocks.values():
            if b.get('label') and self.nodes[b['label']]['k'] == 'CXXCatchStmt':
                self.handler_block[b['label']] = b['id']
        # counters: local integer variables incremented somewhere
        self.counters = set()
        self.loopassigned = set()
        for i, n in self.nodes.items():
            if n['k'] == 'UnaryOperator' and n.get('op') in ('++', '--'):
                v = self.declref(n['c'][0])
                if v:
                    self.counters.add(v)
            elif n['k'] == 'CompoundAssignOperator':
                v = self.declref(n['c'][0])
                if v:
                    self.counters.add(v)
        self.loops = {i for i, n in self.nodes.items() if n['k'] in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')}
        self.locals_decl = {}
        for i, n in self.nodes.items():
            if n['k'] == 'DeclStmt':
                for v in n['vars']:
                    self.locals_decl[v['id']] = (i, v)
        self._anc = {}
        # scope node of every local variable
        self.scope = {}
        for vid, (i, v) in self.locals_decl.items():
            self.scope[vid] = self.parent.get(i)
        for i, n in self.nodes.items():
            if n['k'] == 'CXXCatchStmt' and n.get('var'):
                self.scope[n['var']] = i
        self.rep = {}
        for b in self.blocks.values():
            r = None
            for e in b['els']:
                if not isinstance(e, dict):
                    r = e
                    break
            if r is None and b.get('term'):
                r = b['term']['s']
            if any(isinstance(e, dict) for e in b['els'][:1]):
                r = None
            self.rep[b['id']] = r
        self.varmap = {}

    def ancestors(self, i):
        a = self._anc.get(i)
        if a is None:
            a = set()
            c = i
            while c is not None:
                a.add(c)
                c = self.parent.get(c)
            self._anc[i] = a
        return a

    def declref(self, i):
        n = self.nodes.get(i)
        while n and n['k'] in ('ParenExpr', 'ImplicitCastExpr', 'MaterializeTemporaryExpr'):
            i = n['c'][0]
            n = self.nodes.get(i)
        if n and n['k'] == 'DeclRefExpr' and n['d']['kind'] in ('var', 'parm', 'slocal'):
            return n['d']['id']
        return None

    def skip(self, i):
        """Strips parens, casts and temporaries."""
        n = self.nodes.get(i)
        while n and n['k'] in ('ParenExpr', 'ImplicitCastExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups',
                               'CXXBindTemporaryExpr', 'ConstantExpr', 'CXXStaticCastExpr', 'CStyleCastExpr',
                               'CXXFunctionalCastExpr', 'CXXReinterpretCastExpr', 'CXXConstCastExpr',
                               'SubstNonTypeTemplateParmExpr', 'CXXDefaultArgExpr') and n['c']:
            i = n['c'][0]
            n = self.nodes.get(i)
        return i

    def in_loop(self, i):
        while i in self.parent:
            i = self.parent[i]
            if i in self.loops:
                return True
        return False


class Frame:
    __slots__ = ('key', 'ctx', 'this', 'ret', 'lam')

    def __init__(self, key, ctx, this, ret, lam):
        self.key = key      # function key
        self.ctx = ctx      # context id (int)
        self.this = this    # term
        self.ret = ret      # (block, idx, callnode) in the caller, or None
        self.lam = lam      # capture map for lambdas: tuple of (varid, ('ref',ctx)|term)

    def tup(self):
        return (self.key, self.ctx, self.this, self.ret, self.lam)

    def __eq__(self, o):
        return self.tup() == o.tup()

    def __hash__(self):
        return hash((self.key, self.ctx, self.ret))


WIDTH = {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32,
         'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}


def loses(a, b):
    """Does a conversion between the arithmetic types lose values? None for types that are not built in."""
    a, b = (x.replace('const ', '').replace('volatile ', '').strip() for x in (a, b))
    if b not in WIDTH:
        return None
    if a in ('float', 'double', 'long double'):
        return True
    if a not in WIDTH:
        return None
    sa, sb = not a.startswith('unsigned') and a != 'bool', not b.startswith('unsigned') and b != 'bool'
    if sa == sb:
        return WIDTH[b] < WIDTH[a]
    return sa or WIDTH[b] <= WIDTH[a]


class State:
    __slots__ = ('stack', 'block', 'idx', 'env', 'facts', 'locks', 'vals')

    def __init__(self, stack, block, idx, env, facts, locks, vals):
        self.stack = stack
        self.block = block
        self.idx = idx
        self.env = env      # dict  (ctx,var)|fieldterm -> term
        self.facts = facts  # dict  cond term -> bool
        self.locks = locks  # tuple of (owner, mutex term)
        self.vals = vals    # dict  (ctx,node) -> term

    def copy(self):
        return State(self.stack, self.block, self.idx, dict(self.env), dict(self.facts), self.locks, dict(self.vals))

    def key(self):
        return (self.stack, self.block, self.idx, frozenset(self.env.items()), frozenset(self.facts.items()),
                self.locks, frozenset(self.vals.items()))


class Graph:
    def __init__(self):
        self.edges = {}      # node id -> list of (Ev or None, node id)
        self.start = 0
        self.entry = None
        self.inlined = set()
        self.ncalls = 0
        self.opaque = set()

    def events(self):
        for es in self.edges.values():
            for e, _ in es:
                if e is not None:
                    yield e


_names = {}


def fkey_name(qn):
    """Qualified name without template arguments."""
    r = _names.get(qn)
    if r is not None:
        return r
    out = []
    depth = 0
    i = 0
    n = len(qn)
    while i < n:
        if depth == 0 and qn.startswith('operator', i) and (i == 0 or qn[i - 1] == ':'):
            rest = qn[i + 8:]
            for op in ('<=>', '<<=', '>>=', '->*', '<<', '>>', '<=', '>=', '->', '<', '>'):
                if rest.startswith(op):
                    out.append('operator' + op)
                    i += 8 + len(op)
                    break
            else:
                out.append('operator')
                i += 8
            continue
        c = qn[i]
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    r = _names[qn] = ''.join(out)
    return r


def fn_name(q):
    """Unqualified name of a (template-argument free) qualified name; conversion operators stay whole."""
    i = q.rfind('::operator')
    return q[i + 2:] if i >= 0 else q.split('::')[-1]


def strip(t):
    """The term with copies and moves of objects made transparent."""
    if not isinstance(t, tuple):
        return t
    while t and t[0] == 'copy':
        t = t[1]
    return tuple(strip(x) if isinstance(x, tuple) else x for x in t)


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t)
    return t


def strlit(t):
    """The literal a string object or pointer was built from, if it is one."""
    t = strip(t)
    if t[0] == 'str':
        return t[1]
    if t[0] in ('ctor', 'init') and ('basic_string' in t[1] or 'std::string' in t[1]) and t[2] and t[2][0] and \
            all(not x or x[0] == 'ctor' and 'allocator' in x[1] or x[0] in ('unk',) for x in t[2][1:]):
        x = t[2][0]
        return strlit(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else None
    return None


VALUE_T = re.compile(r'^(const )?(std::(unique_ptr|shared_ptr|__shared_ptr|weak_ptr|reference_wrapper|atomic|function|chrono::|error_code|thread::id|initializer_list|integral_constant|nullptr_t|default_delete)'
                     r'|boost::(optional|intrusive_ptr|shared_ptr|thread_specific_ptr|reference_wrapper|function|system::error_code)'
                     r'|blackhole::stdext::basic_string_view|blackhole::stdext::string_view|blackhole::severity_t|__gnu_cxx::__normal_iterator|boost::container::vec_iterator|fmt::BasicStringRef|fmt::BasicCStringRef|\(lambda\)|\(anonymous class\))')


class Engine:
    def __init__(self, prog, interest=None, throws=None, inline=None, max_nodes=60000, depth=24, facts=True,
                 opaque=(), access=None, uses=False, hof=None, open_views=False, narrow=False, captures=False):
        self.uses = uses
        self.captures = captures
        self.narrow = narrow
        self.open_views = open_views
        self.vt = {}
        self.p = prog
        self.info = {}
        self.interest = interest or (lambda ev: True)
        self.throws = throws if throws is not None else (lambda fr, kind: True)
        self.inline_pred = inline or (lambda f: not f['qn'].startswith(('blackhole::fmt::', 'rapidjson::')))
        self.max_nodes = max_nodes
        self.maxdepth = depth
        self.ctxs = {}
        self.opaque_q = set(opaque)
        self.access = access
        self.lockinit = set()
        self.hof = dict(HOF)
        if hof:
            self.hof.update(hof)

    def is_value(self, t):
        """Types whose objects are values (reading one yields its contents, copies are interchangeable)."""
        if t is None:
            return True
        v = self.vt.get(t)
        if v is None:
            x = t
            if x.startswith('const '):
                x = x[6:]
            v = x.endswith(('*', '&')) or bool(VALUE_T.match(x)) or x in self.p.enums or \
                not ('::' in x or x in self.p.records or x.startswith(('struct ', '(unnamed')) or x in ('stat', 'tm', 'sockaddr')) or \
                ('(' in x and not x.startswith(('std::', 'boost::', 'blackhole::', '('))) or x.startswith('(lambda')
            self.vt[t] = v
        return v

    # ------------------------------------------------------------------ helpers
    def fi(self, key):
        x = self.info.get(key)
        if x is None:
            x = self.info[key] = FnInfo(self.p.functions[key])
        return x

    def ctx_id(self, parent, node, key):
        return self.ctxs.setdefault((parent, node, key), len(self.ctxs) + 1)

    def where(self, fi, l):
        if not l:
            return self.p.rel(fi.f['loc'])
        return '%s:%s' % (self.p.rel(fi.f['file']), l)

    # ------------------------------------------------------------------ evaluation
    def lookup_var(self, st, vid):
        """(ctx, vid) through the lambda capture chain; None if unknown."""
        fr = st.stack[-1]
        e = st.env
        if (fr.ctx, vid) in e:
            return (fr.ctx, vid)
        if fr.lam:
            for v, w in fr.lam:
                if v == vid:
                    if isinstance(w, tuple) and w and w[0] == 'refctx':
                        return (w[1], vid)
                    if isinstance(w, tuple) and w and w[0] == 'refslot':
                        return w[1]
                    return ('capt', w)
        return None

    def getvar(self, st, vid, name='', n=0):
        k = self.lookup_var(st, vid)
        if k is None:
            return ('var', vid, name)
        if k[0] == 'capt':
            return k[1]
        v = self.rd(st, k)
        return v if v is not None else ('var', vid, name)

    def rd(self, st, slot):
        """Contents of a slot, through references."""
        v = st.env.get(slot)
        while isinstance(v, tuple) and v:
            if v[0] == 'ref':
                nv = st.env.get(v[1])
                if nv is None:
                    return ('var', v[1][1], '')
                v = nv
            elif v[0] == 'refloc':
                return st.env.get(v[1], v[1]) if v[2] else v[1]
            else:
                break
        return v

    def locvar(self, st, vid):
        """The environment slot a variable name denotes (following references)."""
        k = self.lookup_var(st, vid)
        if k is None:
            return (st.stack[-1].ctx, vid)
        if k[0] == 'capt':
            return None
        v = st.env.get(k)
        while isinstance(v, tuple) and v and v[0] == 'ref':
            k = v[1]
            v = st.env.get(k)
        if isinstance(v, tuple) and v and v[0] == 'refloc':
            return ('loc', v[1])
        return k

    def lv(self, st, fi, i):
        """Location denoted by an lvalue expression: ('slot', key) | term | None"""
        i = fi.skip(i)
        n = fi.nodes[i]
        if n['k'] == 'DeclRefExpr' and n['d']['kind'] in ('var', 'parm'):
            k = self.locvar(st, n['d']['id'])
            if k is not None and k[0] == 'loc':
                return k[1]
            if k is not None:
                return ('slot', k)
            return None
        if n['k'] == 'UnaryOperator' and n.get('op') in ('++', '--') and not n.get('post'):
            return self.lv(st, fi, n['c'][0])
        if n['k'] == 'ConditionalOperator':
            arm = st.vals.get((st.stack[-1].ctx, i, 'arm'))
            if arm is not None:
                return self.lv(st, fi, n['c'][1 if arm else 2])
        if n['k'] == 'CallExpr' and n.get('fn', {}).get('qn') in TRANSPARENT_FN and n['args']:
            return self.lv(st, fi, n['args'][0])
        if n['k'] == 'UnaryOperator' and n.get('op') in ('&', '*'):
            return self.lv(st, fi, n['c'][0])
        return self.raw(st, fi, i)

    def raw(self, st, fi, i):
        """The location term of a field expression (without reading through known contents)."""
        i = fi.skip(i)
        n = fi.nodes[i]
        if n['k'] == 'MemberExpr' and n['m']['kind'] == 'field':
            base = self.ev(st, fi, n['c'][0])
            if base[0] == 'init' or ('field', base, n['m']['name']) in st.env:
                if self.is_ref(n['m'], base):
                    return self.fieldval(st, base, n['m']['name'])
            return ('field', base, n['m']['name'])
        return self.ev(st, fi, i)

    def is_ref(self, m, base):
        """Is a member a reference?"""
        if m.get('t', '').endswith('&'):
            return True
        r = self.p.records.get(base[1] if base[0] in ('init', 'ctor') else m.get('cls'))
        return bool(r) and any(x['name'] == m['name'] and x['t'].rstrip().endswith('&') for x in r['fields'])

    def fieldval(self, st, base, name):
        t = ('field', base, name)
        v = st.env.get(t)
        if v is not None:
            return v
        if base[0] == 'init':
            r = self.p.records.get(base[1])
            if r:
                for j, f in enumerate(r['fields']):
                    if f['name'] == name and j < len(base[2]):
                        return base[2][j]
        if base[0] in ('elem', 'index', 'call') and base[0] == 'x':
            pass
        return t

    def ev(self, st, fi, i, d=0):
        n = fi.nodes.get(i)
        if n is None:
            return ('unk', 0)
        fr = st.stack[-1]
        v = st.vals.get((fr.ctx, i))
        if v is not None:
            return v
        k = n['k']
        ch = n.get('c', ())
        if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr',
                 'SubstNonTypeTemplateParmExpr', 'CXXDefaultArgExpr', 'CXXDefaultInitExpr', 'OpaqueValueExpr', 'CXXStdInitializerListExpr'):
            return self.ev(st, fi, ch[0]) if ch else ('unk', i)
        if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr',
                 'CXXReinterpretCastExpr', 'CXXConstCastExpr', 'CXXDynamicCastExpr'):
            ck = n.get('ck')
            if ck in ('NullToPointer', 'NullToMemberPointer'):
                return ('null',)
            if ck in ('PointerToBoolean', 'IntegralToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
                return self.truth(self.ev(st, fi, ch[0]))
            v = self.ev(st, fi, ch[0]) if ch else ('unk', i)
            return v
        if k == 'DeclRefExpr':
            dd = n['d']
            if dd['kind'] in ('var', 'parm'):
                v = self.getvar(st, dd['id'], dd['name'])
                if v[0] == 'var' and 'cv' in n:
                    return ('const', n['cv'])
                return v
            if dd['kind'] == 'fn':
                return ('fn', dd['fn']['key'], dd['fn']['qn'])
            if dd['kind'] == 'enum':
                return ('enum', dd['qn'])
            if 'cv' in n and not n.get('lv'):
                return ('const', n['cv'])
            if dd.get('qn') == 'boost::none':
                return ('null',)
            return ('global', dd.get('qn') or dd['name'], dd.get('id'))
        if k == 'MemberExpr':
            m = n['m']
            if m['kind'] == 'field':
                base = self.ev(st, fi, ch[0])
                if not self.is_value(n.get('t')) and base[0] != 'init' and not self.is_ref(m, base):
                    return ('field', base, m['name'])
                return self.fieldval(st, base, m['name'])
            if m['kind'] == 'fn':
                return ('fn', m['fn']['key'], m['fn']['qn'])
            return ('global', m['qn'], m.get('id'))
        if k == 'CXXThisExpr':
            return fr.this
        if k == 'CXXNullPtrLiteralExpr' or k == 'GNUNullExpr':
            return ('null',)
        if k == 'CXXBoolLiteralExpr':
            return ('const', bool(n['bv']))
        if k == 'StringLiteral':
            return ('str', n.get('s', ''))
        if k == 'CharacterLiteral':
            return ('const', n['ch'])
        if k in ('IntegerLiteral',):
            return ('const', int(n['iv']))
        if k == 'UnaryOperator':
            op = n['op']
            if op == '!':
                return self.neg(self.ev(st, fi, ch[0]))
            if op == '*':
                x = self.ev(st, fi, ch[0])
                if x[0] == 'iter' or x[0] == 'found' and x[1] is not None:
                    return ('elem', x[1])
                return x
            if op in ('&', '+', '__extension__'):
                return self.ev(st, fi, ch[0])
            if op in ('++', '--'):
                return self.ev(st, fi, ch[0])
            if 'cv' in n:
                return ('const', n['cv'])
            return ('op', op, self.ev(st, fi, ch[0]))
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            op = n['op']
            if n.get('asg'):
                return self.ev(st, fi, ch[0]) if op != '=' or n.get('lv') else self.ev(st, fi, ch[1])
            if op == ',':
                return self.ev(st, fi, ch[1])
            if op in ('&&', '||'):
                # the short-circuit outcome is recorded on the edge; otherwise the right side decides
                return self.truth(self.ev(st, fi, ch[1]))
            a, b = self.ev(st, fi, ch[0]), self.ev(st, fi, ch[1])
            if 'cv' in n:
                return ('const', n['cv'])
            if op in ('==', '!=', '<', '>', '<=', '>='):
                return self.cmp(op, a, b)
            return ('op', op, a, b)
        if k in ('ConditionalOperator', 'BinaryConditionalOperator'):
            arm = st.vals.get((fr.ctx, i, 'arm'))
            if arm is not None and len(ch) >= 3:
                return self.ev(st, fi, ch[1 if arm else 2])
            return ('unk', i)
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'UserDefinedLiteral'):
            return self.callterm(st, fi, i, n)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return self.ctorterm(st, fi, i, n)
        if k == 'InitListExpr':
            a = tuple(self.ev(st, fi, c) for c in ch if c)
            if len(a) == 1 and n.get('t') == fi.nodes[ch[0]].get('t'):
                return a[0]
            return ('init', n.get('t'), a)
        if k == 'LambdaExpr':
            return self.lambdaterm(st, fi, i, n)
        if k == 'CXXNewExpr':
            init = self.ev(st, fi, n['init']) if n.get('init') else None
            return ('new', n['alloc'], init, (fi.f['key'], i))
        if k == 'ArraySubscriptExpr':
            return ('index', self.ev(st, fi, ch[0]), self.ev(st, fi, ch[1]))
        if k in ('CXXScalarValueInitExpr', 'ImplicitValueInitExpr'):
            return ('const', 0) if 'cv' in n else ('init', n.get('t'), ())
        if k == 'CXXThrowExpr':
            return ('unk', i)
        if k == 'FloatingLiteral':
            return ('lit', n.get('t'), i)
        if 'cv' in n:
            return ('const', n['cv'])
        if k == 'DeclStmt':
            return ('unk', i)
        return ('unk', (fi.f['key'], i))

    def truth(self, t):
        if t[0] == 'const':
            return ('const', bool(t[1]))
        if t[0] == 'null' or (t[0] == 'copy' and t[1] == ('null',)):
            return ('const', False)
        if t[0] in ('truth', 'not', 'cmp'):
            return t
        if t[0] in ('new', 'lambda', 'str', 'fn', 'this'):
            return ('const', True)
        return ('truth', t)

    def neg(self, t):
        t = self.truth(t)
        if t[0] == 'const':
            return ('const', not t[1])
        if t[0] == 'not':
            return t[1]
        return ('not', t)

    def cmp(self, op, a, b):
        if op in ('!=', '>='):
            return self.neg(self.cmp(CNEG[op], a, b))
        if op == '>':
            return self.cmp('<', b, a)
        if op == '<=':
            return self.neg(self.cmp('<', b, a))
        if op == '==':
            for x, y in ((a, b), (b, a)):
                if y == ('null',):
                    return self.neg(self.truth(x))
                if y[0] == 'const' and isinstance(y[1], bool):
                    return self.truth(x) if y[1] else self.neg(self.truth(x))
            if a[0] == 'const' and b[0] == 'const':
                return ('const', a[1] == b[1])
            if a[0] == 'enum' and b[0] == 'enum':
                return ('const', a[1] == b[1])
            if a == b and a[0] in ('enum', 'str', 'null', 'end'):
                return ('const', True)
            if {a[0], b[0]} == {'found', 'end'} and a[1] == b[1] is not None:
                return ('const', False)
            sa, sb = strlit(a), strlit(b)
            if sa is not None and sb is not None:
                return ('const', sa == sb)
            if a[0] in ('const', 'enum', 'str', 'global') and b[0] not in ('const', 'enum', 'str', 'global'):
                a, b = b, a
            if a[0] == 'end' and b[0] == 'iter':
                a, b = b, a
            return ('cmp', '==', a, b)
        if a[0] == 'const' and b[0] == 'const':
            return ('const', a[1] < b[1])
        return ('cmp', op, a, b)

    def lambdaterm(self, st, fi, i, n):
        fr = st.stack[-1]
        caps = []
        explicit = {}
        for c in n['caps']:
            if c['kind'] == 'var':
                if c['ref']:
                    k = self.locvar(st, c['id'])
                    if k is not None and k[0] == 'loc':
                        lk = self.lookup_var(st, c['id'])
                        caps.append((c['id'], ('refctx', lk[0])))
                    elif k is None:
                        lk = self.lookup_var(st, c['id'])
                        caps.append((c['id'], lk[1]))
                    elif k[1] == c['id']:
                        caps.append((c['id'], ('refctx', k[0])))
                    else:
                        caps.append((c['id'], ('refslot', k)))
                elif c.get('ic'):
                    caps.append((c['id'], self.ev(st, fi, c['init'])))
                else:
                    caps.append((c['id'], self.getvar(st, c['id'], c['name'])))
        return ('lambda', n['lam'], fr.ctx, tuple(caps), fr.this)

    # -------------------------------------------------------------- call terms
    def argterms(self, st, fi, n):
        return tuple(self.ev(st, fi, a) for a in n.get('args', ()))

    def callterm(self, st, fi, i, n):
        """Value of a call that was not inlined."""
        fn = n.get('fn')
        if fn is None:
            return ('call', '<indirect>', self.ev(st, fi, n['callee']) if n.get('callee') else None,
                    self.argterms(st, fi, n), (fi.f['key'], i))
        qn = fkey_name(fn['qn'])
        if qn.startswith('std::numeric_limits') and ('cv' in n or 'cvs' in n):
            return ('const', n['cv'] if 'cv' in n else int(n['cvs']))
        name = fn_name(qn)
        args = self.argterms(st, fi, n)
        obj = None
        cls = fn.get('cls') or ''
        if n['k'] == 'CXXMemberCallExpr':
            obj = self.ev(st, fi, n['obj']) if n.get('obj') else ('unk', i)
        elif n['k'] == 'CXXOperatorCallExpr' and fn.get('cls') and not fn.get('static'):
            obj = args[0] if args else None
            args = args[1:]
            if fn.get('lambda'):
                obj = obj
        site = (fi.f['key'], i)
        if qn in TRANSPARENT_FN and args:
            return args[0]
        if obj is not None and SMART.match(cls) and name in SMART_METHODS and not args:
            if cls == 'boost::optional<bool>' and obj[0] != 'const':
                return ('optval', obj)      # its truth is not the presence of a value
            return obj
        if obj is not None and SMART.match(cls) and (name.startswith('operator ')):
            if name == 'operator bool':
                return self.truth(obj)
            return obj
        if name == 'operator bool' and obj is not None:
            return self.truth(obj)
        if obj is not None and obj[0] == 'lambda' and name.startswith('operator ') and name != 'operator()':
            return obj
        if obj is not None and SMART.match(cls) and name in ('is_initialized', 'has_value'):
            return self.truth(obj)
        if name == 'operator!' and (obj or args):
            return self.neg(self.truth(obj or args[0]))
        if name in BEGIN or name in RBEGIN:
            c = obj if obj is not None else (args[0] if args else None)
            if c is not None:
                return ('iter', c) if name in BEGIN else ('iter', c, 'r')
        if name in END:
            c = obj if obj is not None else (args[0] if args else None)
            if c is not None:
                return ('end', c)
        if name in ('operator*', 'operator->') and (obj or args) and len(args) == (0 if obj else 1):
            x = obj if obj is not None else args[0]
            if x[0] == 'iter' or x[0] == 'found' and x[1] is not None:
                return ('elem', x[1])
            if ITER_T.search(cls) or x[0] in ('call', 'end', 'phi'):
                return ('deref', x)
            return x
        if name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            a = ((obj,) if obj is not None else ()) + args
            if len(a) == 2:
                return self.cmp(name[8:], a[0], a[1])
        if name in ('operator++', 'operator--'):
            return obj if obj is not None else args[0]
        if name in ('operator[]', 'at') and obj is not None and args:
            return ('index', obj, self.literal(args[0]))
        if name in ('front', 'back') and obj is not None:
            return ('index', obj, ('const', name))
        if fn.get('copyassign') or fn.get('moveassign'):
            return obj
        if name == 'operator=' and obj is not None:
            return obj
        if qn == 'std::bind':
            return ('bind', args)
        if qn in ('std::make_shared', 'std::make_unique', 'blackhole::make_unique'):
            ta = fn.get('ta') or ['?']
            return ('new', ta[0], args, site)
        if qn in ('std::make_pair',):
            return ('init', 'std::pair', args)
        if name in ('c_str', 'data', 'str') and obj is not None and not args:
            return ('call', name, obj, (), None)
        if name in ('size', 'length', 'Size') and obj is not None and not args:
            return ('call', 'size', obj, (), None)
        if name in ('empty',) and obj is not None and not args:
            return self.neg(('truth', ('call', 'size', obj, (), None)))
        pure = fn.get('const') and obj is not None
        if pure:
            args = tuple(self.literal(a) for a in args)
        t = ('call', qn, obj, args, None if pure else site)
        if term_depth(t) > MAXDEPTH:
            t = ('call', qn, None, (), site)
        return t

    def ctorterm(self, st, fi, i, n):
        fn = n['fn']
        args = self.argterms(st, fi, n)
        cls = fn.get('cls') or n.get('t')
        base = fkey_name(cls)
        if (fn.get('copy') or fn.get('move')) and args:
            if n.get('elid') or self.is_value(n.get('t')) or self.temporary(fi, n['args'][0]):
                return args[0]
            t = ('copy', args[0], (fi.f['key'], i))
            return t if term_depth(t) <= MAXDEPTH else ('copy', ('unk', 'deep'), (fi.f['key'], i))
        if base in ('std::reference_wrapper', 'std::atomic') and args:
            return args[0]
        if base in ('std::function',) and args and args[0][0] in ('lambda', 'bind', 'fn', 'field', 'param', 'call', 'elem', 'index'):
            return args[0]
        if base in ('std::unique_ptr', 'std::shared_ptr', 'boost::optional'):
            if not args:
                return ('null',)
            return args[0]
        if len(args) == 1 and ITER_T.search(base) and args[0][0] in ('iter', 'end'):
            return args[0]
        t = ('ctor', cls, args if base not in HEAVY else (), (fi.f['key'], i))
        if term_depth(t) > MAXDEPTH:
            t = ('ctor', cls, (), (fi.f['key'], i))
        return t

    # ================================================================= exploration
    def frame_for(self, key, ctx, this, ret, lam=None):
        return Frame(key, ctx, this, ret, lam)

    def explore(self, key, this=('this',), args=None, env=None, locks=(), max_nodes=None, lam=None):
        """Event graph of every path of function `key`."""
        fi = self.fi(key)
        if not fi.ok:
            from .prog import AnalysisError
            raise AnalysisError('no flow graph for ' + key)
        ctx = self.ctx_id(0, 0, key)
        e = dict(env or {})
        for i, p in enumerate(fi.f['params']):
            e[(ctx, p['id'])] = args[i] if args and i < len(args) and args[i] is not None else \
                ('param', fi.f['name'], i, p['name'])
        st = State((self.frame_for(key, ctx, this, None, lam),), fi.entry, 0, e, {}, tuple(locks), {})
        g = Graph()
        g.entry = fi.f
        self.g = g
        ids = {st.key(): 0}
        work = [(0, st)]
        limit = max_nodes or self.max_nodes
        while work:
            nid, s = work.pop()
            outs = self.run(s.copy())
            es = []
            for ev, ns in outs:
                if ns is None:
                    es.append((ev, -1))
                    continue
                k = ns.key()
                t = ids.get(k)
                if t is None:
                    t = len(ids)
                    ids[k] = t
                    if t > limit:
                        raise Budget('more than %d states in %s' % (limit, fi.f['qn']))
                    work.append((t, ns))
                es.append((ev, t))
            g.edges[nid] = es
        return g

    def run(self, st):
        """Advances st until an event, a fork or the end."""
        steps = 0
        while True:
            r = self.step(st)
            steps += 1
            if r is None:
                if steps > 20000:
                    return [(None, st)]
                continue
            outs = []
            for ev, ns in r:
                if ev is not None and ev.kind != 'exit' and not self.interest(ev):
                    ev = None
                outs.append((ev, ns))
            if len(outs) == 1 and outs[0][0] is None and outs[0][1] is not None and steps < 20000:
                st = outs[0][1]
                continue
            return outs

    def mkev(self, kind, st, fi, l, **d):
        return Ev(kind, self.where(fi, l), fi.f['qn'], st.locks, tuple(f.key for f in st.stack), depth=len(st.stack), **d)

    def step(self, st):
        fr = st.stack[-1]
        fi = self.fi(fr.key)
        b = fi.blocks[st.block]
        if st.idx < len(b['els']):
            el = b['els'][st.idx]
            if isinstance(el, dict):
                return self.implicit(st, fr, fi, el)
            n = fi.nodes[el]
            r = self.element(st, fr, fi, el, n)
            if r is None:
                st.idx += 1
                p = fi.nodes.get(fi.parent.get(el))
                if n['k'] == 'DeclStmt' or (p is not None and p['k'] in ('CompoundStmt', 'CXXCatchStmt') and st.vals):
                    self.purge(st, fr.ctx)
            return r
        return self.terminator(st, fr, fi, b)

    def purge(self, st, ctx):
        ks = [k for k in st.vals if k[0] == ctx and k[1] not in ('ret',) and not (len(k) == 3 and k[2] == 'keep')]
        for k in ks:
            del st.vals[k]

    # ---------------------------------------------------------------- control flow
    def go(self, st, block):
        st.block = block
        st.idx = 0
        fr = st.stack[-1]
        fi = self.fi(fr.key)
        rep = fi.rep.get(block)
        if rep is None:
            return
        anc = None
        for k in list(st.env):
            if len(k) == 2 and k[0] == fr.ctx:
                if k[1] == '#exc':
                    sc = st.env[k][2]
                else:
                    sc = fi.scope.get(k[1])
                if sc is None:
                    continue
                if anc is None:
                    anc = fi.ancestors(rep)
                if sc not in anc:
                    del st.env[k]

    def terminator(self, st, fr, fi, b):
        if b['id'] == fi.exit:
            return self.leave(st)
        succ = b['succ']
        term = b.get('term')
        if b.get('noret') and (not succ or succ == [fi.exit]):
            return [(self.mkev('exit', st, fi, None, how='noreturn'), None)]
        live = [s for s in succ if s != -1]
        if term is None or len(succ) <= 1:
            if not live:
                return [(self.mkev('exit', st, fi, None, how='dead'), None)]
            self.go(st, live[0])
            return None
        k = term['k']
        if term.get('tk') == 1:
            outs = []
            for s in live:
                ns = st.copy()
                self.go(ns, s)
                outs.append((None, ns))
            return outs
        if k == 'CXXTryStmt':
            self.go(st, live[0])
            return None
        if k == 'DeclStmt':
            # a static variable is initialised now or was by an earlier call
            for v in fi.nodes[term['s']]['vars']:
                if v.get('static'):
                    st.env[(fr.ctx, v['id'])] = ('global', v['name'], v['id'])
            outs = []
            for s in live:
                ns = st.copy()
                self.go(ns, s)
                outs.append((None, ns))
            return outs
        if k == 'SwitchStmt':
            return self.switch(st, fr, fi, b, term)
        if len(succ) != 2:
            outs = []
            for s in live:
                ns = st.copy()
                self.go(ns, s)
                outs.append((None, ns))
            return outs
        return self.branch(st, fr, fi, b, term)

    def stride(self, st, fi, name, qn, cls, obj, argnodes):
        """(iterator, distance) of an operation that moves an iterator forward by a constant."""
        if name == 'operator+=' and ITER_T.search(cls) and obj is not None and len(argnodes) == 1:
            k = strip(self.ev(st, fi, argnodes[0]))
            return (obj, k[1]) if k[0] == 'const' and isinstance(k[1], int) and k[1] > 0 else None
        if qn == 'std::advance' and len(argnodes) == 2:
            k = strip(self.ev(st, fi, argnodes[1]))
            over = self.ev(st, fi, argnodes[0])
            return (over, k[1]) if k[0] == 'const' and isinstance(k[1], int) and k[1] > 0 else None
        if name == 'operator=' and ITER_T.search(cls) and obj is not None and len(argnodes) == 1:
            t, k = strip(self.ev(st, fi, argnodes[0])), 0
            while True:
                if t[0] == 'copy':
                    t = strip(t[1])
                elif t[0] == 'call' and fn_name(t[1]) == 'next' and t[3]:
                    d = strip(t[3][1]) if len(t[3]) > 1 else ('const', 1)
                    if d[0] != 'const':
                        return None
                    k, t = k + d[1], strip(t[3][0])
                elif t[0] == 'op' and t[1] == '+' and len(t) == 4 and strip(t[3])[0] == 'const':
                    k, t = k + strip(t[3])[1], strip(t[2])
                else:
                    break
            return (obj, k) if k > 0 and t == strip(obj) else None
        return None

    def post_step(self, fi, node):
        """Is the expression a postfix increment (or decrement)?"""
        if node is None:
            return False
        n = fi.nodes[fi.skip(node)]
        if n['k'] == 'UnaryOperator':
            return n['op'] in ('++', '--') and bool(n.get('post'))
        fn = n.get('fn')
        return n['k'] == 'CXXOperatorCallExpr' and fn is not None and fn['qn'].endswith(('operator++', 'operator--')) and \
            len(n.get('args') or n.get('c') or ()) == 2

    def record_ok(self, t):
        for x in subterms(t):
            if x[0] in ('phi', 'unk', 'iter', 'end', 'op', 'var', 'deref', 'found', 'lit'):
                return False
        return True

    def site_less(self, t):
        for x in subterms(t):
            if x[0] == 'call' and len(x) > 4 and x[4] is not None:
                return False
            if x[0] in ('exc', 'out', 'aload'):
                return False
        return True

    def keep_fact(self, st, cond):
        if not self.record_ok(cond):
            return False
        if self.site_less(cond):
            return True
        core = [x for x in subterms(cond) if (x[0] == 'call' and len(x) > 4 and x[4] is not None) or x[0] in ('out', 'aload')]
        vals = list(st.env.values())
        return any(contains(v, c) for c in core for v in vals if isinstance(v, tuple))

    def decide(self, st, t):
        """(known outcome | None, canonical cond, polarity flip)"""
        t = self.truth(t)
        if t[0] == 'const':
            return bool(t[1]), t, False
        flip = False
        if t[0] == 'not':
            flip, t = True, t[1]
        v = st.facts.get(t)
        if v is None and t[0] == 'cmp' and t[1] == '==':
            # x == A is refuted by a known x == B for distinct constants
            for c, val in st.facts.items():
                if val and c[0] == 'cmp' and c[1] == '==' and c[2] == t[2] and c[3] != t[3] and \
                        c[3][0] in ('enum', 'const', 'str') and t[3][0] == c[3][0]:
                    v = False
        return (None if v is None else (v != flip)), t, flip

    def signed_cmp(self, fi, i):
        """Does a condition compare signed integers?"""
        n = fi.nodes.get(i)
        while n is not None and (n['k'] in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups') or n['k'] == 'UnaryOperator' and n.get('op') == '!') and n['c']:
            n = fi.nodes.get(n['c'][0])
        if n is not None and n['k'] == 'BinaryOperator' and n.get('op') in ('&&', '||') and len(n['c']) > 1:
            return self.signed_cmp(fi, n['c'][1])     # the left operand has its own branch
        if n is None or n['k'] != 'BinaryOperator' or not n['c']:
            return None
        x = fi.nodes.get(n['c'][0])
        t = (x or {}).get('t', '').replace('const ', '')
        return t in ('int', 'long', 'long long', 'short', 'signed char', 'char', 'long long int', '__int128')

    def branch(self, st, fr, fi, b, term):
        succ = b['succ']
        cond = term.get('cond')
        sn = fi.nodes[term['s']]
        loop = term['s'] if sn['k'] in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt') else None
        t = self.ev(st, fi, cond) if cond else ('const', True)
        known, ct, flip = self.decide(st, t)
        over = None
        if loop:
            over = self.loop_over(st, fi, sn, t)
        outs = []
        for pol, s in ((True, succ[0]), (False, succ[1])):
            if s == -1 or (known is not None and known != pol):
                continue
            ns = st.copy()
            ev = None
            if loop is not None:
                ev = self.mkev('iter' if pol else 'done', ns, fi, sn['l'], over=over if over is not None else ('cond', ct), site=(fi.f['key'], loop), cond=ct, pol=(pol != flip),
                               signed=self.signed_cmp(fi, cond))
                if pol:
                    self.forget_iter(ns, over, (fi.f['key'], loop))
            elif known is None:
                ev = self.mkev('branch', ns, fi, fi.nodes[cond]['l'], cond=ct, pol=(pol != flip), site=(fi.f['key'], cond), signed=self.signed_cmp(fi, cond))
            if known is None and self.keep_fact(ns, ct):
                ns.facts[ct] = (pol != flip)
            if sn['k'] == 'BinaryOperator' and sn.get('op') in ('&&', '||'):
                if sn['op'] == '&&' and not pol:
                    ns.vals[(fr.ctx, term['s'])] = ('const', False)
                elif sn['op'] == '||' and pol:
                    ns.vals[(fr.ctx, term['s'])] = ('const', True)
            elif sn['k'] in ('ConditionalOperator', 'BinaryConditionalOperator'):
                ns.vals[(fr.ctx, term['s'], 'arm')] = pol
            else:
                self.purge(ns, fr.ctx)
            self.go(ns, s)
            outs.append((ev, ns))
        return outs

    def loop_over(self, st, fi, sn, t):
        if sn['k'] == 'CXXForRangeStmt':
            r = sn.get('range')
            if r:
                v = self.ev(st, fi, r)
                if v[0] == 'unk' and fi.nodes[r]['k'] == 'DeclStmt':
                    v = self.getvar(st, fi.nodes[r]['vars'][0]['id'])
                return v
        cands = []
        for x in subterms(t):
            if x[0] in ('end', 'iter'):
                cands.append((0 if x[0] == 'end' else 1, x[1]))
            elif x[0] == 'call' and x[1] == 'size':
                cands.append((2, x[2]))
            elif x[0] == 'phi':
                for y in subterms(x):
                    if y[0] == 'iter':
                        cands.append((3, y[1]))
        if cands:
            return min(cands, key=lambda x: x[0])[1]
        return None

    def forget_iter(self, st, over, site):
        def stale(t):
            for x in subterms(t):
                if x[0] in ('elem', 'key') and over is not None and x[1] == over:
                    return True
                if x[0] in ('phi',):
                    return True
                if x[0] == 'index' and over is not None and x[1] == over:
                    return True
            return False
        for c in [c for c in st.facts if stale(c)]:
            del st.facts[c]
        for c in [c for c in st.env if c[0] == 'field' and stale(c)]:
            del st.env[c]

    def switch(self, st, fr, fi, b, term):
        cond = fi.nodes[term['s']]['cond']
        t = self.ev(st, fi, cond)
        outs = []
        seen = []
        dflt = None
        for s in b['succ']:
            if s == -1:
                continue
            lab = fi.blocks[s].get('label')
            ln = fi.nodes[lab] if lab else None
            if ln is not None and ln['k'] == 'CaseStmt':
                c = self.cmp('==', t, self.ev(st, fi, ln['lhs']))
                seen.append(c)
                known, ct, flip = self.decide(st, c)
                if known is False:
                    continue
                ns = st.copy()
                if known is None and self.keep_fact(ns, ct):
                    ns.facts[ct] = True
                self.purge(ns, fr.ctx)
                self.go(ns, s)
                outs.append((self.mkev('branch', ns, fi, ln['l'], cond=ct, pol=True, site=(fi.f['key'], lab), switch=True), ns))
                if known:
                    return [(None, ns)]
            else:
                dflt = s
        if dflt is not None and not self.covers_enum(seen):
            ns = st.copy()
            for c in seen:
                if c[0] != 'const' and self.keep_fact(ns, c):
                    ns.facts[c] = False
            self.purge(ns, fr.ctx)
            self.go(ns, dflt)
            outs.append((self.mkev('branch', ns, fi, fi.nodes[term['s']]['l'], cond=('default', t), pol=True, switch=True,
                                   cases=tuple(seen), site=(fi.f['key'], term['s'])), ns))
        return outs

    def covers_enum(self, conds):
        """Do the cases of a switch name every enumerator of one enumeration?"""
        names = {}
        for c in conds:
            e = [x for x in c[2:4] if isinstance(x, tuple) and x[0] == 'enum'] if c[0] == 'cmp' else []
            if not e:
                return False
            scope, _, n = str(e[0][1]).rpartition('::')
            names.setdefault(scope, set()).add(n)
        if len(names) != 1:
            return False
        scope, ns = names.popitem()
        for q, e in self.p.enums.items():
            if (e['qn'] == scope or e['qn'].rpartition('::')[0] == scope) and {x['name'] for x in e['consts']} == ns:
                return True
        return False

    def leave(self, st):
        """Normal return from the top frame."""
        fr = st.stack[-1]
        fi = self.fi(fr.key)
        val = st.vals.get((fr.ctx, 'ret'))
        if fi.f.get('ctor') and val is None:
            val = fr.this
        if len(st.stack) == 1:
            return [(self.mkev('exit', st, fi, None, how='return', val=val), None)]
        self.pop(st)
        up = st.stack[-1]
        block, idx, callnode = fr.ret
        st.block, st.idx = block, idx
        if isinstance(callnode, tuple) and callnode[0] == 'hof':
            st.vals[(up.ctx, callnode[1], 'hofret')] = val if val is not None else ('unk', 'void')
        elif callnode is not None and callnode != 'dtor':
            st.vals[(up.ctx, callnode)] = val if val is not None else ('unk', 'void')
        return [(self.mkev('leave', st, fi, None, key=fr.key, qn=fi.f['qn'], val=val, this=fr.this), st)]

    def pop(self, st):
        fr = st.stack[-1]
        st.stack = st.stack[:-1]
        c = fr.ctx
        ret = st.vals.get((c, 'ret'))
        for k in [k for k in st.env if k[0] == c and len(k) == 2]:
            del st.env[k]
        for k in [k for k in st.vals if k[0] == c]:
            del st.vals[k]
        self.gc(st, (ret, fr.this) if fr.this and ret is not None else (ret if ret is not None else fr.this))

    def gc(self, st, extra=None):
        roots = [v for k, v in st.env.items() if k[0] != 'field' and isinstance(v, tuple)]
        roots += [v for v in st.vals.values() if isinstance(v, tuple)]
        roots += [f.this for f in st.stack if f.this]
        roots += [l[1] for l in st.locks]
        for f in st.stack:
            if f.lam:
                roots += [w for _, w in f.lam if isinstance(w, tuple)]
        if extra is not None:
            roots.append(extra)
        memo = {}

        def base(t):
            while t[0] in ('field', 'elem', 'index') and isinstance(t[1], tuple):
                t = t[1]
            return t

        def live(t):
            b = base(t)
            if b[0] in ('this', 'param', 'global'):
                return True
            if b not in memo:
                memo[b] = any(contains(r, b) for r in roots)
            return memo[b]
        changed = True
        fk = [k for k in st.env if k[0] == 'field']
        keep = set()
        while changed:
            changed = False
            for k in fk:
                if k not in keep and live(k):
                    keep.add(k)
                    v = st.env[k]
                    if isinstance(v, tuple):
                        roots.append(v)
                        memo = {b: m for b, m in memo.items() if m}
                    changed = True
        for k in fk:
            if k not in keep:
                del st.env[k]
        if st.facts:
            envv = [v for v in st.env.values() if isinstance(v, tuple)] + [v for v in st.vals.values() if isinstance(v, tuple)]
            if extra is not None:
                envv.append(extra)
            for c in list(st.facts):
                if self.site_less(c):
                    continue
                core = [x for x in subterms(c) if (x[0] == 'call' and len(x) > 4 and x[4] is not None) or x[0] in ('out', 'aload')]
                if not any(contains(v, x) for x in core for v in envv):
                    del st.facts[c]

    # ---------------------------------------------------------------- elements
    def implicit(self, st, fr, fi, el):
        e = el['e']
        st.idx += 1
        if e == 'init':
            if 'field' in el and el.get('init'):
                loc = ('field', fr.this, el['field'])
                v = self.ev(st, fi, el['init'])
                st.env[loc] = v
                if not self.is_ref({'name': el['field'], 'cls': fi.f.get('cls')}, ('this',)):
                    self.adopt(st, loc, v)
                n = fi.nodes[el['init']]
                j = fi.skip(el['init'])
                if not any(x.get('field') == el['field'] and x['written'] for x in fi.f['inits']) and \
                        fi.nodes[j]['k'] == 'CXXConstructExpr' and fi.nodes[j]['fn'].get('implicit') and not fi.nodes[j]['args']:
                    self.purge(st, fr.ctx)
                    return None
                written = any(x.get('field') == el['field'] and x['written'] for x in fi.f['inits'])
                self_ev = self.mkev('assign', st, fi, n['l'], lhs=loc, rhs=v, init=True, written=written, site=(fi.f['key'], el['init']),
                                    t=n.get('t'))
                self.purge(st, fr.ctx)
                return [(self_ev, st)]
            self.purge(st, fr.ctx)
            return None
        if e == 'adtor':
            slot = (fr.ctx, el['var'])
            locked = [l for l in st.locks if l[0] == slot]
            evs = []
            v0 = st.env.get(slot)
            if locked:
                st.env.pop(slot, None)
                st.locks = tuple(l for l in st.locks if l[0] != slot)
                ev = self.mkev('unlock', st, fi, el.get('l'), mutex=locked[0][1], scope=True)
                return [(ev, st)]
            fn = el.get('fn')
            if fn and fn['key'] in self.p.functions and not self.is_opaque(fn['key'], fn):
                v = self.rd(st, slot) or ('var', el['var'], '')
                return self.enter(st, fn['key'], v, (), 'dtor', None, el.get('l'))
            ev = self.mkev('dtor', st, fi, el.get('l'), cls=(fn or {}).get('cls'), t=el.get('t'), obj=st.env.get(slot))
            return [(ev, st)]
        if e == 'tdtor':
            fn = el.get('fn')
            slot = (fr.ctx, ('tmp', el.get('tmp')))
            if any(l[0] == slot for l in st.locks):
                m = [l for l in st.locks if l[0] == slot][0][1]
                st.locks = tuple(l for l in st.locks if l[0] != slot)
                return [(self.mkev('unlock', st, fi, el.get('l'), mutex=m, scope=True), st)]
            if fn and fn['key'] in self.p.functions and not self.is_opaque(fn['key'], fn) and self.fi(fn['key']).ok:
                return self.enter(st, fn['key'], ('tmp', (fi.f['key'], el.get('tmp'))), (), 'dtor', None, el.get('l'))
            return None
        if e in ('mdtor', 'bdtor'):
            fn = el.get('fn')
            if e == 'mdtor':
                loc = ('field', fr.this, el['field'])
                if fn and fn['key'] in self.p.functions and not self.is_opaque(fn['key'], fn) and self.fi(fn['key']).ok:
                    return self.enter(st, fn['key'], loc, (), 'dtor', None, el.get('l'))
                return [(self.mkev('dtor', st, fi, el.get('l'), cls=(fn or {}).get('cls'), t=el.get('t'), obj=loc, member=el['field']), st)]
            if fn and fn['key'] in self.p.functions and not self.is_opaque(fn['key'], fn) and self.fi(fn['key']).ok:
                return self.enter(st, fn['key'], fr.this, (), 'dtor', None, el.get('l'))
            return None
        return None

    def element(self, st, fr, fi, i, n):
        k = n['k']
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'UserDefinedLiteral'):
            return self.do_call(st, fr, fi, i, n)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return self.do_ctor(st, fr, fi, i, n)
        if k == 'BinaryOperator' and n.get('asg') or k == 'CompoundAssignOperator':
            return self.do_assign(st, fr, fi, i, n)
        if k == 'UnaryOperator' and n['op'] in ('++', '--'):
            loc = self.lv(st, fi, n['c'][0])
            v = self.ev(st, fi, n['c'][0])
            if n.get('post'):
                st.vals[(fr.ctx, i)] = v
            if loc is not None and loc[0] != 'slot' and loc[0] == 'field':
                st.env[loc] = ('unk', (fi.f['key'], i))
                self.drop(st, loc)
            st.idx += 1
            return [(self.mkev('inc', st, fi, n['l'], over=v, lhs=loc, op=n['op'], post=bool(n.get('post')), site=(fi.f['key'], i)), st)]
        if k == 'UnaryOperator' and n['op'] == '&':
            # the address of an object is not null
            t = fi.nodes[n['c'][0]].get('t', '')
            p = fi.parent.get(i)
            while p is not None and fi.nodes[p]['k'] in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups'):
                p = fi.parent.get(p)
            if p is not None and not SMART.match(t) and 'std::function<' not in t and '*' not in t and 'optional<' not in t and \
                    (fi.nodes[p]['k'] in ('ReturnStmt', 'ConditionalOperator', 'DeclStmt') or fi.nodes[p].get('asg')):
                x = self.truth(self.ev(st, fi, n['c'][0]))
                if x[0] == 'truth':
                    st.facts[x] = True
            return None
        if self.narrow and n.get('ck') in ('IntegralCast', 'FloatingToIntegral') and n['c']:
            a, b = fi.nodes[n['c'][0]].get('t', ''), n.get('t', '')
            if loses(a, b):
                st.idx += 1
                return [(self.mkev('narrow', st, fi, n['l'], over=self.ev(st, fi, n['c'][0]), t=b, src=a, site=(fi.f['key'], i)), st)]
            return None
        if self.uses and k == 'UnaryOperator' and n['op'] == '*' and fi.nodes[fi.skip(n['c'][0])]['k'] != 'CXXThisExpr':
            st.idx += 1
            return [(self.mkev('deref', st, fi, n['l'], over=self.ev(st, fi, n['c'][0]), post=self.post_step(fi, n['c'][0]), t=fi.nodes[n['c'][0]].get('t', ''), site=(fi.f['key'], i)), st)]
        if self.uses and k == 'ArraySubscriptExpr':
            st.idx += 1
            return [(self.mkev('deref', st, fi, n['l'], over=self.ev(st, fi, n['c'][0]), index=self.ev(st, fi, n['c'][1]), t=fi.nodes[n['c'][0]].get('t', ''), site=(fi.f['key'], i)), st)]
        if k == 'DeclStmt':
            return self.do_decl(st, fr, fi, i, n)
        if k == 'ReturnStmt':
            v = None
            if n.get('val'):
                v = self.ev(st, fi, n['val'])
            self.purge(st, fr.ctx)
            if v is not None:
                st.vals[(fr.ctx, 'ret')] = v
            st.idx += 1
            return [(self.mkev('ret', st, fi, n['l'], val=v, site=(fi.f['key'], i)), st)]
        if k == 'CXXThrowExpr':
            return self.do_throw(st, fr, fi, i, n)
        if k == 'CXXDeleteExpr':
            st.idx += 1
            return [(self.mkev('delete', st, fi, n['l'], obj=self.ev(st, fi, n['c'][0]) if n['c'] else None, t=n.get('dt')), st)]
        if k == 'CXXNewExpr' and n.get('place'):
            st.idx += 1
            return [(self.mkev('pnew', st, fi, n['l'], t=n['alloc'], at=tuple(self.ev(st, fi, x) for x in n['place']),
                               val=self.ev(st, fi, i), site=(fi.f['key'], i)), st)]
        if k == 'CXXCatchStmt':
            st.idx += 1
            return [(self.mkev('catch', st, fi, n['l'], t=n['ct'], site=(fi.f['key'], i)), st)]
        if self.access is not None:
            if k == 'MemberExpr' and n['m']['kind'] in ('field', 'global'):
                if n['m']['kind'] == 'field':
                    t = ('field', self.ev(st, fi, n['c'][0]), n['m']['name'])
                else:
                    t = ('global', n['m']['qn'], n['m'].get('id'))
                if self.access(n['m'], t):
                    st.idx += 1
                    return [(self.mkev('access', st, fi, n['l'], term=t, m=n['m'], mode=self.mode(fi, i), site=(fi.f['key'], i)), st)]
            elif k == 'DeclRefExpr' and n['d']['kind'] in ('global', 'slocal'):
                t = ('global', n['d'].get('qn') or n['d']['name'], n['d'].get('id'))
                if self.access(n['d'], t):
                    st.idx += 1
                    return [(self.mkev('access', st, fi, n['l'], term=t, m=n['d'], mode=self.mode(fi, i), site=(fi.f['key'], i)), st)]
        return None

    def mode(self, fi, i):
        """Is the object denoted by this lvalue expression only read ('r') or possibly written ('w')?"""
        c = i
        while True:
            p = fi.parent.get(c)
            if p is None:
                return 'r'
            n = fi.nodes[p]
            k = n['k']
            if k in ('ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'CXXConstCastExpr', 'CXXStaticCastExpr'):
                c = p
                continue
            if k == 'ImplicitCastExpr':
                if n.get('ck') == 'LValueToRValue':
                    return 'r'
                if n.get('ck') == 'NoOp' and n.get('t', '').startswith('const '):
                    return 'r'
                c = p
                continue
            if k == 'MemberExpr':
                if n['m']['kind'] == 'fn':
                    return 'r' if (n['m']['fn'].get('const') or n['m']['fn'].get('static')) else 'w'
                c = p
                continue
            if k == 'ArraySubscriptExpr':
                c = p
                continue
            if k in ('BinaryOperator', 'CompoundAssignOperator') and n.get('asg'):
                return 'w' if n['c'][0] == c else 'r'
            if k == 'UnaryOperator' and n['op'] in ('++', '--'):
                return 'w'
            if k == 'UnaryOperator' and n['op'] == '&':
                c = p
                continue
            if 'fn' in n and c in n.get('args', ()):
                j = n['args'].index(c)
                pts = n['fn'].get('pt', ())
                if n['k'] == 'CXXOperatorCallExpr' and n['fn'].get('cls') and not n['fn'].get('static'):
                    if j == 0:
                        return 'r' if n['fn'].get('const') else 'w'
                    j -= 1
                if j < len(pts):
                    t = pts[j]
                    if t.endswith('&') and not t.startswith('const ') and 'const &' not in t:
                        return 'w'
                    if t.endswith('*') and not t.startswith('const '):
                        return 'w'
                return 'r'
            if k == 'DeclStmt':
                for v in n['vars']:
                    if v.get('init') == c and v.get('ref') and not v['t'].startswith('const '):
                        return 'w'
                return 'r'
            return 'r'

    def drop(self, st, loc):
        """Everything known about the contents of location term loc is forgotten."""
        for c in [c for c in st.facts if contains(c, loc)]:
            del st.facts[c]
        for k in [k for k in st.env if k[0] == 'field' and k != loc and reaches(k, loc) and not self.bound_ref(k)]:
            del st.env[k]

    def bound_ref(self, k):
        """A reference member keeps what it was bound to."""
        return k[1][0] == 'ctor' and self.is_ref({'name': k[2]}, k[1])

    def set_loc(self, st, loc, val):
        if loc is None:
            return
        if loc[0] == 'slot':
            k = loc[1]
            old = st.env.get(k)
            vid = k[1]
            if isinstance(val, tuple) and (term_depth(val) > MAXDEPTH or (old is not None and old != val and old[0] != 'const' and contains(val, old))):
                val = ('phi', vid, old if old and old[0] != 'phi' else (old[2] if old else None))
                if term_depth(val) > MAXDEPTH:
                    val = ('phi', vid, None)
            st.env[k] = val
            return
        if loc[0] == 'field':
            if term_depth(val) > MAXDEPTH:
                val = ('unk', 'deep')
            old = st.env.get(loc)
            if old is not None and old != val and old[0] not in ('const', 'null', 'unk') and contains(val, old):
                val = ('unk', 'rec')
            self.drop(st, loc)
            st.env[loc] = val

    def adopt(self, st, loc, v):
        """A freshly constructed object becomes the object at `loc`: what is known about it is renamed."""
        if not isinstance(v, tuple) or v[0] != 'ctor':
            return
        for k in [k for k in st.env if k[0] == 'field' and k != loc and contains(k, v)]:
            x = st.env.pop(k)
            st.env[subst(k, v, loc)] = subst(x, v, loc) if isinstance(x, tuple) else x

    def do_assign(self, st, fr, fi, i, n):
        lhs, rhs = n['c'][0], n['c'][1]
        loc = self.lv(st, fi, lhs)
        v = self.ev(st, fi, rhs)
        lt = self.locterm(st, fi, lhs, loc)
        if n['op'] == '=':
            self.set_loc(st, loc, v)
            st.vals.pop((fr.ctx, i), None)
            ev = self.mkev('assign', st, fi, n['l'], lhs=lt, rhs=v, site=(fi.f['key'], i), slot=loc)
        else:
            cur = self.ev(st, fi, lhs)
            if loc is not None:
                vid = fi.declref(lhs)
                self.set_loc(st, loc, ('phi', vid, None) if loc[0] == 'slot' else ('unk', (fi.f['key'], i)))
            ev = self.mkev('assign', st, fi, n['l'], lhs=lt, rhs=('op', n['op'], cur, v), cop=n['op'], site=(fi.f['key'], i), slot=loc)
        st.idx += 1
        p = fi.nodes.get(fi.parent.get(i))
        if p is not None and p['k'] == 'CompoundStmt':
            self.purge(st, fr.ctx)
        return [(ev, st)]

    def locterm(self, st, fi, i, loc):
        if loc is not None and loc[0] == 'slot':
            j = fi.skip(i)
            n = fi.nodes[j]
            return ('var', loc[1][1], n['d']['name'] if n['k'] == 'DeclRefExpr' else '')
        return loc if loc is not None else ('unk', 0)

    def do_decl(self, st, fr, fi, i, n):
        evs = None
        st.idx += 1
        for v in n['vars']:
            slot = (fr.ctx, v['id'])
            if v.get('static'):
                st.env[slot] = ('global', v['name'], v['id'])
                continue
            init = v.get('init')
            if not init:
                st.env[slot] = ('var', v['id'], v['name'])
                continue
            lt = v['t'].replace('const ', '')
            t = self.ev(st, fi, init)
            if LOCK_T.match(v['t']) or LOCK_T.match(lt):
                m = self.lock_init(st, fi, init)
                st.env[slot] = ('lockvar', v['id'])
                if m is None or m == 'default':
                    continue
                if m[0] == 'deferred':
                    st.env[slot] = ('lockvar', v['id'], m[1])
                    continue
                st.env[slot] = ('lockvar', v['id'], m)
                tmpl = [l for l in st.locks if isinstance(l[0][1], tuple) and l[0][1][0] == 'retlock' and l[1] == m]
                if tmpl:
                    st.locks = tuple((slot, l[1]) if l in tmpl else l for l in st.locks)
                    continue
                before = st.locks
                st.locks = st.locks + ((slot, m),)
                evs = [(self.mkev('lock', st, fi, n['l'], mutex=m, held=before, site=(fi.f['key'], i)), st)]
                continue
            if v['id'] in fi.counters:
                t = ('phi', v['id'], t)
            if v.get('ref'):
                loc = self.lv(st, fi, init)
                if loc is not None and loc[0] == 'slot' and loc[1] != slot:
                    st.env[slot] = ('ref', loc[1])
                elif loc is not None and loc[0] == 'field':
                    st.env[slot] = ('refloc', loc, self.is_value(fi.nodes[fi.skip(init)].get('t')))
                elif loc is not None and loc[0] == 'index' and not v['t'].startswith('const '):
                    st.env[slot] = ('refloc', loc, False)
                else:
                    st.env[slot] = t
            else:
                if t[0] == 'unk' and t[1] == 'void':
                    t = ('unk', (fi.f['key'], i))
                st.env[slot] = t
        if evs:
            self.purge(st, fr.ctx)
            return evs
        self.purge(st, fr.ctx)
        ev = self.mkev('decl', st, fi, n['l'], vars=tuple((v['id'], v['name'], v['t'], st.env.get((fr.ctx, v['id']))) for v in n['vars']),
                       site=(fi.f['key'], i))
        return [(ev, st)]

    def lock_init(self, st, fi, init):
        """Mutex term of a lock object's initialiser; ('deferred', m); 'default' for a lock without a mutex."""
        j = fi.skip(init)
        n = fi.nodes[j]
        while n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and (n['fn'].get('move') or n['fn'].get('copy') or n.get('elid')) and n['args']:
            j = fi.skip(n['args'][0])
            n = fi.nodes[j]
        v = st.vals.get((st.stack[-1].ctx, j))
        if v is not None and v[0] == 'lockvar' and len(v) > 2:
            return v[2]
        if n['k'] == 'InitListExpr' and n['c']:
            return self.raw(st, fi, n['c'][0])
        if n['k'] not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            t = self.ev(st, fi, j)
            if t[0] == 'lockvar':
                return t[2] if len(t) > 2 else 'default'
            return t
        if not n['args']:
            return 'default'
        m = self.raw(st, fi, n['args'][0])
        if len(n['args']) > 1:
            t2 = fi.nodes[fi.skip(n['args'][1])].get('t', '') + fi.nodes[n['args'][1]].get('t', '')
            if 'defer_lock' in t2 or 'try_to_lock' in t2:
                return ('deferred', m)
        return m

    # ---------------------------------------------------------------- exceptions
    STD = {'std::exception': (), 'std::runtime_error': ('std::exception',), 'std::logic_error': ('std::exception',),
           'std::invalid_argument': ('std::logic_error',), 'std::out_of_range': ('std::logic_error',), 'std::length_error': ('std::logic_error',),
           'std::domain_error': ('std::logic_error',), 'std::overflow_error': ('std::runtime_error',), 'std::range_error': ('std::runtime_error',),
           'std::underflow_error': ('std::runtime_error',),
           'std::bad_alloc': ('std::exception',), 'std::bad_cast': ('std::exception',), 'std::system_error': ('std::runtime_error',),
           'boost::system::system_error': ('std::system_error',), 'std::ios_base::failure': ('std::system_error',),
           'std::bad_function_call': ('std::exception',), 'boost::bad_get': ('std::exception',), 'boost::bad_lexical_cast': ('std::bad_cast',),
           'std::__ios_failure': ('std::ios_base::failure',)}

    def exc_bases(self, t):
        t = t.replace('const ', '').rstrip(' &')
        out = {t}
        work = [t]
        while work:
            x = work.pop()
            bs = list(self.STD.get(x, ()))
            r = self.p.records.get(x)
            if r:
                bs += [b['t'] for b in r['bases']]
            for b in bs:
                if b not in out:
                    out.add(b)
                    work.append(b)
        return out

    def do_throw(self, st, fr, fi, i, n):
        if n['c']:
            t = fi.nodes[n['c'][0]].get('t', '?').replace('const ', '')
            val = self.ev(st, fi, n['c'][0])
            if '::' not in t and val[0] == 'ctor':
                t = val[1]      # a template parameter
            ev = self.mkev('throw', st, fi, n['l'], t=t, val=val, site=(fi.f['key'], i))
            return self.unwind(st, (t, ()), i, first=ev)
        ev = self.mkev('throw', st, fi, n['l'], t='rethrow', site=(fi.f['key'], i), rethrow=True)
        return self.unwind(st, self.current_exc(st), i, first=ev)

    def current_exc(self, st):
        for f in reversed(st.stack):
            exc = st.env.get((f.ctx, '#exc'))
            if exc:
                return exc[:2]
        return ('?', ())

    def unwind(self, st, exc, node, first=None):
        """Successors of raising `exc` = (type | '?', excluded types) at `node` of the top frame.  `first` is the
        event to emit before unwinding (kept on every outcome)."""
        outs = []
        etype, excl = exc
        s = st.copy()
        while True:
            fr = s.stack[-1]
            fi = self.fi(fr.key)
            cur = node
            stop = False
            while cur is not None and not stop:
                p = fi.parent.get(cur)
                pn = fi.nodes.get(p)
                if pn is not None and pn['k'] == 'CXXTryStmt' and pn['tryblock'] == cur:
                    for h in pn['handlers']:
                        hn = fi.nodes[h]
                        ct = hn['ct'].replace('const ', '').rstrip(' &')
                        match = None
                        if hn['ct'] == '...':
                            match = 'yes'
                        elif etype != '?':
                            match = 'yes' if ct in self.exc_bases(etype) else None
                        else:
                            if any(x in self.exc_bases(ct) for x in excl):
                                match = None
                            else:
                                match = 'maybe'
                        if match is None:
                            continue
                        hb = fi.handler_block.get(h)
                        if hb is None:
                            continue
                        ns = s.copy()
                        ns.locks = tuple(l for l in ns.locks if not (l[0][0] == fr.ctx and self.declared_in(fi, l[0][1], pn['tryblock'])))
                        newexc = (ct if (etype == '?' and hn['ct'] != '...') else etype, excl, h)
                        self.purge(ns, fr.ctx)
                        self.go(ns, hb)
                        ns.env[(fr.ctx, '#exc')] = newexc
                        if hn.get('var'):
                            ns.env[(fr.ctx, hn['var'])] = ('exc', ct, (fi.f['key'], h))
                        outs.append((first, ns))
                        if match == 'yes':
                            stop = True
                            break
                        excl = excl + (ct,)
                cur = p
            if stop:
                return outs
            if fi.f.get('nx'):
                outs.append((self.mkev('exit', s, fi, fi.nodes[node]['l'] if node in fi.nodes else None, how='terminate', t=etype, via=first), None))
                return outs
            if len(s.stack) == 1:
                outs.append((self.mkev('exit', s, fi, fi.nodes[node]['l'] if node in fi.nodes else None, how='throw', t=etype, excl=excl, via=first), None))
                return outs
            ret = fr.ret
            s.locks = tuple(l for l in s.locks if l[0][0] != fr.ctx)
            self.pop(s)
            up = s.stack[-1]
            cn = ret[2]
            if isinstance(cn, tuple):
                cn = cn[1]
            if cn is None or cn == 'dtor':
                # position: the element before the resume point
                b = self.fi(up.key).blocks[ret[0]]
                cn = None
                for e in reversed(b['els'][:ret[1]]):
                    if not isinstance(e, dict):
                        cn = e
                        break
            node = cn
            if node is None:
                node = self.fi(up.key).f.get('body')

    def declared_in(self, fi, vid, block):
        if isinstance(vid, tuple):
            return True
        d = fi.locals_decl.get(vid)
        if not d:
            return False
        cur = d[0]
        while cur is not None:
            if cur == block:
                return True
            cur = fi.parent.get(cur)
        return False

    # ---------------------------------------------------------------- calls
    def is_opaque(self, key, fn):
        f = self.p.functions.get(key)
        if f is None or not f.get('cfg'):
            return True
        q = fkey_name(f['qn'])
        if not self.open_views and (f.get('cls') or '').startswith('blackhole::stdext::basic_string_view'):
            return True
        if q in self.opaque_q or f['qn'] in self.opaque_q:
            return True
        return not self.inline_pred(f)

    def can_inline(self, st, key, fn):
        if self.is_opaque(key, fn):
            return False
        if len(st.stack) >= self.maxdepth:
            return False
        if sum(1 for f in st.stack if f.key == key) >= 2:
            return False
        return True

    def enter(self, st, key, this, bind, callnode, lam, l, resume=None):
        """Pushes a frame for function `key`.  bind: list of (param, term|('ref',slot))."""
        fr = st.stack[-1]
        f = self.p.functions[key]
        site = callnode if not isinstance(callnode, tuple) else callnode[1]
        ctx = self.ctx_id(fr.ctx, (st.block, st.idx) if callnode in ('dtor', None) else site, key)
        # a re-entered context starts afresh
        for k in [k for k in st.env if k[0] == ctx and len(k) == 2]:
            del st.env[k]
        for p, v in bind:
            st.env[(ctx, p)] = v
        if callnode == 'dtor':
            ret = (st.block, st.idx, 'dtor')
        else:
            ret = resume or (st.block, st.idx + 1, callnode)
        fi = self.fi(fr.key)
        st.stack = st.stack + (Frame(key, ctx, this, ret, lam),)
        nf = self.fi(key)
        self.g.inlined.add(key)
        st.block, st.idx = nf.entry, 0
        args = tuple(self.rd(st, (ctx, p)) for p, v in bind)
        ev = Ev('enter', self.where(fi, l), fi.f['qn'], st.locks, tuple(x.key for x in st.stack), key=key, qn=fkey_name(f['qn']),
                obj=this, args=args, site=(fr.key, site), depth=len(st.stack))
        return [(ev, st)]

    def bind_params(self, st, fi, f, argnodes):
        out = []
        ps = f['params']
        for j, p in enumerate(ps):
            if j < len(argnodes):
                a = argnodes[j]
                t = p['t']
                loc = None
                if t.endswith('&'):
                    loc = self.lv(st, fi, a)
                elif t.endswith('*'):
                    an = fi.nodes[fi.skip(a)]
                    if an['k'] == 'UnaryOperator' and an['op'] == '&':
                        loc = self.lv(st, fi, a)
                if loc is not None and loc[0] == 'slot':
                    out.append((p['id'], ('ref', loc[1])))
                elif loc is not None and loc[0] == 'field' and t.endswith('&'):
                    out.append((p['id'], ('refloc', loc, self.is_value(fi.nodes[fi.skip(a)].get('t')))))
                elif loc is not None and loc[0] == 'index' and t.endswith('&') and not t.startswith('const '):
                    out.append((p['id'], ('refloc', loc, False)))
                else:
                    out.append((p['id'], self.ev(st, fi, a)))
            else:
                out.append((p['id'], ('unk', p['name'])))
        # values of integer parameters that the callee increments are loop counters there
        nf = self.fi(f['key'])
        res = []
        for pid, v in out:
            if pid in nf.counters and v[0] not in ('ref', 'refloc'):
                v = ('phi', pid, v)
            res.append((pid, v))
        return res

    def callable_target(self, st, t):
        """(key, lam captures, this) for a callable term, or None."""
        if t is None:
            return None
        if t[0] == 'lambda':
            return t[1], t[3], t[4], ()
        if t[0] == 'fn':
            return t[1], None, None, ()
        if t[0] == 'ctor':
            # a functor object
            ms = [f for f in self.p.functions.values() if f.get('cls') == t[1] and f['name'] == 'operator()']
            if len(ms) == 1:
                return ms[0]['key'], None, t, ()
        if t[0] == 'bind' and t[1]:
            c = self.callable_target(st, t[1][0])
            if c:
                return c[0], c[1], c[2], tuple(t[1][1:])
        return None

    def invoke(self, st, fi, i, n, target, argterms, argnodes, callnode, l, resume=None):
        """Pushes a frame for a callable term; None when it cannot be followed."""
        key, lam, this, bound = target
        f = self.p.functions.get(key)
        if f is None or not self.can_inline(st, key, f):
            return None
        args = list(argterms)
        if bound:
            full = []
            nxt = list(args)
            for b in bound:
                if b[0] == 'global' and 'placeholders' in str(b[1]):
                    m = re.search(r'_(\d+)$', str(b[1]))
                    j = int(m.group(1)) - 1 if m else 0
                    full.append(args[j] if j < len(args) else ('unk', 0))
                else:
                    full.append(b)
            args = full
            argnodes = None
            if f.get('cls') and not f.get('static') and not f.get('lambda'):
                this, args = (args[0] if args else this), args[1:]
        elif this is None and f.get('cls') and not f.get('static') and args:
            this, args = args[0], args[1:]
            argnodes = None
        if argnodes is not None:
            bind = self.bind_params(st, fi, f, argnodes)
        else:
            bind = [(p['id'], args[j] if j < len(args) else ('unk', 0)) for j, p in enumerate(f['params'])]
        return self.enter(st, key, this if this is not None else ('unk', 'fnthis'), bind, callnode, lam, l, resume)

    def invalidate_args(self, st, fi, n, argnodes, fn):
        pts = fn.get('pt', ()) if fn else ()
        if fn and re.match(r'(boost::optional<.*&>|std::reference_wrapper<.*|boost::reference_wrapper<.*)$', fn.get('cls') or ''):
            return       # only bound, not modified
        for j, a in enumerate(argnodes):
            t = pts[j] if j < len(pts) else ''
            if not t:
                continue
            nonconst = (t.endswith('&') and not t.startswith('const ') and 'const &' not in t) or \
                       (t.endswith('*') and not t.startswith('const ') and 'const *' not in t)
            if not nonconst:
                continue
            if t.endswith('&&'):
                continue
            loc = self.lv(st, fi, a)
            if loc is None:
                continue
            an = fi.nodes[fi.skip(a)]
            if t.endswith('&') and str(an.get('t', '')).startswith('const ') and not str(an.get('t', '')).endswith('*'):
                continue
            if loc[0] == 'slot':
                if t.endswith('*') and not (an['k'] == 'UnaryOperator' and an['op'] == '&'):
                    continue
                cur = st.env.get(loc[1])
                typ = ''
                if cur is not None and cur[0] in ('ctor',):
                    # class objects keep their identity; what is known about their contents is dropped
                    self.drop(st, cur)
                    continue
                if cur is not None and cur[0] in ('var', 'const', 'phi', 'unk', 'init', 'call', 'op', 'out', 'null'):
                    if cur[0] == 'var':
                        self.drop(st, cur)
                    st.env[loc[1]] = ('out', (fi.f['key'], a), j)
            elif loc[0] == 'field':
                self.drop(st, loc)
                if loc in st.env:
                    st.env[loc] = ('out', (fi.f['key'], a), j)

    def refresh_site(self, st, site):
        for c in [c for c in st.facts if any(x[0] in ('call', 'aload', 'out', 'ctor') and len(x) > 1 and site in x for x in subterms(c))]:
            del st.facts[c]

    def do_call(self, st, fr, fi, i, n):
        fn = n.get('fn')
        if (fr.ctx, i) in st.vals and (fr.ctx, i, 'hofret') not in st.vals:
            return None    # already evaluated (resumed)
        site = (fi.f['key'], i)
        self.refresh_site(st, site)
        argnodes = list(n.get('args', ()))
        obj = None
        objnode = None
        opcall = n['k'] == 'CXXOperatorCallExpr' and fn and fn.get('cls') and not fn.get('static')
        if n['k'] == 'CXXMemberCallExpr':
            objnode = n.get('obj')
        elif opcall:
            objnode = argnodes[0] if argnodes else None
            argnodes = argnodes[1:]
        qn = fkey_name(fn['qn']) if fn else '<indirect>'
        name = fn_name(qn)
        if fn is None:
            # call through a pointer/callable expression
            c = self.ev(st, fi, n['callee']) if n.get('callee') else None
            tgt = self.callable_target(st, c)
            if tgt:
                r = self.invoke(st, fi, i, n, tgt, self.argterms_of(st, fi, argnodes), argnodes, i, n['l'])
                if r:
                    return r
            return self.opaque_call(st, fr, fi, i, n, fn, '<indirect>', c, argnodes, ucall=True)
        if objnode is not None:
            obj = self.ev(st, fi, objnode)
        cls = fn.get('cls') or ''
        # -- transparent helpers
        if qn in TRANSPARENT_FN and argnodes:
            return None
        # -- locks
        r = self.lock_call(st, fr, fi, i, n, fn, name, obj, objnode, argnodes, cls)
        if r is not None:
            return r
        # -- std::function
        if cls.startswith(('std::function<', 'boost::function<')) and name == 'operator()':
            tgt = self.callable_target(st, obj)
            if tgt:
                r = self.invoke(st, fi, i, n, tgt, self.argterms_of(st, fi, argnodes), argnodes, i, n['l'])
                if r:
                    return r
            return self.opaque_call(st, fr, fi, i, n, fn, qn, obj, argnodes, ucall=True)
        # -- lambdas
        if obj is not None and obj[0] == 'lambda' and name.startswith('operator ') and name != 'operator()':
            return None
        if fn.get('lambda') or (name == 'operator()' and obj is not None and obj[0] in ('lambda', 'bind', 'fn')):
            tgt = self.callable_target(st, obj)
            if tgt:
                r = self.invoke(st, fi, i, n, tgt, self.argterms_of(st, fi, argnodes), argnodes, i, n['l'])
                if r:
                    return r
        # -- smart pointers: transparent reads, modelled writes
        if obj is not None and SMART.match(cls):
            if name in ('reset', 'operator=', 'store', 'assign', 'emplace') or fn.get('copyassign') or fn.get('moveassign'):
                return self.smart_write(st, fr, fi, i, n, fn, obj, objnode, argnodes)
            if name in ('load', 'exchange') or (name.startswith('operator ') and 'atomic' in cls):
                if name == 'exchange':
                    st.vals[(fr.ctx, i)] = ('aload', obj, site)
                    r = self.smart_write(st, fr, fi, i, n, fn, obj, objnode, argnodes)
                    st.vals[(fr.ctx, i)] = ('aload', obj, site)
                    return r
                if 'atomic' in cls:
                    loc = self.raw(st, fi, objnode)
                    st.vals[(fr.ctx, i)] = ('aload', loc, site)
                    st.idx += 1
                    return [(self.mkev('aload', st, fi, n['l'], obj=loc, site=site), st)]
            if name in ('operator->', 'operator*', 'get') and self.uses and objnode is not None:
                st.idx += 1
                return [(self.mkev('use', st, fi, n['l'], obj=obj, own=self.owning(st, fi, objnode), cls=cls, site=site), st)]
            if name in SMART_METHODS or name.startswith('operator ') or name in ('operator bool', 'operator!', 'is_initialized', 'has_value', 'use_count'):
                return None
        if name in ('operator*', 'operator->', 'operator bool', 'operator!', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend') \
                and not (fn['key'] in self.p.functions):
            if self.uses and name in ('operator*', 'operator->') and obj is not None and not argnodes and ITER_T.search(cls):
                st.idx += 1
                return [(self.mkev('deref', st, fi, n['l'], over=obj, t=cls, post=self.post_step(fi, objnode), site=site), st)]
            return None
        if name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=') and fn['key'] not in self.p.functions and \
                not qn.startswith('blackhole'):
            return None
        if name in ('operator++', 'operator--'):
            over = obj if obj is not None else (self.ev(st, fi, argnodes[0]) if argnodes else None)
            st.idx += 1
            st.vals[(fr.ctx, i)] = over
            return [(self.mkev('inc', st, fi, n['l'], over=over, op=name[8:], t=cls, post=len(argnodes) == (1 if obj is not None else 2), site=site), st)]
        hops = self.stride(st, fi, name, qn, cls, obj, argnodes)
        if hops is not None:
            over, k = hops
            st.idx += 1
            st.vals[(fr.ctx, i)] = over
            return [(self.mkev('inc', st, fi, n['l'], over=over, op='++', n=k, t=cls or 'iterator', site=site), st)]
        # -- copy/move assignment
        if fn.get('copyassign') or fn.get('moveassign') or (name == 'operator=' and obj is not None and len(argnodes) == 1):
            return self.smart_write(st, fr, fi, i, n, fn, obj, objnode, argnodes, full=True)
        # -- higher-order functions
        h = self.hof.get(qn)
        if h is None and not cls and qn.startswith(('std::', 'boost::')) and qn not in ('std::bind', 'std::function', 'std::make_shared', 'std::make_unique', 'std::make_pair'):
            for j, a in enumerate(argnodes):
                t = self.ev(st, fi, a)
                if t[0] == 'lambda' or (t[0] == 'bind'):
                    h = ('each', j)
        if h is not None:
            r = self.do_hof(st, fr, fi, i, n, fn, qn, h, obj, argnodes)
            if r is not None:
                return r
        if qn == 'boost::apply_visitor' and argnodes and qn not in self.opaque_q:
            r = self.do_visit(st, fr, fi, i, n, fn, argnodes)
            if r is not None:
                return r
        # -- functions of the repository
        key = fn['key']
        if n.get('vcall') or fn.get('virt'):
            k2 = self.devirtualise(fi, n, fn, objnode, obj) if n.get('vcall', True) else key
            if not n.get('vcall', True):
                k2 = key
            key = k2
        if key is not None and key in self.p.functions and self.can_inline(st, key, fn):
            f = self.p.functions[key]
            bind = self.bind_params(st, fi, f, argnodes)
            return self.enter(st, key, obj if obj is not None else ('unk', 'static'), bind, i, None, n['l'])
        return self.opaque_call(st, fr, fi, i, n, fn, qn, obj, argnodes)

    @staticmethod
    def literal(t):
        """A temporary string made of a literal is the literal's value, wherever it is made."""
        if t[0] == 'ctor' and len(t) == 4 and t[2] and t[2][0][0] == 'str' and str(t[1]).startswith(('std::basic_string<', 'std::string', 'std::__cxx11::basic_string<')):
            return ('ctor', t[1], t[2][:1], 'literal')
        return t

    def argterms_of(self, st, fi, argnodes):
        return tuple(self.ev(st, fi, a) for a in argnodes)

    def devirtualise(self, fi, n, fn, objnode, obj):
        """A virtual call on an object whose exact class is evident."""
        if objnode is None:
            return fn['key']
        cls = None
        if obj is not None and obj[0] == 'ctor':
            cls = obj[1]
        else:
            on = fi.nodes[fi.skip(objnode)]
            if on['k'] in ('MemberExpr', 'DeclRefExpr') and not n.get('arrow'):
                t = on.get('t', '').replace('const ', '')
                d = on.get('d') or on.get('m')
                vt = (d or {}).get('t', '')
                if not vt.rstrip().endswith(('&', '*')):
                    cls = t
        if cls:
            for f in self.p.functions.values():
                if f.get('cls') == cls and f['name'] == fn['qn'].split('::')[-1] and [p['t'] for p in f['params']] == list(fn.get('pt', ())):
                    return f['key']
        if n.get('fn', {}).get('virt') and n.get('vcall') is False:
            return fn['key']
        if fi.nodes[fi.skip(objnode)]['k'] == 'CXXThisExpr':
            # a virtual call on the object itself, of a class that nothing in the program derives from
            f = self.p.functions.get(fn['key'])
            own = fi.f.get('cls')
            if f is not None and own and f.get('cls') == own and not self.p.derived(own):
                return fn['key']
        return None

    def smart_write(self, st, fr, fi, i, n, fn, obj, objnode, argnodes, full=False):
        site = (fi.f['key'], i)
        loc = self.lv(st, fi, objnode)
        v = self.ev(st, fi, argnodes[0]) if argnodes else ('null',)
        if v[0] == 'unk' and argnodes and fi.nodes[fi.skip(argnodes[0])]['k'] == 'CXXNullPtrLiteralExpr':
            v = ('null',)
        nm = fn_name(fkey_name((fn or {}).get('qn', '')))
        if argnodes and fi.nodes[argnodes[0]].get('t', '').startswith('boost::none'):
            v = ('null',)
        lt = self.locterm(st, fi, objnode, loc)
        before = obj
        sv = v
        if loc is not None and not self.is_value((fn or {}).get('cls')) and argnodes and not self.temporary(fi, argnodes[0]) and v[0] != 'const':
            sv = ('copy', v, site)
        self.set_loc(st, loc, sv)
        if loc is not None and loc[0] == 'field':
            self.adopt(st, loc, v)
        st.vals[(fr.ctx, i)] = obj if nm == 'exchange' else (sv if loc is None or loc[0] == 'slot' or self.is_value((fn or {}).get('cls')) else loc)
        st.idx += 1
        ev = self.mkev('assign', st, fi, n['l'], lhs=lt, rhs=v, site=site, slot=loc, qn=fkey_name(fn['qn']), fnref=fn, old=before, byop=True)
        outs = [(ev, st)]
        if not fn.get('nx') and self.throws(fn, 'assign'):
            s2 = st.copy()
            s2.idx -= 1
            outs += self.unwind(s2, ('?', ()), i, first=self.mkev('thrown', s2, fi, n['l'], qn=fkey_name(fn['qn']), obj=obj, args=(v,), site=site, fnref=fn))
        p = fi.nodes.get(fi.parent.get(i))
        return outs

    def lock_call(self, st, fr, fi, i, n, fn, name, obj, objnode, argnodes, cls):
        if name not in ('lock', 'unlock', 'try_lock', 'release', 'owns_lock', 'swap') or objnode is None:
            return None
        c = cls.replace('const ', '')
        if MUTEX_T.search(c) and not LOCK_T.match(c + '<') and not c.startswith(('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')):
            m = self.raw(st, fi, objnode)
            slot = ('manual', 'manual')
            if name == 'lock':
                before = st.locks
                st.locks = st.locks + ((slot, m),)
                st.idx += 1
                return [(self.mkev('lock', st, fi, n['l'], mutex=m, held=before, manual=True, site=(fi.f['key'], i)), st)]
            if name == 'unlock':
                st.locks = tuple(l for l in st.locks if l[1] != m)
                st.idx += 1
                return [(self.mkev('unlock', st, fi, n['l'], mutex=m, manual=True, site=(fi.f['key'], i)), st)]
            if name == 'try_lock':
                a, b = st, st.copy()
                before = a.locks
                a.locks = a.locks + ((slot, m),)
                a.vals[(fr.ctx, i)] = ('const', True)
                b.vals[(fr.ctx, i)] = ('const', False)
                a.idx += 1
                b.idx += 1
                return [(self.mkev('lock', a, fi, n['l'], mutex=m, held=before, manual=True, trylock=True, site=(fi.f['key'], i)), a), (None, b)]
            return None
        if LOCK_T.match(c) or c.startswith(('std::unique_lock', 'boost::unique_lock')):
            v = obj
            slot = None
            loc = self.lv(st, fi, objnode)
            if loc is not None and loc[0] == 'slot':
                slot = loc[1]
            m = v[2] if v is not None and v[0] == 'lockvar' and len(v) > 2 else ('unk', 'mutex')
            if name == 'lock':
                before = st.locks
                st.locks = st.locks + ((slot or ('manual', 'manual'), m),)
                st.idx += 1
                return [(self.mkev('lock', st, fi, n['l'], mutex=m, held=before, site=(fi.f['key'], i)), st)]
            if name == 'unlock':
                st.locks = tuple(l for l in st.locks if l[1] != m)
                st.idx += 1
                return [(self.mkev('unlock', st, fi, n['l'], mutex=m, site=(fi.f['key'], i)), st)]
            return None
        return None

    def do_hof(self, st, fr, fi, i, n, fn, qn, h, obj, argnodes):
        mode, ci = h
        site = (fi.f['key'], i)
        if ci >= len(argnodes):
            return None
        c = self.ev(st, fi, argnodes[ci])
        tgt = self.callable_target(st, c)
        if tgt is None:
            return None
        first = self.ev(st, fi, argnodes[0]) if argnodes else None
        mk = (fr.ctx, i, 'hofret')
        prev = st.vals.get(mk)
        if mode in ('each', 'search', 'each2', 'each0'):
            over = first[1] if first is not None and first[0] in ('iter', 'end') else None
        elif mode == 'eachobj':
            over = obj
        else:
            over = None
        if mode in ('tryonce', 'maybe'):
            if prev is not None:
                del st.vals[mk]
                st.vals[(fr.ctx, i)] = ('const', True)
                st.idx += 1
                return [(self.mkev('try', st, fi, n['l'], qn=qn, obj=obj, pol=True, site=site), st)]
            s2 = st.copy()
            s2.vals[(fr.ctx, i)] = ('const', False)
            s2.idx += 1
            outs = [(self.mkev('try', s2, fi, n['l'], qn=qn, obj=obj, pol=False, site=site), s2)]
            elem = ('elem', obj) if obj is not None else ('unk', 'elem')
            r = self.invoke(st, fi, i, n, tgt, (elem,), None, ('hof', i), n['l'], resume=(st.block, st.idx, ('hof', i)))
            if r is None:
                return None
            return outs + [(self.mkev('trying', st, fi, n['l'], qn=qn, obj=obj, site=site), r[0][1])]
        outs = []
        neg = qn.endswith(('find_if_not', 'all_of'))
        name = qn.split('::')[-1]
        if prev is not None:
            del st.vals[mk]
        # finish normally
        s2 = st.copy()
        s2.idx += 1
        if mode == 'search':
            dv = {'any_of': ('const', False), 'all_of': ('const', True), 'none_of': ('const', True)}.get(name)
            if dv is None:
                dv = ('end', over)
            s2.vals[(fr.ctx, i)] = dv
        cont = True
        if mode == 'search' and prev is not None and prev != ('passed',):
            known, ct, flip = self.decide(st, prev)
            stop_on = not neg
            s3 = st.copy()
            s3.idx += 1
            ev3 = {'any_of': ('const', True), 'all_of': ('const', False), 'none_of': ('const', False)}.get(name)
            s3.vals[(fr.ctx, i)] = ev3 if ev3 is not None else ('found', over, site)
            if known is None or known == stop_on:
                if known is None and self.keep_fact(s3, ct):
                    s3.facts[ct] = (stop_on != flip)
                outs.append((self.mkev('branch', s3, fi, n['l'], cond=ct, pol=(stop_on != flip), site=site), s3))
            if known is not None and known == stop_on:
                return outs
            if known is None:
                s4 = st.copy()
                s4.vals[mk] = ('passed',)
                if self.keep_fact(s4, ct):
                    s4.facts[ct] = (stop_on == flip)
                outs.append((self.mkev('branch', s4, fi, n['l'], cond=ct, pol=(stop_on == flip), site=site), s4))
                return outs
        outs.append((self.mkev('done', s2, fi, n['l'], over=over, site=site), s2))
        # one more element
        self.forget_iter(st, over, site)
        elem = ('elem', over) if over is not None else ('unk', (fi.f['key'], i, 'elem'))
        if mode == 'eachobj':
            args = (elem,) if len(self.p.functions[tgt[0]]['params']) < 2 else (('key', over), elem)
        elif mode == 'each2':
            args = (('unk', 'acc'), elem)
        elif mode == 'each0':
            args = ()
        else:
            args = (elem,)
        iterev = self.mkev('iter', st, fi, n['l'], over=over, site=site)
        r = self.invoke(st, fi, i, n, tgt, args, None, ('hof', i), n['l'], resume=(st.block, st.idx, ('hof', i)))
        if r is None:
            return None
        outs.append((iterev, r[0][1]))
        return outs

    def do_visit(self, st, fr, fi, i, n, fn, argnodes):
        vn = argnodes[0]
        t = fi.nodes[fi.skip(vn)].get('t', '').replace('const ', '').rstrip('& ')
        this = self.ev(st, fi, vn)
        ms = [f for f in self.p.functions.values() if f.get('cls') == t and f['name'] == 'operator()' and f.get('cfg') and len(f['params']) == 1]
        fs = {f['file'] for f in ms}
        if len(fs) > 1:
            ms = [f for f in ms if f['file'] == fi.f['file']]
        outs = []
        for f in ms:
            s = st.copy()
            if not self.can_inline(s, f['key'], f):
                continue
            var = self.ev(s, fi, argnodes[1]) if len(argnodes) > 1 else ('unk', 0)
            alt = ('alt', var, f['params'][0]['t'] if f['params'] else '')
            bind = [(p['id'], alt) for p in f['params'][:1]]
            ev, s = self.enter(s, f['key'], this, bind, i, None, n['l'])[0]
            outs.append((ev, s))
        return outs or None

    def opaque_call(self, st, fr, fi, i, n, fn, qn, obj, argnodes, ucall=False):
        site = (fi.f['key'], i)
        args = self.argterms_of(st, fi, argnodes)
        self.g.ncalls += 1
        kind = 'ucall' if ucall else 'call'
        outs = []
        ev = self.mkev(kind, st, fi, n['l'], qn=qn, obj=obj, args=args, site=site, fnref=fn, node=i, virt=bool(n.get('vcall')))
        on = n.get('obj') if n['k'] == 'CXXMemberCallExpr' else (n['args'][0] if n['k'] == 'CXXOperatorCallExpr' and n.get('args') else n.get('callee'))
        ev.d['own'] = self.owning(st, fi, on) if on else False
        if self.captures:
            ev.d['args'] = tuple(self.resolved(st, a) for a in args)
        th = (fn is None or not fn.get('nx')) and self.throws(fn, kind)
        if th:
            s2 = st.copy()
            outs += self.unwind(s2, (th if isinstance(th, str) else '?', ()), i, first=self.mkev('thrown', s2, fi, n['l'], qn=qn, obj=obj, args=args, site=site, fnref=fn, ucall=ucall))
        if qn == 'std::rethrow_exception' or fn is not None and qn in ('boost::rethrow_exception', 'std::rethrow_if_nested'):
            s2 = st.copy()
            outs += self.unwind(s2, self.current_exc(s2), i, first=self.mkev('throw', s2, fi, n['l'], t='rethrow', site=site, rethrow=True))
            return outs
        if fn is not None and fn.get('noreturn'):
            outs.append((self.mkev('exit', st, fi, n['l'], how='noreturn'), None))
            return outs
        val = self.callterm(st, fi, i, n)
        ev.d['val'] = val
        self.invalidate_args(st, fi, n, argnodes, fn)
        if fn is not None and obj is not None and not fn.get('const') and not fn.get('static') and obj[0] != 'this':
            objn = n.get('obj') if n['k'] == 'CXXMemberCallExpr' else (n['args'][0] if n.get('args') else None)
            if not ITER_T.search((fn.get('cls') or '')):
                self.drop(st, obj)
        st.vals[(fr.ctx, i)] = val
        st.idx += 1
        p = fi.nodes.get(fi.parent.get(i))
        if p is not None and p['k'] == 'CompoundStmt':
            self.purge(st, fr.ctx)
        outs.append((ev, st))
        return outs

    def resolved(self, st, t, depth=6):
        """The term with what its lambdas capture by reference replaced by the values at this point."""
        if not isinstance(t, tuple) or not t or depth == 0:
            return t
        if t[0] == 'lambda':
            caps = []
            for vid, w in t[3]:
                if isinstance(w, tuple) and w and w[0] in ('refctx', 'refslot'):
                    v = self.rd(st, (w[1], vid) if w[0] == 'refctx' else w[1])
                    w = v if v is not None else w
                caps.append((vid, self.resolved(st, w, depth - 1)))
            return t[:3] + (tuple(caps),) + t[4:]
        return tuple(self.resolved(st, x, depth) if isinstance(x, tuple) else x for x in t)

    def copy_ev(self, st, fi, i, n, fn, argnodes, site):
        return self.mkev('copy', st, fi, n['l'], cls=fn.get('cls'), val=self.ev(st, fi, argnodes[0]) if argnodes else None, site=site,
                         move=bool(fn.get('move')), qn=fkey_name(fn['qn']), fnref=fn, prv=self.temporary(fi, argnodes[0]) if argnodes else False,
                         own=self.owning(st, fi, argnodes[0]) if argnodes else False)

    def temporary(self, fi, i):
        """Does this expression denote a temporary / prvalue (rather than an existing object)?"""
        n = fi.nodes.get(i)
        while n is not None:
            if n['k'] in ('MaterializeTemporaryExpr', 'CXXBindTemporaryExpr'):
                return True
            if n['k'] in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups') and n['c']:
                n = fi.nodes.get(n['c'][0])
                continue
            break
        return False

    def owning(self, st, fi, i):
        """Is the object named by this expression a local copy (not a reference to something shared)?"""
        j = fi.skip(i)
        n = fi.nodes[j]
        while n['k'] == 'CallExpr' and n.get('fn') and fkey_name(n['fn']['qn']) in TRANSPARENT_FN and n.get('args'):
            j = fi.skip(n['args'][0])
            n = fi.nodes[j]
        if n['k'] == 'DeclRefExpr' and n['d']['kind'] in ('var', 'parm'):
            d = fi.locals_decl.get(n['d']['id'])
            if d:
                v = d[1]
                return (not v.get('ref')) or bool(v.get('init') and self.temporary(fi, v['init']))
            for p in fi.f['params']:
                if p['id'] == n['d']['id']:
                    return not p['t'].endswith(('&', '*'))
            return False
        if n['k'] in ('MemberExpr',):
            return False
        return self.temporary(fi, i)

    def do_ctor(self, st, fr, fi, i, n):
        fn = n['fn']
        if (fr.ctx, i) in st.vals:
            return None
        site = (fi.f['key'], i)
        argnodes = list(n.get('args', ()))
        if n.get('elid') or fn.get('copy') or fn.get('move'):
            # copies and moves are transparent, but may throw
            if fn.get('copy') and not fn.get('nx') and self.throws(fn, 'copy'):
                s2 = st.copy()
                outs = self.unwind(s2, ('?', ()), i, first=self.mkev('thrown', s2, fi, n['l'], qn=fkey_name(fn['qn']), obj=None,
                                                                      args=self.argterms_of(st, fi, argnodes), site=site, fnref=fn))
                st.idx += 1
                return outs + [(self.copy_ev(st, fi, i, n, fn, argnodes, site), st)]
            if argnodes and not n.get('elid'):
                st.idx += 1
                return [(self.copy_ev(st, fi, i, n, fn, argnodes, site), st)]
            return None
        self.refresh_site(st, site)
        cls = fn.get('cls') or n.get('t') or ''
        base = fkey_name(cls)
        if LOCK_T.match(cls.replace('const ', '') if '<' in cls else cls + '<'):
            # a lock object: declared ones are handled by their DeclStmt; temporaries and returned ones here
            par = fi.parent.get(i)
            while par is not None and fi.nodes[par]['k'] in ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr',
                                                             'ImplicitCastExpr', 'CXXFunctionalCastExpr', 'CXXConstructExpr'):
                par = fi.parent.get(par)
            pk = fi.nodes[par]['k'] if par is not None else ''
            if pk == 'DeclStmt':
                return None
            m = self.lock_init(st, fi, i)
            if m in (None, 'default') or m[0] == 'deferred':
                return None
            before = st.locks
            if pk in ('ReturnStmt', 'InitListExpr'):
                st.locks = st.locks + (((0, ('retlock', i)), m),)
            else:
                bt = i
                p2 = fi.parent.get(i)
                while p2 is not None and fi.nodes[p2]['k'] != 'CXXBindTemporaryExpr':
                    p2 = fi.parent.get(p2)
                st.locks = st.locks + (((fr.ctx, ('tmp', p2)), m),)
            st.vals[(fr.ctx, i)] = ('lockvar', i, m)
            st.idx += 1
            return [(self.mkev('lock', st, fi, n['l'], mutex=m, held=before, site=site), st)]
        if base in ('std::thread', 'boost::thread') and argnodes:
            args = self.argterms_of(st, fi, argnodes)
            st.idx += 1
            st.vals[(fr.ctx, i)] = ('ctor', cls, args, site)
            return [(self.mkev('thread', st, fi, n['l'], args=args, site=site), st)]
        key = fn['key']
        if key in self.p.functions and self.can_inline(st, key, fn):
            f = self.p.functions[key]
            bind = self.bind_params(st, fi, f, argnodes)
            if any((x.get('deleg') or x.get('base')) and fi.skip(x['init']) == i for x in fi.f.get('inits') or ()):
                # delegating and base initialisers construct (part of) the same object
                return self.enter(st, key, fr.this, bind, i, None, n['l'])
            obj = self.ctorterm(st, fi, i, n)
            for k in [k for k in st.env if k[0] == 'field' and reaches(k, obj)]:
                del st.env[k]
            for c in [c for c in st.facts if contains(c, obj)]:
                del st.facts[c]
            return self.enter(st, key, obj, bind, i, None, n['l'])
        args = self.argterms_of(st, fi, argnodes)
        outs = []
        if not fn.get('nx') and self.throws(fn, 'ctor'):
            s2 = st.copy()
            outs += self.unwind(s2, ('?', ()), i, first=self.mkev('thrown', s2, fi, n['l'], qn=fkey_name(fn['qn']), obj=None, args=args, site=site, fnref=fn))
        ev = self.mkev('ctor', st, fi, n['l'], qn=fkey_name(fn['qn']), cls=cls, args=args, site=site, fnref=fn, obj=None)
        t = self.ctorterm(st, fi, i, n)
        ev.d['val'] = t
        self.invalidate_args(st, fi, n, argnodes, fn)
        if t[0] == 'ctor':
            st.vals[(fr.ctx, i)] = t
            for k in [k for k in st.env if k[0] == 'field' and reaches(k, t)]:
                del st.env[k]
        st.idx += 1
        outs.append((ev, st))
        return outs


# ===================================================================== product search
DEAD = ('DEAD',)   # what a monitor returns for a path that cannot be taken


def search(g, init, step, final=None, limit=400000):
    """Breadth-first product of the event graph with a monitor.

    step(state, ev) -> new state | ('BAD', message).  Returns (message, path of events) of the first violation
    or None; also the number of product states visited."""
    from collections import deque
    start = (g.start, init)
    par = {start: None}
    q = deque([start])
    n = 0
    while q:
        cur = q.popleft()
        node, ms = cur
        n += 1
        if n > limit:
            raise Budget('product too large')
        for ev, t in g.edges.get(node, ()):
            if ev is None:
                ns = ms
            else:
                ns = step(ms, ev)
                if isinstance(ns, tuple) and ns and ns[0] == 'BAD':
                    return (ns[1], path_to(par, cur) + [ev]), n
                if ns is DEAD:
                    continue
            if t == -1:
                continue
            k = (t, ns)
            if k not in par:
                par[k] = (cur, ev)
                q.append(k)
    return None, n


def path_to(par, cur):
    out = []
    while par[cur] is not None:
        cur, ev = par[cur][0], par[cur][1]
        if ev is not None:
            out.append(ev)
    out.reverse()
    return out
