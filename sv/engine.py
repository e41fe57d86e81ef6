"""Interprocedural property simulation (Das, Lerner, Seigle: ESP) over the
facts of the rustc driver.

A rule supplies a finite automaton; the engine propagates (program point,
automaton state) pairs through the control-flow graph of every function the
rule depends on, tracking for each pair one abstract environment (constants,
enum variants, access paths, facts learned on branches).  Environments are
joined when the automaton state and the constants of the live immutable
locals agree; calls are resolved through function summaries.  No path is
enumerated and no program code runs."""
import heapq
import zlib
from collections import defaultdict
from facts import rvalue_operands, rvalue_places, collect_adts

U = ('u',)
TRUE = ('i', 1)
FALSE = ('i', 0)
UNIT = ('t', ())
MAXD = 9


def some(x):
    return ('v', 'Option', 'Some', (('0', x),))


NONE = ('v', 'Option', 'None', ())


def ok(x):
    return ('v', 'Result', 'Ok', (('0', x),))


def err(x):
    return ('v', 'Result', 'Err', (('0', x),))


def depth(v):
    d = 0
    st = [(v, 1)]
    while st:
        x, k = st.pop()
        if k > d:
            d = k
        for y in x:
            if isinstance(y, tuple):
                st.append((y, k + 1))
    return d


def trunc(v, d):
    """bound the size of a value."""
    if d <= 0:
        if v[0] in ('t', 'arr', 'clo') or (v[0] == 'v' and v[3]):
            return U
        return v if depth(v) <= 16 else U
    t = v[0]
    if t in ('i', 's', 'b', 'fn', 'u', 'loc', 'arg', 'ph', 'k'):
        return v
    if t == 'v':
        return ('v', v[1], v[2], tuple((n, trunc(x, d - 1)) for n, x in v[3]))
    if t in ('t', 'arr'):
        return (t, tuple(trunc(x, d - 1) for x in v[1]))
    if t == 'clo':
        return ('clo', v[1], tuple(trunc(x, d - 1) for x in v[2]))
    # symbols keep their identity; their size is bounded where they are made
    return v if depth(v) <= 16 else U


_contains_cache = {}


def contains(k, x):
    """does value k mention x?"""
    if k == x:
        return True
    key = (k, x)
    r = _contains_cache.get(key)
    if r is not None:
        return r
    r = False
    for y in k:
        if isinstance(y, tuple) and contains(y, x):
            r = True
            break
    if len(_contains_cache) > 400000:
        _contains_cache.clear()
    _contains_cache[key] = r
    return r


_aged_cache = {}


def aged(v, s, o):
    if v == o:
        return v
    if v == s:
        return o
    if not contains(v, s):
        return v
    key = (v, s)
    r = _aged_cache.get(key)
    if r is None:
        r = tuple(aged(y, s, o) if isinstance(y, tuple) else y for y in v)
        if len(_aged_cache) > 200000:
            _aged_cache.clear()
        _aged_cache[key] = r
    return r


_fields_cache = {}


def fields_in(k):
    """set of field keys a value mentions."""
    r = _fields_cache.get(k)
    if r is not None:
        return r
    r = set()
    if k and k[0] == 'p':
        r.add(k[2])
    for y in k:
        if isinstance(y, tuple):
            r |= fields_in(y)
    r = frozenset(r)
    if len(_fields_cache) > 400000:
        _fields_cache.clear()
    _fields_cache[k] = r
    return r


def root(v):
    while v[0] in ('p', 'idx', 'old'):
        v = v[1]
    return v


def path_fields(v):
    """field keys of a path, outermost object first."""
    out = []
    while v[0] in ('p', 'idx', 'old', 'cidx'):
        if v[0] == 'p':
            out.append(v[2])
        v = v[1]
    return out[::-1]


def leaf(v):
    """last `ADT.field` of a path value, or None."""
    while v[0] in ('idx', 'old'):
        v = v[1]
    return v[2] if v[0] == 'p' else None


def is_const(v, d=2):
    t = v[0]
    if t in ('i', 's'):
        return True
    if t == 'v':
        return d > 0
    return False


def shape(v, d=2):
    """constant skeleton used to keep control-relevant values apart."""
    t = v[0]
    if t in ('i', 's', 'fn'):
        return v
    if t == 'v' and d > 0:
        return ('v', v[1], v[2], tuple((n, shape(x, d - 1)) for n, x in v[3]))
    if t == 't' and d > 0:
        return ('t', tuple(shape(x, d - 1) for x in v[1]))
    return '*'


class BodyInfo:
    """per-body precomputation: memory locals, liveness, reverse postorder."""

    def __init__(self, facts, b):
        self.b = b
        n = len(b.blocks)
        mut = set()
        complexl = set()
        for blk in b.blocks:
            if blk['x']:
                continue
            for s in blk['s']:
                if s[0] == '=':
                    if s[1][1]:
                        complexl.add(s[1][0])
                    rv = s[2]
                    if (rv[0] == 'ref' and rv[1]) or rv[0] == 'raw':
                        p = rv[2] if rv[0] == 'ref' else rv[1]
                        if not any(e[0] == '*' for e in p[1]):
                            mut.add(p[0])
                elif s[0] == 'sd':
                    complexl.add(s[1][0])
            t = blk['t']
            if t[0] == 'call' and t[3][1]:
                complexl.add(t[3][0])
        self.mut = mut
        self.complex = complexl | mut
        self.loc = [('loc', b.id, i) for i in range(len(b.locals))]
        self.scalars = {i for i, l in enumerate(b.locals) if l[0][0] == 'prim'}
        # liveness
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]

        def rd(i, place):
            if place[0] not in dfn[i]:
                use[i].add(place[0])
            for e in place[1]:
                if e[0] == 'i' and e[1] not in dfn[i]:
                    use[i].add(e[1])

        def wr(i, place):
            if place[1]:
                rd(i, place)
            else:
                dfn[i].add(place[0])

        for i, blk in enumerate(b.blocks):
            if blk['x']:
                continue
            for s in blk['s']:
                if s[0] == '=':
                    for p, _ in rvalue_places(s[2]):
                        rd(i, p)
                    wr(i, s[1])
                else:
                    rd(i, s[1])
            t = blk['t']
            if t[0] == 'switch':
                if t[1][0] in 'cm':
                    rd(i, t[1][1])
            elif t[0] == 'call':
                if t[1][0] in ('c', 'm'):
                    rd(i, t[1][1])
                for a in t[2]:
                    if a[0] in ('c', 'm'):
                        rd(i, a[1])
                wr(i, t[3])
            elif t[0] == 'assert':
                if t[1][0] in ('c', 'm'):
                    rd(i, t[1][1])
                for a in t[4]:
                    if a[0] in ('c', 'm'):
                        rd(i, a[1])
            elif t[0] == 'return':
                rd(i, [0, []])
        live = [set() for _ in range(n)]
        ch = True
        order = list(range(n))[::-1]
        while ch:
            ch = False
            for i in order:
                if b.blocks[i]['x']:
                    continue
                o = set()
                for s in b.succs[i]:
                    o |= live[s]
                l = use[i] | (o - dfn[i])
                if l != live[i]:
                    live[i] = l
                    ch = True
        self.live = [frozenset(l | mut) for l in live]
        # address-taken (shared) locals whose references may outlive: handled by value
        # rpo
        seen = set()
        post = []
        st = [(0, iter(b.succs[0]))]
        seen.add(0)
        while st:
            x, it = st[-1]
            adv = False
            for y in it:
                if y not in seen and not b.blocks[y]['x']:
                    seen.add(y)
                    st.append((y, iter(b.succs[y])))
                    adv = True
                    break
            if not adv:
                post.append(x)
                st.pop()
        self.rpo = {}
        for i, x in enumerate(reversed(post)):
            self.rpo[x] = i
        # partition locals: immutable or unnamed locals of bool / enum type
        self.part = []
        for i, l in enumerate(b.locals):
            ty, name, m = l[0], l[1], l[2]
            if i > b.argc and name is not None and m:
                continue
            if ty[0] == 'prim' and ty[1] == 'bool':
                self.part.append(i)
            elif ty[0] == 'adt':
                a = facts.adts.get(ty[1])
                if a and a['enum']:
                    self.part.append(i)
                elif ty[1] in ('std::option::Option', 'std::result::Result', 'std::ops::ControlFlow'):
                    self.part.append(i)
        self.part = set(self.part)


def tr0(k):
    return (k.get('trait') or '').rsplit('::', 1)[-1] in ('Fn', 'FnMut', 'FnOnce')


class Ctx:
    __slots__ = ('bid', 'st', 'args', 'envs', 'exits', 'deps', 'depth', 'nparts', 'cfacts')

    def __init__(self, bid, st, args, depth, cfacts=()):
        self.bid = bid
        self.st = st
        self.args = args
        self.envs = {}
        self.exits = {}
        self.deps = set()
        self.depth = depth
        self.nparts = defaultdict(int)
        self.cfacts = cfacts


class Rule:
    """default hooks; a rule overrides what it needs."""
    opaque = ('CompilerState',)     # aggregates kept as locations from the start
    small = 60          # analyse unrelated callees up to this many blocks

    def relevant(self, facts):
        """ids of bodies that contain something the rule looks at."""
        return set()

    def on_agg(self, E, c, m, st, v, line):
        return st

    def on_arr(self, E, c, m, st, v, line):
        return st

    def on_store(self, E, c, m, st, loc, v, line):
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        """before the call; name is the canonical callee. Return None (go on),
        ('state', s) to go on in another state, or a list of (state, value) to
        replace the call."""
        return None

    def after_call(self, E, c, m, st, name, k, args, ret, line):
        return st

    def on_branch(self, E, c, m, st, cond, val, line):
        """val: the switch value, or ('not', frozenset). None = infeasible."""
        return st

    def on_return(self, E, c, m, st, v, line):
        return st

    def on_assert(self, E, c, m, st, kind, ops, line):
        return st

    split_max = 3

    def split_on(self, body):
        """integer locals whose values 0 to 3 are kept apart."""
        return ()

    def carry(self, k, v):
        """pass this caller fact into callees? True: when an argument mentions
        its subject; 'always'."""
        return False


# methods that change elements but not the length
KEEPS_LEN = ('index_mut', 'get_mut', 'deref_mut', 'iter_mut', 'last_mut', 'first_mut', 'as_mut_slice', 'swap', 'into_iter',
             'split_at_mut', 'sort', 'reverse', 'fill', 'as_mut')


class Engine:
    def __init__(self, facts, rule, roots, state0, maxargs=1500):
        self.F = facts
        self.rule = rule
        self.reports = {}
        self.info = {}
        self.ctxs = {}
        self.perbody = defaultdict(int)
        self.wl = []
        self.wlset = set()
        self.seq = 0
        self.maxargs = maxargs
        self.steps = 0
        self.promoted = {}
        self.adt_of = {}     # symbol -> enum it was found to be
        self.visited_fns = set()
        rel = rule.relevant(facts)
        self.rel = facts.reach_back(rel) if rel else set()
        self.smallc = {}
        self.rootctx = []
        self.collapsed = set()
        for bid in roots:
            b = facts.bodies[bid]
            args = tuple(('arg', bid, i) for i in range(b.argc))
            self.rootctx.append(self.ctx(bid, state0, args, 0))

    # ------------------------------------------------------------------
    def bi(self, bid):
        i = self.info.get(bid)
        if i is None:
            i = self.info[bid] = BodyInfo(self.F, self.F.bodies[bid])
        return i

    def report(self, key, fn, line, msg):
        self.reports.setdefault(key, (fn, line, msg))

    def analyse(self, bid):
        """should this callee be analysed (rather than havocked)?"""
        if bid in self.rel:
            return True
        r = self.smallc.get(bid)
        if r is None:
            rs = self.F.reach([bid])
            r = sum(self.F.bodies[x].nblocks for x in rs) <= self.rule.small
            self.smallc[bid] = r
        return r

    def ctx(self, bid, st, args, depth, cfacts=()):
        args = tuple(trunc(a, 5) for a in args)
        key = (bid, st, args, cfacts)
        c = self.ctxs.get(key)
        if c is None:
            if self.perbody[bid] > self.maxargs:
                self.collapsed.add(bid)
                args = tuple(a if a[0] in ('i', 'clo', 'fn') else ('arg', bid, i) for i, a in enumerate(args))
                key = (bid, st, args, ())
                c = self.ctxs.get(key)
                if c is not None:
                    return c
            self.perbody[bid] += 1
            c = self.ctxs[key] = Ctx(bid, st, args, depth, key[3])
            self.visited_fns.add(bid)
            info = self.bi(bid)
            m = dict(cfacts) if key[3] else {}
            for i, a in enumerate(args):
                m[info.loc[i + 1]] = a
            self.flow(c, 0, st, m)
        return c

    def run(self, maxsteps=400000):
        while self.wl:
            _, _, _, c, key = heapq.heappop(self.wl)
            self.wlset.discard((id(c), key))
            self.steps += 1
            if self.steps > maxsteps and self.reports:
                # the states multiply because obligations stay open: what was found says so
                return self
            if self.steps > maxsteps:
                raise RuntimeError('engine step limit in %s' % self.F.bodies[c.bid].canon)
            self.block(c, key)
        return self

    def push(self, c, key):
        if (id(c), key) in self.wlset:
            return
        self.wlset.add((id(c), key))
        self.seq += 1
        heapq.heappush(self.wl, (-c.depth, self.bi(c.bid).rpo.get(key[0], 0), self.seq, c, key))

    def flow(self, c, blk, st, m):
        info = self.bi(c.bid)
        live = info.live[blk]
        # prune dead registers and facts about them
        nm = {}
        bid = c.bid
        for k, v in m.items():
            if k[0] == 'loc' and k[1] == bid:
                if k[2] in live:
                    nm[k] = v
            else:
                r = root(k)
                if r[0] == 'loc' and r[1] == bid and r[2] not in live:
                    continue
                nm[k] = v
        pk = []
        for i in info.part:
            if i in live:
                v = nm.get(info.loc[i])
                if v is not None and is_const(v):
                    pk.append((i, shape(v)))
        for i in self.rule.split_on(self.F.bodies[bid]):
            if i in live:
                v = nm.get(info.loc[i])
                if v is not None and v[0] == 'i' and 0 <= v[1] <= self.rule.split_max:
                    pk.append((i, v))
        pk.sort(key=lambda x: x[0])
        key = (blk, st, tuple(pk))
        if key not in c.envs:
            if c.nparts[(blk, st)] > 250:
                key = (blk, st, 'over')
            else:
                c.nparts[(blk, st)] += 1
        old = c.envs.get(key)
        if old is None:
            c.envs[key] = nm
            self.push(c, key)
            return
        # join
        changed = False
        new = {}
        phis = []
        for k, v in old.items():
            w = nm.get(k)
            if w == v:
                new[k] = v
            elif k[0] == 'loc' and k[1] == bid:
                if w is None:
                    continue
                j = join_tree(v, w, ('ph', bid, blk, k[2]), phis)
                new[k] = j
                if j != v:
                    changed = True
            else:
                changed = True
        if phis:
            for k in [k for k in new if any(contains(k, p) for p in phis)]:
                del new[k]
        if changed:
            c.envs[key] = new
            self.push(c, key)

    # ------------------------------------------------------------------ memory
    def read(self, m, loc):
        v = m.get(loc)
        if v is not None:
            return v
        t = loc[0]
        if t == 'p':
            b = loc[1]
            if b[0] in ('loc', 'p', 'idx', 'v', 't', 'try'):
                bv = self.read(m, b)
                if bv != b or b[0] in ('v', 't', 'try'):
                    r = self.project(bv, loc[2])
                    return m.get(r, r)
            return loc
        if t == 'idx':
            b = loc[1]
            bv = self.read(m, b) if b[0] in ('loc', 'p', 'idx') else b
            if bv[0] == 'arr' and loc[2][0] == 'i' and -len(bv[1]) <= loc[2][1] < len(bv[1]):
                return bv[1][loc[2][1]]
            if bv != b:
                r = ('idx', bv, loc[2])
                return m.get(r, r)
            return loc
        return loc

    def project(self, v, key):
        t = v[0]
        if t == 'v':
            o, n = key.rsplit('.', 1)
            if v[1] == 'Box' or o in ('Box', 'Unique', 'NonNull'):
                return v
            if '::' in o and v[2] != v[1].rsplit('::', 1)[-1] and not o.endswith('::' + v[2]) and o != v[1]:
                return U
            for fn, x in v[3]:
                if fn == n:
                    return x
            return U
        if t == 't':
            n = key.rsplit('.', 1)[1]
            if n.isdigit() and int(n) < len(v[1]):
                return v[1][int(n)]
            return U
        if t == 'clo':
            n = key.rsplit('.', 1)[1]
            if n.isdigit() and int(n) < len(v[2]):
                return v[2][int(n)]
            return U
        if t == 'try':
            if key.startswith('ControlFlow::Continue'):
                return ('p', v[1], v[2] + ('::Ok.0' if v[2] == 'Result' else '::Some.0'))
            return ('resid', v[1], v[2])
        if t in ('u', 'i', 's', 'b', 'fn'):
            if key.startswith(('Box.', 'Unique.', 'NonNull.')):
                return v
            return U
        if key.startswith(('Box.', 'Unique.', 'NonNull.')):
            return v
        r = ('p', v, key)
        if len(path_fields(r)) > 12 or depth(r) > 14:
            return U
        return r

    def loc_of(self, c, m, place):
        info = self.bi(c.bid)
        cur = info.loc[place[0]]
        for e in place[1]:
            k = e[0]
            if k == '*':
                cur = self.read(m, cur)
            elif k == 'f':
                key = (self.F.owner(e[3]) + '.' + e[2]) if e[3] and e[3] not in self.F.bodies else '.' + str(e[1])
                if key.startswith(('Box.', 'Unique.', 'NonNull.')):
                    cur = self.read(m, cur)
                    continue
                if cur[0] in ('v', 't', 'clo', 'try', 'u', 'i', 's', 'b'):
                    cur = self.project(cur, key)
                else:
                    n = ('p', cur, key)
                    if depth(n) > 14:
                        n = U
                    cur = n
            elif k == 'i':
                cur = ('idx', cur, self.read(m, info.loc[e[1]]))
            elif k == 'ci':
                cur = ('idx', cur, ('i', -e[1] if e[2] else e[1]))
        return cur

    def kill_under(self, m, loc):
        for k in [k for k in m if k != loc and (k[0] != 'loc') and contains(k, loc)]:
            del m[k]

    def kill_fields(self, m, W):
        if not W:
            return
        for k in [k for k in m if k[0] != 'loc' and not W.isdisjoint(fields_in(k))]:
            del m[k]

    def age_fields(self, c, m, W):
        """numbers and booleans read from fields that a callee may write are former values"""
        if not W:
            return
        bi = self.bi(c.bid)
        for k, x in m.items():
            if k[0] == 'loc' and k[1] == c.bid and len(k) == 3 and k[2] in bi.scalars and not W.isdisjoint(fields_in(x)):
                m[k] = aged_fields(x, W)

    def write(self, c, m, loc, v):
        if loc[0] == 'loc':
            if loc[1] == c.bid and loc[2] not in self.bi(c.bid).complex:
                m[loc] = v
                return
            self.kill_under(m, loc)
            m[loc] = v
            return
        r = root(loc)
        self.kill_under(m, loc)
        if loc[0] == 'p':
            # numbers and booleans copied from here keep the former value
            o = ('old', loc)
            bi = self.bi(c.bid)
            for k in [k for k in m if k[0] != 'loc' and contains(k, o)]:
                del m[k]
            for k, x in m.items():
                if k[0] == 'loc' and k[1] == c.bid and len(k) == 3 and k[2] in bi.scalars and contains(x, loc):
                    m[k] = aged(x, loc, o)
        if loc[0] == 'p' and r[0] != 'loc':
            f = loc[2]
            for k in [k for k in m if k[0] != 'loc' and k != loc and f in fields_in(k)]:
                del m[k]
        if loc[0] in ('u', 'i', 's', 'b', 'v', 't'):
            return
        m[loc] = v

    def kill_symbol(self, m, s):
        """s is about to denote a new value: forget what is known of it, and
        what still holds the former one holds an old value."""
        o = ('old', s)
        for k in [k for k in m if k[0] != 'loc' and contains(k, s)]:
            del m[k]
        for k, v in m.items():
            if contains(v, s):
                m[k] = aged(v, s, o)

    # ------------------------------------------------------------------ values
    def const(self, k):
        if 'int' in k or 'enumint' in k:
            return ('i', int(k.get('int', k.get('enumint'))))
        if 'str' in k:
            return ('s', k['str'])
        if 'bytes' in k:
            return ('b', k['bytes'])
        if 'promoted' in k:
            return self.eval_const_body(k['promoted'])
        if 'fn' in k:
            lid, name = self.F.callee(k)
            return ('fn', lid or name, k.get('ctor', 0))
        if 'item' in k and k['item'] in self.F.bodies:
            return self.eval_const_body(k['item'])
        if 'fbits' in k:
            return ('k', 'f', k['fbits'])
        t = k.get('ty')
        if t == ['tuple', []]:
            return UNIT
        return ('k', k.get('item', ''), str(t)[:60])

    def eval_const_body(self, bid):
        v = self.promoted.get(bid)
        if v is not None:
            return v
        self.promoted[bid] = U
        b = self.F.bodies.get(bid)
        if b is None:
            return U
        c = Ctx(bid, None, (), 0)
        m = {}
        blk = 0
        for _ in range(60):
            for s in b.blocks[blk]['s']:
                if s[0] == '=':
                    self.write(c, m, self.loc_of(c, m, s[1]), self.rvalue(c, m, s[2]))
            t = b.blocks[blk]['t']
            if t[0] == 'return':
                v = self.read(m, ('loc', bid, 0))
                break
            if t[0] in ('goto',):
                blk = t[1]
            elif t[0] == 'assert':
                blk = t[5]
            elif t[0] == 'call' and t[4] is not None:
                args = [self.operand(c, m, a) for a in t[2]]
                _, name = self.F.callee(t[1][1]) if t[1][0] == 'k' else (None, '?')
                self.write(c, m, self.loc_of(c, m, t[3]), ('call', name, tuple(args), None))
                blk = t[4]
            else:
                v = U
                break
        self.promoted[bid] = v or U
        return self.promoted[bid]

    def operand(self, c, m, o):
        if o[0] == 'k':
            return self.const(o[1])
        return self.read(m, self.loc_of(c, m, o[1]))

    def discr(self, m, v, adt=None):
        t = v[0]
        if t == 'v':
            if v[1] == 'Option':
                return ('i', 1 if v[2] == 'Some' else 0)
            if v[1] == 'Result':
                return ('i', 1 if v[2] == 'Err' else 0)
            if v[1] == 'ControlFlow':
                return ('i', 1 if v[2] == 'Break' else 0)
            a = self.F.adt_by_short.get(v[1])
            if a:
                for x in a['variants']:
                    if x['name'] == v[2]:
                        return ('i', int(x['discr']))
            return U
        if t == 'try':
            d = self.discr(m, v[1])
            if v[2] == 'Result':
                return d
            if d[0] == 'i':
                return ('i', 1 - d[1])
            return ('un', 'Not', d)
        if t == 'u':
            return U
        s = ('discr', v)
        return m.get(s, s)

    def binop(self, m, op, a, b):
        if op.endswith('WithOverflow'):
            return ('t', (self.binop(m, op[:-12], a, b), U))
        if op.endswith('Unchecked'):
            op = op[:-9]
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            try:
                r = {'Eq': lambda: int(x == y), 'Ne': lambda: int(x != y), 'Lt': lambda: int(x < y),
                     'Le': lambda: int(x <= y), 'Gt': lambda: int(x > y), 'Ge': lambda: int(x >= y),
                     'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y,
                     'BitXor': lambda: x ^ y, 'BitAnd': lambda: x & y, 'BitOr': lambda: x | y}[op]()
                return ('i', r)
            except KeyError:
                pass
        if op == 'BitXor':
            if b == FALSE:
                return a
            if a == FALSE:
                return b
            if b == TRUE:
                return self.neg(m, a)
            if a == TRUE:
                return self.neg(m, b)
        if op in ('Eq', 'Ne'):
            r = self.const_eq(a, b)
            if r is not None:
                return ('i', int(r if op == 'Eq' else not r))
            # unit enum constants are compared through the discriminant
            if b[0] == 'v' and not b[3]:
                d = self.discr(m, a)
                e = self.discr(m, b)
                if d[0] == 'i' and e[0] == 'i':
                    return ('i', int((d[1] == e[1]) == (op == 'Eq')))
                nes = m.get(('ne', d))
                if nes and e[0] == 'i' and e[1] in nes:
                    return ('i', int(op == 'Ne'))
            elif a[0] == 'v' and not a[3]:
                return self.binop(m, op, b, a)
            if op == 'Eq' and b == TRUE:
                return a
        if a == U and b == U:
            return U
        r = ('bin', op, a, b)
        if depth(r) > 14:
            return U
        return m.get(r, r)

    def const_eq(self, a, b):
        if a[0] == 'i' and b[0] == 'i':
            return a[1] == b[1]
        if a[0] == 's' and b[0] == 's':
            return a[1] == b[1]
        if a[0] == 'v' and b[0] == 'v' and a[1] == b[1]:
            if a[2] != b[2]:
                return False
            if len(a[3]) == len(b[3]):
                res = True
                for (n, x), (_, y) in zip(a[3], b[3]):
                    r = self.const_eq(x, y)
                    if r is False:
                        return False
                    if r is None:
                        res = None
                return res
        return None

    def neg(self, m, a):
        if a[0] == 'i':
            return ('i', 0 if a[1] else 1)
        if a[0] == 'un' and a[1] == 'Not':
            return a[2]
        if a == U:
            return U
        r = ('un', 'Not', a)
        return m.get(r, r)

    def rvalue(self, c, m, rv):
        k = rv[0]
        if k == 'use':
            return self.operand(c, m, rv[1])
        if k == 'repeat':
            return ('rep', self.operand(c, m, rv[1]))
        if k == 'ref':
            p = rv[2]
            hasd = any(e[0] == '*' for e in p[1])
            if hasd or rv[1]:
                return self.loc_of(c, m, p)
            if p[0] in self.bi(c.bid).mut:
                return self.loc_of(c, m, p)
            return self.read(m, self.loc_of(c, m, p))
        if k == 'raw':
            return self.loc_of(c, m, rv[1])
        if k == 'cast':
            return self.operand(c, m, rv[2])
        if k == 'bin':
            return self.binop(m, rv[1], self.operand(c, m, rv[2]), self.operand(c, m, rv[3]))
        if k == 'un':
            a = self.operand(c, m, rv[2])
            if rv[1] == 'Not':
                return self.neg(m, a)
            if rv[1] == 'Neg' and a[0] == 'i':
                return ('i', -a[1])
            if rv[1] == 'PtrMetadata':
                r = ('call', 'len', (a,), None)
                return m.get(r, r)
            return ('un', rv[1], a)
        if k == 'discr':
            v = self.read(m, self.loc_of(c, m, rv[1]))
            if rv[2]:
                self.adt_of[v] = self.F.short(rv[2])
            return self.discr(m, v)
        if k == 'agg':
            ops = [trunc(self.operand(c, m, o), MAXD) for o in rv[5]]
            if rv[1] == 'adt':
                return ('v', self.F.short(rv[2]), rv[3], tuple(zip(rv[4], ops)))
            if rv[1] == 'tuple':
                return ('t', tuple(ops))
            if rv[1] == 'array':
                return ('arr', tuple(ops)) if len(ops) <= 64 else U
            if rv[1] == 'closure':
                return ('clo', rv[2], tuple(ops))
        return U

    # ------------------------------------------------------------------ blocks
    def block(self, c, key):
        blk, st, _ = key
        self.cur = blk
        m = dict(c.envs[key])
        b = self.F.bodies[c.bid]
        B = b.blocks[blk]
        R = self.rule
        for s in B['s']:
            if s[0] == '=':
                rv = s[2]
                v = trunc(self.rvalue(c, m, rv), MAXD)
                if rv[0] == 'agg' and rv[1] == 'adt':
                    st = R.on_agg(self, c, m, st, v, s[3])
                    if st is None:
                        return
                elif rv[0] == 'agg' and rv[1] == 'array':
                    st = R.on_arr(self, c, m, st, v, s[3])
                loc = self.loc_of(c, m, s[1])
                if s[1][1]:
                    st = R.on_store(self, c, m, st, loc, v, s[3])
                    if st is None:
                        return
                if v[0] == 'v' and v[1] in R.opaque and loc[0] == 'loc':
                    self.kill_under(m, loc)
                    m.pop(loc, None)
                    continue
                self.write(c, m, loc, v)
            elif s[0] == 'sd':
                loc = self.loc_of(c, m, s[1])
                self.kill_under(m, loc)
                m.pop(loc, None)
                m[('discr', loc)] = ('i', s[2])
        t = B['t']
        k = t[0]
        if k == 'goto':
            self.flow(c, t[1], st, m)
        elif k == 'drop':
            self.flow(c, t[2], st, m)
        elif k == 'return':
            v = trunc(self.read(m, ('loc', c.bid, 0)), 6)
            st = R.on_return(self, c, m, st, v, B['l'])
            if st is not None:
                self.exit(c, st, v, m)
        elif k == 'switch':
            self.switch(c, m, st, t, B['l'])
        elif k == 'assert':
            cv = self.operand(c, m, t[1])
            st = R.on_assert(self, c, m, st, t[3], [self.operand(c, m, o) for o in t[4]], B['l'])
            if st is not None:
                self.flow(c, t[5], st, m)
        elif k == 'call':
            for st2, v, m2 in self.call(c, key, m, st, t, B['l']):
                if t[4] is None:
                    continue
                loc = self.loc_of(c, m2, t[3])
                v = trunc(v, MAXD)
                if t[3][1]:
                    st2 = R.on_store(self, c, m2, st2, loc, v, B['l'])
                    if st2 is None:
                        continue
                self.write(c, m2, loc, v)
                self.flow(c, t[4], st2, m2)

    def assume(self, m, cond, val):
        """record cond == val (int) in m; False if contradictory."""
        t = cond[0]
        if t == 'i':
            return cond[1] == val
        if t == 'un' and cond[1] == 'Not':
            if val in (0, 1):
                return self.assume(m, cond[2], 1 - val)
        old = m.get(cond)
        if old is not None and old[0] == 'i':
            if old[1] != val:
                return False
        nes = m.get(('ne', cond))
        if nes and val in nes:
            return False
        if cond != U:
            m[cond] = ('i', val)
        if t == 'bin' and cond[1] in ('Eq', 'Ne') and val in (0, 1):
            eq = (cond[1] == 'Eq') == (val == 1)
            a, b = cond[2], cond[3]
            if a[0] in ('i', 's') or (a[0] == 'v' and not a[3]):
                a, b = b, a
            if b[0] == 'i':
                if eq:
                    return self.assume(m, a, b[1])
                return self.exclude(m, a, {b[1]})
            if b[0] == 'v' and not b[3]:
                d = self.discr(m, b)
                if d[0] == 'i':
                    a2 = self.discr(m, a)
                    if eq:
                        return self.assume(m, a2, d[1])
                    return self.exclude(m, a2, {d[1]})
        return True

    def exclude(self, m, cond, vals):
        if cond[0] == 'i':
            return cond[1] not in vals
        if cond[0] == 'un' and cond[1] == 'Not' and len(vals) == 1:
            v = next(iter(vals))
            if v in (0, 1):
                return self.assume(m, cond[2], v)
        if cond == U:
            return True
        k = ('ne', cond)
        old = m.get(k)
        s = set(old[1:]) if old else set()
        s |= vals
        m[k] = ('ne!',) + tuple(sorted(s))
        return True

    def switch(self, c, m, st, t, line):
        v = self.operand(c, m, t[1])
        R = self.rule
        isbool = t[4] == ['prim', 'bool']
        if v[0] == 'i':
            tgt = t[3]
            for val, b in t[2]:
                if val == v[1]:
                    tgt = b
                    break
            self.flow(c, tgt, st, m)
            return
        vals = [val for val, _ in t[2]]
        nes = m.get(('ne', v))
        nes = set(nes[1:]) if nes else set()
        for val, b in t[2]:
            if val in nes:
                continue
            m2 = dict(m)
            if not self.assume(m2, v, val):
                continue
            st2 = self.branch(c, m2, st, v, val, line)
            if st2 is None:
                continue
            self.flow(c, b, st2, m2)
        # otherwise
        ob = self.F.bodies[c.bid].blocks[t[3]]
        if ob['t'][0] == 'unreachable':
            return
        two = isbool or self.two_valued(v)
        if two and len(vals) == 1 and vals[0] in (0, 1):
            o = 1 - vals[0]
            if o in nes:
                return
            m2 = dict(m)
            if not self.assume(m2, v, o):
                return
            st2 = self.branch(c, m2, st, v, o, line)
            if st2 is not None:
                self.flow(c, t[3], st2, m2)
            return
        m2 = dict(m)
        rest = self.remaining(v, set(vals) | nes)
        if rest is not None:
            if not rest:
                return
            if len(rest) == 1:
                o = rest[0]
                if not self.assume(m2, v, o):
                    return
                st2 = self.branch(c, m2, st, v, o, line)
                if st2 is not None:
                    self.flow(c, t[3], st2, m2)
                return
        if not self.exclude(m2, v, set(vals)):
            return
        st2 = self.branch(c, m2, st, v, ('not', frozenset(vals) | nes), line)
        if st2 is not None:
            self.flow(c, t[3], st2, m2)

    def branch(self, c, m, st, cond, val, line):
        """the rule's on_branch, with negations and comparisons to a variant undone."""
        while cond[0] == 'un' and cond[1] == 'Not' and val in (0, 1):
            cond, val = cond[2], 1 - val
        if cond[0] == 'bin' and cond[1] in ('Eq', 'Ne') and val in (0, 1):
            a, b = cond[2], cond[3]
            if a[0] == 'v' and not a[3]:
                a, b = b, a
            if b[0] == 'v' and not b[3] and a[0] != 'v':
                d = self.discr({}, b)
                if d[0] == 'i':
                    d = d[1]
                    self.adt_of.setdefault(a, b[1])
                    eq = (cond[1] == 'Eq') == (val == 1)
                    return self.rule.on_branch(self, c, m, st, ('discr', a), d if eq else ('not', frozenset({d})), line)
        return self.rule.on_branch(self, c, m, st, cond, val, line)

    def remaining(self, v, excluded):
        """the variants of the enum behind a discriminant that are left."""
        if v[0] != 'discr':
            return None
        a = self.F.adt_by_short.get(self.adt_of.get(v[1]))
        if not a:
            return None
        return [int(x['discr']) for x in a['variants'] if int(x['discr']) not in excluded]

    def two_valued(self, v):
        if v[0] == 'discr':
            x = v[1]
            if x[0] == 'p':
                return False
            return False
        return v[0] in ('un', 'bin') and v[1] in ('Not', 'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge')

    def exit(self, c, st, v, m):
        if c.bid == c.args:
            return
        sh = (st, shape(v, 3))
        # facts visible to the caller
        own = c.bid
        fx = {}
        for k, x in m.items():
            if k[0] == 'loc' and k[1] == own:
                continue
            if mentions_frame(k, own) or mentions_frame(x, own):
                continue
            fx[k] = x
        old = c.exits.get(sh)
        if old is None:
            c.exits[sh] = (v, fx)
            self.wake(c)
            return
        ov, ofx = old
        nv = ov if ov == v else self.join_val(ov, v, c.bid)
        nfx = {k: x for k, x in ofx.items() if fx.get(k) == x}
        if nv != ov or len(nfx) != len(ofx):
            c.exits[sh] = (nv, nfx)
            self.wake(c)

    def join_val(self, a, b, bid):
        return join_tree(a, b, ('ph', bid, -1, 0), [])

    def wake(self, c):
        for d in list(c.deps):
            self.push(d[0], d[1])

    # ------------------------------------------------------------------ calls
    def optype(self, c, o):
        if o[0] == 'k':
            return o[1].get('ty')
        p = o[1]
        if not p[1]:
            return self.F.bodies[c.bid].locals[p[0]][0]
        return None

    def dest_type(self, c, t):
        if not t[3][1]:
            return self.F.bodies[c.bid].locals[t[3][0]][0]
        return None

    callee_name = ''

    def call(self, c, key, m, st, t, line):
        f = t[1]
        args = [self.operand(c, m, a) for a in t[2]]
        R = self.rule
        dty = self.dest_type(c, t)
        site = (c.bid, key[0])
        if f[0] != 'k' or 'fn' not in f[1]:
            fv = self.operand(c, m, f)
            if fv[0] == 'fn' and fv[1] in self.F.bodies:
                return self.invoke(c, key, m, st, fv[1], args, t, line, {}, dty)
            r = R.on_call(self, c, m, st, '<indirect>', {'fnv': fv}, args, line)
            if r is not None:
                return [(s, v, m) for s, v in r]
            return [(st, ('call', '<indirect>', tuple(args), site), m)]
        k = f[1]
        if k.get('ctor'):
            p = k['fn']
            last = p.split('::')[-1]
            if last in ('Some', 'Ok', 'Err'):
                v = {'Some': some, 'Ok': ok, 'Err': err}[last](args[0])
            else:
                v = self.ctor(p, args)
            st = R.on_agg(self, c, m, st, v, line)
            return [(st, v, m)] if st is not None else []
        lid, name = self.F.callee(k)
        if lid is not None:
            b = self.F.bodies[lid]
            name = b.canon
            if b.kind == 'closure' and tr0(k) and len(args) == 2:
                # the arguments of a closure come as one tuple
                tv = self.read(m, args[1]) if args[1][0] in ('loc', 'p', 'idx') else args[1]
                n = b.argc - 1
                args = [self.read(m, args[0]) if args[0][0] == 'loc' else args[0]] + (
                    list(tv[1]) if tv[0] == 't' and len(tv[1]) == n else [U] * n)
        # derived / std comparison traits
        tr = k.get('trait')
        meth = k['fn'].rsplit('::', 1)[-1]
        if lid is not None and self.F.bodies[lid].derived and tr in ('std::cmp::PartialEq', 'std::cmp::PartialOrd', 'std::clone::Clone', 'std::default::Default', 'std::hash::Hash', 'std::fmt::Debug', 'std::cmp::Ord'):
            name = tr + '::' + meth
            lid = None
        r = R.on_call(self, c, m, st, name, k, args, line)
        if r is not None:
            if r[0] == 'state':
                st = r[1]
            elif r[0] == 'states':
                out = []
                for s in r[1]:
                    out += self.dispatch(c, key, dict(m), s, t, line, k, lid, name, meth, args, dty, site)
                return out
            else:
                return [(s, v, m) for s, v in r]
        return self.dispatch(c, key, m, st, t, line, k, lid, name, meth, args, dty, site)

    def dispatch(self, c, key, m, st, t, line, k, lid, name, meth, args, dty, site):
        tr = k.get('trait')
        self.callee_name = meth
        if lid is not None:
            return self.after(c, key, self.invoke(c, key, m, st, lid, args, t, line, k, dty), name, k, args, line)
        h = SPECIAL.get(name)
        if h is None and k.get('local') and tr:
            # unresolved call of a local trait method: every implementation
            impls = self.F.trait_impls.get((tr, meth), [])
            res = []
            for i in impls:
                res += self.invoke(c, key, dict(m), st, i, args, t, line, k, dty)
            if impls:
                return self.after(c, key, res, name, k, args, line)
        if h is not None:
            out = h(self, c, key, m, st, args, k, dty, site, t, line)
            if out is not None:
                return self.after(c, key, out, name, k, args, line)
        # closures given to external combinators may run any number of times
        clos = [a for a in args if a[0] == 'clo' or (a[0] == 'fn' and a[1] in self.F.bodies)]
        states = [(st, m)]
        for a in clos:
            states = self.run_many(c, key, states, a, t, line)
        out = []
        for st2, m2 in states:
            out += self.ext_default(c, m2, st2, name, args, t, site)
        return self.after(c, key, out, name, k, args, line)

    def after(self, c, key, res, name, k, args, line):
        if type(self.rule).after_call is Rule.after_call:
            return res
        out = []
        for st, v, m in res:
            s = self.rule.after_call(self, c, m, st, name, k, args, v, line)
            if s is not None:
                out.append((s, v, m))
        return out

    def ctor(self, p, args):
        a, v = p.rsplit('::', 1)
        if a in self.F.adts and self.F.adts[a]['enum']:
            return ('v', self.F.short(a), v, tuple((str(i), x) for i, x in enumerate(args)))
        return ('v', self.F.short(p), v, tuple((str(i), x) for i, x in enumerate(args)))

    def ext_default(self, c, m, st, name, args, t, site):
        hasmut = False
        for a, o in zip(args, t[2]):
            ty = self.optype(c, o)
            if ty and ty[0] == 'ref' and ty[1]:
                hasmut = True
                self.havoc_loc(c, m, a)
        if hasmut or not args:
            s = ('call', name, tuple(trunc(a, 5) for a in args), site)
            self.kill_symbol(m, s)
        else:
            s = ('call', name, tuple(trunc(a, 5) for a in args), None)
            s = m.get(s, s)
        return [(st, s, m)]

    def stale(self, m, a):
        """what was taken for the length of `a` is that of its former value."""
        if self.callee_name in KEEPS_LEN:
            return
        for k, v in m.items():
            w = v[2] if v[0] == 'bin' else v
            if w[0] == 'call' and w[1] == 'len' and w[2] and contains(w[2][0], a):
                m[k] = ('old', v)

    def havoc_loc(self, c, m, a, keepval=False):
        self.stale(m, a)
        if a[0] in ('loc', 'p', 'idx', 'arg', 'old'):
            self.kill_under(m, a)
            if not keepval:
                m.pop(a, None)
                if a[0] == 'loc':
                    m[a] = ('hv', a)

    def run_many(self, c, key, states, clo, t, line):
        """zero or more calls of a closure with unknown arguments."""
        seen = {}
        work = list(states)
        out = []
        n = 0
        while work:
            st, m = work.pop()
            if st in seen:
                continue
            seen[st] = 1
            bid = clo[1]
            b = self.F.bodies[bid]
            self.kill_fields(m, self.F.writes(bid))
            out.append((st, m))
            n += 1
            if not self.analyse(bid):
                continue
            nargs = b.argc - (1 if clo[0] == 'clo' else 0)
            args = ([clo] if clo[0] == 'clo' else []) + [('cbarg', bid, i) for i in range(nargs)]
            for st2, v, m2 in self.invoke(c, key, dict(m), st, bid, args, None, line, {}, None):
                work.append((st2, m2))
        return out

    def invoke(self, c, key, m, st, bid, args, t, line, k, dty):
        if not self.analyse(bid):
            W = self.F.writes(bid)
            self.kill_fields(m, W)
            self.age_fields(c, m, W)
            hasmut = self.havoc_args(c, m, args, t, W, bid)
            nm = self.F.bodies[bid].canon
            if hasmut or W:
                s = ('call', nm, tuple(trunc(a, 4) for a in args), (c.bid, key[0]))
                self.kill_symbol(m, s)
            else:
                s = ('call', nm, tuple(trunc(a, 4) for a in args), None)
                s = m.get(s, s)
            return [(st, s, m)]
        cf = []
        for kk, vv in m.items():
            if kk[0] != 'loc':
                cy = self.rule.carry(kk, vv)
                if cy == 'always' or cy and any(contains(a, kk[1]) for a in args):
                    cf.append((kk, vv))
        cf.sort(key=repr)
        ctx = self.ctx(bid, st, tuple(args), c.depth + 1, tuple(cf))
        ctx.deps.add((c, key))
        W = self.F.writes(bid)
        self.kill_fields(m, W)
        self.age_fields(c, m, W)
        self.havoc_args(c, m, args, t, W, bid)
        out = []
        isref = dty is not None and dty[0] == 'ref'
        site = (c.bid, key[0])
        # unknowns of an earlier execution of this call are other values
        stale = [kk for kk in m if kk[0] != 'loc' and made_at(kk, site)]
        for kk in stale:
            del m[kk]
        for kk, vv in m.items():
            if made_at(vv, site):
                m[kk] = aged_site(vv, site)
        for (st2, _), (v, fx) in list(ctx.exits.items()):
            m2 = dict(m)
            v = rename(v, bid, site)
            for kk, vv in fx.items():
                m2[rename(kk, bid, site)] = rename(vv, bid, site)
            if not isref and v[0] in ('loc', 'p', 'idx'):
                v = self.read(m2, v)
            out.append((st2, v, m2))
        return out

    def havoc_args(self, c, m, args, t, W, bid):
        hasmut = False
        if t is None:
            return False
        b = self.F.bodies[bid]
        for i, a in enumerate(args):
            if i + 1 > b.argc:
                break
            ty = b.locals[i + 1][0]
            if ty[0] == 'ref' and ty[1]:
                hasmut = True
                whole = '*' + self.F.ty_short(ty[2])
                if whole in W or ty[2][0] != 'adt' or not self.F.adts.get(ty[2][1], {}).get('local'):
                    self.havoc_loc(c, m, a)
                else:
                    # contents change only through the fields in W (already killed);
                    # aggregate value no longer exact
                    v = m.get(a)
                    if v is not None and v[0] == 'v':
                        nf = tuple((n, U if (v[1] + '.' + n) in W else x) for n, x in v[3])
                        m[a] = ('v', v[1], v[2], nf)
        return hasmut


def join_tree(a, b, ph, phis):
    """structural join; differing leaves become phi symbols."""
    if a == b:
        return a
    if a[0] == 'v' and b[0] == 'v' and a[1:3] == b[1:3] and len(a[3]) == len(b[3]):
        return ('v', a[1], a[2], tuple((n, join_tree(x, y, ph + (n,), phis)) for (n, x), (_, y) in zip(a[3], b[3])))
    if a[0] == 't' and b[0] == 't' and len(a[1]) == len(b[1]):
        return ('t', tuple(join_tree(x, y, ph + (str(i),), phis) for i, (x, y) in enumerate(zip(a[1], b[1]))))
    if a != ph:
        phis.append(ph)
    return ph


_made = {}


def made_at(v, site):
    k = (v, site)
    r = _made.get(k)
    if r is not None:
        return r
    r = False
    if v[0] in ('r', 'call') and v[-1] and isinstance(v[-1], tuple) and v[-1][:2] == site:
        r = True
    else:
        for y in v:
            if isinstance(y, tuple) and y and made_at(y, site):
                r = True
                break
    if len(_made) > 400000:
        _made.clear()
    _made[k] = r
    return r


_aged2 = {}


def aged_fields(v, W):
    if v[0] == 'old' or W.isdisjoint(fields_in(v)):
        return v
    if v[0] == 'p' and v[2] in W:
        return ('old', v)
    return tuple(aged_fields(y, W) if isinstance(y, tuple) and y and isinstance(y[0], str) else
                 tuple(aged_fields(z, W) if isinstance(z, tuple) and z and isinstance(z[0], str) else z for z in y)
                 if isinstance(y, tuple) else y for y in v)


def aged_site(v, site):
    if v[0] == 'old' or not made_at(v, site):
        return v
    if v[0] in ('r', 'call') and v[-1] and isinstance(v[-1], tuple) and v[-1][:2] == site:
        return ('old', v)
    k = (v, site)
    r = _aged2.get(k)
    if r is None:
        r = tuple(aged_site(y, site) if isinstance(y, tuple) and y else y for y in v)
        if len(_aged2) > 200000:
            _aged2.clear()
        _aged2[k] = r
    return r


_ren = {}


def rename(v, bid, site):
    """unknowns born in the callee become unknowns of the call site."""
    k = (v, bid, site)
    r = _ren.get(k)
    if r is not None:
        return r
    if v[0] == 'ph' and v[1] == bid:
        r = ('r', site + (zlib.crc32(repr(v).encode()),))
    elif v[0] == 'r' and v[1][0] == bid:
        r = ('r', site + (zlib.crc32(repr(v).encode()),))
    elif v[0] == 'call' and v[3] is not None and v[3][0] == bid:
        r = ('call', v[1], tuple(rename(a, bid, site) for a in v[2]), site + (zlib.crc32(repr(v[3]).encode()),))
    else:
        r = tuple(rename(y, bid, site) if isinstance(y, tuple) and y else y for y in v)
        if r == v:
            r = v
    if len(_ren) > 400000:
        _ren.clear()
    _ren[k] = r
    return r


def mentions_frame(v, bid):
    if v[0] == 'loc':
        return v[1] == bid
    for y in v:
        if isinstance(y, tuple) and y and mentions_frame(y, bid):
            return True
    return False


# ---------------------------------------------------------------------- std
SPECIAL = {}


def special(*names):
    def d(f):
        for n in names:
            SPECIAL[n] = f
        return f
    return d


def isopt(dty):
    return bool(dty) and dty[0] == 'adt' and dty[1] == 'std::option::Option'


def selfkind(k):
    s = k.get('self') or (k.get('targs') or [None])[0]
    if s and s[0] == 'adt':
        if s[1] == 'std::option::Option':
            return 'Option'
        if s[1] == 'std::result::Result':
            return 'Result'
    return None


@special('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref',
         'std::convert::AsMut::as_mut', 'std::option::Option::as_ref', 'std::option::Option::as_deref',
         'std::option::Option::as_mut', 'std::option::Option::as_deref_mut', 'std::result::Result::as_ref',
         'std::result::Result::as_mut', 'std::borrow::Borrow::borrow',
         'std::string::String::as_str', 'std::vec::Vec::as_slice', 'core::str::<impl str>::as_bytes',
         'std::string::String::as_bytes', 'std::hint::must_use', 'std::boxed::Box::new', 'std::sync::Arc::new',
         'core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'std::string::String::as_mut_str')
def s_id(E, c, key, m, st, args, k, dty, site, t, line):
    v = args[0]
    if dty and dty[0] != 'ref' and v[0] in ('loc', 'p', 'idx'):
        v = E.read(m, v)
    return [(st, v, m)]


@special('std::clone::Clone::clone', 'std::option::Option::cloned', 'std::option::Option::copied',
         'std::borrow::ToOwned::to_owned', 'std::borrow::Cow::into_owned', 'std::string::ToString::to_string',
         'std::slice::<impl [T]>::to_vec', 'std::string::String::into_bytes', 'std::string::String::into_boxed_str',
         'std::vec::Vec::into_boxed_slice', 'std::iter::IntoIterator::into_iter', 'std::borrow::Cow::to_mut')
def s_clone(E, c, key, m, st, args, k, dty, site, t, line):
    v = args[0]
    if v[0] in ('loc', 'p', 'idx'):
        v = E.read(m, v)
    if k['fn'].endswith('to_string') and v[0] not in ('s', 'p', 'arg', 'loc'):
        s = ('call', 'to_string', (trunc(v, 5),), None)
        return [(st, s, m)]
    return [(st, v, m)]


@special('std::convert::Into::into', 'std::convert::From::from')
def s_into(E, c, key, m, st, args, k, dty, site, t, line):
    # a local From impl for the destination type runs
    v = args[0]
    sty = E.optype(c, t[2][0])
    if dty and dty[0] == 'adt' and k['fn'].endswith('into'):
        for i in E.F.trait_impls.get(('std::convert::From', 'from'), []):
            b = E.F.bodies[i]
            if b.self_ty and b.self_ty[0] == 'adt' and b.self_ty[1] == dty[1] and not b.derived:
                at = b.locals[1][0]
                if sty is None or at[:2] == sty[:2] or at == sty:
                    return E.invoke(c, key, m, st, i, args, t, line, k, dty)
    if isopt(dty):
        if not isopt(sty) and not (v[0] == 'v' and v[1] == 'Option'):
            if sty is not None:
                v = some(v)
    return [(st, v, m)]


@special('std::ops::Try::branch')
def s_branch(E, c, key, m, st, args, k, dty, site, t, line):
    v = args[0]
    kind = selfkind(k) or 'Result'
    if v[0] == 'v':
        if v[2] in ('Ok', 'Some'):
            return [(st, ('v', 'ControlFlow', 'Continue', (('0', v[3][0][1]),)), m)]
        return [(st, ('v', 'ControlFlow', 'Break', (('0', v),)), m)]
    return [(st, ('try', v, kind), m)]


@special('std::ops::FromResidual::from_residual')
def s_resid(E, c, key, m, st, args, k, dty, site, t, line):
    v = args[0]
    if isopt(dty):
        return [(st, NONE, m)]
    if v[0] == 'v' and v[2] == 'Err':
        return [(st, v, m)]
    src = v[1] if v[0] == 'resid' else v
    return [(st, err(('p', src, 'Result::Err.0') if src != U else U), m)]


def payload(E, m, v, kind):
    key = {'Option': 'Option::Some.0', 'Result': 'Result::Ok.0', 'Err': 'Result::Err.0'}[kind]
    if v[0] in ('v', 'u', 't'):
        return E.project(v, key)
    return E.read(m, ('p', v, key))


def fork_opt(E, m, v, kind):
    """[(has_value, m')] for an Option/Result value."""
    d = E.discr(m, v)
    good = 1 if kind == 'Option' else 0
    if d[0] == 'i':
        return [(d[1] == good, m)]
    out = []
    for val in (good, 1 - good):
        m2 = dict(m)
        if E.assume(m2, d, val):
            out.append((val == good, m2))
    return out


def branch_opt(E, c, m, st, v, kind, line):
    """fork with the rule's branch hook."""
    d = E.discr(m, v)
    good = 1 if kind == 'Option' else 0
    if d[0] == 'i':
        return [(d[1] == good, st, m)]
    out = []
    for val in (good, 1 - good):
        m2 = dict(m)
        if not E.assume(m2, d, val):
            continue
        st2 = E.branch(c, m2, st, d, val, line)
        if st2 is not None:
            out.append((val == good, st2, m2))
    return out


@special('std::option::Option::unwrap', 'std::option::Option::expect', 'std::result::Result::unwrap',
         'std::result::Result::expect')
def s_unwrap(E, c, key, m, st, args, k, dty, site, t, line):
    kind = 'Option' if 'option' in k['fn'] else 'Result'
    out = []
    for has, st2, m2 in branch_opt(E, c, m, st, args[0], kind, line):
        if has:
            out.append((st2, payload(E, m2, args[0], kind), m2))
    return out


@special('std::option::Option::is_some', 'std::option::Option::is_none', 'std::result::Result::is_ok',
         'std::result::Result::is_err')
def s_is(E, c, key, m, st, args, k, dty, site, t, line):
    v = args[0]
    if v[0] in ('loc', 'p', 'idx'):
        v = E.read(m, v)
    d = E.discr(m, v)
    n = k['fn'].rsplit('::', 1)[-1]
    if n in ('is_some', 'is_err'):
        return [(st, d, m)]
    return [(st, E.neg(m, d), m)]


def callv(E, c, key, m, st, fv, fargs, t, line):
    """call a closure / fn value."""
    if fv[0] == 'clo' and fv[1] in E.F.bodies:
        return E.invoke(c, key, m, st, fv[1], [fv] + list(fargs), None, line, {}, None)
    if fv[0] == 'fn' and fv[1] in E.F.bodies:
        return E.invoke(c, key, m, st, fv[1], list(fargs), None, line, {}, None)
    if fv[0] == 'fn' and len(fv) > 2 and fv[2]:
        last = fv[1].split('::')[-1]
        if last in ('Some', 'Ok', 'Err'):
            v = {'Some': some, 'Ok': ok, 'Err': err}[last](fargs[0])
        else:
            v = E.ctor(fv[1], list(fargs))
        st = E.rule.on_agg(E, c, m, st, v, line)
        return [(st, v, m)] if st is not None else []
    if fv[0] == 'fn' and fv[1] in ('std::convert::Into::into', 'std::clone::Clone::clone', 'std::convert::From::from',
                                    'std::string::ToString::to_string', 'std::convert::AsRef::as_ref',
                                    'std::string::String::as_str', 'std::borrow::Cow::into_owned'):
        return [(st, fargs[0], m)]
    return [(st, ('call', fv[1] if fv[0] == 'fn' else '<indirect>', tuple(trunc(a, 4) for a in fargs), None), m)]


def comb(kind, on_val, on_none):
    """Option/Result combinator: on_val/on_none compute from (payload)."""
    def h(E, c, key, m, st, args, k, dty, site, t, line):
        v = args[0]
        if v[0] in ('loc', 'p', 'idx') and v in m:
            v = m[v]
        out = []
        for has, st2, m2 in branch_opt(E, c, m, st, v, kind, line):
            fn = on_val if has else on_none
            x = payload(E, m2, v, kind if has else ('Err' if kind == 'Result' else 'Option')) if (has or kind == 'Result') else None
            out += fn(E, c, key, m2, st2, args, x, t, line, v)
        return out
    return h


def _const(x):
    return lambda E, c, key, m, st, args, p, t, line, v: [(st, x, m)]


def _wrap(w):
    def f(E, c, key, m, st, args, p, t, line, v):
        return [(s, w(r), mm) for s, r, mm in callv(E, c, key, m, st, args[1], [p], t, line)]
    return f


def _run(i, withp=True):
    def f(E, c, key, m, st, args, p, t, line, v):
        return callv(E, c, key, m, st, args[i], [p] if withp else [], t, line)
    return f


def _arg(i, w=lambda x: x):
    return lambda E, c, key, m, st, args, p, t, line, v: [(st, w(args[i]), m)]


def _pay(w=lambda x: x):
    return lambda E, c, key, m, st, args, p, t, line, v: [(st, w(p), m)]


_O = 'std::option::Option::'
_R = 'std::result::Result::'
SPECIAL[_O + 'map'] = comb('Option', _wrap(some), _const(NONE))
SPECIAL[_O + 'and_then'] = comb('Option', _run(1), _const(NONE))
SPECIAL[_O + 'is_some_and'] = comb('Option', _run(1), _const(FALSE))
SPECIAL[_O + 'is_none_or'] = comb('Option', _run(1), _const(TRUE))
SPECIAL[_O + 'map_or'] = comb('Option', _run(2), _arg(1))
SPECIAL[_O + 'map_or_else'] = comb('Option', _run(2), _run(1, False))
SPECIAL[_O + 'unwrap_or'] = comb('Option', _pay(), _arg(1))
SPECIAL[_O + 'unwrap_or_else'] = comb('Option', _pay(), _run(1, False))
SPECIAL[_O + 'or'] = comb('Option', _pay(some), _arg(1))
SPECIAL[_O + 'or_else'] = comb('Option', _pay(some), _run(1, False))
SPECIAL[_O + 'ok_or'] = comb('Option', _pay(ok), _arg(1, err))
SPECIAL[_O + 'ok_or_else'] = comb('Option', _pay(ok), lambda E, c, key, m, st, args, p, t, line, v: [
    (s, err(r), mm) for s, r, mm in callv(E, c, key, m, st, args[1], [], t, line)])
SPECIAL[_O + 'unwrap_or_default'] = comb('Option', _pay(), _const(('call', 'default', (), None)))


def _filter_val(E, c, key, m, st, args, p, t, line, v):
    out = []
    for s, r, mm in callv(E, c, key, m, st, args[1], [p], t, line):
        for val in (1, 0):
            m2 = dict(mm)
            if r[0] == 'i':
                if r[1] == val:
                    out.append((s, some(p) if val else NONE, m2))
                continue
            if not E.assume(m2, r, val):
                continue
            s2 = E.branch(c, m2, s, r, val, line)
            if s2 is not None:
                out.append((s2, some(p) if val else NONE, m2))
    return out


SPECIAL[_O + 'filter'] = comb('Option', _filter_val, _const(NONE))
SPECIAL[_R + 'map'] = comb('Result', _wrap(ok), _pay(err))
SPECIAL[_R + 'map_err'] = comb('Result', _pay(ok), _wrap(err))
SPECIAL[_R + 'ok'] = comb('Result', _pay(some), _const(NONE))
SPECIAL[_R + 'err'] = comb('Result', _const(NONE), _pay(some))
SPECIAL[_R + 'and_then'] = comb('Result', _run(1), _pay(err))
SPECIAL[_R + 'unwrap_or'] = comb('Result', _pay(), _arg(1))
SPECIAL[_R + 'unwrap_or_default'] = comb('Result', _pay(), _const(('call', 'default', (), None)))
SPECIAL[_R + 'unwrap_or_else'] = comb('Result', _pay(), _run(1))
SPECIAL[_R + 'is_ok_and'] = comb('Result', _run(1), _const(FALSE))


@special('core::bool::<impl bool>::then', 'core::bool::<impl bool>::then_some')
def s_then(E, c, key, m, st, args, k, dty, site, t, line):
    out = []
    for val in (1, 0):
        m2 = dict(m)
        if args[0][0] == 'i':
            if args[0][1] != val:
                continue
            st2 = st
        else:
            if not E.assume(m2, args[0], val):
                continue
            st2 = E.branch(c, m2, st, args[0], val, line)
            if st2 is None:
                continue
        if not val:
            out.append((st2, NONE, m2))
        elif k['fn'].endswith('then_some'):
            out.append((st2, some(args[1]), m2))
        else:
            out += [(s, some(r), mm) for s, r, mm in callv(E, c, key, m2, st2, args[1], [], t, line)]
    return out


@special('std::option::Option::take', 'std::mem::take', 'std::mem::replace', 'std::option::Option::replace',
         'std::option::Option::insert')
def s_take(E, c, key, m, st, args, k, dty, site, t, line):
    loc = args[0]
    n = k['fn'].rsplit('::', 1)[-1]
    old = E.read(m, loc)
    d = E.discr(m, old) if old[0] != 'v' else None
    if old == loc or old[0] in ('p', 'loc', 'idx'):
        old2 = ('old', old, site)
        E.kill_symbol(m, old2)
        if d is not None and d[0] == 'i':
            m[('discr', old2)] = d
        old = old2
    isoption = 'option::Option' in k['fn']
    if isoption and n == 'take':
        new = NONE
    elif n == 'take':
        new = ('call', 'default', (), None)
    elif isoption:
        new = some(args[1])
    else:
        new = args[1]
    st = E.rule.on_store(E, c, m, st, loc, new, line)
    if st is None:
        return []
    E.write(c, m, loc, new)
    return [(st, old if n != 'insert' else loc, m)]


@special('std::mem::swap')
def s_swap(E, c, key, m, st, args, k, dty, site, t, line):
    a, b = E.read(m, args[0]), E.read(m, args[1])
    E.write(c, m, args[0], b)
    E.write(c, m, args[1], a)
    return [(st, UNIT, m)]


@special('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne', 'std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::le',
         'std::cmp::PartialOrd::gt', 'std::cmp::PartialOrd::ge')
def s_cmp(E, c, key, m, st, args, k, dty, site, t, line):
    op = {'eq': 'Eq', 'ne': 'Ne', 'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[k['fn'].rsplit('::', 1)[-1]]
    a, b = args[0], args[1]
    if a[0] in ('loc', 'p', 'idx'):
        a = E.read(m, a)
    if b[0] in ('loc', 'p', 'idx'):
        b = E.read(m, b)
    return [(st, E.binop(m, op, a, b), m)]


@special('std::ops::FnMut::call_mut', 'std::ops::Fn::call', 'std::ops::FnOnce::call_once')
def s_callfn(E, c, key, m, st, args, k, dty, site, t, line):
    f = args[0]
    if f[0] in ('loc', 'p', 'idx'):
        f = E.read(m, f)
    a = args[1] if len(args) > 1 else UNIT
    if f[0] in ('clo', 'fn'):
        if a[0] == 't':
            return callv(E, c, key, m, st, f, list(a[1]), t, line)
        return callv(E, c, key, m, st, f, [U], t, line)
    return None


@special('std::vec::Vec::len', 'std::string::String::len', 'core::str::<impl str>::len', 'core::slice::<impl [T]>::len')
def s_len(E, c, key, m, st, args, k, dty, site, t, line):
    if args[0][0] == 's':
        return [(st, ('i', len(args[0][1].encode())), m)]
    s = ('call', 'len', (trunc(args[0], 6),), None)
    return [(st, m.get(s, s), m)]


@special('std::vec::Vec::is_empty', 'std::string::String::is_empty', 'core::str::<impl str>::is_empty',
         'core::slice::<impl [T]>::is_empty')
def s_empty(E, c, key, m, st, args, k, dty, site, t, line):
    if args[0][0] == 's':
        return [(st, ('i', int(not args[0][1])), m)]
    s = ('call', 'is_empty', (trunc(args[0], 6),), None)
    return [(st, m.get(s, s), m)]


@special('std::iter::Iterator::any', 'std::iter::Iterator::all', 'std::iter::Iterator::position',
         'std::iter::Iterator::find', 'std::iter::Iterator::find_map')
def s_any(E, c, key, m, st, args, k, dty, site, t, line):
    """the result tells whether the closure held for some element; the states
    reached after a closure call that returned true are kept apart."""
    f = args[1]
    n = k['fn'].rsplit('::', 1)[-1]
    if f[0] not in ('clo',) or f[1] not in E.F.bodies:
        return None
    b = E.F.bodies[f[1]]
    hit = {}
    miss = {st: m}
    work = [(st, m)]
    it = args[0]
    elem = ('elem', it)
    E.havoc_loc(c, m, it)
    sym = ('call', n, (trunc(it, 4), f), site)
    while work:
        s0, m0 = work.pop()
        if not E.analyse(f[1]):
            E.kill_fields(m0, E.F.writes(f[1]))
            hit.setdefault(s0, m0)
            continue
        for s1, r, m1 in E.invoke(c, key, dict(m0), s0, f[1], [f, elem], None, line, {}, None):
            for val in (1, 0):
                m2 = dict(m1)
                s2 = s1
                if n in ('any', 'all', 'position', 'find'):
                    if r[0] == 'i':
                        if r[1] != val:
                            continue
                    else:
                        if not E.assume(m2, r, val):
                            continue
                        s2 = E.branch(c, m2, s1, r, val, line)
                        if s2 is None:
                            continue
                stop = (val == 1) if n != 'all' else (val == 0)
                if stop:
                    hit.setdefault(s2, m2)
                elif s2 not in miss:
                    miss[s2] = m2
                    work.append((s2, m2))
    out = []
    for s, mm in hit.items():
        v = {'any': TRUE, 'all': FALSE}.get(n)
        if v is None:
            v = some(elem if n == 'find' else sym)
        out.append((s, v, mm))
    for s, mm in miss.items():
        v = {'any': FALSE, 'all': TRUE}.get(n, NONE)
        out.append((s, v, dict(mm)))
    return out
