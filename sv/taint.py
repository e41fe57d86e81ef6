"""Which text may hold line breaks: qualifier inference over MIR.

For each local of each function, the set of (origin, character) pairs that may
be in it, for the characters CR and LF; functions are summarised by what they
return and write in terms of their parameters.  What a `char` is known not to be
where it is appended, and what a predicate lets through, is decided by simulating
the function for these characters (CharRule)."""
import re
from collections import defaultdict
from engine import Engine, Rule, TRUE, FALSE, some, NONE
from facts import rvalue_places, rvalue_operands, operand_places

CR, LF = 13, 10
BOTH = (CR, LF)
INTS = {'bool', 'isize', 'usize', 'u32', 'i64', 'f64', 'i32', 'u64', 'i8', 'i16', 'u16', 'f32', '!', 'u128', 'i128'}
CHARS = {'char', 'u8'}
# combinators whose outcome is what their function returns
REPLACING = {'map', 'and_then', 'filter_map', 'flat_map', 'then', 'map_while', 'map_or', 'map_or_else'}
FILTERS = {'filter', 'take_while'}
SPLITS = {'split', 'rsplit', 'split_terminator', 'rsplit_terminator', 'split_inclusive'}
PRED_FALSE = {'is_alphanumeric', 'is_ascii_alphanumeric', 'is_alphabetic', 'is_ascii_alphabetic', 'is_numeric', 'is_ascii_digit', 'is_digit',
              'is_ascii_graphic', 'is_ascii_punctuation', 'is_uppercase', 'is_lowercase', 'is_ascii_uppercase', 'is_ascii_lowercase', 'is_ascii_hexdigit'}
PRED_TRUE = {'is_control', 'is_ascii_control', 'is_whitespace', 'is_ascii_whitespace', 'is_ascii'}
COMPUTE = {'from_u32', 'from_digit', 'from_u32_unchecked'}
PUSH = re.compile(r'(String|Vec)::(push|insert)$|::(push_back|insert)$')


def carries(t, depth=0):
    """can a value of this type hold text?"""
    if t[0] == 'prim':
        return t[1] not in INTS
    if t[0] == 'fnptr':
        return False
    if t[0] == 'tuple':
        return any(carries(x, depth + 1) for x in t[1])
    if t[0] in ('ref', 'ptr'):
        return carries(t[2], depth + 1)
    if t[0] in ('slice', 'array'):
        return carries(t[1], depth + 1)
    if t[0] == 'adt' and t[1] in ('std::option::Option', 'std::result::Result', 'std::ops::ControlFlow', 'std::vec::Vec') and t[2]:
        return any(carries(x, depth + 1) for x in t[2] if isinstance(x, (list, tuple)) and x)
    return True


def charlike(t):
    while t[0] in ('ref', 'ptr'):
        t = t[2]
    return t[0] == 'prim' and t[1] in CHARS


def charitem(t):
    """Option of a character, of one by reference or with a position."""
    if t[0] != 'adt' or t[1] != 'std::option::Option':
        return None
    x = t[2][0]
    if charlike(x):
        return lambda c: c
    if x[0] == 'tuple' and len(x[1]) == 2 and charlike(x[1][1]):
        return lambda c: ('t', (('u',), c))
    return None


def tup(t, d=0):
    """the outermost tuple in a type."""
    if d > 6 or not t:
        return None
    if t[0] == 'tuple':
        return t if len(t[1]) > 1 else None
    xs = [t[2]] if t[0] in ('ref', 'ptr') else [t[1]] if t[0] in ('slice', 'array') else t[2] if t[0] == 'adt' else []
    got = [y for y in (tup(x, d + 1) for x in xs if isinstance(x, (list, tuple))) if y]
    return got[0] if len(got) == 1 else None


OTHER = ('call', '#other', (), None)


class CharRule(Rule):
    """characters come in three kinds: CR, LF and others."""
    opaque = ()

    def __init__(self, bid):
        self.bid = bid
        self.pushed = defaultdict(set)
        self.returned = set()

    def relevant(self, F):
        return {self.bid}

    def on_call(self, E, c, m, st, name, k, args, line):
        n = name.rsplit('::', 1)[-1]
        if args and args[0][0] == 'i' and n in PRED_FALSE:
            if args[0][1] in BOTH:
                return [(st, FALSE)]
        if args and args[0][0] == 'i' and n in PRED_TRUE:
            if args[0][1] in BOTH:
                return [(st, TRUE)]
        if n == 'contains' and len(args) == 2 and args[1][0] == 'i' and args[0][0] in ('arr', 'b', 's'):
            a = args[0]
            if a[0] == 's':
                return [(st, TRUE if chr(args[1][1]) in a[1] else FALSE)]
            if a[0] == 'b':
                x = a[1]
                return [(st, TRUE if (args[1][1] in x if not isinstance(x, str) else chr(args[1][1]) in x) else FALSE)]
            if all(x[0] == 'i' for x in a[1]):
                return [(st, TRUE if args[1] in a[1] else FALSE)]
        if n in ('clone', 'into', 'from', 'to_owned', 'deref') and args and args[0][0] == 'i':
            return [(st, args[0])]
        if n in ('next', 'next_back', 'next_if', 'pop', 'peek', 'nth', 'first', 'last', 'get'):
            t = E.F.bodies[c.bid].blocks[E.cur]['t']
            w = charitem(E.dest_type(c, t) or ('prim', '!'))
            if w:
                return [(CR, some(w(('i', CR)))), (LF, some(w(('i', LF)))), ('-', some(w(OTHER))), ('-', NONE)]
        if len(args) > 1 and PUSH.search(name):
            self.pushed[(c.bid, E.cur)].add(OTHER if st == '-' and args[-1][0] == 'ph' else args[-1])
        return None

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.bid:
            self.returned.add(v)
        return st


class Taint:
    """trusted: fields whose text is known to be of one line."""

    def __init__(self, F, bodies, trusted, inputs):
        self.F = F
        self.trusted = trusted
        self.inputs = inputs
        self.bodies = [b for b in bodies]
        self.inset = set(self.bodies)
        self.val = defaultdict(set)      # (bid, local) -> {(origin, char)}
        self.alias = {}
        self.upv = defaultdict(set)      # closure -> its captured operands
        self.parent = {}
        self.predc = {}
        self.pushc = {}
        self.scrub = defaultdict(set)
        self.ret = {}
        self.sites = defaultdict(list)   # callee -> [(bid, block, terminator)]
        self.prep()
        for _ in range(40):
            self.changed = False
            for b in self.bodies:
                self.body(b)
            if not self.changed:
                break

    # -------------------------------------------------------------- structure
    def prep(self):
        F = self.F
        for bid in self.bodies:
            b = F.bodies[bid]
            al = {}

            def find(x, al=al):
                while al.get(x, x) != x:
                    x = al[x]
                return x

            def unite(x, y):
                x, y = find(x), find(y)
                if x != y:
                    # parameters stay representatives
                    if 1 <= x <= b.argc:
                        al[y] = x
                    else:
                        al[x] = y
            for blk in b.blocks:
                if blk['x']:
                    continue
                for s in blk['s']:
                    if s[0] != '=':
                        continue
                    rv = s[2]
                    if rv[0] in ('ref', 'raw') and not s[1][1]:
                        p = rv[2] if rv[0] == 'ref' else rv[1]
                        if not self.source(b, p) and not self.isenv(b, p[0]) and not (any(e[0] != '*' for e in p[1]) and p[0] <= b.argc and p[0] > 0):
                            if rv[0] == 'raw' or rv[1] or not 1 <= p[0] <= b.argc:
                                unite(s[1][0], p[0])
                    elif rv[0] == 'use' and not s[1][1] and operand_places(rv[1]) and b.locals[s[1][0]][0][0] == 'ref' and b.locals[s[1][0]][0][1]:
                        p = operand_places(rv[1])[0]
                        if not p[1] and not self.isenv(b, p[0]):
                            unite(s[1][0], p[0])
                    if rv[0] == 'agg' and rv[1] == 'closure' and rv[2] in F.bodies:
                        self.upv[rv[2]] = [(bid, o) for o in rv[5]]
                        self.parent[rv[2]] = bid
                t = blk['t']
                if t[0] == 'call' and t[1][0] == 'k' and 'fn' in t[1][1]:
                    lid, _ = F.callee(t[1][1])
                    if lid:
                        self.sites[lid].append((bid, blk, t))
                    # &mut of a result of a reborrowing call stays the same object
                    if not t[3][1] and t[2] and operand_places(t[2][0]):
                        n = t[1][1]['fn'].rsplit('::', 1)[-1]
                        p = operand_places(t[2][0])[0]
                        if n in ('deref_mut', 'as_mut', 'as_mut_slice', 'by_ref', 'borrow_mut', 'as_mut_vec') and not p[1] and not self.isenv(b, p[0]):
                            unite(t[3][0], p[0])
            self.alias[bid] = find
        for bid in self.bodies:
            self.scrubbed(F.bodies[bid])

    def scrubbed(self, b):
        """strings that are cleaned by `retain` before anything else reads them."""
        find = self.alias[b.id]
        for i, blk in enumerate(b.blocks):
            t = blk['t']
            if blk['x'] or t[0] != 'call' or t[1][0] != 'k' or not t[1][1].get('fn', '').endswith('::retain') or not operand_places(t[2][0]):
                continue
            l = find(operand_places(t[2][0])[0][0])
            if 1 <= l <= b.argc or l == 0:
                continue
            free, todo = set(), [0]        # reached without passing the call
            while todo:
                x = todo.pop()
                if x in free or x == i:
                    continue
                free.add(x)
                todo += b.succs[x]
            after, todo = set(), list(b.succs[i])
            while todo:
                x = todo.pop()
                if x not in after:
                    after.add(x)
                    todo += b.succs[x]
            good = True
            for j, bl in enumerate(b.blocks):
                if bl['x']:
                    continue
                tt = bl['t']
                reads = [p for s in bl['s'] if s[0] == '=' for p, _ in rvalue_places(s[2])
                         if find(s[1][0]) != l] + ([p for a in tt[2] for p in operand_places(a)] if tt[0] == 'call' and j != i else [])
                defs = [s[1] for s in bl['s'] if s[0] == '=' and find(s[1][0]) == l and not any(find(p[0]) == l for p, _ in rvalue_places(s[2]))]
                defs += [tt[3]] if tt[0] == 'call' and find(tt[3][0]) == l else []
                if any(find(p[0]) == l for p in reads) and (j in free or j == i) or defs and j in after:
                    good = False
            if good:
                for f in self.fnvals(b, t):
                    if f in self.F.bodies:
                        self.scrub[(b.id, l)] |= self.rejects(f, 'retain')

    def isenv(self, b, l):
        return b.kind == 'closure' and l == 1

    def source(self, b, p):
        """origin when the place is text of an input, else None; '' = trusted."""
        fs = [e for e in p[1] if e[0] == 'f']
        out = None
        for e in fs:
            if e[3]:
                n = self.F.owner(e[3])
                f = n + '.' + e[2]
                if f in self.trusted or n.split('::')[-1].split('.')[0] in self.trusted or n in self.trusted:
                    out = ''
                elif n in self.inputs and out != '':
                    out = f
        if out is None and not fs:
            return None
        return out

    # -------------------------------------------------------------- values
    def place(self, b, p):
        """what may be in the place."""
        if self.isenv(b, p[0]):
            k = next((e for e in p[1] if e[0] == 'f'), None)
            r = set()
            s = self.source(b, p)
            if s == '':
                return r
            ups = self.upv.get(b.id)
            if k is not None and ups is not None and isinstance(k[1], int) and k[1] < len(ups):
                pb, o = ups[k[1]]
                r |= self.operand(self.F.bodies[pb], o)
            if s:
                return {(s, x) for x in BOTH} | {t for t in r if False}
            return r
        s = self.source(b, p)
        if s == '':
            return set()
        if s:
            return {(s, x) for x in BOTH}
        l = self.alias[b.id](p[0])
        r = set(self.val[(b.id, l)])
        n = self.part(b, p)
        for x in range(12) if n is None and tup(b.locals[l][0]) else [n]:
            if x is not None and (b.id, (l, x)) in self.val:
                r |= self.val[(b.id, (l, x))]
        if 1 <= l <= b.argc and carries(b.locals[l][0]) and b.kind != 'closure':
            f = self.F.last_field(p)
            ty = b.locals[l][0]
            while ty[0] == 'ref':
                ty = ty[2]
            if ty[0] == 'adt' and self.F.short(ty[1]) in ('Context', 'Runtime') :
                if not p[1] or all(e[0] == '*' for e in p[1]):
                    return r
                return r | {(f or 'Context', x) for x in BOTH}
            r |= {(('p', b.id, l, f), x) for x in BOTH}
        return r

    def whole(self, bid, l):
        l = self.alias[bid](l)
        r = set(self.val[(bid, l)])
        if tup(self.F.bodies[bid].locals[l][0]):
            for n in range(12):
                if (bid, (l, n)) in self.val:
                    r |= self.val[(bid, (l, n))]
        return r

    def part(self, b, p):
        """which member of a tuple?"""
        if not tup(b.locals[self.alias[b.id](p[0])][0]):
            return None
        return next((e[1] for e in p[1] if e[0] == 'f' and not e[3]), None)

    def parts(self, b, dst, srcs):
        """copy member by member where both hold the same tuple."""
        if dst[1] or self.isenv(b, dst[0]):
            return False
        t = tup(b.locals[self.alias[b.id](dst[0])][0])
        if not t:
            return False
        for p in srcs:
            if self.isenv(b, p[0]) or self.source(b, p) is not None or tup(b.locals[self.alias[b.id](p[0])][0]) != t or self.part(b, p) is not None:
                return False
        for p in srcs:
            for n in range(len(t[1])):
                if carries(t[1][n]):
                    self.store(b, [dst[0], [['f', n, str(n), '']]], self.val.get((b.id, (self.alias[b.id](p[0]), n)), set()) | self.val[(b.id, self.alias[b.id](p[0]))])
        return True

    def operand(self, b, o):
        ps = operand_places(o)
        if not ps:
            return set()
        return self.place(b, ps[0])

    def add(self, b, l, toks, n=None):
        l = self.alias[b.id](l)
        if n is not None:
            v = self.val[(b.id, (l, n))]
            if not toks <= v:
                v |= toks
                self.changed = True
            return
        toks = {t for t in toks if not (isinstance(t[0], tuple) and t[0][1] == b.id and t[0][2] == l)}
        if (b.id, l) in self.scrub:
            toks = {t for t in toks if t[1] not in self.scrub[(b.id, l)]}
        v = self.val[(b.id, l)]
        if not toks <= v:
            v |= toks
            self.changed = True

    def store(self, b, p, toks):
        if not toks:
            return
        if self.isenv(b, p[0]):
            k = next((e for e in p[1] if e[0] == 'f'), None)
            ups = self.upv.get(b.id)
            if k is not None and ups is not None and k[1] < len(ups):
                pb, o = ups[k[1]]
                for q in operand_places(o):
                    self.store(self.F.bodies[pb], q, toks)
            return
        self.add(b, p[0], toks, self.part(b, p))

    def body(self, bid):
        b = self.F.bodies[bid]
        for i, blk in enumerate(b.blocks):
            if blk['x']:
                continue
            for s in blk['s']:
                if s[0] != '=':
                    continue
                dt = b.locals[s[1][0]][0]
                rv = s[2]
                if rv[0] in ('discr', 'len') or not s[1][1] and not carries(dt):
                    continue
                if not s[1][1] and dt[0] == 'tuple' and not self.isenv(b, s[1][0]):
                    if rv[0] == 'agg' and rv[1] == 'tuple':
                        for n, o in enumerate(rv[5]):
                            self.store(b, [s[1][0], [['f', n, str(n), '']]], self.operand(b, o))
                        continue
                if rv[0] in ('use', 'ref', 'cast') or rv[0] == 'agg' and rv[1] == 'array':
                    if self.parts(b, s[1], [p for p, _ in rvalue_places(rv)]):
                        continue
                toks = set()
                for p, how in rvalue_places(rv):
                    toks |= self.place(b, p)
                if rv[0] in ('cast', 'bin', 'un') and not s[1][1] and charlike(dt):
                    src = [o for o in rvalue_operands(rv) if operand_places(o)]
                    if any(not charlike(b.locals[operand_places(o)[0][0]][0]) for o in src) or rv[0] == 'bin' and src:
                        toks |= {('computed', x) for x in BOTH}
                self.store(b, s[1], toks)
            t = blk['t']
            if t[0] == 'call':
                self.call(b, i, t, blk['l'])

    def fnvals(self, b, t):
        """closures and functions among the arguments."""
        out = []
        for a in t[2]:
            if a[0] == 'k' and 'fn' in a[1]:
                lid, _ = self.F.callee(a[1])
                if lid:
                    out.append(lid)
            for p in operand_places(a):
                ty = b.locals[p[0]][0]
                while ty[0] == 'ref':
                    ty = ty[2]
                if ty[0] == 'closure' and ty[1] in self.F.bodies:
                    out.append(ty[1])
        return out

    def call(self, b, blk, t, line):
        F = self.F
        k = t[1][1] if t[1][0] == 'k' else {}
        args = t[2]
        dst = t[3]
        dty = b.locals[dst[0]][0]
        keeps = bool(dst[1]) or carries(dty)
        if 'fn' not in k:
            toks = set()
            for a in args:
                toks |= self.operand(b, a)
            if keeps:
                self.store(b, dst, toks)
            return
        lid, name = F.callee(k)
        meth = k['fn'].rsplit('::', 1)[-1]
        targets = [lid] if lid else F.trait_impls.get((k.get('trait'), meth), []) if k.get('local') else []
        targets = [x for x in targets if x in self.inset]
        if targets:
            for x in targets:
                if keeps:
                    self.store(b, dst, self.result_of(b, x, args, 0))
                cb = F.bodies[x]
                if cb.kind == 'closure':
                    for n in range(2, cb.argc + 1):
                        if len(args) > 1 and carries(cb.locals[n][0]):
                            for p in operand_places(args[1]):
                                self.add_param(cb, n, self.place(b, [p[0], p[1] + [['f', n - 2, str(n - 2), '']]]))
                    continue
                for i, a in enumerate(args):
                    if i + 1 <= cb.argc and cb.locals[i + 1][0][0] == 'ref' and cb.locals[i + 1][0][1]:
                        out = self.result_of(b, x, args, i + 1)
                        for p in operand_places(a):
                            self.store_mut(b, p, out)
            return
        fns = self.fnvals(b, t)
        toks = [set() if (a[0] == 'k') else self.operand(b, a) for a in args]
        isclo = [bool(operand_places(a)) and self.closure_type(b, a) for a in args]
        data = set().union(*[x for x, c in zip(toks, isclo) if not c]) if args else set()
        ret = set()
        for f in fns:
            if f not in self.inset:
                continue
            cb = F.bodies[f]
            lo = 2 if cb.kind == 'closure' else 1
            if cb.kind == 'closure':
                for i in range(lo, cb.argc + 1):
                    if carries(cb.locals[i][0]):
                        self.add_param(cb, i, data)
                ret |= self.whole(f, 0)
            else:
                ret |= {tk for tk in self.whole(f, 0) if not isinstance(tk[0], tuple)}
                if any(isinstance(tk[0], tuple) for tk in self.whole(f, 0)):
                    ret |= data
        out = set(data)
        if fns and meth in REPLACING and all(f in self.inset for f in fns):
            out = set(ret)
            if meth == 'map_or' and len(toks) > 1:
                out |= toks[1]
        elif meth in FILTERS and fns:
            drop = set(BOTH)
            for f in fns:
                drop &= self.rejects(f, meth)
            out = {x for x in data if x[1] not in drop}
        elif meth in ('replace', 'replacen') and len(args) > 2 and name and 'str' in name:
            drop = self.pattern(b, args[1], blk) if meth == 'replace' else set()
            out = {x for x in toks[0] if x[1] not in drop} | toks[2]
        elif meth in SPLITS and name and 'str' in name and len(args) > 1 and meth != 'split_inclusive':
            drop = self.pattern(b, args[1], blk)
            out = {x for x in toks[0] if x[1] not in drop}
        elif meth == 'lines':
            out = {x for x in data if x[1] != LF}
        elif meth in ('split_whitespace', 'split_ascii_whitespace', 'escape_debug', 'escape_default'):
            out = set()
        elif fns:
            out |= ret
        if charlike(dty) and name and meth in COMPUTE:
            out |= {('computed', x) for x in BOTH}
        srcs = [p for a, x in zip(args, toks) for p in operand_places(a) if x]
        if keeps and not (not fns and out == data and self.parts(b, dst, srcs)):
            self.store(b, dst, out)
        # what is passed by mutable reference receives the rest
        if name and PUSH.search(name) and len(args) > 1:
            a = args[-1]
            if operand_places(a) and charlike(b.locals[operand_places(a)[0][0]][0]):
                ok = self.passes(b.id, blk)
                toks[-1] = {x for x in toks[-1] if x[1] in ok}
        for i, a in enumerate(args):
            for p in operand_places(a):
                ty = b.locals[p[0]][0]
                if ty[0] == 'ref' and ty[1] and not isclo[i]:
                    rest = set()
                    for j, x in enumerate(toks):
                        if j != i and not isclo[j]:
                            rest |= x
                    self.store_mut(b, p, rest | (ret if fns else set()))

    def closure_type(self, b, a):
        ty = b.locals[operand_places(a)[0][0]][0]
        while ty[0] == 'ref':
            ty = ty[2]
        return ty[0] == 'closure'

    def add_param(self, cb, i, toks):
        v = self.val[(cb.id, self.alias[cb.id](i))]
        if not toks <= v:
            v |= toks
            self.changed = True

    def store_mut(self, b, p, toks):
        ty = b.locals[p[0]][0]
        while ty[0] == 'ref':
            ty = ty[2]
        if ty[0] == 'adt' and self.F.short(ty[1]) in self.inputs | {'Context', 'Runtime'}:
            return
        self.store(b, p, toks)

    def result_of(self, b, x, args, l):
        """tokens of local l of callee x, in terms of the caller b."""
        out = set()
        lx = self.alias[x](l)
        for org, ch in self.whole(x, lx):
            if isinstance(org, tuple) and org[1] == x:
                i = org[2] - 1
                if i < len(args):
                    out |= self.through(b, args[i], org[3], ch)
            else:
                out.add((org, ch))
        if l == 0 and 1 <= lx <= self.F.bodies[x].argc and lx - 1 < len(args):
            out |= self.operand(b, args[lx - 1])
        return out

    def through(self, b, a, f, ch):
        """what parameter (or its field f) is, given as argument a."""
        got = {t for t in self.operand(b, a) if t[1] == ch}
        if f is not None:
            if f in self.trusted or f.split('.')[0] in self.trusted:
                return set()
            got = {((t[0][0], t[0][1], t[0][2], f) if isinstance(t[0], tuple) and t[0][3] is None else t[0], ch) for t in got}
        return got

    # -------------------------------------------------------------- characters
    def simulate(self, bid, args=None):
        r = CharRule(bid)
        try:
            e = Engine(self.F, r, [bid], '-', maxargs=60)
            if args is not None:
                e.wl, e.wlset, e.ctxs, e.rootctx = [], set(), {}, []
                e.ctx(bid, '-', args, 0)
            e.run(60000)
        except RuntimeError:
            return None
        return r

    def rejects(self, f, meth):
        """characters the predicate f is false for."""
        if f in self.predc:
            return self.predc[f]
        cb = self.F.bodies[f]
        out = set()
        for ch in BOTH:
            n = cb.argc - 1 if cb.kind == 'closure' else cb.argc
            if n != 1 or not self.charref(cb.locals[cb.argc][0]):
                break
            args = ([('arg', f, 0)] if cb.kind == 'closure' else []) + [('i', ch)]
            r = self.simulate(f, tuple(args))
            if r is not None and r.returned and all(v == FALSE for v in r.returned):
                out.add(ch)
        self.predc[f] = out
        return out

    @staticmethod
    def charref(t):
        return charlike(t)

    def passes(self, bid, blk):
        """CR, LF: which may be the character appended there?"""
        if bid not in self.pushc:
            self.pushc[bid] = self.simulate(bid)
        r = self.pushc[bid]
        if r is None:
            return set(BOTH)
        out = set()
        for v in r.pushed.get((bid, blk), ()):
            if v[0] == 'i':
                out |= {v[1]} & set(BOTH)
            elif v != OTHER:
                out |= set(BOTH)
        return out

    def pattern(self, b, a, blk):
        """characters a pattern matches wherever they are."""
        out = set()
        if a[0] == 'k':
            v = self.constval(a[1])
        else:
            p = operand_places(a)[0]
            ty = b.locals[p[0]][0]
            while ty[0] == 'ref':
                ty = ty[2]
            if ty[0] == 'closure' and ty[1] in self.F.bodies:
                for ch in BOTH:
                    cb = self.F.bodies[ty[1]]
                    r = self.simulate(ty[1], (('arg', cb.id, 0), ('i', ch)))
                    if r is not None and r.returned and all(x == TRUE for x in r.returned):
                        out.add(ch)
                return out
            v = None
            for bl in b.blocks:
                for s in bl['s']:
                    if s[0] == '=' and s[1] == [p[0], []]:
                        rv = s[2]
                        if rv[0] == 'agg' and rv[1] == 'array':
                            xs = [self.constval(o[1]) if o[0] == 'k' else None for o in rv[5]]
                            v = ('arr', tuple(xs))
                        elif rv[0] in ('use', 'ref', 'cast'):
                            for o in rvalue_operands(rv):
                                if o[0] == 'k':
                                    v = self.constval(o[1])
                            if rv[0] == 'ref' and not rv[2][1]:
                                return self.pattern(b, ['c', rv[2]], blk)
        if v is None:
            return out
        if v[0] == 'i':
            out |= {v[1]} & set(BOTH)
        elif v[0] == 's' and len(v[1]) == 1:
            out |= {ord(v[1])} & set(BOTH)
        elif v[0] == 'arr':
            out |= {x[1] for x in v[1] if x and x[0] == 'i'} & set(BOTH)
        return out

    def constval(self, k):
        if not hasattr(self, '_e'):
            self._e = Engine(self.F, Rule(), [], '-')
        return self._e.const(k)
