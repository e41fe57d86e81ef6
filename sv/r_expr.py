"""C07: expressions mean what they say."""
from collections import namedtuple
from base import FlowCheck, Rule
from engine import contains, err, leaf, ok, some, NONE
from r_map import lin

PREC = {'Multiply': 7, 'Divide': 7, 'Add': 6, 'Subtract': 6, 'Gt': 5, 'Ge': 5, 'Lt': 5, 'Le': 5, 'Eq': 4, 'Ne': 4,
        'Xor': 3, 'And': 2, 'Or': 1}
UNARY = ('Not', 'Minus')
STACK, OUT, ARGS = 'ExpressionParser.operator_stack', 'ExpressionParser.output', 'ExpressionParser.arg_count'
BIN, UN, TOK, EXP = 'BinaryOperator', 'UnaryOperator', 'expr::Token', 'Expression'
SHORT = {'And': 0, 'Or': 1}


def short(n):
    return n.rsplit('::', 1)[-1]


def v0(adt, var, x=None):
    return ('v', adt, var, () if x is None else (('0', x),))


def payload(v, adt, var=None):
    """payload of a value that is a variant of adt."""
    if v[0] == 'v' and v[1] == adt and (var is None or v[2] == var):
        return dict(v[3]).get('0', ('u',))
    return None


def unref(v):
    while v[0] == 'v' and v[1] == 'Box' and v[3]:
        v = v[3][0][1]
    return v


# kind of token, operator of it | what was last seen on top of the stack: kind, operator, whether it was taken off, put out
# and its jump set | how the last one left | operands put out | jump put out: value, distance from the last length taken
# inc: change of the number of arguments | after: was the token before it the end of an operand | got: number of arguments right
# name: what is known of which function it is
P = namedtuple('P', 'kind op top top_op off out jmp jset open outs jval jat inc after got name nargs')
P0 = P(None, None, None, None, False, False, None, False, None, (), None, None, 0, False, None, None, None)
FRESH = dict(top=None, top_op=None, off=False, out=False, jmp=None, jset=False)


def choose(F, b, var):
    """the number that a function of one operator gives for it, if it only chooses."""
    val, i = {}, 0
    for _ in range(40):
        blk = b.blocks[i]
        for s in blk['s']:
            if s[0] != '=' or s[1][1]:
                if s[0] == '=':
                    return None
                continue
            rv = s[2]
            if rv[0] == 'discr':
                val[s[1][0]] = F.discr_of(BIN, var)
            elif rv[0] == 'use' and rv[1][0] == 'k' and 'int' in rv[1][1]:
                val[s[1][0]] = rv[1][1]['int']
            elif rv[0] == 'use' and rv[1][0] in ('c', 'm') and not rv[1][1][1] and rv[1][1][0] in val:
                val[s[1][0]] = val[rv[1][1][0]]
            else:
                return None
        t = blk['t']
        if t[0] == 'goto':
            i = t[1]
        elif t[0] == 'switch' and t[1][0] in ('c', 'm') and t[1][1][0] in val:
            i = dict((x, y) for x, y in t[2]).get(val[t[1][1][0]], t[3])
        elif t[0] in ('return', 'ret'):
            return val.get(0)
        else:
            return None
    return None


class ParseRule(Rule):
    opaque = ()

    def __init__(self, F, own):
        self.F, self.own = F, own
        self.seen = set()
        self.ids = {}
        self.made = {}
        self.rounds = 0

    def relevant(self, F):
        return {self.own}

    def split_on(self, b):
        return [i for i, l in enumerate(b.locals) if l[0] == ['prim', 'bool']] if b.id == self.own else ()

    def bad(self, E, c, line, key, msg):
        E.report(key, c.bid, line, msg)

    # one operator on the stack
    def leave(self, E, c, st, line):
        """what was on top is left behind: it must be whole in one place."""
        if st.top in ('bin', 'un', 'fun') and st.off != st.out:
            self.bad(E, c, line, 'operator', 'an operator or function is %s' % (
                'lost' if st.off else 'put out and still left to be put out again'))
        return st._replace(**FRESH)

    def wrong(self, st):
        """must the expression be refused because of what was just taken off the stack?"""
        if not st.off:
            return False
        want = {'CloseParen': 'OpenParen', 'CloseBracket': 'OpenBracket'}.get(st.kind)
        if st.top == 'open':
            return st.open != want
        return st.top in ('empty', 'fun') and want is not None and not st.out

    def tops(self, st):
        """what can be on top."""
        out = []
        js = (('v', 'Option', 'Some', (('0', ('jpos',)),)), NONE)
        for b in (PREC if st.kind == 'Bin' else ('Subtract', 'Or')):
            for j in js if b in SHORT else js[1:]:
                out.append((('bin', b, j is js[0]), ('t', (v0(TOK, BIN, v0(BIN, b)), j))))
        for u in UNARY:
            out.append((('un', u, False), ('t', (v0(TOK, UN, v0(UN, u)), NONE))))
        fun = ('v', TOK, 'Function', (('name', ('fname',)), ('id', ('fid',)), ('num_args', ('fargs',))))
        out.append((('fun', None, False), ('t', (fun, NONE))))
        for o in ('OpenParen', 'OpenBracket'):
            out.append((('open', o, False), ('t', (v0(TOK, o), NONE))))
        return out

    def look(self, E, c, st, line, take):
        if st.top and not st.off and not st.out:
            # seen before, still there
            st = st._replace(off=take)
            for (k, o, j), v in self.tops(st):
                if k == st.top and (o == st.top_op or o == st.open and k == 'open') and j == bool(st.jmp):
                    return [(st, some(v))]
            return [(st, NONE)]
        if take and st.top and not st.off and st.out:
            return [(st._replace(off=True), some(('u',)))]
        st = self.leave(E, c, st, line)
        st = st._replace(open=None)
        out = []
        for (k, o, j), v in self.tops(st):
            out.append((st._replace(top=k, top_op=o if k != 'open' else None, open=o if k == 'open' else None, jmp=j, off=take), some(v)))
        out.append((st._replace(top='empty', off=take), NONE))
        return out

    def finish(self, E, c, st, line):
        """the token has been dealt with."""
        if st.kind is None:
            return
        self.rounds += 1
        if self.wrong(st):
            self.bad(E, c, line, 'unbalanced', 'brackets that do not match are accepted')
        if st.kind in ('CloseParen', 'CloseBracket'):
            if st.top == 'fun' and not st.out:
                self.bad(E, c, line, 'call lost', 'a function is not applied to its arguments')
            if st.open is None and not st.top == 'fun' and st.top != 'seen':
                pass
        self.leave(E, c, st, line)
        want = {'Variable': 1, 'Number': 1, 'String': 1, 'Bin': 0}.get(st.kind)
        if st.kind in ('Variable', 'Number', 'String') and st.outs != (st.kind,):
            self.bad(E, c, line, 'operand', 'an operand is put out %d times' % len(st.outs))
        d = {'Variable': 1, 'Number': 1, 'String': 1, 'Function': 1, 'Bin': -1}.get(st.kind, 0)
        if st.kind == 'OpenBracket' and not st.after:
            d = 1
        if st.inc is not None and st.inc != d:
            self.bad(E, c, line, 'arguments', 'the arguments of a function are counted wrongly')
        if st.kind == 'Bin' and 'stacked' not in st.outs:
            self.bad(E, c, line, 'operator', 'an operator is lost')
        if st.kind == 'Un' and 'stacked' not in st.outs:
            self.bad(E, c, line, 'operator', 'an operator is lost')
        if st.kind == 'OpenParen' and 'stacked' not in st.outs:
            self.bad(E, c, line, 'parenthesis', 'a parenthesis is lost')
        if st.kind == 'Function' and 'stacked' not in st.outs:
            self.bad(E, c, line, 'operator', 'a function is lost')
        if st.kind == 'Comma' and st.top in ('bin', 'un', None):
            self.bad(E, c, line, 'comma', 'an argument ends before its operators were applied')

    def tokens(self, st):
        after = st.kind in ('Variable', 'CloseParen', 'CloseBracket')
        n = P0._replace(after=after)
        out = []
        for k in ('Variable', 'Number', 'String'):
            out.append((n._replace(kind=k), v0(TOK, k, ('tok', k))))
        for b in PREC:
            out.append((n._replace(kind='Bin', op=b), v0(TOK, BIN, v0(BIN, b))))
        for u in UNARY:
            out.append((n._replace(kind='Un', op=u), v0(TOK, UN, v0(UN, u))))
        for k in ('OpenParen', 'CloseParen', 'OpenBracket', 'CloseBracket', 'Comma'):
            out.append((n._replace(kind=k), v0(TOK, k)))
        out.append((n._replace(kind='Function'), ('v', TOK, 'Function', (
            ('name', ('tok', 'name')), ('id', ('tok', 'id')), ('num_args', ('tok', 'num_args'))))))
        return out

    def on_call(self, E, c, m, st, name, k, args, line):
        n = short(name)
        if n == 'next' and 'Tokenizer' in name:
            self.finish(E, c, st, line)
            out = [(s, ok(some(v))) for s, v in self.tokens(st)]
            out.append((P0._replace(kind='end'), ok(NONE)))
            out.append((P0._replace(kind='failed'), err(('tokerr',))))
            return out
        if not args or st.kind is None:
            return None
        lid = E.F.callee(k)[0]
        if lid and len(args) == 1 and E.F.bodies[lid].argc == 1 and E.F.bodies[lid].kind == 'fn':
            x = E.read(m, args[0]) if args[0][0] in ('loc', 'p') else args[0]
            if x[0] == 'v' and x[1] == BIN:
                n = choose(E.F, E.F.bodies[lid], x[2])
                if n is not None:
                    return [(st, ('i', n))]
        l = leaf(args[0])
        if l == STACK:
            if n == 'pop':
                return self.look(E, c, st, line, True)
            if n in ('last', 'last_mut'):
                return self.look(E, c, st, line, False)
            if n == 'push':
                return [(self.stack(E, c, m, st, args[1], line), ('t', ()))]
        if l == OUT:
            if n == 'push':
                return [(self.put(E, c, m, st, args[1], line), ('t', ()))]
            if n == 'len':
                return [(st._replace(jat=0 if st.jval is None else -1), ('olen',))]
            if n in ('index_mut', 'index', 'get_mut', 'get') and len(args) > 1:
                v = ('slot', args[1])
                return [(st, v if n.startswith('index') else some(v))]
        if l == ARGS:
            if n == 'pop':
                return [(st, some(('got',)))]
            if n in ('last_mut', 'last'):
                return [(st, some(('argc',))), (st._replace(inc=None), NONE)]
            if n == 'push':
                want = 1 if st.kind == 'OpenBracket' and st.after else 0
                if args[1][0] == 'i' and args[1][1] != want:
                    self.bad(E, c, line, 'arguments', 'the arguments of a function are counted from the wrong number')
                return [(st, ('t', ()))]
        return None

    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'discr' and cond[1][0] == 'slot':
            d = self.F.discr_of(EXP, 'JmpIf')
            if val != d and not (not isinstance(val, int) and d not in val[1]):
                return None
            return st
        if cond[0] == 'bin' and cond[1] in ('Eq', 'Ne'):
            x, y = cond[2:4]
            if contains(cond, ('got',)):
                return st._replace(got=(val != 0) == (cond[1] == 'Eq'))
            for a, b in ((x, y), (y, x)):
                if a == ('fid',) and b[0] == 'i':
                    same = (val != 0) == (cond[1] == 'Eq')
                    if st.name is not None and isinstance(st.name, int):
                        return st if same == (st.name == b[1]) else None
                    return st._replace(name=b[1] if same else (st.name or frozenset()) | {b[1]})
        if cond == ('fid',):
            if isinstance(val, int):
                if isinstance(st.name, int) and st.name != val or isinstance(st.name, frozenset) and val in st.name:
                    return None
                return st._replace(name=val)
            if isinstance(st.name, int):
                return None if st.name in val[1] else st
            return st._replace(name=(st.name or frozenset()) | val[1])
        return st

    def on_store(self, E, c, m, st, loc, v, line):
        if st.kind is None:
            return st
        if loc == ('argc',) or contains(loc, ('argc',)):
            d = None
            if v[0] == 'call' and short(v[1]) in ('saturating_add', 'saturating_sub', 'wrapping_add', 'wrapping_sub') and v[2][1][0] == 'i':
                d = v[2][1][1] * (1 if short(v[1]).endswith('add') else -1) if v[2][0] == ('argc',) else None
            else:
                f = lin(v)
                if f.get(('argc',)) == 1 and len(f) <= 2:
                    d = f.get(1, 0)
            if st.inc is not None:
                st = st._replace(inc=st.inc + (d if d is not None else 9))
        if leaf(loc) == EXP + '::JmpIf.pos' and contains(loc, ('jpos',)):
            f = lin(v)
            f = {k: n for k, n in f.items() if n}
            good = f == {('olen',): 1, ('jpos',): -1} and st.jat == 0
            if not good:
                self.bad(E, c, line, 'jump distance', 'a decided && or || skips more or less than its right operand')
            st = st._replace(jset=True)
        return st

    def put(self, E, c, m, st, v, line):
        """into the output."""
        v = unref(v)
        kind = v[2] if v[0] == 'v' and v[1] == EXP else None
        if st.jat is not None:
            st = st._replace(jat=st.jat - 1 if st.jval is not None and kind != 'JmpIf' else st.jat)
        if kind in (BIN, UN):
            x = payload(v, EXP)
            want = 'bin' if kind == BIN else 'un'
            self.seen.add((st.kind, want))
            if st.top != want or st.out or not (x[0] == 'v' and x[2] == st.top_op):
                self.bad(E, c, line, 'other operator', 'an operator is put out that was not the one on top of the stack')
                return st
            if want == 'bin':
                if st.jmp and not st.jset:
                    self.bad(E, c, line, 'jump', 'a decided && or || does not skip its right operand')
                if st.kind == 'Bin' and PREC[st.op] > PREC[st.top_op]:
                    self.bad(E, c, line, 'binds', '%s is applied before %s, which binds tighter' % (st.top_op, st.op))
            return st._replace(out=True)
        if kind in ('Function', 'ArrayAccess', 'ArrayBuild'):
            self.seen.add(kind)
            if st.top != 'fun' or st.out:
                self.bad(E, c, line, 'call', 'a function is applied that is not the one its arguments are for')
                return st
            if st.got is not True:
                self.bad(E, c, line, 'arity', 'a function is applied without its number of arguments being checked')
            if isinstance(st.name, int):
                self.made.setdefault(st.name, set()).add(kind)
            elif kind != 'Function':
                self.bad(E, c, line, 'call', 'a function of the embedder is taken for an array')
            if kind == 'Function':
                d = dict(v[3])
                if d.get('id') != ('fid',):
                    self.bad(E, c, line, 'function id', 'another function is called')
                if not (contains(d.get('num_args', ('u',)), ('fargs',)) or contains(d.get('num_args', ('u',)), ('got',))):
                    self.bad(E, c, line, 'function args', 'a function is called with another number of arguments')
            return st._replace(out=True)
        if kind == 'JmpIf':
            d = dict(v[3])
            x = d.get('val', ('u',))
            self.seen.add('JmpIf')
            if st.kind != 'Bin' or st.jval is not None:
                self.bad(E, c, line, 'jump', 'part of an expression may be skipped that no && or || decides')
                return st
            return st._replace(jval=x[1] if x[0] == 'i' else -1)
        if kind in ('Variable', 'Constant'):
            p = payload(v, EXP)
            k = [t for t in ('Variable', 'Number', 'String') if contains(p, ('tok', t))]
            if st.kind not in ('Variable', 'Number', 'String') or k not in ([st.kind], []) or (kind == 'Variable') != (st.kind == 'Variable'):
                self.bad(E, c, line, 'operand', 'an operand is put out that is not there')
            return st._replace(outs=(st.outs + (st.kind,))[:3])
        return st

    def stack(self, E, c, m, st, v, line):
        """onto the stack."""
        if v[0] != 't' or len(v[1]) != 2:
            self.bad(E, c, line, 'stack', 'what is put on the stack is not known')
            return st
        t, j = v[1]
        kind = t[2] if t[0] == 'v' and t[1] == TOK else None
        if st.top in ('bin', 'un') and not st.off and not st.out and st.kind == 'Bin' and kind == BIN:
            if st.top == 'un' or PREC[st.op] <= PREC[st.top_op]:
                self.bad(E, c, line, 'binds', '%s is applied before %s, which %s' % (
                    st.op, st.top_op, 'binds tighter' if st.top == 'un' or PREC[st.op] < PREC[st.top_op] else 'comes first'))
        if kind == BIN:
            x = payload(t, TOK)
            self.seen.add('push ' + BIN)
            if st.kind != 'Bin' or not (x[0] == 'v' and x[2] == st.op):
                self.bad(E, c, line, 'other operator', 'an operator is put on the stack that was not read')
            if st.top is None or st.top in ('bin', 'un') and st.off:
                self.bad(E, c, line, 'binds', 'operators that bind tighter are not applied first')
            want = SHORT.get(st.op)
            p = payload(j, 'Option', 'Some')
            if want is None:
                if st.jval is not None or p is not None:
                    self.bad(E, c, line, 'jump', 'part of an expression may be skipped that no && or || decides')
            elif st.jval != want:
                self.bad(E, c, line, 'jump', 'the right operand of %s is skipped when the left one does not decide' % st.op
                         if st.jval is not None else 'the right operand of %s is never skipped' % st.op)
            elif p is None:
                self.bad(E, c, line, 'jump', 'where the right operand of %s ends is never set' % st.op)
            else:
                f = {a: b for a, b in lin(p).items() if b}
                n = f.pop(1, 0)
                if f != {('olen',): 1} or n != (st.jat or 0):
                    self.bad(E, c, line, 'jump', 'the jump of %s is not where it is looked for' % st.op)
        elif kind == UN:
            x = payload(t, TOK)
            self.seen.add('push ' + UN)
            if st.kind != 'Un' or not (x[0] == 'v' and x[2] == st.op):
                self.bad(E, c, line, 'other operator', 'an operator is put on the stack that was not read')
        elif kind in ('OpenParen', 'OpenBracket'):
            if st.kind != kind:
                self.bad(E, c, line, 'parenthesis', 'a parenthesis is put on the stack that was not read')
        elif kind == 'Function':
            d = dict(t[3])
            i = d.get('id', ('u',))
            self.seen.add('push ' + kind)
            if st.kind == 'OpenBracket':
                if i[0] == 'i':
                    self.ids.setdefault(st.after, set()).add(i[1])
                if st.after and d.get('num_args') not in (('i', 2),):
                    self.bad(E, c, line, 'arguments', 'an array is accessed with other than one index')
            elif st.kind != 'Function' or any(d.get(x) != ('tok', x) for x in ('id', 'num_args')):
                self.bad(E, c, line, 'other function', 'a function is put on the stack that was not read')
        return st._replace(outs=(st.outs + ('stacked',))[:3])

    def on_return(self, E, c, m, st, v, line):
        if c.bid != self.own:
            return st
        if v[0] == 'v' and v[2] == 'Ok':
            if st.kind != 'end':
                self.bad(E, c, line, 'early', 'an expression ends before all of it was read')
            elif st.top != 'empty':
                self.bad(E, c, line, 'leftover', 'an expression ends before all its operators were applied')
            self.seen.add('ok')
        return st


OPS = {'Add': 'op_add', 'Subtract': 'op_subtract', 'Multiply': 'op_multiply', 'Divide': 'op_divide', 'And': 'op_and', 'Or': 'op_or',
       'Xor': 'op_xor', 'Eq': 'op_eq', 'Ne': 'op_ne', 'Lt': 'op_lt', 'Le': 'op_le', 'Gt': 'op_gt', 'Ge': 'op_ge',
       'Not': 'op_not', 'Minus': 'op_minus'}
VALS, XPOS, POS, FUNCS = 'Context.expr_stack', 'Context.expr_pos', 'Context.pos', 'Runtime.functions'

# kind of element, operator of it | operands taken, results put back | truth of the left operand, whether a jump is taken
# base, cd, cj: how the position moved | adv: elements skipped | order of the arguments taken | rev: is a loop backwards
# own: is the function one of the runtime's | back: is the instruction run again | zero, clear: ready for the next expression
V = namedtuple('V', 'kind op pops outs truth jval base cd cj adv order rev own back zero clear')
V0 = V(None, None, 0, 0, None, None, None, 0, 0, None, None, False, None, False, False, False)


class EvalRule(Rule):
    opaque = ()

    def __init__(self, F, own, variable):
        self.F, self.own, self.variable = F, own, variable
        self.seen = set()
        self.ids = set()

    def relevant(self, F):
        return {self.own}

    def bad(self, E, c, line, key, msg):
        E.report(key, c.bid, line, msg)

    def elements(self, st):
        n = V0
        out = [(n._replace(kind='Variable'), v0(EXP, 'Variable', ('var',))),
               (n._replace(kind='Constant'), v0(EXP, 'Constant', ('const',))),
               (n._replace(kind='ArrayAccess'), v0(EXP, 'ArrayAccess')),
               (n._replace(kind='ArrayBuild'), v0(EXP, 'ArrayBuild', ('nargs',))),
               (n._replace(kind='Function'), ('v', EXP, 'Function', (('id', ('fid',)), ('num_args', ('nargs',)))))]
        for b in PREC:
            out.append((n._replace(kind='Bin', op=b), v0(EXP, BIN, v0(BIN, b))))
        for u in UNARY:
            out.append((n._replace(kind='Un', op=u), v0(EXP, UN, v0(UN, u))))
        for j in (0, 1):
            out.append((n._replace(kind='JmpIf', jval=j), ('v', EXP, 'JmpIf', (('val', ('i', j)), ('pos', ('jpos',))))))
        return out

    def moved(self, E, c, st, line):
        j = 1 if st.kind == 'JmpIf' and st.truth is not None and st.truth == st.jval else 0
        if (st.cd, st.cj) != (1, j):
            self.bad(E, c, line, 'position', 'an expression that is taken up again after a function goes on at another place')

    def finish(self, E, c, st, line, by_pos):
        if st.kind is None:
            return
        self.seen.add(st.kind)
        self.moved(E, c, st, line)
        want = {'Variable': (0, 1), 'Constant': (0, 1), 'Un': (1, 1), 'Bin': (2, 1), 'ArrayAccess': (2, 1), 'JmpIf': (0, 0)}.get(st.kind)
        if want and (st.pops, st.outs) != want:
            self.bad(E, c, line, 'operands', 'an element of an expression takes or leaves another number of values than it has')
        if st.kind in ('Function', 'ArrayBuild') and st.outs != 1:
            self.bad(E, c, line, 'operands', 'a function leaves no value, or several')
        if st.kind == 'JmpIf':
            if st.truth is None:
                self.bad(E, c, line, 'undecided', 'whether the right operand of && or || is skipped does not depend on the left one')
            elif (st.truth == st.jval) != (st.adv is not None or by_pos and st.cj == 1):
                self.bad(E, c, line, 'skip', 'the right operand of && or || is %s although the left one %s' % (
                    ('run', 'decides') if st.truth == st.jval else ('skipped', 'does not decide')))

    def fetch(self, E, c, st, line, by_pos=False):
        self.finish(E, c, st, line, by_pos)
        out = [(s, some(v)) for s, v in self.elements(st)]
        out.append((V0._replace(kind='end'), NONE))
        return out

    def on_branch(self, E, c, m, st, cond, val, line):
        # something is always skipped
        if cond == ('jpos',) and (val == 0):
            return None
        if cond[0] == 'bin' and len(cond) > 3 and isinstance(val, int):
            for op, x, y in ((cond[1], cond[2], cond[3]), ({'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(cond[1], cond[1]), cond[3], cond[2])):
                if x == ('jpos',) and y in (('i', 0), ('i', 1)):
                    n = y[1]
                    known = {'Gt': None if n else 1, 'Ge': 1, 'Lt': 0, 'Le': None if n else 0, 'Eq': None if n else 0, 'Ne': None if n else 1}.get(op)
                    if known is not None and known != int(val != 0):
                        return None
        return st

    def over(self, E, c, a):
        """is it the iterator over the elements?"""
        if a[0] == 'loc':
            b = E.F.bodies.get(a[1])
            return b is not None and 'Expression' in str(b.locals[a[2]][0])
        return 'Expression' in str(a) or contains(a, ('arg', self.own, 1))

    def on_call(self, E, c, m, st, name, k, args, line):
        n = short(name)
        if not args:
            return None
        a = args[0]
        l = leaf(a)
        if st.kind is None and any(leaf(x) == XPOS for x in args):
            self.seen.add('resume')
        if n == 'next' and self.over(E, c, a):
            if st.kind == 'JmpIf' and st.adv == 'loop':
                return [(st, some(('skipped',)))]
            return self.fetch(E, c, st, line)
        if n == 'get' and contains(a, ('arg', self.own, 1)) and len(args) > 1:
            if leaf(args[1]) == XPOS or args[1][0] in ('ph', 'bin'):
                self.seen.add('resume')
            return self.fetch(E, c, st, line, True)
        if st.kind == 'JmpIf' and n in ('nth', 'advance_by') and self.over(E, c, a) and len(args) > 1:
            f = lin(args[1])
            if f.get(('jpos',)) != 1 or f.get(1, 0) != (-1 if n == 'nth' else 0):
                self.bad(E, c, line, 'skip', 'the right operand of && or || is not skipped as a whole')
            return [(st._replace(adv='done'), some(('skipped',)))]
        if n == 'next' and st.adv == 'loop':
            return [(st, some(('sym', 'count'))), (st._replace(adv='done'), NONE)]
        if n == 'into_iter' and st.kind == 'JmpIf' and a[0] == 'v' and a[1].startswith('Range'):
            d = dict(a[3])
            f = lin(d.get('end', ('u',)))
            if d.get('start') == ('i', 0) and f == {('jpos',): 1} and a[1] == 'Range' or d.get('start') == ('i', 1) and f == {('jpos',): 1} and a[1] != 'Range':
                return [(st._replace(adv='loop'), a)]
            self.bad(E, c, line, 'skip', 'the right operand of && or || is not skipped as a whole')
            return [(st._replace(adv='loop'), a)]
        if n == 'rev':
            st2 = st._replace(rev=not st.rev)
            return ('state', st2)
        if n == 'reverse' and st.order:
            return ('state', st._replace(order='right' if st.order == 'wrong' else 'wrong'))
        if l == VALS:
            if n == 'pop':
                if st.kind == 'end' and st.clear:
                    self.bad(E, c, line, 'result', 'the result of an expression is thrown away')
                v = ('argv',) if st.kind in ('Function', 'ArrayBuild') else ('val', st.pops + 1)
                return [(st._replace(pops=min(st.pops + 1, 3)), some(v))]
            if n == 'last':
                return [(st, some(('top',)))]
            if n == 'push':
                return [(self.put(E, c, st, args[1], line), ('t', ()))]
            if n == 'clear':
                return [(st._replace(clear=True), ('t', ()))]
            if n in ('split_off', 'drain') and len(args) > 1:
                x = args[1]
                if x[0] == 'v' and x[3]:
                    x = dict(x[3]).get('start', ('u',))
                f = lin(x)
                good = f.get(('nargs',)) == -1 and not f.get(1)
                return [(st._replace(order='right' if good else 'wrong'), ('taken',))]
            return None
        lid = E.F.callee(k)[0] if 'fn' in k else None
        if lid == self.variable and len(args) > 1:
            if args[1] != ('var',):
                self.bad(E, c, line, 'variable', 'another variable is read')
            return [(st, some(('varval',)))]
        if n in ('from', 'into') and a == ('const',):
            return [(st, ('constval',))]
        if n == 'to_bool' and a == ('top',):
            return [(st._replace(truth=1), ('i', 1)), (st._replace(truth=0), ('i', 0))]
        if n.startswith('op_') and 'Variable' in name:
            return [(st, ('op', n, tuple(args)))]
        if n == 'to_usize' and a[0] == 'val':
            return [(st, ('index', a[1]))]
        if n in ('into_array', 'to_array', 'as_array') and a[0] == 'val':
            return [(st, ('array', a[1]))]
        if n == 'get' and st.kind == 'ArrayAccess':
            if a != ('array', 2) or args[1] != ('index', 1):
                self.bad(E, c, line, 'access', 'an array is accessed with something else for its index')
            return [(st, some(('item',))), (st, NONE)]
        if l == FUNCS and n == 'get':
            if not contains(args[1], ('fid',)):
                self.bad(E, c, line, 'function', 'another function is called')
            return [(st._replace(own=True), some(('fnc',))), (st._replace(own=False), NONE)]
        if name == '<indirect>' and st.kind == 'Function':
            self.args(E, c, st, line, 'call')
            return [(st, ('fnres',))]
        if st.kind in ('Function', 'ArrayBuild'):
            if n == 'index_mut' and len(args) > 1:
                return [(st, ('slot', args[1]))]
            if n == 'push' and len(args) > 1 and args[1] == ('argv',):
                return ('state', st._replace(order='wrong'))
            if n == 'insert' and len(args) > 2 and args[2] == ('argv',):
                return ('state', st._replace(order='right' if args[1] == ('i', 0) else 'wrong'))
        return None

    def args(self, E, c, st, line, what):
        if st.order == 'wrong':
            self.bad(E, c, line, 'order', 'the arguments of a function or items of an array are not in their order')
        elif st.order == 'right':
            self.seen.add('order ' + what)

    def put(self, E, c, st, v, line):
        k = st.kind
        good = True
        if k == 'Variable':
            good = v == ('varval',)
        elif k == 'Constant':
            good = v == ('constval',)
        elif k == 'Un':
            good = v == ('op', OPS[st.op], (('val', 1),))
        elif k == 'Bin':
            good = v[0] == 'op' and v[1] == OPS[st.op] and v[2] == (('val', 2), ('val', 1))
        elif k == 'Function':
            good = v == ('fnres',)
        elif k == 'ArrayBuild':
            self.args(E, c, st, line, 'array')
            good = v[0] == 'v' and v[2] == 'Array'
        elif k == 'ArrayAccess':
            good = v == ('item',) or v[0] in ('v', 'call', 'ph')
        elif k == 'JmpIf':
            good = False
        if not good:
            self.bad(E, c, line, 'result of %s' % (st.op or k), 'the value of %s is not what its operands make' % (st.op or k))
        return st._replace(outs=min(st.outs + 1, 2))

    def on_store(self, E, c, m, st, loc, v, line):
        l = leaf(loc)
        if l == XPOS:
            if v == ('i', 0):
                return st._replace(zero=True)
            f = {a: b for a, b in lin(v).items() if b}
            d, j = f.pop(1, 0), f.pop(('jpos',), 0)
            base = frozenset(f.items())
            if base == st.base:
                return st._replace(cd=d, cj=j)
            return st._replace(base=base, cd=st.cd + d, cj=st.cj + j)
        if l == POS:
            f = {a: b for a, b in lin(v).items() if b}
            return st._replace(back=f.pop(1, 0) == -1 and len(f) == 1)
        if v == ('argv',) and st.kind in ('Function', 'ArrayBuild'):
            if loc[0] == 'slot':
                f = {a: b for a, b in lin(loc[1]).items() if b}
                n = f.pop(('nargs',), 0)
                d = f.pop(1, 0)
                it = list(f.values())
                good = it == [1] and not n and not d if st.rev else it == [-1] and n == 1 and d == -1
            else:
                good = st.rev
            return st._replace(order='right' if good and st.order != 'wrong' else 'wrong')
        return st

    def on_agg(self, E, c, m, st, v, line):
        if v[1] == 'Event' and v[2] == 'Function' and c.bid == self.own:
            d = dict(v[3])
            f = {a: b for a, b in lin(d.get('id', ('u',))).items() if b}
            self.ids.add(f.pop(1, 0))
            if f != {('fid',): -1}:
                self.bad(E, c, line, 'function id', 'the embedder is asked for another function')
            if st.own is not False:
                self.bad(E, c, line, 'function own', 'the embedder is asked for a function that the runtime has')
            self.args(E, c, st, line, 'event')
        return st

    def on_return(self, E, c, m, st, v, line):
        if c.bid != self.own:
            return st
        if v[0] == 'v' and v[2] == 'Ok':
            x = dict(v[3])['0']
            self.seen.add('ok')
            if st.kind != 'end':
                self.bad(E, c, line, 'early', 'an expression ends before all of it was evaluated')
            if not st.zero or not st.clear:
                self.bad(E, c, line, 'leftover', 'the next expression does not begin at its start with nothing left over')
            if x != ('val', 1):
                self.bad(E, c, line, 'result', 'the result of an expression is not its last value')
        else:
            self.seen.add('err')
            if st.kind != 'Function' or st.zero or st.clear:
                self.bad(E, c, line, 'interrupted', 'an expression that waits for a function is not taken up where it was')
            else:
                self.moved(E, c, st, line)
            if not st.back:
                self.bad(E, c, line, 'again', 'the instruction that waits for a function is not taken up again')
        return st


class IdRule(Rule):
    """how functions of the embedder are numbered."""
    opaque = ()

    def __init__(self, own):
        self.own = own
        self.ids = set()

    def relevant(self, F):
        return {self.own}

    def on_call(self, E, c, m, st, name, k, args, line):
        if short(name) == 'insert' and len(args) > 2 and args[2][0] == 't':
            f = {a: b for a, b in lin(args[2][1][0]).items() if b}
            n = f.pop(1, 0)
            self.ids.add(n if list(f.values()) == [-1] else 'other')
        return None

# ---------------------------------------------------------------- operators
VAR = 'Variable'
KINDS = ('String', 'Integer', 'Float', 'Array')
ARITH = {'op_add': ('saturating_add', 'Add'), 'op_subtract': ('saturating_sub', 'Sub'), 'op_multiply': ('saturating_mul', 'Mul')}
COMPARE = {'eq': (0,), 'ne': (-1, 1), 'lt': (-1,), 'le': (-1, 0), 'gt': (1,), 'ge': (0, 1)}
ORDER = {-1: 'Less', 0: 'Equal', 1: 'Greater'}

# rel: how the operands compare | t0, t1: their truth | nz0, nz1: is a number other than zero | empty
O = namedtuple('O', 'rel t0 t1 nz0 nz1 empty')
O0 = O(None, None, None, None, None, None)


def args_of(v, own, out=None):
    """which of the operands a value is made from, in order of appearance."""
    out = [] if out is None else out
    if isinstance(v, tuple) and v:
        if v[0] == 'arg' and len(v) == 3 and v[1] == own:
            if v[2] not in out:
                out.append(v[2])
        else:
            for x in v:
                args_of(x, own, out)
    return out


class OpRule(Rule):
    """one operator, for one kind of value on each side."""
    opaque = ()

    def __init__(self, F, own, name, kinds):
        self.F, self.own, self.name, self.kinds = F, own, name, kinds
        self.discr = {k: F.discr_of(VAR, k) for k in KINDS}
        self.results = []

    def relevant(self, F):
        return {self.own}

    def split_on(self, b):
        return [i for i, l in enumerate(b.locals) if l[0] == ['prim', 'bool']] if b.id == self.own else ()

    def bad(self, E, c, line, key, msg):
        E.report(self.name + ' ' + key, self.own, line, msg)

    def which(self, v):
        a = args_of(v, self.own)
        return a[0] if len(a) == 1 else None

    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'discr':
            x = cond[1]
            if x[0] == 'arg' and x[1] == self.own and x[2] < len(self.kinds):
                d = self.discr[self.kinds[x[2]]]
                if val != d if isinstance(val, int) else d in val[1]:
                    return None
            return st
        if cond[0] == 'bin' and cond[1] in ('Eq', 'Ne'):
            for x, y in ((cond[2], cond[3]), (cond[3], cond[2])):
                if zero(y) and self.which(x) is not None:
                    n = int((cond[1] == 'Ne') == (val != 0))
                    f = 'nz%d' % self.which(x)
                    if getattr(st, f) not in (None, n):
                        return None
                    return st._replace(**{f: n})
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        n = short(name)
        if not args:
            return None
        a = args[0]
        if n in COMPARE and len(args) == 2 and self.name in OPS.values():
            pair = [x[2] if x[0] == 'arg' and x[1] == self.own else None for x in args]
            if sorted(map(str, pair)) == ['0', '1']:
                out = []
                for r in (-1, 0, 1) if st.rel is None else (st.rel,):
                    s = r if pair == [0, 1] else -r
                    out.append((st._replace(rel=r), ('i', int(s in COMPARE[n]))))
                return out
        if n in ('partial_cmp', 'cmp') and len(args) == 2:
            w = tuple(tuple(args_of(x, self.own)) for x in args)
            return [(st, ('cmp', w))]
        if n == 'reverse' and a[0] == 'cmp' or n == 'map' and a[0] == 'cmp' and 'reverse' in str(args[1]):
            return [(st, ('cmp', a[1][::-1]))]
        if n == 'to_bool' and a[0] == 'arg' and a[1] == self.own and a[2] < 2:
            f = 't%d' % a[2]
            t = getattr(st, f)
            return [(st._replace(**{f: x}), ('i', x)) for x in ((0, 1) if t is None else (t,))]
        if n == 'is_empty' and self.which(a) is not None and self.name == 'to_bool':
            return [(st._replace(empty=x), ('i', x % 2)) for x in ((0, 1) if st.empty is None else (st.empty,))]
        if n == 'len' and self.which(a) is not None and self.name == 'to_bool':
            out = [(st._replace(empty=1), ('i', 0)), (st._replace(empty=0), ('i', 1)), (st._replace(empty=2), ('i', 2))]
            return [x for x in out if st.empty in (None, x[0].empty)]
        if n in ('from', 'into') and a[0] == 'i':
            return [(st, a)]
        if n == 'parse_number':
            return [(st, ('number', a))]
        if E.F.callee(k)[0] == self.own if 'fn' in k else False:
            return [(st, ('again', tuple(args)))]
        return None

    def on_assert(self, E, c, m, st, kind, ops, line):
        if c.bid == self.own and 'verflow' in str(kind):
            self.bad(E, c, line, 'overflow', 'arithmetic on integers can overflow')
        return st

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.own:
            self.results.append((st, v, line))
            self.judge(E, c, st, v, line)
        return st

    def judge(self, E, c, st, v, line):
        n, K = self.name, self.kinds
        if n in ARITH or n in ('op_divide', 'op_minus'):
            x = payload(v, VAR)
            numbers = all(k in ('Integer', 'Float') for k in K)
            if v[0] == 'again':
                w = [y[1] if y[0] == 'number' else y for y in v[1]]
                if numbers or [args_of(y, self.own) for y in w] != [[i] for i in range(len(K))] or not any(y[0] == 'number' for y in v[1]):
                    self.bad(E, c, line, 'again', 'an operator is applied to other operands')
                return
            if n == 'op_add' and not numbers and len(args_of(v, self.own)) > 1 and args_of(v, self.own) != [0, 1]:
                self.bad(E, c, line, 'order', 'texts or arrays are put together in another order')
            if not numbers or x is None or x[0] not in ('call', 'bin', 'un', 'i', 'f', 'cast'):
                return
            ints = all(k == 'Integer' for k in K)
            if n == 'op_minus':
                good = ints and v[2] == 'Integer' and (x[0] == 'call' and short(x[1]) in ('saturating_neg', 'saturating_sub')) or \
                    not ints and v[2] == 'Float' and (x[0] == 'un' and x[1] == 'Neg' or x[0] == 'call' and short(x[1]) == 'neg')
                if not good and x[0] in ('un', 'call', 'bin'):
                    self.bad(E, c, line, 'value', 'the negation of a number is not what it should be')
                return
            if n == 'op_divide':
                if x[0] == 'bin' and x[1] == 'Div':
                    if args_of(x[2], self.own) != [0] or args_of(x[3], self.own) != [1]:
                        self.bad(E, c, line, 'order', 'the operands are taken in another order')
                    if st.nz1 != 1:
                        self.bad(E, c, line, 'zero', 'a number is divided by zero')
                elif st.nz1 != 0:
                    self.bad(E, c, line, 'value', 'a quotient is something else')
                return
            fn, op = ARITH[n]
            got = None
            if x[0] == 'call' and len(x[2] or ()) == 2:
                got = short(x[1])
            elif x[0] == 'bin':
                got = x[1]
            order = [args_of(y, self.own) for y in (x[2] if x[0] == 'call' else x[2:4])] if got else None
            if ints and got != fn or not ints and got != op:
                if got is not None:
                    self.bad(E, c, line, 'value', 'the result of an operator on numbers is something else')
            elif order not in ([[0], [1]], [[1], [0]]) or n == 'op_subtract' and order != [[0], [1]]:
                self.bad(E, c, line, 'order', 'the operands are taken in another order')
            return
        if n == 'to_bool':
            k = K[0]
            if k in ('String', 'Array'):
                if st.empty is None or v != ('i', int(st.empty != 1)):
                    self.bad(E, c, line, 'value', 'a text or array is true although it is empty, or false although it is not')
            elif v[0] == 'i':
                if st.nz0 is None or v[1] != st.nz0:
                    self.bad(E, c, line, 'value', 'a number is true although it is zero, or false although it is not')
            elif not (v[0] == 'bin' and v[1] == 'Ne' and zero(v[3])):
                self.bad(E, c, line, 'value', 'a number is true although it is zero, or false although it is not')
            return
        x = v if v[0] == 'i' else payload(v, VAR, 'Integer')
        op = {a: b for b, a in OPS.items()}.get(n)
        if op is None:
            return
        if x is None or x[0] != 'i':
            self.bad(E, c, line, 'value', 'the result of an operator does not depend on its operands')
            return
        want = set()
        if op in ('And', 'Or', 'Xor', 'Not'):
            for p in (0, 1) if st.t0 is None else (st.t0,):
                for q in (0, 1) if st.t1 is None else (st.t1,):
                    want.add({'And': p & q, 'Or': p | q, 'Xor': p ^ q, 'Not': 1 - p}[op])
        else:
            for r in (-1, 0, 1) if st.rel is None else (st.rel,):
                want.add(int(r in COMPARE[op.lower()]))
        if want != {x[1]}:
            self.bad(E, c, line, 'value', 'the result of an operator is not that of its operands')


def zero(v):
    return v == ('i', 0) or v[:2] == ('k', 'f') and v[2] == 0


class EqRule(OpRule):
    """how two values compare."""

    def judge(self, E, c, st, v, line):
        pass

    def outcome(self):
        out = set()
        for st, v, line in self.results:
            x = v
            if x[0] == 'v' and x[1] == 'Option' and x[3]:
                x = x[3][0][1]
            if x[0] == 'v' and x[1].endswith('Ordering'):
                out.add(x[2])
            elif x[0] == 'cmp':
                out.add('same' if x[1] == ((0,), (1,)) else 'reverse')
            elif x[0] == 'i':
                out.add(bool(x[1]))
            elif x[0] == 'bin' and sorted(args_of(x, self.own)) == [0, 1] and x[1] != 'Eq':
                out.add('reverse')
            else:
                out.add('values')
        return out


# ---------------------------------------------------------------- tokens
ITER, WORD, NEXT, START = ('tokenizer::Tokenizer.' + x for x in ('iter', 'buf', 'next_token', 'is_start'))
BINS = {'^': 'Xor', '+': 'Add', '*': 'Multiply', '/': 'Divide'}
PUNCT = {'(': 'OpenParen', ')': 'CloseParen', '[': 'OpenBracket', ']': 'CloseBracket', ',': 'Comma'}
AFTER = {'=': ('=', '>', '<'), '>': ('=',), '<': ('=',), '!': ('=',), '&': ('&',), '|': ('|',)}
QUOTES = ('"', "'")
ESCAPES = {'n': '\n', 'r': '\r', 't': '\t'}

# ch: first character of the token | look: the one after it, if looked at | eaten: taken as well | word: is it part of a word
# asked: is the token the first of an operand, as the code asked | start: what is noted for the next one
# got: token put aside for later | f, esc, push: character of a string, whether it is escaped, what was put in the string for it
# end: did the string end
# prev: does a word end here | vague: is it not known what was taken
T = namedtuple('T', 'ch look eaten word asked start got f esc push end prev vague')
T0 = T(None, None, 0, False, None, None, None, None, False, (), False, None, False)


class TokenRule(Rule):
    opaque = ()
    split_max = 255

    def __init__(self, F, own):
        self.F, self.own = F, own
        self.seen = set()

    def relevant(self, F):
        return {self.own}

    def split_on(self, b):
        return [i for i, l in enumerate(b.locals) if l[0] in (['prim', 'bool'], ['prim', 'u8'])] if b.id == self.own else ()

    def bad(self, E, c, line, key, msg):
        E.report('token ' + key, self.own, line, msg)

    def item(self, ch):
        return some(('t', (('pos',), ('i', ord(ch)))))

    def fetch(self, st, extra):
        if st.look is not None:
            return [st]
        out = []
        for x in sorted(set(AFTER.get(st.ch, ()) + ('=', '<', '>', 'z', st.ch))) + ['']:
            out.append(st._replace(look=x))
        return out

    def string(self, E, c, st, line):
        """what the last character of a string did."""
        if st.f is None:
            return st
        quote, f = st.ch, st.f
        if st.esc:
            want, st2 = (ESCAPES.get(f, f),), st._replace(esc=False)
        elif f == quote:
            want, st2 = (), st._replace(end=True)
        elif f == '\\':
            want, st2 = (), st._replace(esc=True)
        else:
            want, st2 = (f,), st
        if st.push != want:
            self.bad(E, c, line, 'text', 'the text of a string is not what is written between its quotes')
        self.seen.add(('text', st.esc, f))
        return st2._replace(f=None, push=())

    def on_call(self, E, c, m, st, name, k, args, line):
        n = short(name)
        if not args:
            return None
        a = args[0]
        l = leaf(a)
        over = l == ITER or l != NEXT and contains(a, ('arg', self.own, 0)) and not l.startswith('tokenizer::Tokenizer.') if l else False
        if not over and a[0] == 'loc' and n in ('next', 'peek', 'by_ref', 'next_if', 'next_if_eq'):
            v = E.read(m, a)
            over = leaf(v) == ITER or v[0] == 'call' and contains(v, ('arg', self.own, 0))
        if n == 'by_ref' and over:
            return [(st, a)]
        if over and n in ('next', 'peek'):
            if st.word:
                st = T0
            if st.ch in (' ',):
                st = T0
            if st.ch is None:
                if n == 'peek':
                    return None
                out = []
                for x in '&|!^()+*/-=><,[] #' + '"' + "'" + 'a0.}':
                    out.append((st._replace(ch=x), self.item(x)))
                out.append((st._replace(ch=''), NONE))
                return out
            if st.ch in QUOTES:
                if n == 'peek':
                    return None
                st = self.string(E, c, st, line)
                if st.end:
                    self.bad(E, c, line, 'end', 'more is read after a string has ended')
                out = []
                for x in ('"', "'", '\\', 'n', 'r', 't', 'x'):
                    out.append((st._replace(f=x), self.item(x)))
                out.append((st._replace(f=None, look='end'), NONE))
                return out
            out = []
            for s in self.fetch(st, n):
                v = NONE if s.look == '' else self.item(s.look)
                if n == 'next':
                    s = s._replace(eaten=min(s.eaten + 1, 2))
                out.append((s, v))
            return out
        if over and n in ('next_if', 'next_if_eq') and st.ch and st.ch not in QUOTES:
            st = st._replace(vague=True)
            return [(st, some(('taken',))), (st, NONE)]
        if n == 'is_empty' and l == WORD and st.ch and not st.word:
            return [(st._replace(prev=x), ('i', 1 - x)) for x in ((0, 1) if st.prev is None else (st.prev,))]
        if n == 'push' and len(args) > 1:
            if l == WORD:
                if args[1] != ('i', ord(st.ch)) if st.ch else True:
                    self.bad(E, c, line, 'word', 'a word has other characters than are written')
                return ('state', st._replace(word=True))
            if l == NEXT:
                return ('state', st._replace(got=args[1]))
            if st.ch in QUOTES and args[1][0] == 'i':
                return ('state', st._replace(push=(st.push + (chr(args[1][1] & 255),))[:2]))
        return None

    def on_branch(self, E, c, m, st, cond, val, line):
        if leaf(cond) == START and st.start is None and isinstance(val, int):
            return st._replace(asked=val)
        return st

    def on_store(self, E, c, m, st, loc, v, line):
        if leaf(loc) == START:
            return st._replace(start=v[1] if v[0] == 'i' else 'any')
        return st

    def expected(self, st):
        """kind and operator of the token, and how many more characters it has."""
        ch, nx = st.ch, st.look
        pair = nx in AFTER.get(ch, ()) and nx
        if ch in BINS:
            return (BIN, BINS[ch], 0)
        if ch in PUNCT:
            return (PUNCT[ch], None, 0)
        if ch in '&|':
            return (BIN, 'And' if ch == '&' else 'Or', 1 if pair else 0)
        if ch == '!':
            return (BIN, 'Ne', 1) if pair else (UN, 'Not', 0)
        if ch == '=':
            return (BIN, {'>': 'Ge', '<': 'Le'}.get(nx, 'Eq'), 1 if pair else 0)
        if ch in '<>':
            return (BIN, ('L' if ch == '<' else 'G') + ('e' if pair else 't'), 1 if pair else 0)
        return None

    def on_return(self, E, c, m, st, v, line):
        if c.bid != self.own:
            return st
        if st.ch is None or st.ch in ('', '}') or st.word:
            return st
        good = v[0] == 'v' and v[2] == 'Ok'
        if st.ch == ' ':
            if good and st.prev == 1 and st.start != 0:
                self.bad(E, c, line, 'start', 'what follows an operand is taken for the first of one')
            return st
        if st.ch in ('#', 'a', '0', '.'):
            if good:
                self.bad(E, c, line, 'other', 'a character that means nothing is accepted')
            return st
        if not good:
            if st.ch in QUOTES:
                st = self.string(E, c, st, line)
                self.seen.add(('refused', st.end))
            return st
        tok = st.got
        x = dict(v[3])['0']
        if tok is None and x[0] == 'v' and x[2] == 'Some':
            tok = x[3][0][1]
        if tok is None or tok[0] != 'v':
            self.bad(E, c, line, 'lost', 'a token is lost')
            return st
        if st.prev == 1 and st.got is None:
            self.bad(E, c, line, 'turn', 'a word and the operator behind it change places')
            return st
        if st.ch in QUOTES:
            st = self.string(E, c, st, line)
            if not st.end:
                self.bad(E, c, line, 'unterminated', 'a string that does not end is accepted')
            if tok[2] != 'String':
                self.bad(E, c, line, 'string', 'a string is read as something else')
            self.seen.add(('string', st.ch))
            self.begins(E, c, st, 0, line)
            return st
        if st.ch == '-':
            un = tok[2] == UN
            kind = payload(tok, TOK)
            if kind is None or kind[2] != ('Minus' if un else 'Subtract'):
                self.bad(E, c, line, 'minus', 'a minus is read as something else')
            if st.prev == 1:
                if un:
                    self.bad(E, c, line, 'sign', 'a minus is taken for a sign although an operand comes before it')
            elif st.asked is not None and un != bool(st.asked):
                self.bad(E, c, line, 'sign', 'a minus is taken for %s' % ('a sign although an operand comes before it' if un else 'a subtraction although no operand comes before it'))
            elif st.asked is None and un:
                self.bad(E, c, line, 'sign', 'a minus is taken for a sign although an operand comes before it')
            self.seen.add(('-', un))
            self.begins(E, c, st, 1, line)
            return st
        kind, op, n = self.expected(st)
        p = payload(tok, TOK)
        if st.vague:
            self.seen |= {(BIN, x) for x in PREC} | {(UN, 'Not')}
        elif tok[2] != kind or op and (p is None or p[2] != op):
            self.bad(E, c, line, 'of %s' % st.ch, 'an operator is read as another')
        elif st.look is None and st.ch in AFTER:
            self.bad(E, c, line, 'of %s' % st.ch, 'an operator of two characters is read after the first')
        elif st.eaten != n:
            self.bad(E, c, line, 'length of %s' % st.ch, 'an operator %s' % (
                'takes a character that is not part of it' if st.eaten > n else 'is read again from its second character'))
        self.seen.add((kind, op))
        self.begins(E, c, st, int(kind in (BIN, UN, 'OpenParen', 'OpenBracket', 'Comma')), line)
        return st

    def begins(self, E, c, st, want, line):
        if st.start != want:
            self.bad(E, c, line, 'start', 'what follows %s' % ('an operator is not taken for the first of an operand' if want else 'an operand is taken for the first of one'))


FLAGS = tuple('tokenizer::Tokenizer.' + x for x in ('has_number', 'has_dot', 'has_alpha'))

# what is known of each mark of a word: now, when its token is made | word: the constant it is
W = namedtuple('W', 'now was word')
W0 = W((None, None, None), (None, None, None), None)


class WordRule(Rule):
    """what a word of letters and digits is."""
    opaque = ()

    def __init__(self, own):
        self.own = own
        self.seen = set()

    def relevant(self, F):
        return {self.own}

    def split_on(self, b):
        return [i for i, l in enumerate(b.locals) if l[0] == ['prim', 'bool']] if b.id == self.own else ()

    def on_branch(self, E, c, m, st, cond, val, line):
        l = leaf(cond)
        if l in FLAGS and isinstance(val, int):
            i = FLAGS.index(l)
            if st.was[i] is not None:
                return st if st.was[i] == val else None
            was, now = list(st.was), list(st.now)
            was[i] = val
            if now[i] is None:
                now[i] = val
            return st._replace(now=tuple(now), was=tuple(was))
        if cond[0] == 'bin' and cond[1] in ('Eq', 'Ne'):
            for x in cond[2:4]:
                if x in (('s', 'true'), ('s', 'false')) and (cond[1] == 'Eq') == (val != 0):
                    return st._replace(word=x[1])
        return st

    def on_store(self, E, c, m, st, loc, v, line):
        l = leaf(loc)
        if l in FLAGS:
            now = list(st.now)
            now[FLAGS.index(l)] = v[1] if v[0] == 'i' else 'any'
            return st._replace(now=tuple(now))
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        if short(name) == 'parse' and 'str' in name:
            return [(st, ok(('parsed',))), (st, err(('notparsed',)))]
        return None

    def on_return(self, E, c, m, st, v, line):
        if c.bid != self.own:
            return st
        for i, x in enumerate(st.now):
            if x not in (0,):
                E.report('word mark', self.own, line, 'what was noted of a word is still noted for the next one')
        if v[0] == 'v' and v[2] == 'Ok':
            x = dict(v[3])['0']
            if x[0] == 'v' and x[2] == 'Number':
                n = payload(x, TOK)
                if st.word:
                    self.seen.add(st.word)
                    if payload(n, 'Number', 'Integer') != ('i', int(st.word == 'true')):
                        E.report('word constant', self.own, line, 'true is not 1 or false is not 0')
                elif n[2] == 'Integer' and st.was[:2] != (1, 0) or n[2] == 'Float' and st.was[:2] != (1, 1) or st.was[2] != 0:
                    E.report('word number', self.own, line, 'a word that is no number is read as one, or the other way around')
                else:
                    self.seen.add(n[2])
            elif st.word:
                E.report('word constant', self.own, line, 'true is not 1 or false is not 0')
            elif st.was[0] != 0 and st.was[2] != 1:
                E.report('word number', self.own, line, 'a number is read as a name')
        return st


class C07(FlowCheck):
    explanation = (
        'The tokens of an expression: for every character (and the one after it) the tokenizer is run through on the symbolic engine, and the '
        'operator that comes out, how many characters it takes, whether a minus is a sign or a subtraction, what a string consists of after its '
        'escapes, and what words mean are compared with the language. The parser: every token is met with every kind of operator on its stack; an '
        'operator leaves the stack for the output exactly when it binds at least as tightly as the one that comes (from the table of how tightly '
        'each binds, which is read from its function), parentheses and brackets take off what is inside them and nothing else, && and || get their jump set behind '
        'their right operand, and a function is put out with as many arguments as it takes. The evaluation: every element takes and leaves as many values as it has, in '
        'their order, jumps are taken exactly if the left operand decides, and an expression that waits for a function of the embedder is taken up '
        'behind it; the number that the embedder is asked for is the one it gave. The operators: for every pair of kinds of values, '
        'integer results are saturated, operands are in their order, divisors are not zero, and comparisons and logic are judged by truth table.')

    def check(self, F):
        res = self.result()

        def need(key, b, msg, wanted, seen):
            for w in wanted:
                good = w in seen
                res.ob(1, good)
                if not good:
                    res.bad('%s %s' % (key, w), b.file, b.line, '%s: %s (%s)' % (b.canon, msg, w))

        b = F.fn('ExpressionParser::parse')
        r = ParseRule(F, b.id)
        self.simulate(F, r, [b.id], P0, res)
        need('parse', b, 'this is never parsed',
             ['ok', 'push BinaryOperator', 'push Function', 'push UnaryOperator', 'ArrayAccess', 'ArrayBuild', 'Function', 'JmpIf'] +
             [(k, t) for k in ('Bin', 'CloseBracket', 'CloseParen', 'Comma', 'end') for t in ('bin', 'un')], r.seen)
        for after, kind in ((True, 'ArrayAccess'), (False, 'ArrayBuild')):
            good = all(r.made.get(i) == {kind} for i in r.ids.get(after, {None}))
            res.ob(1, good)
            if not good:
                res.bad('brackets ' + kind, b.file, b.line, '%s: brackets become something else' % b.canon)
        b = F.fn('Context::eval_expression')
        q = EvalRule(F, b.id, F.fn('Context::variable').id)
        self.simulate(F, q, [b.id], V0, res)
        need('eval', b, 'this is never evaluated', ['ArrayAccess', 'ArrayBuild', 'Bin', 'Constant', 'Function', 'JmpIf', 'Un', 'Variable',
             'err', 'ok', 'order array', 'order call', 'order event', 'resume'], q.seen)
        ids = set()
        for x in F.bodies.values():
            if x.kind == 'fn' and not x.derived and x.canon.rsplit('::', 1)[-1] == 'set_external_function':
                s = IdRule(x.id)
                self.simulate(F, s, [x.id], 0, res)
                ids |= s.ids
        good = bool(ids) and ids == q.ids
        res.ob(1, good)
        if not good:
            res.bad('function number', b.file, b.line, '%s: the number of a function of the embedder is not the one it gave' % b.canon)
        for n in sorted(set(OPS.values()) | {'to_bool'}):
            b = F.fn('Variable::' + n)
            one = n in ('op_not', 'op_minus', 'to_bool')
            for x in KINDS:
                for y in ('',) if one else KINDS:
                    s = OpRule(F, b.id, n, (x,) if one else (x, y))
                    self.simulate(F, s, [b.id], O0, res)
                    res.ob(1, bool(s.results))
        for n, opposite in (('eq', {}), ('partial_cmp', {'Less': 'Greater', 'Greater': 'Less'})):
            b = F.fn('Variable as %s::%s' % ('PartialEq' if n == 'eq' else 'PartialOrd', n))
            out = {}
            for x in KINDS:
                for y in KINDS:
                    s = EqRule(F, b.id, n, (x, y))
                    self.simulate(F, s, [b.id], O0, res)
                    out[x, y] = s.outcome()
            for x, y in sorted(out):
                good = out[x, y] == {opposite.get(o, o) for o in out[y, x]} and 'reverse' not in out[x, y]
                res.ob(1, good)
                if not good:
                    res.bad('%s %s %s' % (n, x, y), b.file, b.line, '%s: how two values compare depends on which comes first' % b.canon)
        b = F.fn('tokenizer::Tokenizer::next')
        t = TokenRule(F, b.id)
        self.simulate(F, t, [b.id], T0, res)
        need('token', b, 'this is never read', [(BIN, x) for x in PREC if x != 'Subtract'] + [(UN, 'Not'), ('-', True), ('-', False)] +
             [(x, None) for x in PUNCT.values()] + [('refused', False)] + [('string', x) for x in QUOTES] +
             [('text', e, x) for e in (False, True) for x in 'nrtx'], t.seen)
        b = F.fn('tokenizer::Tokenizer::parse_buf')
        w = WordRule(b.id)
        self.simulate(F, w, [b.id], W0, res)
        need('word', b, 'this is never read', ['Float', 'Integer', 'true', 'false'], w.seen)
        return res
