"""C05: leaving loops keeps the iteration of message parts balanced."""
from base import FlowCheck, bodies_touching, Rule
from engine import leaf, root, contains, fields_in

IDENT = 'lexer::Token::Identifier.0'
TAG = 'lexer::Token::Tag.0'
BTYPE = 'instruction::Block.btype'
LABEL = 'instruction::Block.label'
STACK = 'CompilerState.block_stack'
CUR = 'CompilerState.block'
JMPS = 'instruction::Block.break_jmps'
START = 'instruction::Block.last_block_start'
OPT = ['adt', 'std::option::Option', [['prim', 'usize']]]
CTX = ('Break', 'Continue', 'Return', 'ForEveryPart')
BACK = ('rev', 'rfind', 'rposition', 'next_back', 'rfold', 'last')
NIL = (0, None, frozenset(), 0)


class LoopRule(Rule):
    """state: (keyword, loops passed, kind of the block at hand, marks, pops emitted)."""

    def __init__(self, root):
        self.root = root
        self.seen = {}

    def relevant(self, F):
        return bodies_touching(F, lambda k, n: (k == 'field' and n in (IDENT, BTYPE, LABEL, JMPS)) or (
            k == 'agg' and n in ('Instruction::ForEveryPartPop', 'Instruction::Jmp', 'Instruction::Return',
                                 'Instruction::ForEveryPart')))

    def split_on(self, b):
        r = self.split.get(b.id)
        if r is None:
            r = self.split[b.id] = [i for i, l in enumerate(b.locals)
                                    if l[1] is not None and i > b.argc and (l[0] == OPT or l[0][0] == 'prim' and l[0][1] in (
                                        'usize', 'u32', 'i32', 'u64', 'u8', 'u16'))]
        return r if self.has_ctx(b) else ()

    split = {}

    def has_ctx(self, b):
        return b.id in self.direct

    def ident(self, st, w):
        if w in CTX:
            return (w,) + NIL
        return (None,) + NIL

    def on_branch(self, E, c, m, st, cond, val, line):
        ctx, n, last, marks, pops = st
        if cond[0] == 'discr' and leaf(cond[1]) == IDENT:
            w = E.F.variant_by_discr('Word', val) if isinstance(val, int) else None
            if w is None or w == ctx:
                return st
            return self.ident(st, w)
        if ctx is None:
            return st
        if cond[0] == 'discr' and leaf(cond[1]) == BTYPE:
            again = root(cond[1])[0] == 'ph' or 'again' in marks
            if isinstance(val, int):
                w = E.F.variant_by_discr('Word', val)
                if again:
                    return st if w == last else None
            else:
                if again:
                    return None if last is not None and E.F.discr_of('Word', last) in val[1] else st
                w = None
            if CUR in fields_in(cond[1]):
                marks = marks | {'block'}
            if w == 'ForEveryPart':
                n = min(n + 1, 3)
            if w == 'While' and ctx == 'Continue' and not any(isinstance(x, tuple) for x in marks):
                marks = marks | {('loop', cond[1][1], 0)}
            return (ctx, n, w, marks - {'label'}, pops)
        if cond[0] == 'bin' and cond[1] in ('Eq', 'Ne') and any(LABEL in fields_in(x) for x in cond[2:]):
            if val == (1 if cond[1] == 'Eq' else 0):
                return (ctx, n, last, marks | {'label'}, pops)
            return (ctx, n, last, marks - {'label'}, pops)
        if cond[0] == 'discr' and leaf(cond[1]) == TAG and val == E.F.discr_of('Word', 'Name'):
            return (ctx, n, last, marks | {'named'}, pops)
        if cond[0] == 'discr' and cond[1][0] == 'call' and cond[1][1].rsplit('::', 1)[-1] in ('next', 'next_back') and val == 0:
            return (ctx, n, last, marks | {'end'}, pops)
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        ctx, n, last, marks, pops = st
        if ctx is None:
            return None
        meth = name.rsplit('::', 1)[-1]
        new = marks
        if c.bid not in self.direct:
            return None
        for a in args:
            if meth in ('iter', 'iter_mut', 'into_iter', 'deref', 'deref_mut', 'chain', 'once', 'as_slice', 'index', 'get'):
                for x in (a[1] if a[0] in ('arr', 't') else (a,)):
                    if leaf(x) == STACK:
                        new = new | {'stack'}
                    if leaf(x) == CUR:
                        new = new | {'block'}
        if meth in BACK:
            new = new | {'rev'}
        if meth == 'count':
            new = new | {'opaque'}
        if meth == 'push' and args and leaf(args[0]) == JMPS:
            self.seen.setdefault((ctx, 'jump list'), (c.bid, line))
            if 'named' in marks and 'label' not in marks:
                E.report('label ' + ctx, c.bid, line, 'a labelled %s leaves a loop whose label was not compared' % ctx.lower())
            if last not in ('ForEveryPart', 'While'):
                E.report('target ' + ctx, c.bid, line, '%s is attached to a block that is no loop' % ctx.lower())
        loop = next((x for x in marks if isinstance(x, tuple)), None)
        if loop and meth in ('next', 'next_back') and any('Block' in str(t) for t in k.get('targs') or []):
            new = (new - {loop}) | {(loop[0], loop[1], min(loop[2] + 1, 2))}
        if new != marks:
            return ('state', (ctx, n, last, new, pops))
        return None

    def on_agg(self, E, c, m, st, v, line):
        ctx, n, last, marks, pops = st
        if ctx is None or v[1] != 'Instruction':
            return st
        what = v[2]
        if what == 'ForEveryPartPop':
            x = v[3][0][1]
            if x[0] == 'i':
                return (ctx, n, last, marks, x[1])
            return (ctx, n, last, marks | {'unknown'}, 3)
        if what == 'ForEveryPart' and ctx == 'ForEveryPart':
            self.seen[(ctx, what)] = (c.bid, line)
            if 'label' in marks:
                E.report('same label', c.bid, line, 'a foreverypart accepts the label of an enclosing loop')
            if 'named' in marks and not {'stack', 'block'} <= marks:
                E.report('label scope', c.bid, line, 'the label of a foreverypart is not compared with those of all enclosing loops')
            return (None,) + NIL
        if what == 'Jmp' and ctx == 'Continue':
            x = dict(v[3])['0']
            loop = next((y for y in marks if isinstance(y, tuple)), None)
            if leaf(x) != START and START in fields_in(x) or x[0] == 'i' and x[1] != (1 << 64) - 1:
                E.report('start Continue', c.bid, line, 'continue leads to another place than the start of its loop')
            elif leaf(x) == START and loop and loop[2] == 2:
                E.report('start Continue', c.bid, line, 'continue leads to the start of another loop than the innermost')
            elif leaf(x) == START and loop and x[1] == loop[1] and not loop[2]:
                E.report('start Continue', c.bid, line, 'continue leads to a block inside its loop, not to the start of the loop')
        if (what == 'Jmp' and ctx in ('Break', 'Continue')) or (what == 'Return' and ctx == 'Return'):
            self.seen[(ctx, what)] = (c.bid, line)
            if 'block' not in marks:
                E.report('innermost ' + ctx, c.bid, line, '%s does not look at the innermost block' % ctx.lower())
            if ctx != 'Return' and 'stack' in marks and 'rev' not in marks:
                E.report('order ' + ctx, c.bid, line, '%s searches the enclosing blocks from the outside' % ctx.lower())
            if ctx == 'Return' and not {'stack', 'end'} <= marks and 'opaque' not in marks:
                E.report('all Return', c.bid, line, 'return does not count the loops of every enclosing block')
            if 'opaque' in marks:
                return (None,) + NIL
            exact = 'unknown' not in marks
            if (exact and n < 3 and pops != n) or (not exact and n < 3) or (n == 3 and exact and 0 < pops < 3):
                E.report('pops ' + ctx, c.bid, line, '%s leaves %s foreverypart loops and ends the iteration of %s' % (
                    ctx.lower(), n if n < 3 else 'three or more', pops if exact else 'an unknown number'))
            return (None,) + NIL
        return st


def loops(F, flow, res):
    """what break, continue and return do, into res."""
    root = F.fn('Compiler::compile').id
    r = LoopRule(root)
    r.split = {}
    r.direct = bodies_touching(F, lambda k, n: (k == 'field' and n in (BTYPE, JMPS, LABEL)) or (
        k == 'agg' and n == 'Instruction::ForEveryPartPop'))
    flow.simulate(F, r, [root], (None,) + NIL, res)
    return r


class C05(FlowCheck):
    explanation = (
        'Property simulation of Compiler::compile with a counter: from a break, continue or return keyword on, the '
        'number of foreverypart blocks passed on the way out must equal the operand of the emitted iterator pop when '
        'the jump is emitted; blocks must be searched from the innermost outwards, the jump attached to a loop (the '
        'one with the label, if one is given), and a label compared with those of all enclosing loops. Counts up to '
        'three are exact, larger ones only bounded below.')

    def check(self, F):
        res = self.result()
        r = loops(F, self, res)
        for w in [('Break', 'Jmp'), ('Break', 'jump list'), ('Continue', 'Jmp'), ('Return', 'Return'),
                  ('ForEveryPart', 'ForEveryPart')]:
            good = w in r.seen
            if not good:
                res.bad('unseen %s' % w[0], 'src/compiler/grammar', 0, '%s emits no %s' % w)
            res.ob(1, good and not any(k.endswith(w[0]) for k in res.violations))
            res.samples.append('%s: %s examined' % w)
        return res
