"""queued events, includes, capabilities at run time."""
from base import FlowCheck, bodies_touching, Rule
from engine import leaf, fields_in, root
from r_run import FINAL, QUEUE, STACK, fetches, instr, within, has_type

EMPTY, FULL = 'empty', 'full'


class QueueRule(Rule):
    """state: (may events be waiting in the queue?, instruction, events made or taken from the queue and not passed on)"""

    def __init__(self, root):
        self.root = root
        self.stores = set()
        self.drains = set()
        self.ins = ''

    def relevant(self, F):
        return bodies_touching(F, lambda k, n: k == 'field' and n == QUEUE or (k == 'discr' and n == 'Instruction') or (
            k == 'agg' and n.startswith('Event::')))

    def on_branch(self, E, c, m, st, cond, val, line):
        q, ins, made = st
        i = instr(E, cond, val)
        if i is not None:
            return (q, i, made)
        if cond[0] == 'discr' and E.adt_of.get(cond[1]) == 'Input' and val == E.F.discr_of('Input', 'Script'):
            # a script is handed in at the start, or in answer to the only event of an include
            return (EMPTY, ins, made)
        if cond[0] == 'discr' and cond[1][0] == 'call' and cond[1][1].rsplit('::', 1)[-1] in ('next', 'pop', 'pop_front') \
                and cond[1][2] and leaf(cond[1][2][0]) == QUEUE and val == 0:
            return (EMPTY, ins, made - {TAKEN})
        return st

    def on_store(self, E, c, m, st, loc, v, line):
        q, ins, made = st
        if leaf(loc) == QUEUE and loc[0] == 'p':
            self.stores.add((c.bid, line))
            if q == FULL:
                E.report('overwritten ' + (ins or '?'), c.bid, line, '%s replaces events that may still be waiting' % (
                    ins.lower() or 'run'))
            return (FULL, ins, self.passed(made, v, False))
        if leaf(loc) == FINAL:
            return (q, ins, self.passed(made, v, False))
        return st

    def on_agg(self, E, c, m, st, v, line):
        q, ins, made = st
        if v[1] == 'Event' and not E.F.bodies[c.bid].derived:
            return (q, ins, made | {v[2]})
        return st

    def on_arr(self, E, c, m, st, v, line):
        return (st[0], st[1], self.passed(st[2], v, False))

    def passed(self, made, v, vague=True):
        """what is still in hand once v was passed on."""
        out = set()
        for e in made:
            if not (holds(v, e) or vague and opaque(v)):
                out.add(e)
        return frozenset(out)

    def lost(self, E, c, st, line):
        for e in sorted(st[2]):
            E.report('dropped %s' % e, c.bid, line, '%s is neither queued nor returned after %s' % (
                'an event' if e == TAKEN else 'a %s event' % e, st[1].lower() or 'run'))

    def on_call(self, E, c, m, st, name, k, args, line):
        q, ins, made = st
        meth = name.rsplit('::', 1)[-1]
        if fetches(E.F, name, k):
            self.lost(E, c, st, line)
            if ins:
                if q == FULL:
                    E.report('waiting ' + ins, c.bid, line,
                             'the script goes on after %s although events it queued may be waiting' % ins.lower())
                return ('state', (EMPTY, '', frozenset()))
            return ('state', (q, ins, frozenset()))
        if args and leaf(args[0]) == QUEUE and meth == 'next':
            self.drains.add((c.bid, line))
            if TAKEN in made:
                E.report('dropped %s' % TAKEN, c.bid, line, 'an event is taken from the queue and not handed to the caller')
            return ('state', (q, ins, made | {TAKEN}))
        if any(has_type(E.F, t, 'Event') for t in (k.get('targs') or [])[:1]):
            if meth in LOSES:
                E.report('events lost', c.bid, line, 'events that were made are taken out of their list (%s)' % meth)
            elif meth in ('push', 'push_back', 'push_front', 'insert', 'once', 'extend', 'chain', 'append', 'replace'):
                for a in args[1:] or args:
                    made = self.passed(made, E.read(m, a) if a[0] == 'loc' else a)
                return ('state', (q, ins, made))
        if made and meth not in LOOKS and (E.F.callee(k)[0] if 'fn' in k else None) is None:
            for a in args:
                made = self.passed(made, a, False)
            return ('state', (q, ins, made))
        return None

    def after_call(self, E, c, m, st, name, k, args, ret, line):
        if ret[0] == 'v' and ret[2] == 'None' and args and leaf(args[0]) == QUEUE:
            return (st[0], st[1], st[2] - {TAKEN})
        return st

    def on_return(self, E, c, m, st, v, line):
        if c.bid != self.root:
            return st
        if st[0] == FULL and v[0] == 'v' and v[2] == 'None' and st[1]:
            E.report('unreported', c.bid, line, 'run ends although events may be waiting')
        self.lost(E, c, (st[0], st[1], self.passed(st[2], v)), line)
        return st


TAKEN = 'taken from the queue'
LOOKS = ('drop', 'is_some', 'is_none', 'as_ref', 'as_mut', 'is_some_and', 'is_none_or', 'eq', 'ne', 'fmt')
LOSES = ('remove', 'swap_remove', 'truncate', 'clear', 'retain', 'drain', 'dedup', 'split_off', 'skip', 'step_by', 'filter')


def holds(v, e):
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] == 'v' and v[1] == 'Event':
        return v[2] == e
    if e == TAKEN and leaf(v) == QUEUE:
        return True
    return any(holds(x, e) for x in v)


def opaque(x):
    if not isinstance(x, tuple) or not x:
        return False
    return x[0] in ('ph', 'r', 'u', 'hv', 'loc', 'ld', 'old') or x[:2] != ('v', 'Event') and any(opaque(y) for y in x)


class R09(FlowCheck):
    explanation = (
        'Typestate of the queue of pending events, propagated through Context::run: when the next instruction is taken, '
        'or another list of events is put into the queue, it must have been found empty on the path. Each event made, or taken '
        'from the queue, is put into a list, the final action or the result of run before that, and never removed from a list.')

    def check(self, F):
        res = self.result()
        root = F.fn('Context::run')
        r = QueueRule(root.id)
        self.simulate(F, r, [root.id], (FULL, '', frozenset()), res)
        n = len(r.stores)
        if n < 3 or not r.drains:
            res.bad('unseen', root.file, root.line, 'the queue of events is not recognised')
        res.ob(max(1, n), not res.violations)
        res.samples += ['%s:%d fills the queue' % (F.bodies[b].canon, l) for b, l in sorted(r.stores)]
        return res


CACHE = 'Context.script_cache'


class IncludeRule(Rule):
    """state: (instruction, depth within limit?, not a repeated :once?, position, what is left to restore;
    'cache' a script was taken on and is not yet remembered, 'popped' a frame was taken off the stack).
    position: 'S' matches the iterator, 'F' an instruction was taken, 'J' set, iterator not yet,
    'P' that of an outer script."""

    def __init__(self, root):
        self.root = root
        self.seen = {}

    def relevant(self, F):
        return bodies_touching(F, lambda k, n: (k == 'field' and n in (
            STACK, 'Context.pos', 'Runtime.max_nested_includes', 'Include.once')) or (
            k == 'discr' and n in ('Instruction', 'Input')) or (k == 'agg' and n in ('Event::IncludeScript',))
            or (k == 'agg' and n.startswith('ScriptStack')))

    def ob(self, what, good, c, line, key, msg, E):
        self.seen[what] = self.seen.get(what, True) and good
        if not good:
            E.report(key, c.bid, line, msg)

    def on_branch(self, E, c, m, st, cond, val, line):
        ins, depth, once, pos, left = st
        i = instr(E, cond, val)
        if i is not None:
            if i != ins:
                if pos == 'F':
                    E.report('position', c.bid, line, 'an instruction is executed before the position has moved past it')
                self.seen.setdefault('dispatch', True)
                return (i, False, False, pos, left)
            return st
        if ins == 'Include':
            if within(cond, val, lambda a: STACK in fields_in(a), 'Runtime.max_nested_includes') == '<':
                return (ins, True, once, pos, left)
            if leaf(cond) == 'Include.once' and val == 0:
                return (ins, depth, True, pos, left)
            if 'Context.script_cache' in fields_in(cond):
                x, v = cond, val
                while x[0] == 'un' and x[1] == 'Not' and v in (0, 1):
                    x, v = x[2], 1 - v
                if x[0] == 'bin' and x[1] in ('Eq', 'Ne') and x[3][0] == 'i' and x[2][0] == 'discr' and v in (0, 1):
                    if (x[1] == 'Eq') == (v == 1):
                        x, v = x[2], x[3][1]
                    elif x[3][1] in (0, 1):
                        x, v = x[2], 1 - x[3][1]
                gone = x[0] == 'discr' and v == 0
                if x[0] == 'call' and x[1].rsplit('::', 1)[-1] == 'contains_key' and v == 0:
                    gone = True
                if gone:
                    return (ins, depth, True, pos, left)
        if cond[0] == 'discr' and cond[1][0] == 'call' and cond[1][1].rsplit('::', 1)[-1] == 'pop' and cond[1][2] \
                and leaf(cond[1][2][0]) == STACK:
            return (ins, depth, once, pos, frozenset(('pos', 'vars_local', 'vars_match', 'popped')) if val == 1 else frozenset())
        if cond[0] == 'discr' and E.adt_of.get(cond[1]) == 'Input':
            return (ins, depth, once, pos, left | {'cache'} if val == E.F.discr_of('Input', 'Script') else left)
        return st

    def guard(self, E, c, st, line, what):
        ins, depth, once, pos, left = st
        self.ob('depth', depth, c, line, 'unlimited include', '%s without the nesting of includes having been found below the limit' % what, E)
        self.ob('once', once, c, line, 'repeated include', '%s although include :once may have run it before' % what, E)

    def on_agg(self, E, c, m, st, v, line):
        ins, depth, once, pos, left = st
        if v[1] == 'Event' and v[2] == 'IncludeScript':
            self.guard(E, c, st, line, 'a script is asked for')
        elif v[1] == 'ScriptStack':
            if ins == 'Include':
                self.guard(E, c, st, line, 'a script is included')
            d = dict(v[3])
            cur = [x for kk, x in m.items() if leaf(kk) == 'Context.pos' and kk[0] == 'p']
            zero = ('i', 0) in cur
            for f, src in (('prev_pos', 'Context.pos'), ('prev_vars_local', 'Context.vars_local'),
                           ('prev_vars_match', 'Context.vars_match')):
                if f in d:
                    self.ob('save ' + f, leaf(d[f]) == src or src in fields_in(d[f]) and (
                        f != 'prev_pos' or zero or d[f] in cur), c, line, 'save ' + f,
                            'the frame of an included script does not save the %s of the script it interrupts' % src.split('.')[1], E)
            return (ins, depth, once, 'J' if zero else 'P', left)
        return st

    def on_store(self, E, c, m, st, loc, v, line):
        ins, depth, once, pos, left = st
        l = leaf(loc)
        if loc[0] != 'p' or not l or not l.startswith('Context.'):
            return st
        f = l.split('.')[1]
        if f in left and 'ScriptStack.prev_' + f in fields_in(v):
            left = left - {f}
        if f == 'pos':
            old = E.read(m, loc)
            if v[0] == 'bin' and v[1] == 'Add' and v[3] == ('i', 1) and (v[2] == old or 'Context.pos' in fields_in(v[2])):
                if pos == 'F':
                    return (ins, depth, once, 'S', left)
                if pos == 'P':
                    return st
                E.report('position twice', c.bid, line, 'the position is moved on twice for one instruction')
                return (ins, depth, once, 'S', left)
            return (ins, depth, once, 'P' if pos == 'P' and v != ('i', 0) else 'J', left)
        return (ins, depth, once, pos, left)

    def on_call(self, E, c, m, st, name, k, args, line):
        ins, depth, once, pos, left = st
        meth = name.rsplit('::', 1)[-1]
        if any(has_type(E.F, t, 'Instruction') for t in (k.get('targs') or [])) and not fetches(E.F, name, k):
            if meth in ('get', 'index', 'skip') and len(args) > 1:
                if pos == 'P':
                    return None
                start = args[1]
                if start[0] == 'v' and start[3]:
                    start = start[3][0][1]
                cur = [x for kk, x in m.items() if leaf(kk) == 'Context.pos' and kk[0] == 'p']
                if start in cur or leaf(start) == 'Context.pos':
                    return ('state', (ins, depth, once, 'S', left))
            elif meth == 'iter' and root(args[0])[0] != 'call' and args[0][0] in ('p', 'ph', 'loc') and leaf(args[0]) not in (
                    'Option::Some.0', 'Result::Ok.0', 'ControlFlow::Continue.0'):
                # from the start
                if pos != 'P' and any(x == ('i', 0) for kk, x in m.items() if leaf(kk) == 'Context.pos' and kk[0] == 'p'):
                    return ('state', (ins, depth, once, 'S', left))
        if args and leaf(args[0]) == STACK and meth == 'pop':
            if 'popped' in left:
                E.report('two frames', c.bid, line, 'two scripts are ended where one has come to its end')
            return ('state', (ins, depth, once, pos, left | {'popped'}))
        if args and leaf(args[0]) == CACHE and meth in ('insert', 'entry'):
            return ('state', (ins, depth, once, pos, left - {'cache'}))
        if args and leaf(args[0]) == CACHE and meth in ('remove', 'clear', 'retain', 'drain', 'take', 'remove_entry'):
            E.report('forgotten', c.bid, line, 'scripts that were run are forgotten')
        if fetches(E.F, name, k):
            if 'cache' in left:
                E.report('not remembered', c.bid, line, 'a script that is given to run is not remembered, include :once would run it again')
            left = left - {'cache', 'popped'}
            if pos != 'S':
                E.report('lost position', c.bid, line,
                         'the next instruction is taken although the position %s' % (
                             'was set and the instructions not taken from there' if pos == 'J' else
                             'is still that of the script that includes it' if pos == 'P' else 'has not moved past the last one'))
            if left:
                for f in sorted(left):
                    E.report('restore ' + f, c.bid, line, 'the script that included another goes on without its %s' % f)
            return ('state', ('', False, False, 'F', frozenset()))
        return None

    def after_call(self, E, c, m, st, name, k, args, ret, line):
        ins, depth, once, pos, left = st
        if pos == 'F' and ret[0] == 'v' and ret[2] == 'None' and fetches(E.F, name, k):
            return (ins, depth, once, 'S', left)
        return st


class R10(FlowCheck):
    explanation = (
        'Property simulation of Context::run: a script is included, or asked for, only where the number of scripts on '
        'the stack was found below the nesting limit and, for :once, the script was not run before; the frame pushed '
        'saves position and variables, and all three are restored after it is popped and before the next instruction is '
        'taken; the position moves on once per instruction and a jump is followed by taking the instructions from there.')
    WHAT = ('depth', 'once', 'save prev_pos', 'save prev_vars_local', 'save prev_vars_match', 'dispatch')

    def check(self, F):
        res = self.result()
        root = F.fn('Context::run')
        r = IncludeRule(root.id)
        self.simulate(F, r, [root.id], ('', False, False, 'S', frozenset()), res)
        for w in self.WHAT:
            if w not in r.seen:
                res.bad('unseen ' + w, root.file, root.line, 'nothing is recognised for: %s' % w)
            res.ob(1, r.seen.get(w, False))
            res.samples.append('%s: %s' % (w, 'held' if r.seen.get(w) else 'not held'))
        return res
