"""the interpreter: instruction budget, failures, implicit keep."""
from base import FlowCheck, bodies_touching, Rule
from engine import leaf, fields_in

NUM = 'Context.num_instructions'
FETCH = ('next', 'get', 'index', 'nth', 'first', 'last', 'get_unchecked', 'split_first')


def has_type(F, t, name):
    if t is None:
        return False
    if t[0] == 'adt':
        return F.short(t[1]) == name or any(has_type(F, x, name) for x in t[2])
    if t[0] in ('ref', 'ptr'):
        return has_type(F, t[2], name)
    if t[0] == 'tuple':
        return any(has_type(F, x, name) for x in t[1])
    if t[0] in ('slice', 'array'):
        return has_type(F, t[1], name)
    return False


def fetches(F, name, k):
    """does this call take the next instruction of a script?"""
    if name.rsplit('::', 1)[-1] not in FETCH:
        return False
    ts = k.get('targs') or []
    if any(t[0] == 'adt' and 'ops::Range' in t[1] for t in ts):
        return False
    return any(has_type(F, t, 'Instruction') for t in ts)


def bump(E, m, loc, v):
    """is v the old value of loc plus something positive?"""
    if v[0] == 'bin' and v[1] == 'Add' and v[3][0] == 'i' and v[3][1] >= 1 and leaf(loc) in fields_in(v[2]):
        return True
    old = E.read(m, loc)
    if v[0] == 'i' and old[0] == 'i' and v[1] > old[1]:
        return True
    if v[0] == 'bin' and v[1] == 'Add' and v[3][0] == 'i' and v[3][1] >= 1 and v[2] == old:
        return True
    return v[0] == 'call' and v[1].rsplit('::', 1)[-1] in ('saturating_add',) and len(v[2]) == 2 and (
        v[2][0] == old or leaf(loc) in fields_in(v[2][0])) and v[2][1][0] == 'i' and v[2][1][1] >= 1


def within(cond, val, counter, limit, ge=False):
    """does cond == val establish counter < limit or counter <= limit?
    Returns '<', '<=', or None."""
    if cond[0] != 'bin' or cond[1] not in ('Lt', 'Le', 'Gt', 'Ge') or val not in (0, 1):
        return None
    op, a, b = cond[1], cond[2], cond[3]
    if op in ('Gt', 'Ge'):
        a, b, op = b, a, {'Gt': 'Lt', 'Ge': 'Le'}[op]
    if not val:
        a, b, op = b, a, {'Lt': 'Le', 'Le': 'Lt'}[op]
    if limit in fields_in(b) and leaf(b) == limit and counter(a):
        return '<' if op == 'Lt' else '<='
    return None


class BudgetRule(Rule):
    """state: 0 nothing, 1 counted, 2 counted and within the budget, 3 beyond it,
    4 not counted, but another one is within the budget."""

    def __init__(self, root):
        self.root = root
        self.dispatch = set()
        self.stores = 0

    def relevant(self, F):
        return bodies_touching(F, lambda k, n: (k == 'field' and n == NUM) or (k == 'discr' and n == 'Instruction'))

    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'discr' and E.adt_of.get(cond[1]) == 'Instruction':
            self.dispatch.add((c.bid, line))
            if st != 2:
                E.report('unbudgeted dispatch', c.bid, line,
                         'an instruction is executed %s' % (
                             'without being counted' if st == 0 else
                             'without the count having been found within the budget'))
            return st
        def counter(a):
            return NUM in fields_in(a) or a in [x for k, x in m.items() if leaf(k) == NUM]
        if st == 0 and within(cond, val, counter, 'Runtime.cpu_limit') == '<':
            return 4
        if st in (0, 1, 2) and leaf(cond) != NUM:
            if st and within(cond, val, counter, 'Runtime.cpu_limit'):
                return 2
            w = within(cond, 1 - val, counter, 'Runtime.cpu_limit') if val in (0, 1) else None
            if w and (st or w == '<'):
                return 3
        return st

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.root and st == 3 and not error(v, 'CPULimitReached'):
            E.report('no error', c.bid, line, 'the run ends beyond the CPU limit without the error that says so')
        return st

    def on_store(self, E, c, m, st, loc, v, line):
        if leaf(loc) == NUM and loc[0] == 'p':
            self.stores += 1
            if not bump(E, m, loc, v):
                E.report('budget reset', c.bid, line, 'the count of executed instructions is changed other than upwards')
                return st
            return 2 if st == 4 else max(st, 1)
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        if fetches(E.F, name, k):
            return ('state', 0)
        return None


def error(v, kind=None):
    """is v Some(Err(..)), of that kind?"""
    for n in ('Some', 'Err'):
        if v[0] != 'v' or v[2] != n:
            return False
        v = v[3][0][1]
    return kind is None or v[0] != 'v' or v[2] == kind


class R01(FlowCheck):
    explanation = (
        'Property simulation of Context::run: between taking an instruction of a script and branching on its kind, the '
        'instruction counter must have been raised and found within the CPU limit, on every path and for every way the '
        'next instruction is reached; beyond the limit run returns the error that says so; the counter is only ever raised.')

    def check(self, F):
        res = self.result()
        root = F.fn('Context::run')
        r = BudgetRule(root.id)
        self.simulate(F, r, [root.id], 0, res)
        # every assignment, also outside of run
        n = 0
        for b in F.all_fns():
            if NUM in F.direct_writes(b.id):
                n += 1
                ok = b.id in F.reach([root.id])
                res.ob(1, ok)
                if not ok:
                    res.bad('budget reset', b.file, b.line, '%s changes the count of executed instructions' % b.canon)
        if not r.dispatch:
            res.bad('unseen dispatch', root.file, root.line, 'no branch on the kind of an instruction is recognised')
        res.ob(max(1, len(r.dispatch)), bool(r.dispatch) and not res.violations)
        res.samples.append('%d dispatch points, %d counter updates, %d functions write the counter' % (
            len(r.dispatch), r.stores, n))
        return res


FINAL = 'Context.final_event'
QUEUE = 'Context.queued_events'
STACK = 'Context.script_stack'


def instr(E, cond, val):
    """the kind of instruction a branch establishes ('?' if several)."""
    if cond[0] != 'discr' or E.adt_of.get(cond[1]) != 'Instruction':
        return None
    if isinstance(val, int):
        return E.F.variant_by_discr('Instruction', val) or '?'
    return '?'


def event_name(E, cond, val):
    if cond[0] != 'discr' or E.adt_of.get(cond[1]) != 'Event':
        return None
    if isinstance(val, int):
        return E.F.variant_by_discr('Event', val)
    return 'not', {E.F.variant_by_discr('Event', x) for x in val[1]}


class FailRule(Rule):
    """state: (stack empty?, what became of the final action, script given and not yet taken on?)
    final action: '' untouched, 'asked' while a position is looked up, 'gone' if it is beyond the end, 'taken', 'keep' / 'other' / 'some' in hand, 'packed', 'queued', 'done'."""

    def __init__(self, root):
        self.root = root
        self.errs = set()
        self.ends = set()

    def relevant(self, F):
        return bodies_touching(F, lambda k, n: (k == 'field' and n in (FINAL, QUEUE, STACK)) or n in (
            'Instruction', 'RuntimeError'))

    def on_branch(self, E, c, m, st, cond, val, line):
        empty, fin, given = st
        if cond[0] != 'discr':
            return st
        x = cond[1]
        if E.adt_of.get(x) == 'Input':
            s = E.F.discr_of('Input', 'Script')
            return empty, fin, val == s
        if x[0] == 'call' and x[1].rsplit('::', 1)[-1] in ('pop', 'last') and x[2] and leaf(x[2][0]) == STACK:
            last = x[1].rsplit('::', 1)[-1] == 'last'
            if val == 0:
                return True, 'owed' if last and fin == 'popped' else fin, given
            return empty, '' if last and fin == 'popped' else fin, given
        if fin == 'owed' and val == 0 and leaf(x) == FINAL:
            return empty, 'done', given
        if fin == 'asked':
            return empty, 'gone' if val == (E.adt_of.get(x, '').rsplit('::', 1)[-1] == 'ControlFlow') else '', given     # a position beyond the end
        if fin == 'taken' and FINAL in fields_in(x) and E.adt_of.get(x) == 'Option' or (
                fin == 'taken' and leaf(x) == FINAL):
            if val == 1:
                return empty, 'some', given
            if val == 0:
                return empty, 'done', given
        e = event_name(E, cond, val)
        if e and fin in ('some', 'keep', 'other') and FINAL in fields_in(x):
            if e == 'Keep':
                return (empty, 'keep', given) if fin != 'other' else None
            if isinstance(e, str) or 'Keep' in e[1]:
                return (empty, 'other', given) if fin != 'keep' else None
        return st

    def element(self, v, fin):
        if v[0] == 'v' and v[1] == 'Event':
            return v[2] == 'Keep' and fin == 'keep'
        return FINAL in fields_in(v)

    def pack(self, st, vals):
        empty, fin, given = st
        if fin in ('keep', 'other', 'some') and any(self.element(x, fin) for x in vals):
            return empty, 'packed', given
        return st

    def on_arr(self, E, c, m, st, v, line):
        return self.pack(st, v[1] if v[0] == 'arr' else ())

    def on_store(self, E, c, m, st, loc, v, line):
        empty, fin, given = st
        if leaf(loc) == QUEUE and loc[0] == 'p' and fin == 'packed':
            return empty, 'queued', given
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        empty, fin, given = st
        meth = name.rsplit('::', 1)[-1]
        if args and leaf(args[0]) == STACK:
            if meth in ('clear',):
                return ('state', (True, 'owed' if fin in ('', 'popped', 'gone') else fin, given))
            if meth in ('push',):
                return ('state', (False, '' if fin in ('popped', 'owed') else fin, False))
            if meth == 'pop' and fin == '':
                return ('state', (empty, 'popped', given))
        if fin == 'queued' and args and leaf(args[0]) == QUEUE and meth in ('next', 'next_back', 'nth'):
            return ('state', (empty, 'done', given))
        if meth in ('take', 'replace', 'swap') and args and leaf(args[0]) == FINAL:
            v = args[1] if len(args) > 1 else None
            if fin in ('some', 'keep', 'other'):
                E.report('dropped', c.bid, line, 'the final action is taken and not passed on')
            return ('state', (empty, 'taken' if fin != 'queued' else fin, given))
        if meth in ('push', 'once', 'from', 'push_back') and len(args) and c.bid in self.near:
            return ('state', self.pack(st, args[-1:]))
        if meth == 'get' and fin in ('', 'gone', 'popped', 'owed') and any(has_type(E.F, t, 'Instruction') for t in k.get('targs') or []):
            return ('state', (empty, 'asked', given))
        if fetches(E.F, name, k) and fin in ('taken', 'some', 'keep', 'other', 'packed'):
            E.report('dropped', c.bid, line, 'the final action is taken while the script goes on')
        return None

    def after_call(self, E, c, m, st, name, k, args, ret, line):
        empty, fin, given = st
        if fin == 'taken' and name.rsplit('::', 1)[-1] in ('take', 'replace') and args and leaf(args[0]) == FINAL:
            if ret[0] == 'v' and ret[2] == 'None':
                return empty, 'done', given
            if ret[0] == 'v' and ret[2] == 'Some':
                return empty, 'some', given
        return st

    def on_return(self, E, c, m, st, v, line):
        if c.bid != self.root:
            return st
        empty, fin, given = st
        err = v[0] == 'v' and v[2] == 'Some' and v[3][0][1][0] == 'v' and v[3][0][1][2] == 'Err'
        if err:
            self.errs.add(line)
            if fin not in ('done', 'queued'):
                E.report('mail lost on error', c.bid, line,
                         'an error is returned without queueing the pending keep or other final action')
            if not empty:
                E.report('script goes on after error', c.bid, line, 'an error is returned while scripts remain to be run')
            return st
        if v[0] == 'v' and v[2] == 'None':
            self.ends.add(line)
            if given:
                E.report('script dropped', c.bid, line, 'a script that is given to run is dropped without a word')
            if fin not in ('', 'gone', 'done', 'owed', 'popped'):
                E.report('mail lost at end', c.bid, line, 'the final action is taken and lost')
            if fin == '' and not empty or fin == 'owed':
                E.report('mail lost at end', c.bid, line, 'run ends without the final action being handed out')
            return st
        if fin in ('some', 'keep', 'other', 'packed', 'taken') and not self.returned(v, fin):
            E.report('mail lost at end', c.bid, line, 'the final action is taken and neither returned nor queued')
        return st

    def returned(self, v, fin):
        if v[0] == 'v' and v[2] in ('Some', 'Ok'):
            return any(self.returned(x, fin) for _, x in v[3])
        if v[0] == 'v' and v[1] == 'Event':
            return v[2] == 'Keep' and fin in ('keep',)
        return FINAL in fields_in(v)


class R02(FlowCheck):
    explanation = (
        'Property simulation of Context::run: every path that returns an error must have emptied the script stack and '
        'taken the pending final action, and, if there was one, stored it (or a keep built from it) into the queue of '
        'events; where the script ends, the action taken must be returned or queued; a script handed in must be '
        'pushed or refused with an error.')

    def check(self, F):
        res = self.result()
        root = F.fn('Context::run')
        r = FailRule(root.id)
        r.near = bodies_touching(F, lambda k, n: k == 'field' and n == FINAL)
        self.simulate(F, r, [root.id], (False, '', False), res)
        res.ob(max(1, len(r.errs)), bool(r.errs) and not res.violations)
        if not r.errs:
            res.bad('unseen error', root.file, root.line, 'no return of an error is recognised')
        res.ob(1, not res.violations)
        res.samples.append('%d error returns, %d other ends' % (len(r.errs), len(r.ends)))
        return res
