"""what becomes of the implicit keep."""
from base import FlowCheck, bodies_touching, Rule
from engine import leaf, fields_in
from r_run import FINAL, QUEUE, fetches, instr, event_name, has_type

COPY = {'FileInto': 'FileInto.copy', 'Redirect': 'Redirect.copy'}
SENT = {'FileInto': 'FileInto', 'Redirect': 'SendMessage', 'Reject': 'Reject'}


def what(v):
    """Keep / Discard / None of an Option<Event> value."""
    if v[0] == 'v' and v[1] == 'Option':
        if v[2] == 'None':
            return 'None'
        x = v[3][0][1]
        if x[0] == 'v' and x[1] == 'Event':
            return x[2]
    if v[0] == 'v' and v[1] == 'Event':
        return v[2]
    return '?'


class KeepRule(Rule):
    """state: (instruction, copy flag, what was stored, events made, findings: 'keep' a reason to keep, 'spare' no
    keep with flags of its own is pending)."""

    def __init__(self, root):
        self.root = root
        self.seen = set()

    def relevant(self, F):
        return bodies_touching(F, lambda k, n: (k == 'field' and (n == FINAL or n in COPY.values())) or (
            k == 'discr' and n == 'Instruction') or (k == 'agg' and n in (
                'Event::FileInto', 'Event::SendMessage', 'Event::Reject')))

    def settle(self, E, c, st, line):
        """the instruction is over."""
        ins, copy, stored, made, why = st
        def bad(key, msg):
            E.report(key + ' ' + ins, c.bid, line, msg)
        if ins == 'Keep' and stored != 'Keep':
            bad('not kept', 'keep does not make keep the final action on every path')
        elif ins == 'Discard' and stored != 'Discard':
            bad('not discarded', 'discard does not make discard the final action on every path')
        elif ins == 'Reject' and (stored != 'None' or 'Reject' not in made):
            bad('not rejected', 'reject leaves the implicit keep in place or is not passed on')
        elif ins in COPY:
            if stored == 'None' and SENT[ins] not in made:
                bad('lost', 'the implicit keep is cancelled without %s being carried out' % ins.lower())
            if ins == 'FileInto' and 'FileInto' not in made:
                bad('lost', 'fileinto has no effect on some path')
            if SENT[ins] in made and stored != 'None' and copy != 1 and 'keep' not in why:
                bad('kept', '%s without :copy leaves the implicit keep in place' % ins.lower())

    def on_branch(self, E, c, m, st, cond, val, line):
        ins, copy, stored, made, why = st
        i = instr(E, cond, val)
        if i is not None:
            if i != ins:
                if ins and i != '?':
                    self.settle(E, c, st, line)
                return (i, None, '', frozenset(), frozenset())
            return st
        if ins in COPY:
            if leaf(cond) == COPY[ins] and val in (0, 1):
                return (ins, val, stored, made, why)
            if stored == '' and ins == 'FileInto' and FINAL in fields_in(cond):
                e = event_name(E, cond, val)
                if cond[0] == 'discr' and E.adt_of.get(cond[1]) == 'Option' and val == 0 or e and e != 'Keep' and (
                        isinstance(e, str) or 'Keep' in e[1]) or any(
                        f.endswith('Keep.flags') for f in fields_in(cond)) and self.nonempty(cond, 1 - val if val in (0, 1) else val):
                    why = why | {'spare'}
                    st = (ins, copy, stored, made, why)
            # exceptions: no keep pending, or a keep with flags of its own
            if stored == '' and cond[0] == 'discr' and FINAL in fields_in(cond[1]):
                if E.adt_of.get(cond[1]) == 'Option' and val == 0:
                    return (ins, copy, stored, made, why | {'keep'})
                e = event_name(E, cond, val)
                if e and e != 'Keep' and (isinstance(e, str) or 'Keep' in e[1]):
                    return (ins, copy, stored, made, why | {'keep'})
            if stored == '' and ins == 'FileInto' and FINAL in fields_in(cond) and any(
                    f.endswith('Keep.flags') for f in fields_in(cond)) and self.nonempty(cond, val):
                return (ins, copy, stored, made, why | {'keep'})
        return st

    def nonempty(self, cond, val):
        while cond[0] == 'un' and cond[1] == 'Not':
            cond, val = cond[2], 1 - val if val in (0, 1) else None
        if cond[0] == 'call' and cond[1].rsplit('::', 1)[-1] == 'is_empty':
            return val == 0
        if cond[0] == 'bin' and any(x == ('i', 0) for x in cond[2:]):
            op, z = cond[1], cond[2] == ('i', 0)
            truth = {'Eq': 0, 'Ne': 1, 'Gt': 1, 'Lt': 1, 'Le': 0, 'Ge': 0}
            return val == truth.get(op, 2)
        return False

    def on_agg(self, E, c, m, st, v, line):
        ins, copy, stored, made, why = st
        if v[1] == 'Event' and v[2] in ('FileInto', 'SendMessage', 'Reject') and ins:
            return (ins, copy, stored, made | {v[2]}, why)
        return st

    def on_store(self, E, c, m, st, loc, v, line):
        ins, copy, stored, made, why = st
        if leaf(loc) != FINAL or loc[0] != 'p':
            return st
        w = what(v)
        self.seen.add((ins, w))
        if self.taking:
            return st
        allowed = {'Keep': 'Keep', 'Discard': 'Discard', 'Reject': 'None', 'FileInto': 'None', 'Redirect': 'None'}
        if allowed.get(ins) != w:
            if ins in ('', 'end') and w == 'None':
                return st          # taken at the end
            E.report('stray %s %s' % (ins or 'start', w), c.bid, line,
                     '%s sets the final action to %s' % (ins.lower() if ins not in ('', '?') else 'something other than an action', w.lower()))
        if ins == 'FileInto' and w == 'None' and 'spare' not in why:
            E.report('flags ' + ins, c.bid, line, 'fileinto cancels a keep without having found that it has no flags of its own')
        if ins in COPY and copy != 0:
            E.report('copy ' + ins, c.bid, line, '%s with :copy cancels the implicit keep' % ins.lower())
        return (ins, copy, w, made, why)

    taking = False

    def on_call(self, E, c, m, st, name, k, args, line):
        self.taking = False
        meth = name.rsplit('::', 1)[-1]
        if args and leaf(args[0]) == FINAL and meth in ('take',):
            # settled by the rule about errors and ends
            self.taking = True
            return None
        if fetches(E.F, name, k) and st[0]:
            self.settle(E, c, st, line)
            return ('state', ('', None, '', frozenset(), frozenset()))
        return None

    def after_call(self, E, c, m, st, name, k, args, ret, line):
        self.taking = False
        return st

    def on_return(self, E, c, m, st, v, line):
        self.taking = False
        if c.bid == self.root and st[0] and not (
                v[0] == 'v' and v[2] == 'Some' and v[3][0][1][0] == 'v' and v[3][0][1][2] == 'Err'):
            self.settle(E, c, st, line)
        return st


class R03(FlowCheck):
    explanation = (
        'Property simulation of Context::run: the final action is set to keep by keep, to discard by discard and '
        'cancelled by reject, on every path; fileinto and redirect cancel it only where :copy was found absent and the '
        'delivery event is made, and do cancel it there unless no keep is pending or it has flags of its own; no other '
        'instruction touches it; it starts out as keep.')

    def check(self, F):
        res = self.result()
        root = F.fn('Context::run')
        r = KeepRule(root.id)
        self.simulate(F, r, [root.id], ('', None, '', frozenset(), frozenset()), res)
        want = [('Keep', 'Keep'), ('Discard', 'Discard'), ('Reject', 'None'), ('FileInto', 'None'), ('Redirect', 'None')]
        for w in want:
            good = w in r.seen
            if not good:
                res.bad('unseen ' + w[0], root.file, root.line, '%s never sets the final action to %s' % w)
            res.ob(1, good and not any(k.split()[-1] == w[0] or k.split()[1] == w[0] for k in res.violations))
        # who else writes it
        reach = F.reach([root.id])
        for b in F.all_fns():
            if FINAL in F.direct_writes(b.id) and b.id not in reach:
                res.bad('writer ' + b.canon, b.file, b.line, '%s changes the final action' % b.canon)
        # the first value
        from facts import rvalue_places
        inits = []
        for b in F.all_fns():
            for blk in b.blocks:
                for s in blk['s']:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'adt' and F.short(s[2][2]) == 'Context' and not b.derived:
                        inits.append(b)
        init = InitRule()
        for b in inits:
            self.simulate(F, init, [b.id], 0, res)
        ok = bool(init.vals) and init.vals == {'Keep'}
        if not ok:
            res.bad('initial', root.file, root.line, 'a new context does not start with keep as its final action (%s)' % (
                ', '.join(sorted(init.vals)) or 'not found'))
        res.ob(1, ok)
        res.samples += ['%s stores %s' % x for x in sorted(r.seen)]
        return res


class InitRule(Rule):
    def __init__(self):
        self.vals = set()

    def relevant(self, F):
        return set()

    def on_agg(self, E, c, m, st, v, line):
        if v[1] == 'Context':
            self.vals.add(what(dict(v[3])['final_event']))
        return st
