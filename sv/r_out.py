"""the limits on outgoing messages."""
from base import FlowCheck, bodies_touching, Rule
from engine import leaf, fields_in
from r_run import bump, fetches, has_type, instr, within

OUT, RED = 'Context.num_out_messages', 'Context.num_redirects'
LIM = {'out': (OUT, 'Runtime.max_out_messages'), 'redirects': (RED, 'Runtime.max_redirects'),
       'received': (None, 'Runtime.max_received_headers')}
NEED = {'Redirect': ('out', 'redirects', 'received')}
RAISE = {'Redirect': (OUT, RED)}
TEXT = {'out': 'the number of outgoing messages', 'redirects': 'the number of redirects',
        'received': 'the number of Received headers', OUT: 'outgoing messages', RED: 'redirects'}
EV = ('SendMessage', 'Notify')


class OutRule(Rule):
    """state: (instruction, limits found respected, counters raised, messages made)."""

    def __init__(self, root):
        self.root = root
        self.seen = set()
        self.checked_test = None

    def relevant(self, F):
        return bodies_touching(F, lambda k, n: (k == 'field' and n in (OUT, RED, 'Runtime.max_received_headers',
                                                                      'Runtime.max_out_messages', 'Runtime.max_redirects')) or (
            k == 'discr' and n in ('Instruction', 'Test')) or (k == 'agg' and n in (
                'Event::SendMessage', 'Event::Notify', 'Event::DuplicateId')))

    def settle(self, E, c, st, line):
        ins, chk, raised, made = st
        if made:
            for f in RAISE.get(ins, (OUT,)):
                if f not in raised:
                    E.report('uncounted %s %s' % (ins, f.split('.')[1]), c.bid, line,
                             '%s makes a message that is not counted among the %s' % (ins.lower(), TEXT[f]))

    def on_branch(self, E, c, m, st, cond, val, line):
        ins, chk, raised, made = st
        i = instr(E, cond, val)
        if i is not None:
            if i != ins:
                self.settle(E, c, st, line)
                return (i, frozenset(), frozenset(), False)
            return st
        if cond[0] == 'discr' and E.adt_of.get(cond[1]) == 'Test' and ins == 'Test':
            if val == E.F.discr_of('Test', 'Vacation'):
                return ('TestVacation', frozenset(), raised, made)
        if ins:
            for w, (cnt, lim) in LIM.items():
                if cnt:
                    r = within(cond, val, lambda a: cnt in fields_in(a), lim)
                    good = r == '<' and cnt not in raised or r == '<=' and cnt in raised
                else:
                    r = within(cond, val, lambda a: a[0] not in ('i',), lim)
                    good = r == '<' or r == '<=' and ins == 'TestVacation'
                if good:
                    chk = chk | {w}
        return (ins, chk, raised, made)

    def on_agg(self, E, c, m, st, v, line):
        ins, chk, raised, made = st
        if v[1] == 'Event' and ins == 'TestVacation' and v[2] == 'DuplicateId':
            self.seen.add('TestVacation')
            for w in ('out', 'received'):
                if w not in chk:
                    self.vac_unchecked.setdefault(w, (c.bid, line))
            return st
        if v[1] == 'Event' and v[2] in EV:
            self.seen.add((ins, v[2]))
            if ins == 'Vacation':
                if 'out' not in chk:
                    self.vac_sends.setdefault('out', (c.bid, line))
                return (ins, chk, raised, True)
            for w in NEED.get(ins, ('out',)):
                if w not in chk:
                    E.report('unlimited %s %s' % (ins, w), c.bid, line,
                             '%s makes a message without %s having been found below the limit' % (
                                 ins.lower() or '?', TEXT[w]))
            return (ins, chk, raised, True)
        return st

    def on_store(self, E, c, m, st, loc, v, line):
        ins, chk, raised, made = st
        l = leaf(loc)
        if l in (OUT, RED) and loc[0] == 'p':
            if not bump(E, m, loc, v):
                E.report('reset ' + l, c.bid, line, 'the count of %s is changed other than upwards' % TEXT[l])
                return st
            return (ins, chk, raised | {l}, made)
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        if fetches(E.F, name, k) and st[0]:
            self.settle(E, c, st, line)
            return ('state', ('', frozenset(), frozenset(), False))
        return None

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.root:
            self.settle(E, c, st, line)
        return st


def received(F, root):
    """places where some Received header is not counted; only ways of counting that are recognised are judged."""
    heads = [p for p in F.adts if p.rsplit('::', 1)[-1] == 'HeaderName']
    users = bodies_touching(F, lambda k, n: k == 'field' and n == 'Runtime.max_received_headers') & F.reach([root])
    users |= {x for u in users for x in F.calls.get(u, ()) if x in F.bodies and F.bodies[x].locals[0][0] == ['prim', 'usize']}
    near = users | {b.id for b in F.all_fns() if b.kind == 'closure' and F.root_fn(b.id).id in users}
    out, seen = [], 0
    for i in sorted(near):
        b = F.bodies[i]
        for blk in b.blocks:
            t = blk['t']
            if t[0] != 'switch' or not any(s[0] == '=' and s[2][0] == 'discr' and s[2][2] in heads and s[1] == t[1][1] for s in blk['s']):
                continue
            start = [x for v, x in t[2] if F.variant_by_discr(heads[0], v) == 'Received']
            if not start:
                continue
            todo, went, bad, counts = list(start), set(), None, False
            says = b.kind == 'closure' and b.locals[0][0] == ['prim', 'bool']
            while todo:
                j = todo.pop()
                if j in went:
                    continue
                went.add(j)
                k = b.blocks[j]
                if not says and any(s[0] == '=' and s[2][0] == 'bin' and s[2][1].startswith('Add') and s[2][3][0] == 'k'
                                    and s[2][3][1].get('int') == 1 for s in k['s']):
                    counts = True
                    continue
                for s in k['s']:
                    if says and s[0] == '=' and s[1] == [0, []]:
                        if s[2][0] == 'use' and s[2][1][0] == 'k' and s[2][1][1].get('int') == 1:
                            counts = True
                        else:
                            bad = s[3]
                u = k['t']
                if says and u[0] == 'call' and u[3] == [0, []]:
                    bad = k['l']
                if not says and u[0] == 'call' and u[1][0] == 'k' and (F.callee(u[1][1])[1] or '').endswith('::next') and has_type(
                        F, (u[1][1].get('targs') or [None])[0], 'Header'):
                    bad = k['l']
                    continue
                todo += b.succs[j]
            if counts:
                seen += 1
                if bad:
                    out.append((b, bad))
    return out, seen


class R04(FlowCheck):
    explanation = (
        'Property simulation of Context::run: where redirect, notify or vacation makes an outgoing message, the number '
        'of messages sent so far (for redirect also of redirects and of Received headers) must have been found below '
        'its limit on the path, and the counters are raised before the instruction ends; they are never lowered. For '
        'vacation the limits are examined by the test that precedes it.')

    def check(self, F):
        res = self.result()
        root = F.fn('Context::run')
        r = OutRule(root.id)
        r.vac_unchecked, r.vac_sends = {}, {}
        e = self.simulate(F, r, [root.id], ('', frozenset(), frozenset(), False), res)
        for w, (bid, line) in r.vac_unchecked.items():
            if w == 'out' and not r.vac_sends:
                continue
            b = F.bodies[bid]
            res.bad('unlimited Vacation ' + w, b.file, line, '%s: vacation replies without %s having been found below the limit' % (
                b.canon, TEXT[w]))
        bad, n = received(F, root.id)
        for b, line in bad:
            res.bad('received uncounted ' + F.root_fn(b.id).canon, b.file, line, '%s: a Received header is not counted on some path' % F.root_fn(b.id).canon)
        res.ob(max(1, n), not bad)
        reach = F.reach([root.id])
        for b in F.all_fns():
            for f in (OUT, RED):
                if f in F.direct_writes(b.id) and b.id not in reach:
                    res.bad('writer ' + b.canon, b.file, b.line, '%s changes the count of %s' % (b.canon, TEXT[f]))
        for w in [('Redirect', 'SendMessage'), ('Notify', 'SendMessage'), ('Notify', 'Notify'), ('Vacation', 'SendMessage')]:
            good = w in r.seen
            if not good:
                res.bad('unseen %s %s' % w, root.file, root.line, '%s makes no %s event' % w)
            res.ob(1, good and not any(w[0] in k.split() for k in res.violations))
            res.samples.append('%s: %s' % w)
        return res
