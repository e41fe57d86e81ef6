"""R11: what a script requires is checked against what the runtime allows."""
from base import FlowCheck, bodies_touching, Rule
from engine import leaf, contains, fields_in
from r_caps import CAPS, IDENT, NEXT
from r_run import fetches, has_type, instr

INSTRS = 'CompilerState.instructions'
POS = 'instruction::Block.require_pos'
LIST = 'Instruction::Require.0'
ALLOWED = 'Runtime.allowed_capabilities'
MAX = ('i', (1 << 64) - 1)
MOVERS = ('insert', 'remove', 'swap', 'swap_remove', 'truncate', 'pop', 'clear', 'drain', 'retain', 'retain_mut', 'dedup',
          'reverse', 'sort', 'sort_by', 'sort_unstable', 'split_off', 'rotate_left', 'rotate_right', 'splice',
          'dedup_by', 'dedup_by_key', 'sort_by_key', 'extract_if')


def vec_call(F, name, k, elem):
    """the Vec (or slice) method called when the elements are `elem`s."""
    if 'Vec' not in name and 'slice' not in name and 'Extend' not in name:
        return None
    ts = k.get('targs') or []
    if any(t[0] == 'adt' and F.short(t[1]) == elem or (
            t[0] == 'adt' and t[1].endswith('Vec') and t[2] and t[2][0][0] == 'adt' and F.short(t[2][0][1]) == elem)
           for t in ts):
        return name.rsplit('::', 1)[-1]
    return None


def shuffles(F, root):
    """calls that remove or reorder instructions already compiled."""
    out = []
    for fid in F.reach([root]):
        b = F.bodies.get(fid)
        if b is None:
            continue
        for blk in b.blocks:
            t = blk['t']
            if blk['x'] or t[0] != 'call' or t[1][0] != 'k' or 'fn' not in t[1][1]:
                continue
            lid, name = F.callee(t[1][1])
            n = vec_call(F, name or '', t[1][1], 'Instruction')
            if n in MOVERS:
                out.append((b, t[-1] if isinstance(t[-1], int) else b.line, n))
    return out


# adaptors that leave out elements or change their order
PARTIAL = ('skip', 'take', 'step_by', 'filter', 'take_while', 'skip_while', 'filter_map', 'map_while', 'rev', 'nth', 'last', 'split_off')


def calls_in(v):
    out = []
    if isinstance(v, tuple):
        if v and v[0] == 'call':
            out.append(v)
        for y in v:
            if isinstance(y, tuple):
                out += calls_in(y)
    return out


class RequireRule(Rule):
    """state: (in require?, listed values, declared but unlisted values, list, where the list went, push order)"""

    def __init__(self, root):
        self.root = root
        self.stored = 0

    def relevant(self, F):
        return bodies_touching(F, lambda k, n: n in (NEXT, 'Instruction::Require') or (
            k == 'field' and n in (CAPS, IDENT, POS, INSTRS)))

    def settle(self, E, c, st, line):
        inreq, listed, pend, lst, went, order = st
        for v in pend:
            E.report('declared unlisted', c.bid, line,
                     'require declares a capability that the compiled script does not ask the runtime for')
        if lst is not None and went != 'stored':
            E.report('list lost', c.bid, line,
                     'the capabilities named in require do not get into the compiled script on some path')
        if order == 'len':
            E.report('position wrong', c.bid, line, 'the position noted for require holds no require instruction')

    def on_branch(self, E, c, m, st, cond, val, line):
        inreq, listed, pend, lst, went, order = st
        if cond[0] == 'discr':
            x = cond[1]
            if leaf(x) == IDENT:
                w = E.F.variant_by_discr('Word', val) if isinstance(val, int) else None
                return (w == 'Require', frozenset(), frozenset(), None, '', '')
            if POS in fields_in(x) or any(POS in fields_in(a) for a in self.args(x)):
                # the position noted is that of a require instruction (proved below)
                if E.adt_of.get(x) == 'Instruction':
                    if isinstance(val, int):
                        return st if E.F.variant_by_discr('Instruction', val) == 'Require' else None
                    return None if E.F.discr_of('Instruction', 'Require') in val[1] else st
                if val == 0 and x[0] == 'call' and x[1].rsplit('::', 1)[-1] in ('get', 'get_mut'):
                    return None
        if cond[0] == 'call' and cond[1].rsplit('::', 1)[-1] == 'is_empty' and val == 1 and lst is not None and \
                cond[2] and contains(cond[2][0], lst):
            return None
        return st

    @staticmethod
    def args(x):
        while x[0] == 'p':
            x = x[1]
        return x[2] if x[0] == 'call' else ()

    def on_agg(self, E, c, m, st, v, line):
        inreq, listed, pend, lst, went, order = st
        if v[1] == 'Instruction' and v[2] == 'Require':
            if lst is not None and contains(v, lst):
                return (inreq, listed, pend, lst, 'packed', order)
        return st

    def on_store(self, E, c, m, st, loc, v, line):
        inreq, listed, pend, lst, went, order = st
        if leaf(loc) == POS and v != MAX:
            if v[0] == 'call' and v[1].rsplit('::', 1)[-1] == 'len' and leaf(v[2][0]) == INSTRS:
                return (inreq, listed, pend, lst, went, 'len')
            if order == 'require' and INSTRS in fields_in(v):
                return st
            if v[0] not in ('loc', 'hv', 'p'):
                E.report('position wrong', c.bid, line, 'the position noted for require is not that of a require instruction')
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        inreq, listed, pend, lst, went, order = st
        if name == NEXT and c.bid == self.root:
            self.settle(E, c, st, line)
            return ('state', (False, frozenset(), frozenset(), None, '', ''))
        if not args:
            return None
        n = name.rsplit('::', 1)[-1]
        if leaf(args[0]) == INSTRS and n == 'push':
            req = args[1][0] == 'v' and args[1][2] == 'Require'
            if order == 'len' and not req:
                E.report('position wrong', c.bid, line, 'the position noted for require holds another instruction')
            if req and went == 'packed':
                self.stored += 1
                went = 'stored'
            return ('state', (inreq, listed, pend, lst, went, 'require' if req else ''))
        if leaf(args[0]) == CAPS and n in ('insert', 'replace') and len(args) > 1:
            if args[1] not in listed:
                return ('state', (inreq, listed, pend | {args[1]}, lst, went, order))
            return None
        if not inreq:
            return None
        vc = vec_call(E.F, name, k, 'Capability')
        if vc in ('push', 'insert'):
            v = args[-1]
            if leaf(args[0]) == LIST:
                self.stored += 1
                return ('state', (inreq, listed | {v}, pend - {v}, lst, went, order))
            return ('state', (inreq, listed | {v}, pend - {v}, args[0], '', order))
        if n in ('extend', 'append', 'extend_from_slice') and leaf(args[0]) == LIST and lst is not None and contains(args[1], lst):
            if any(y[1].rsplit('::', 1)[-1] in PARTIAL for y in calls_in(args[1])):
                E.report('list lost', c.bid, line,
                         'only some of the capabilities named in require get into the compiled script, or in another order')
            self.stored += 1
            return ('state', (inreq, listed, pend, lst, 'stored', order))
        return None

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.root and v[0] == 'v' and v[2] == 'Ok':
            self.settle(E, c, st, line)
        return st


CUTS = ('skip', 'take', 'step_by', 'filter', 'take_while', 'skip_while', 'filter_map', 'map_while', 'split_off', 'truncate')


class AllowedRule(Rule):
    """state: '' elsewhere; 'open' in require; 'new' an element in hand; 'ok' it
    is allowed; 'no' it is not; 'all' in or after a test of all; 'end' all seen."""

    def __init__(self, root):
        self.root = root
        self.checked = set()
        self.entered = 0

    def relevant(self, F):
        return bodies_touching(F, lambda k, n: (k == 'field' and n in (ALLOWED, LIST)) or (k == 'discr' and n == 'Instruction'))

    def on_branch(self, E, c, m, st, cond, val, line):
        i = instr(E, cond, val)
        if i:
            if i == 'Require':
                self.entered += 1
                return 'open'
            return ''
        if st == '':
            return st
        if cond[0] == 'call' and cond[1].endswith('Set::contains') and leaf(cond[2][0]) == ALLOWED:
            self.checked.add((c.bid, line))
            if st == 'all':
                return 'all' if val == 1 else 'no'
            return 'ok' if val == 1 else 'no'
        if st == 'asked' and cond[0] == 'discr':
            x = cond[1]
            if x[0] == 'call' and x[1].rsplit('::', 1)[-1] in ('next', 'get', 'first', 'next_back'):
                return 'new' if val == 1 else 'end'
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        if st == '':
            return None
        n = name.rsplit('::', 1)[-1]
        ts = k.get('targs') or []
        if fetches(E.F, name, k):
            if st not in ('end', 'all'):
                E.report('unchecked', c.bid, line,
                         'the script goes on after require %s' % (
                             'although a capability is not allowed' if st == 'no' else
                             'with a capability not looked up among the allowed ones'))
            return ('state', '')
        if n in ('any', 'all', 'find', 'position') and any(has_type(E.F, t, 'Capability') for t in ts):
            return ('state', 'all')
        if n in CUTS and any(has_type(E.F, t, 'Capability') for t in ts) and args and LIST in fields_in(args[0]):
            E.report('unchecked', c.bid, line, 'only some of the required capabilities are looked up (%s)' % n)
        if n in ('next', 'get', 'first', 'next_back') and any(has_type(E.F, t, 'Capability') for t in ts):
            if st in ('new', 'no'):
                E.report('unchecked', c.bid, line,
                         'the next required capability is taken %s' % (
                             'although one is not allowed' if st == 'no' else 'with one not looked up'))
            return ('state', 'asked')
        return None

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.root and st == 'no':
            x = dict(v[3]).get('0') if v[0] == 'v' and v[2] == 'Some' else None
            if not (x and x[0] == 'v' and x[2] == 'Err'):
                E.report('refusal lost', c.bid, line, 'the run does not fail although a required capability is not allowed')
        return st


class R11(FlowCheck):
    explanation = (
        'Two property simulations over MIR. Compile: each capability that require adds to the declared set of a block is '
        'put into the list of a Require instruction (obligation opened by the set insertion, closed by the list push; the '
        'list must reach the instruction sequence at the position noted; instructions are never removed or reordered). '
        'Run: under a Require instruction each element of the list must be found among the allowed capabilities, and the '
        'list exhausted, before another instruction is fetched; a refused element must end in an error.')

    def check(self, F):
        res = self.result()
        root = F.fn('Compiler::compile').id
        r = RequireRule(root)
        self.simulate(F, r, [root], (False, frozenset(), frozenset(), None, '', ''), res)
        for b, line, n in shuffles(F, root):
            res.bad('instructions moved', b.file, line, '%s: %s on the compiled instructions' % (b.canon, n))
        if not r.stored:
            res.bad('unseen list', 'src/compiler/grammar/actions/action_require.rs', 0,
                    'no place where the required capabilities enter the compiled script was found')
        run = F.fn('Context::run').id
        q = AllowedRule(run)
        self.simulate(F, q, [run], '', res)
        if not q.checked or not q.entered:
            res.bad('unseen check', 'src/runtime/context.rs', 0, 'no check of required capabilities against the allowed ones was found')
        res.ob(4, not res.violations)
        res.analysed['points where a list is stored'] = r.stored
        res.analysed['look-ups in the allowed set'] = len(q.checked)
        res.samples.append('declared set insertion -> list push -> Require instruction; Require -> allowed set look-up')
        return res
