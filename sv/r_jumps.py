"""C04: control flow compiles to jumps that lead where the script says."""
from collections import namedtuple
from base import FlowCheck, bodies_touching, Rule
from engine import leaf, contains, fields_in
from r_caps import IDENT, NEXT
from r_run import fetches, instr
from r_req import INSTRS, shuffles
from r_loops import loops

MAX = ('i', (1 << 64) - 1)
BREAKS = 'instruction::Block.break_jmps'
IFS = 'instruction::Block.if_jmps'
TESTS = 'test::Block.jmps'
LISTS = (BREAKS, IFS, TESTS)
START = 'instruction::Block.last_block_start'
BLOCK = 'CompilerState.block'
STACK = 'CompilerState.block_stack'
BTYPE = 'instruction::Block.btype'
LAST = 'CompilerState.last_block_type'
JUMPS = ('Jmp', 'Jz', 'Jnz')
TARGETS = ('Instruction::Jz.0', 'Instruction::Jnz.0', 'Instruction::Jmp.0', 'While.jz_pos', 'ForEveryPart.jz_pos')
OPENER = {'If': 'Jz', 'ElsIf': 'Jz', 'While': 'While', 'ForEveryPart': 'ForEveryPart', 'Else': None}

# adaptors and methods that leave out elements
PARTIAL = ('skip', 'take', 'step_by', 'filter', 'take_while', 'skip_while', 'filter_map', 'map_while', 'truncate', 'remove',
           'swap_remove', 'clear', 'retain', 'dedup', 'split_off', 'resize', 'nth', 'last')

# opened: placeholder pushed last | reg: list the next push is registered in | newblk: block created
# armed: the start of the block about to be entered is noted | skip: pushes a relative jump still leaps
# word: what is compiled | close: block being closed | elseok: if/elsif just ended | tpop: test list being closed
S = namedtuple('S', 'opened reg newblk armed skip word close it elseok tpop balanced')
# kind | back jump | start patched | branch left | list patched | next is elsif/else | last_block_type says if | stored
C = namedtuple('C', 'kind back patched leap done more lbt restored')
S0 = S(None, None, None, None, 0, None, None, None, False, None, False)


def is_len(v):
    return v[0] == 'call' and v[1].rsplit('::', 1)[-1] == 'len' and v[2] and leaf(v[2][0]) == INSTRS


def is_last(v):
    return v[0] == 'bin' and v[1] == 'Sub' and is_len(v[2]) and v[3] == ('i', 1)


def calls_in(v):
    out = []
    if isinstance(v, tuple):
        if v and v[0] == 'call':
            out.append(v)
        for y in v:
            if isinstance(y, tuple):
                out += calls_in(y)
    return out


class JumpRule(Rule):
    opaque = ('CompilerState', 'test::Block')

    def __init__(self, root):
        self.root = root
        self.closed = set()
        self.resolved = set()

    def relevant(self, F):
        return bodies_touching(F, lambda k, n: n == NEXT or (k == 'field' and n in (
            INSTRS, IDENT, BTYPE, START, STACK, LAST) + LISTS) or (k == 'agg' and n in ('instruction::Block::Block', 'test::Block::Block')))

    def carry(self, k, v):
        return k[0] == 'discr' and leaf(k[1]) in (IDENT, BTYPE, LAST)

    # -------------------------------------------------------------- end of a command
    def settle(self, E, c, st, line):
        def bad(key, msg):
            E.report(key, c.bid, line, msg + (' (%s)' % st.word if st.word else ''))
        if st.opened:
            bad('open ' + st.opened, 'a %s is left without the place it leads to' % st.opened)
        if st.reg:
            bad('registered', 'a position is noted as that of a jump, but no jump is there')
        if st.skip > 0:
            bad('relative', 'a relative jump leads beyond the instructions of its command')
        if st.armed and st.armed != 'entered':
            bad('start', 'the start of a block is noted, but the block is not entered')
        if st.it and st.it[1] != 'idle':
            bad('unpatched', 'a noted jump is taken off its list without being given its target')
        if st.tpop == 'open':
            bad('test list', 'the jumps of a test list are not given their target')
        k = st.close
        if k is None or k.kind is None:
            return
        self.closed.add(k.kind)
        if k.kind in ('While', 'ForEveryPart'):
            if not k.back:
                bad('no back jump', 'at the end of a %s block no jump leads back to its start' % k.kind)
            if not k.patched:
                bad('no exit', 'a %s loop is not told where it ends' % k.kind)
            if k.done != 'break':
                bad('break', 'the breaks of a %s loop are not given their target' % k.kind)
        else:
            if k.kind != 'Else' and not k.patched:
                bad('no false branch', 'an %s is not told where to go on when its test fails' % k.kind.lower())
            if k.kind != 'Else' and k.more:
                if not k.leap:
                    bad('falls through', 'an %s block runs on into the elsif or else block after it' % k.kind.lower())
            elif k.leap:
                bad('leap unresolved', 'the jump at the end of an %s block never gets its target' % k.kind.lower())
            elif k.done != 'if':
                bad('if chain', 'the jumps of an if chain are not given their target after its last block (%s)' % k.kind)
        if k.lbt == 'if' and not (k.more and k.kind in ('If', 'ElsIf')):
            bad('else anywhere', 'after a %s block an elsif or else is accepted although it follows none' % k.kind)
        if k.lbt is None:
            bad('last block', 'the kind of block that just ended is not noted (%s)' % k.kind)
        if not k.restored:
            bad('enclosing block', 'after a %s block the enclosing block is not taken up again' % k.kind)

    # -------------------------------------------------------------- hooks
    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'call' and cond[1].rsplit('::', 1)[-1] == 'is_empty' and leaf(cond[2][0]) == STACK:
            return st._replace(balanced=val == 1)
        if cond[0] != 'discr':
            return st
        x = cond[1]
        cs = calls_in(x)
        name = lambda v: v[1].rsplit('::', 1)[-1]
        if leaf(x) == IDENT:
            w = E.F.variant_by_discr('Word', val) if isinstance(val, int) else None
            if st.close:
                # the token after the block
                return st._replace(close=st.close._replace(more=w in ('ElsIf', 'Else')))
            if any(name(y) in ('peek', 'next_if', 'clone') for y in cs):
                return st
            if c.bid == self.root and w and st.word is None:
                st = st._replace(word=w)
            return st
        if leaf(x) == LAST and isinstance(val, int) and not st.close:
            return st._replace(elseok=E.F.variant_by_discr('Word', val) in ('If', 'ElsIf'))
        if leaf(x) == BTYPE and st.close and st.close.kind is None and leaf(x[1]) == BLOCK:
            w = E.F.variant_by_discr('Word', val) if isinstance(val, int) else None
            if w is None:
                # only the kinds of blocks that are ever created
                return None if {E.F.variant_by_discr('Word', v) for v in val[1]} >= set(OPENER) else st
            return st._replace(close=st.close._replace(kind=w)) if w in OPENER else None
        if x[0] == 'call' and name(x) == 'pop' and x[2] and leaf(x[2][0]) == STACK:
            return st if val == 1 else None if st.close else st
        if st.tpop == 'asked' and x[0] == 'call' and name(x) == 'pop':
            return st._replace(tpop='open' if val == 1 else None)
        if st.it and st.it[1] == 'asked' and x[0] == 'call' and name(x) in ('next', 'pop', 'next_back'):
            if val == 1:
                return st._replace(it=(st.it[0], 'elem'))
            if val == 0:
                l = st.it[0]
                st = st._replace(it=None)
                if l == TESTS:
                    return st._replace(tpop='done')
                if st.close:
                    return st._replace(close=st.close._replace(done='break' if l == BREAKS else 'if'))
                return st
        if E.adt_of.get(x) == 'Instruction' or (x[0] == 'call' and name(x) in ('get_mut', 'get')):
            # an instruction at a noted position: the kind noted (proved here)
            want = None
            ix = [y for y in cs if name(y) in ('index_mut', 'get_mut', 'index', 'get') and len(y[2]) > 1 and leaf(y[2][0]) == INSTRS]
            if ix and st.close and START in fields_in(ix[0][2][1]):
                want = {OPENER.get(st.close.kind)}
            elif ix and st.it and st.it[1] in ('elem', 'idle') and any(name(y) in ('next', 'pop', 'next_back') for y in calls_in(ix[0][2][1])):
                want = {'Jz', 'Jnz'} if st.it[0] == TESTS else {'Jmp'}
            if want and None not in want:
                if x[0] == 'call' and name(x) in ('get_mut', 'get'):
                    return None if val == 0 else st
                ds = {E.F.discr_of('Instruction', w) for w in want}
                if isinstance(val, int):
                    return st if val in ds else None
                return None if ds <= set(val[1]) else st
        return st

    def on_agg(self, E, c, m, st, v, line):
        if v[1] == 'instruction::Block' or (v[1].endswith('Block') and 'btype' in dict(v[3])):
            b = dict(v[3]).get('btype')
            w = b[2] if b and b[0] == 'v' else None
            if w in ('ElsIf', 'Else') and not st.elseok:
                E.report('no if before', c.bid, line, 'an %s is accepted without an if before it' % w.lower())
            return st._replace(newblk=w or '?')
        return st

    def on_store(self, E, c, m, st, loc, v, line):
        l = leaf(loc)
        if l == START:
            if not is_last(v):
                E.report('start', c.bid, line, 'the start of a block is noted as something other than the last instruction')
                return st
            if st.newblk in OPENER and OPENER[st.newblk] != st.opened and OPENER[st.newblk] is not None:
                E.report('start of ' + st.newblk, c.bid, line, 'the last instruction before an %s block is not the one that skips it' % st.newblk)
            return st._replace(opened=None, armed=st.newblk or '?')
        if l == BLOCK:
            if st.close:
                return st._replace(close=st.close._replace(restored=any(
                    y[1].rsplit('::', 1)[-1] == 'pop' and leaf(y[2][0]) == STACK for y in calls_in(v) if y[2]) or v[0] in ('loc', 'hv', 'ph')))
            if st.armed is None:
                E.report('start', c.bid, line, 'a block is entered without its start having been noted')
            return st._replace(armed='entered')
        if l == LAST:
            yes = not (v[0] == 'v' and v[2] not in ('If', 'ElsIf'))
            if st.close:
                return st._replace(close=st.close._replace(lbt='if' if yes else 'no'))
            return st._replace(elseok=yes)
        if v[0] == 'v' and v[1] == 'Instruction' and v[2] == 'Jmp' and st.it and st.it[0] != TESTS and st.it[1] == 'elem':
            l, v = 'Instruction::Jmp.0', dict(v[3])['0']
        if l in TARGETS or (l is None and loc[0] == 'ph' and st.it and st.it[1] == 'elem'):
            if not is_len(v):
                E.report('target', c.bid, line, 'a jump is given a target other than the end of the script compiled so far')
                return st
            self.resolved.add((c.bid, line))
            if START in fields_in(loc) or any(START in fields_in(a) for y in calls_in(loc) for a in y[2]):
                if st.close:
                    return st._replace(close=st.close._replace(patched=True))
                return st
            if st.it and st.it[1] == 'elem':
                return st._replace(it=(st.it[0], 'idle'))
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        n = name.rsplit('::', 1)[-1]
        if name == NEXT:
            if st.it and st.it[0] == TESTS or st.tpop == 'open':
                E.report('test list', c.bid, line, 'the jumps of a test list are not given their target')
            if st.tpop:
                st = st._replace(tpop=None)
            if c.bid == self.root:
                if st.armed == 'entered' and st.elseok:
                    E.report('else anywhere', c.bid, line, 'an elsif or else is accepted as the first command of a block')
                if st.word in ('Break', 'ForEveryPart', 'Let') and not st.close and not st.armed and not st.opened and not st.reg:
                    pass
                self.settle(E, c, st, line)
                return ('state', S0)
            return ('state', st)
        if not args:
            return None
        a0 = leaf(args[0])
        if n == 'pop':
            if a0 == STACK:
                return ('state', st._replace(close=C(None, False, False, False, None, False, None, False)))
            ts = k.get('targs') or []
            if any(t[0] == 'adt' and E.F.short(t[1]) == 'test::Block' for t in ts):
                return ('state', st._replace(tpop=None if st.tpop == 'done' else 'asked'))
        if n == 'push' and a0 == STACK and st.armed is None:
            E.report('start', c.bid, line, 'a block is entered without its start having been noted')
        if n == 'push' and a0 == INSTRS:
            return ('state', self.pushed(E, c, st, args[1], line))
        if n in ('push', 'pop') and a0 in LISTS:
            if st.it and st.it[0] == a0 and st.it[1] in ('asked', 'elem'):
                E.report('unpatched', c.bid, line, 'a noted jump is taken off its list without being given its target')
                st = st._replace(it=None)
        if n == 'push' and a0 in LISTS:
            if is_last(args[1]) and st.opened in JUMPS:
                return ('state', st._replace(opened=None))
            if not is_len(args[1]):
                E.report('registered', c.bid, line, 'something other than the position of the next instruction is noted as that of a jump')
                return None
            if st.reg:
                E.report('registered', c.bid, line, 'a position is noted twice as that of a jump')
            return ('state', st._replace(reg=a0))
        if n == 'clear' and a0 == IFS and (st.word in ('ElsIf', 'Else') or st.elseok or st.close and st.close.more):
            E.report('unpatched', c.bid, line, 'the noted jumps of an if chain are dropped without being given their target')
        if n in PARTIAL and ((st.it and st.it[1] == 'idle' and 'Iterator' in name) or a0 in LISTS and not (
                a0 == IFS and n == 'clear' or name.startswith('std::mem::'))) or n == 'drain' and a0 in LISTS and not (
                args[1][0] == 'v' and args[1][2] == 'RangeFull'):
            E.report('unpatched', c.bid, line, 'some of the noted jumps are passed over without being given their target')
        if n in ('into_iter', 'drain', 'take', 'iter', 'pop') and a0 in LISTS:
            own = leaf(args[0][1]) == BLOCK if args[0][0] == 'p' else None
            if st.close and a0 == BREAKS and own is False or st.close and a0 == IFS and own:
                E.report('other list', c.bid, line, 'the jumps of another block than the one that ends are given a target')
            if n != 'pop':
                return ('state', st._replace(it=(a0, 'idle')))
            return ('state', st._replace(it=(a0, 'asked')))
        if n in ('next', 'next_back') and st.it and any(t == ['prim', 'usize'] or 'usize' in str(t) for t in k.get('targs') or []):
            if st.it[1] == 'elem':
                E.report('unpatched', c.bid, line, 'a noted jump is passed over without being given its target')
            return ('state', st._replace(it=(st.it[0], 'asked')))
        return None

    def pushed(self, E, c, st, x, line):
        if st.opened and st.opened in ('Jz', 'While', 'ForEveryPart'):
            E.report('open ' + st.opened, c.bid, line, 'an instruction follows a %s before the start of its block is noted' % st.opened)
            st = st._replace(opened=None)
        if st.skip > 0:
            st = st._replace(skip=st.skip - 1)
        w = x[2] if x[0] == 'v' and x[1] == 'Instruction' else None
        k = st.close
        if k and (k.patched or k.done):
            E.report('target', c.bid, line, 'the targets given at the end of a block are not behind its last instruction')
        if w in JUMPS:
            v = dict(x[3])['0']
            if v == MAX:
                ok = st.reg == TESTS if w in ('Jz', 'Jnz') else st.reg in (BREAKS, IFS)
                if ok:
                    if k and st.reg == IFS:
                        k = k._replace(leap=True)
                    return st._replace(reg=None, close=k)
                if st.reg:
                    E.report('registered', c.bid, line, 'a position is noted as that of a jump of another kind')
                return st._replace(reg=None, opened=w)
            if v[0] == 'bin' and v[1] == 'Add' and is_len(v[2]) and v[3][0] == 'i':
                return st._replace(skip=v[3][1] - 1)
            if leaf(v) == START and k:
                if not (k.kind and OPENER.get(k.kind) in ('While', 'ForEveryPart')):
                    E.report('back jump', c.bid, line, 'a jump leads back from the end of a block that is no loop')
                if leaf(v[1]) == BLOCK:
                    E.report('back jump', c.bid, line, 'the jump at the end of a loop leads to another start than its own')
                k = k._replace(back=True)
                return st._replace(close=k, reg=None)
            if v[0] == 'i':
                E.report('fixed jump', c.bid, line, 'a jump leads to a fixed position')
        elif w in ('While', 'ForEveryPart'):
            v = dict(dict(x[3])['0'][3]).get('jz_pos') if dict(x[3])['0'][0] == 'v' else None
            return st._replace(opened=w, reg=None)
        if st.reg:
            E.report('registered', c.bid, line, 'a position is noted as that of a jump, but another instruction is put there')
            st = st._replace(reg=None)
        return st._replace(close=k)

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.root and v[0] == 'v' and v[2] == 'Ok' and not st.balanced:
            E.report('unbalanced', c.bid, line, 'a script with an unterminated block is accepted')
        return st


class ExecRule(Rule):
    """state: (instruction, what it depends on, jumped?)"""
    WHEN = {'Jz': 0, 'Jnz': 1, 'While': 0, 'ForEveryPart': 0, 'Jmp': None}
    FIELD = {'Jz': 'Instruction::Jz.0', 'Jnz': 'Instruction::Jnz.0', 'Jmp': 'Instruction::Jmp.0',
             'While': 'While.jz_pos', 'ForEveryPart': 'ForEveryPart.jz_pos'}

    def __init__(self):
        self.seen = set()

    def relevant(self, F):
        return bodies_touching(F, lambda k, n: (k == 'field' and n in ('Context.pos', 'Context.test_result') + TARGETS) or (
            k == 'discr' and n == 'Instruction'))

    def on_branch(self, E, c, m, st, cond, val, line):
        i = instr(E, cond, val)
        if i:
            return (i if i in self.WHEN else '', None, False)
        kind, cnd, jumped = st
        if kind in ('Jz', 'Jnz') and leaf(cond) == 'Context.test_result':
            return (kind, val, jumped)
        if kind == 'While' and cond[0] == 'call' and cond[1].rsplit('::', 1)[-1] == 'to_bool':
            return (kind, val, jumped)
        if kind == 'ForEveryPart' and cond[0] == 'discr' and cond[1][0] == 'call' and \
                cond[1][1].rsplit('::', 1)[-1] == 'next' and 'Context.part_iter' in fields_in(cond[1]):
            return (kind, val, jumped)
        if kind == 'ForEveryPart' and cond[0] == 'discr' and cond[1][0] == 'call' and val == 0 and \
                cond[1][1].rsplit('::', 1)[-1] == 'pop' and 'Context.part_iter_stack' in fields_in(cond[1]):
            # no loop is pending: excluded by the pairing of ForEveryPartPush and the loop
            return None
        return st

    def on_store(self, E, c, m, st, loc, v, line):
        kind, cnd, jumped = st
        if leaf(loc) == 'Context.pos' and leaf(v) in TARGETS:
            if self.FIELD.get(kind) != leaf(v):
                E.report('jump of ' + str(kind), c.bid, line, 'the position is taken from another instruction')
            elif self.WHEN[kind] is not None and cnd != self.WHEN[kind]:
                E.report('wrong sense ' + kind, c.bid, line, '%s jumps %s' % (
                    kind, 'when it must not' if cnd is not None else 'whatever the outcome'))
            self.seen.add(kind)
            return (kind, cnd, True)
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        kind, cnd, jumped = st
        if name.rsplit('::', 1)[-1] == 'to_bool' and len(args) == 1:
            return [(st, ('call', 'to_bool', tuple(args), (c.bid, line)))]
        if fetches(E.F, name, k):
            if kind and not jumped and (self.WHEN[kind] is None or cnd == self.WHEN[kind] or cnd is None):
                E.report('no jump ' + kind, c.bid, line, 'after %s the next instruction is taken where a jump is due' % kind)
            return ('state', ('', None, False))
        return None


class C04(FlowCheck):
    explanation = (
        'Typestate by property simulation. Compile: every placeholder jump must be registered in the list of its block or '
        'test list (or be the one noted as the start of the block entered next, of the right kind); when a block or test '
        'list ends, on every path each registered jump, the skipping instruction and the jump back to the start of a loop '
        'get the position behind the last instruction, the enclosing block is resumed, and elsif/else are accepted only '
        'directly after if/elsif; a script is accepted only with no block open. Run: each kind of jump is taken exactly on '
        'the outcome it stands for.')

    def check(self, F):
        res = self.result()
        root = F.fn('Compiler::compile').id
        r = JumpRule(root)
        self.simulate(F, r, [root], S0, res)
        for b, line, n in shuffles(F, root):
            res.bad('instructions moved', b.file, line, '%s: %s on the compiled instructions' % (b.canon, n))
        for k in sorted(set(OPENER) - r.closed):
            res.bad('unseen ' + k, 'src/compiler/grammar/instruction.rs', 0, 'the end of a %s block was not found' % k)
        part = self.result()
        loops(F, self, part)
        for key, v in part.violations.items():
            if key.split()[0] in ('start', 'target', 'innermost', 'order', 'label'):
                res.violations[key] = v
        q = ExecRule()
        self.simulate(F, q, [F.fn('Context::run').id], ('', None, False), res)
        for k in sorted(set(q.WHEN) - q.seen):
            res.bad('unseen jump ' + k, 'src/runtime/context.rs', 0, 'the jump of %s was not found' % k)
        res.ob(len(OPENER) + len(q.WHEN) + len(r.resolved), not res.violations)
        res.analysed['places where a jump gets its target'] = len(r.resolved)
        res.analysed['kinds of blocks'] = len(r.closed)
        res.samples.append('blocks: %s; jumps: %s' % (', '.join(sorted(r.closed)), ', '.join(sorted(q.seen))))
        return res
