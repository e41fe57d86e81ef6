"""C02: a tagged argument is accepted at most once per command or test."""
from base import FlowCheck, bodies_touching, Rule
from engine import leaf, path_fields, contains, some, NONE

TAG = 'lexer::Token::Tag.0'
NEXT = 'tokenizer::Tokenizer as Iterator::next'
IDENT = 'lexer::Token::Identifier.0'
SLOTS = 'CompilerState.param_check'


def slot(v):
    """number of the duplicate-check slot a value denotes, or None."""
    while v[0] == 'p' and v[2] != SLOTS:
        v = v[1]
    if v[0] == 'old':
        v = v[1]
    if v[0] == 'idx' and leaf(v[1]) == SLOTS:
        return v[2][1] if v[2][0] == 'i' else '?'
    if v[0] == 'call' and v[1].rsplit('::', 1)[-1] in ('get_mut', 'get', 'index_mut', 'index') and v[2] \
            and leaf(v[2][0]) == SLOTS:
        return v[2][1][1] if v[2][1][0] == 'i' else '?'
    return None


class ArgRule(Rule):
    """state: (command, tag under way, slots it claimed, freshness of the slots)."""

    def __init__(self, root):
        self.root = root
        self.n = None
        self.rec = {}
        self.where = {}

    def relevant(self, F):
        return bodies_touching(F, lambda k, n: n == NEXT or (k == 'field' and n in (TAG, IDENT, SLOTS)))

    def carry(self, k, v):
        return k[0] == 'discr' and leaf(k[1]) in (TAG, IDENT)

    def close(self, st):
        ctx, tag, got, _, loc = st
        if tag is not None:
            self.rec.setdefault((ctx, tag), set()).add(got)
            self.where.setdefault((ctx, tag), loc)

    def on_branch(self, E, c, m, st, cond, val, line):
        ctx, tag, got, fresh, loc = st
        if cond[0] == 'discr' and leaf(cond[1]) in (TAG, IDENT):
            l = leaf(cond[1])
            w = E.F.variant_by_discr('Word', val) if isinstance(val, int) else None
            if tag is not None and l == TAG:
                if w is not None:
                    return st if w == tag else None
                return None if E.F.discr_of('Word', tag) in val[1] else st
            if w is None:
                return st
            if l == TAG:
                return (ctx, w, frozenset(), fresh, (c.bid, line))
            if w == ctx and tag is None:
                return st
            self.close(st)
            return (w, None, frozenset(), 'stale' if fresh == 'own' else fresh, None)
        s = slot(cond)
        if s is not None and val == 0 and tag is not None:
            if fresh == 'stale':
                E.report('stale %s' % ctx, c.bid, line,
                         'arguments of %s are checked against those of an earlier command' % ctx)
            return (ctx, tag, got | {('free', s)}, fresh, loc)
        return st

    def on_store(self, E, c, m, st, loc, v, line):
        ctx, tag, got, fresh, l0 = st
        if leaf(loc) == SLOTS and loc[0] == 'p':
            return (ctx, tag, got, 'clean', l0)
        s = slot(loc)
        if s is not None and v == ('i', 1) and tag is not None:
            if ('free', s) in got:
                got = (got - {('free', s)}) | {s}
            return (ctx, tag, got, 'own', l0)
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        if name.rsplit('::', 1)[-1] in ('get_mut', 'get') and len(args) == 2 and leaf(args[0]) == SLOTS \
                and args[1][0] == 'i' and self.n is not None:
            # an array of known length and a constant index
            if 0 <= args[1][1] < self.n:
                return [(st, some(('idx', args[0], args[1])))]
            E.report('range %s :%s' % st[:2], c.bid, line,
                     ':%s of %s uses duplicate-check slot %d of %d' % (st[1], st[0], args[1][1], self.n))
            return [(st, NONE)]
        if name.rsplit('::', 1)[-1] in ('fill', 'clear') and args and leaf(args[0]) == SLOTS:
            return ('state', st[:3] + ('clean', st[4]))
        if name == NEXT and st[1] is not None:
            self.close(st)
            return ('state', (st[0], None, frozenset(), st[3], None))
        return None

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.root and v[0] == 'v' and v[2] == 'Ok':
            self.close(st)
        return st


# groups of mutually exclusive tagged arguments (one of each group at most)
GROUPS = {
    'AddHeader': 'Last',
    'Address': 'All Detail Domain LocalPart Name User | AnyChild | Comparator | Contains Count Is List Matches Regex Value | Index | Last | Mime',
    'Body': 'Comparator | Contains Count Is Matches Regex Value | Content Raw Text | Subject',
    'CurrentDate': 'Comparator | Contains Count Is List Matches Regex Value | Zone',
    'Date': 'AnyChild | Comparator | Contains Count Is List Matches Regex Value | Index | Last | Mime | OriginalZone Zone',
    'DeleteHeader': 'AnyChild | Comparator | Contains Count Is Matches Regex Value | Index | Last | Mime',
    'Duplicate': 'Handle | Header UniqueId | Last | Seconds',
    'Enclose': 'Headers | Subject',
    'Envelope': 'All Detail Domain LocalPart User | Comparator | Contains Count Is List Matches Regex Value | Zone',
    'Environment': 'Comparator | Contains Count Is Matches Regex Value',
    'Exists': 'AnyChild | Mime',
    'ExtractText': 'First',
    'FileInto': 'Copy | Create | Flags | MailboxId | SpecialUse',
    'HasFlag': 'Comparator | Contains Count Is Matches Regex Value',
    'Header': 'AnyChild | Comparator | Contains Count Is List Matches Regex Value | ContentType Param Subtype Type | Index | Last | Mime',
    'Include': 'Global Personal | Once | Optional',
    'Metadata': 'Comparator | Contains Count Is Matches Regex Value',
    'Notify': 'Create | Fcc | Flags | From | Importance | MailboxId | Message | Options | SpecialUse',
    'NotifyMethodCapability': 'Comparator | Contains Count Is Matches Regex Value',
    'Redirect': 'ByMode | ByTimeAbsolute ByTimeRelative | ByTrace | Copy | List | Notify | Ret',
    'Replace': 'From | Mime | Subject',
    'ServerMetadata': 'Comparator | Contains Count Is Matches Regex Value',
    'SpamTest': 'Comparator | Contains Count Is Matches Regex Value | Percent',
    'String': 'Comparator | Contains Count Is List Matches Regex Value',
    'Vacation': 'Addresses | Create | Days Seconds | Fcc | Flags | From | Handle | MailboxId | Mime | SpecialUse | Subject',
    'VirusTest': 'Comparator | Contains Count Is Matches Regex Value',
}


class C02(FlowCheck):
    explanation = (
        'Property simulation of Compiler::compile: between the reading of a tagged argument and the next token the '
        'compiler must have found the argument\'s duplicate-check slot free and taken it, the slots being cleared '
        'between two commands; tags that exclude each other must share a slot, all others must not. Oracle: table of '
        'tag groups per command, from the RFCs\' syntax.')

    def check(self, F):
        res = self.result()
        root = F.fn('Compiler::compile').id
        r = ArgRule(root)
        for v in F.adt('CompilerState')['variants']:
            for f in v['fields']:
                if f[0] == SLOTS.split('.')[1] and f[1][0] == 'array' and len(f[1]) > 2:
                    r.n = f[1][2]
        self.simulate(F, r, [root], (None, None, frozenset(), 'clean', None), res)
        self.r = r
        n = 0
        for ctx, g in sorted(GROUPS.items()):
            owner = {}
            for grp in g.split(' | '):
                num = {}
                for tag in grp.split():
                    n += 1
                    rec = r.rec.get((ctx, tag))
                    what = '%s :%s' % (ctx, tag)
                    if not rec:
                        res.bad('unseen ' + what, 'src/compiler/grammar', 0, 'the compiler no longer tells %s apart' % what)
                        res.ob(1, False)
                        continue
                    fn, line = r.where[(ctx, tag)]
                    b = F.bodies[fn]
                    nums = set()
                    good = True
                    for got in rec:
                        s = [x for x in got if isinstance(x, int)]
                        if not s:
                            res.bad('repeat ' + what, b.file, line, '%s: %s may be given any number of times' % (b.canon, what))
                            good = False
                        nums |= set(s)
                    for k in nums:
                        num[k] = tag
                        if k in owner:
                            res.bad('clash ' + what, b.file, line, '%s: %s is refused together with :%s' % (b.canon, what, owner[k]))
                            good = False
                    res.ob(1, good)
                    res.samples.append('%s: slot %s' % (what, sorted(nums)))
                if len(num) > 1:
                    fn, line = r.where[(ctx, grp.split()[0])]
                    res.bad('both %s %s' % (ctx, grp), F.bodies[fn].file, line,
                            '%s accepts %s together' % (ctx, ' and '.join(':' + x for x in sorted(num.values()))))
                for k in num:
                    owner[k] = num[k]
        res.analysed['tagged arguments'] = n
        return res
