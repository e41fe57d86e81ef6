"""C01: extension features compile only when their capability is declared."""
from r_words import words
from base import FlowCheck, bodies_touching, Rule
from engine import leaf, contains

TAG = 'lexer::Token::Tag.0'
NEXT = 'tokenizer::Tokenizer as Iterator::next'
IDENT = 'lexer::Token::Identifier.0'
CAPS = 'instruction::Block.capabilities'
NOCHECK = 'Compiler.no_capability_check'

# command / test -> capabilities (RFC that introduces it)
COMMANDS = {
    'FileInto': ['FileInto'],                      # 5228
    'Envelope': ['Envelope'],                      # 5228
    'ForEveryPart': ['ForEveryPart'],              # 5703
    'Replace': ['Replace'], 'Enclose': ['Enclose'], 'ExtractText': ['ExtractText'],
    'Convert': ['Convert'],                        # 6558
    'AddHeader': ['EditHeader'], 'DeleteHeader': ['EditHeader'],   # 5293
    'Set': ['Variables'], 'String': ['Variables'],                 # 5229
    'Notify': ['Enotify'], 'ValidNotifyMethod': ['Enotify'], 'NotifyMethodCapability': ['Enotify'],  # 5435
    'Reject': ['Reject'], 'Ereject': ['Ereject'],  # 5429
    'Vacation': ['Vacation'],                      # 5230
    'Ihave': ['Ihave'], 'Error': ['Ihave'],        # 5463
    'SetFlag': ['Imap4Flags'], 'AddFlag': ['Imap4Flags'], 'RemoveFlag': ['Imap4Flags'], 'HasFlag': ['Imap4Flags'],  # 5232
    'Include': ['Include'], 'Return': ['Include'], 'Global': ['Include', 'Variables'],   # 6609
    'Body': ['Body'],                              # 5173
    'Date': ['Date'], 'CurrentDate': ['Date'],     # 5260
    'Duplicate': ['Duplicate'],                    # 7352
    'Environment': ['Environment'],                # 5183
    'MailboxExists': ['Mailbox'],                  # 5490
    'Metadata': ['MboxMetadata'], 'MetadataExists': ['MboxMetadata'],
    'ServerMetadata': ['ServerMetadata'], 'ServerMetadataExists': ['ServerMetadata'],
    'MailboxIdExists': ['MailboxId'],              # 9042
    'SpecialUseExists': ['SpecialUse'],            # 8579
    'SpamTest': ['SpamTest'], 'VirusTest': ['VirusTest'],   # 5235
    'ValidExtList': ['ExtLists'],                  # 6134
    'While': ['While'], 'Continue': ['While'],     # vendor
    'Let': ['Expressions'], 'Eval': ['Expressions'],
}

MATCHING = ['Address', 'Body', 'CurrentDate', 'Date', 'DeleteHeader', 'Envelope', 'Environment', 'HasFlag', 'Header',
            'Metadata', 'NotifyMethodCapability', 'ServerMetadata', 'SpamTest', 'String', 'VirusTest']
TAGS = {}
for _c in MATCHING:
    TAGS[(_c, 'Value')] = TAGS[(_c, 'Count')] = 'Relational'     # 5231
    TAGS[(_c, 'Regex')] = 'Regex'
for _c in ['Address', 'CurrentDate', 'Date', 'Envelope', 'Header', 'String']:
    TAGS[(_c, 'List')] = 'ExtLists'                              # 6134
for _c in ['Address', 'Date', 'DeleteHeader', 'Exists', 'Header']:
    TAGS[(_c, 'Mime')] = TAGS[(_c, 'AnyChild')] = 'Mime'         # 5703
for _c in ['Type', 'Subtype', 'ContentType', 'Param']:
    TAGS[('Header', _c)] = 'Mime'
for _c in ['Address', 'Date', 'Header']:
    TAGS[(_c, 'Index')] = TAGS[(_c, 'Last')] = 'Index'           # 5260
for _c in ['Address', 'Envelope']:
    TAGS[(_c, 'Detail')] = TAGS[(_c, 'User')] = 'SubAddress'     # 5233
for _c in ['FileInto', 'Notify', 'Vacation']:
    TAGS[(_c, 'Create')] = 'Mailbox'                             # 5490
    TAGS[(_c, 'SpecialUse')] = 'SpecialUse'                      # 8579
    TAGS[(_c, 'MailboxId')] = 'MailboxId'                        # 9042
    TAGS[(_c, 'Flags')] = 'Imap4Flags'                           # 5232
TAGS[('Keep', 'Flags')] = 'Imap4Flags'
for _c in ['Notify', 'Vacation']:
    TAGS[(_c, 'Fcc')] = 'Fcc'                                    # 8580
for _c in ['FileInto', 'Redirect']:
    TAGS[(_c, 'Copy')] = 'Copy'                                  # 3894
TAGS[('Vacation', 'Seconds')] = 'VacationSeconds'                # 6131
TAGS[('SpamTest', 'Percent')] = 'SpamTestPlus'                   # 5235
TAGS[('Redirect', 'List')] = 'ExtLists'
TAGS[('Redirect', 'Notify')] = TAGS[('Redirect', 'Ret')] = 'RedirectDsn'      # 6009
for _c in ['ByMode', 'ByTrace', 'ByTimeAbsolute', 'ByTimeRelative']:
    TAGS[('Redirect', _c)] = 'RedirectDeliverBy'
TAGS[('Set', 'EncodeUrl')] = 'Enotify'                           # 5435 section 6
TAGS[('Set', 'QuoteRegex')] = TAGS[('ExtractText', 'QuoteRegex')] = 'Regex'
TAGS[('Envelope', 'Zone')] = 'EnvelopeDeliverBy'                 # 6009

# accepted by some versions of the grammar only: an obligation where they are
OPTIONAL = {('ExtractText', 'EncodeUrl'): 'Enotify'}
for _c in MATCHING:
    OPTIONAL.setdefault((_c, 'List'), 'ExtLists')

# envelope parts
PARTS = {p: 'EnvelopeDeliverBy' for p in ('ByTimeAbsolute', 'ByTimeRelative', 'ByMode', 'ByTrace')}
PARTS.update({p: 'EnvelopeDsn' for p in ('Notify', 'Orcpt', 'Ret', 'Envid')})


# methods that make a set larger; capabilities another one implies (RFC 5235)
GROW = ('insert', 'replace', 'extend', 'get_or_insert', 'get_or_insert_with', 'append')
IMPLIED = ('SpamTest',)


class CapRule(Rule):
    def __init__(self, root):
        self.root = root
        self.seen = set()
        self.done = set()
        self.grown = 0

    def relevant(self, F):
        return bodies_touching(F, lambda k, n: n == NEXT or (k == 'field' and n in (TAG, IDENT, CAPS, NOCHECK)))

    def carry(self, k, v):
        return k[0] == 'discr' and leaf(k[1]) in (TAG, IDENT)

    def pending(self, E, c, st, line):
        for cap, what, loc in st[2]:
            E.report('%s needs %s' % (what, cap), loc[0], loc[1],
                     '%s is accepted on a path that never finds capability %s among the declared ones' % (what, cap))

    def on_branch(self, E, c, m, st, cond, val, line):
        ctx, tag, pend = st
        if cond[0] == 'discr' and leaf(cond[1]) in (TAG, IDENT):
            l = leaf(cond[1])
            w = E.F.variant_by_discr('Word', val) if isinstance(val, int) else None
            if tag is not None and tag[0] == l and l == TAG:
                # the tag that was looked at before is looked at again
                if w is not None:
                    return st if w == tag[1] else None
                return None if E.F.discr_of('Word', tag[1]) in val[1] else st
            if w is None:
                return st
            if l == TAG:
                cap = TAGS.get((ctx, w)) or OPTIONAL.get((ctx, w))
                if cap:
                    what = '%s :%s' % (ctx, w)
                    self.seen.add(what)
                    return (ctx, (l, w), pend | {(cap, what, (c.bid, line))})
                return (ctx, (l, w), pend)
            self.pending(E, c, st, line)
            new = frozenset((cap, w, (c.bid, line)) for cap in COMMANDS.get(w, []))
            if new:
                self.seen.add(w)
            return (w, None, new)
        if cond[0] == 'discr' and ctx == 'Envelope' and isinstance(val, int) and E.adt_of.get(cond[1]) == 'Envelope':
            w = E.F.variant_by_discr('Envelope', val)
            if w in PARTS:
                what = 'Envelope part ' + w
                self.seen.add(what)
                return (ctx, tag, pend | {(PARTS[w], what, (c.bid, line))})
        if cond[0] == 'call' and cond[1].endswith('Set::contains') and val == 1 and leaf(cond[2][0]) == CAPS:
            cap = cond[2][1]
            if cap[0] == 'v':
                for x in pend:
                    if x[0] == cap[2]:
                        self.done.add((x[1], x[0]))
                return (ctx, tag, frozenset(x for x in pend if x[0] != cap[2]))
        if leaf(cond) == NOCHECK and val == 1:
            # the embedder switched capability checks off
            return (ctx, tag, frozenset())
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        if name == NEXT and len(st[2]) > 1:
            # several keywords later: nothing checks these any more
            self.pending(E, c, st, line)
            st = (st[0], st[1], frozenset())
            return ('state', (None, None, st[2]) if c.bid == self.root else (st[0], None, st[2]))
        if name == NEXT:
            if c.bid == self.root and st[0] is not None and not st[2]:
                return ('state', (None, None, frozenset()))
            if st[1] is not None:
                return ('state', (st[0], None, st[2]))
        if args and leaf(args[0]) == CAPS and name.rsplit('::', 1)[-1] in GROW and 'Set' in name or \
                args and leaf(args[0]) == CAPS and name.endswith('Extend::extend'):
            self.grown += 1
            if st[0] != 'Require':
                E.report('declared outside require', c.bid, line,
                         'capabilities are declared while %s is compiled' % (st[0] or 'no command'))
            elif leaf(args[0][1]) != 'CompilerState.block':
                E.report('declared in another block', c.bid, line,
                         'require declares its capabilities for another block than the one it is in')
            elif len(args) > 1 and args[1][0] == 'v' and args[1][2] not in IMPLIED:
                E.report('undeclared ' + args[1][2], c.bid, line,
                         'require declares %s, which the script did not name' % args[1][2])
        return None

    def on_agg(self, E, c, m, st, v, line):
        if v[1].endswith('Block'):
            caps = dict(v[3]).get(CAPS.rsplit('.', 1)[1])
            if caps is not None and not (caps[0] == 'call' and not caps[2]):
                E.report('block declares', c.bid, line,
                         'a block of the script does not start with an empty set of declared capabilities')
        return st

    def on_store(self, E, c, m, st, loc, v, line):
        if leaf(loc) == CAPS and not (v[0] == 'call' and not v[2]) and v[0] not in ('loc',):
            E.report('declared set replaced', c.bid, line, 'the capabilities declared in a block are replaced by others')
        return st

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.root and v[0] == 'v' and v[2] == 'Ok':
            self.pending(E, c, st, line)
        return st


class C01(FlowCheck):
    explanation = (
        'Property simulation of Compiler::compile over the type-checked MIR of every function it reaches: reading a '
        'command, test or tag keyword of an extension opens an obligation for the capability its RFC names; only the '
        'true edge of a membership test of that capability in the declared set of a block (or the embedder\'s switch) '
        'closes it; the next keyword and a successful return must find no open obligation; a text is looked up as the capability of its name. Obligation table: '
        'keyword/tag -> capability, from the RFCs.')

    def check(self, F):
        res = self.result()
        root = F.fn('Compiler::compile').id
        r = CapRule(root)
        self.simulate(F, r, [root], (None, None, frozenset()), res)
        want = set(COMMANDS) | {'%s :%s' % k for k in TAGS} | {'Envelope part ' + p for p in PARTS}
        if not r.grown:
            res.bad('unseen require', 'src/compiler/grammar/actions/action_require.rs', 0,
                    'no place where require declares a capability was found')
        for w in sorted(want - r.seen):
            res.bad('unseen ' + w, 'src/compiler/grammar', 0,
                    'the compiler no longer tells %s apart: its capability cannot be enforced' % w)
        for w in sorted(want):
            good = not any(k.startswith(w + ' needs') or k == 'unseen ' + w for k in res.violations)
            res.ob(1, good)
            cap = TAGS.get(tuple(w.split(' :'))) or COMMANDS.get(w) or PARTS.get(w[14:])
            res.samples.append('%s -> %s: %s' % (w, cap, 'every accepting path checks it' if good else 'open'))
        res.analysed['keywords and tags'] = len(want)
        words(self, F, res, ['Capability'])
        return res
