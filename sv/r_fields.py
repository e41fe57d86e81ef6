"""C13: every argument of a command or test ends up in its own field."""
import multiprocessing
import os
from base import FlowCheck, Result, bodies_touching, Rule
from engine import leaf, contains, ok, UNIT
from r_args import TAG, NEXT, IDENT, GROUPS
from r_words import words
from r_req import calls_in, vec_call

TAGARG, POSARG = 'argument of the tag', 'positional argument'
MT = 'Contains Count Is List Matches Regex Value'
FCC = {'Fcc': 'FileCarbonCopy.mailbox', 'Create': 'FileCarbonCopy.create', 'Flags': 'FileCarbonCopy.flags',
       'MailboxId': 'FileCarbonCopy.mailbox_id', 'SpecialUse': 'FileCarbonCopy.special_use'}
MATCHL = dict({w: 'match_type' for w in MT.split()}, Comparator='comparator')
MATCH = {w: f for w, f in MATCHL.items() if w != 'List'}
INDEX = {'Index': 'index', 'Last': 'index'}
BYTIME = {'ByTimeRelative': 'ByTime::Relative.rlimit', 'ByTimeAbsolute': 'ByTime::Absolute.alimit',
          'ByMode': 'mode', 'ByTrace': 'trace'}
MIMEOPT = {'Type': 'mime_opts', 'Subtype': 'mime_opts', 'ContentType': 'mime_opts', 'Param': 'mime_opts'}
PART = {w: 'address_part' for w in 'All Detail Domain LocalPart Name User'.split()}
MODS = {w: 'modifiers' for w in 'Lower Upper LowerFirst UpperFirst QuoteWildcard QuoteRegex EncodeUrl Length Replace'.split()}


def d(*args, **kw):
    out = {}
    for a in args:
        out.update(a)
    out.update(kw)
    return out


# struct -> (field of each tagged argument, fields of the positional arguments in their order; '?' = may be left out)
SPEC = {
    'FileInto': (dict(Copy='copy', Create='create', Flags='flags', MailboxId='mailbox_id', SpecialUse='special_use'), 'folder'),
    'Redirect': (d(BYTIME, Copy='copy', List='list', Notify='notify', Ret='return_of_content'), 'address'),
    'Replace': (dict(Mime='mime', Subject='subject', From='from'), 'replacement'),
    'Enclose': (dict(Subject='subject', Headers='headers'), 'value'),
    'ExtractText': (d({'Local': ''}, {k: v for k, v in MODS.items() if k != 'EncodeUrl'}, First='first'), 'name'),
    'AddHeader': (dict(Last='last'), 'field_name value'),
    'DeleteHeader': (d(MATCH, INDEX, AnyChild='mime_anychild'), 'field_name value_patterns?'),
    'Set': (d(MODS, Local=''), 'name value'),
    'Let': ({}, 'name expr'),
    'Notify': (d(FCC, From='from', Message='message', Importance='importance', Options='options'), 'method'),
    'Vacation': (d(FCC, Subject='subject', From='from', Mime='mime'), 'reason'),
    'TestVacation': (dict(Days='period', Seconds='period', Handle='handle', Addresses='addresses'), 'reason'),
    'Include': (dict(Once='once', Optional='optional', Global='location', Personal='location'), 'value'),
    'Reject': ({}, 'reason'),
    'Keep': (dict(Flags='flags'), ''),
    'EditFlags': ({}, 'name? flags'),
    'Convert': ({}, 'from_media_type to_media_type transcoding_params'),
    'TestAddress': (d(MATCHL, INDEX, PART, AnyChild='mime_anychild'), 'header_list key_list'),
    'TestEnvelope': (d(MATCHL, {k: v for k, v in PART.items() if k != 'Name'}, Zone='zone'), 'envelope_list key_list'),
    'TestExists': (dict(AnyChild='mime_anychild'), 'header_names'),
    'TestHeader': (d(MATCHL, INDEX, MIMEOPT, AnyChild='mime_anychild'), 'header_list key_list'),
    'TestBody': (d(MATCH, Raw='body_transform', Text='body_transform', Content='body_transform', Subject='include_subject'),
                 'key_list'),
    'TestDate': (d(MATCHL, INDEX, Zone='zone', OriginalZone='zone', AnyChild='mime_anychild'), 'header_name date_part~ key_list'),
    'TestCurrentDate': (d(MATCHL, Zone='zone'), 'date_part~ key_list'),
    'TestDuplicate': (dict(Handle='handle', Header='dup_match', UniqueId='dup_match', Seconds='seconds', Last='last'), ''),
    'TestString': (MATCHL, 'source~ key_list'),
    'TestNotifyMethodCapability': (MATCH, 'notification_uri notification_capability key_list'),
    'TestValidNotifyMethod': ({}, 'notification_uris'),
    'TestValidExtList': ({}, 'list_names'),
    'TestHasFlag': (d(MATCH, Local=''), 'variable_list? flags'),
    'TestMailboxExists': ({}, 'mailbox_names'),
    'TestMailboxIdExists': ({}, 'mailbox_ids'),
    'TestMetadata': (MATCH, 'medatata* key_list'),
    'TestMetadataExists': ({}, 'mailbox? annotation_names'),
    'TestSpecialUseExists': ({}, 'mailbox? attributes'),
    'TestSpamTest': (d(MATCH, Percent='percent'), 'value'),
    'TestVirusTest': (MATCH, 'value'),
}
# variant that a tag makes of its field where its name is not the tag's own
NAMED = {('zone', 'OriginalZone'): 'Original', ('zone', 'Zone'): 'Time', ('TestEnvelope.zone', 'Zone'): None,
         ('TestCurrentDate.zone', 'Zone'): None}
CHOICES = ('match_type', 'mime_opts', 'address_part', 'location', 'body_transform', 'zone', 'dup_match', 'period')


def reader(F, t):
    """does a function that takes a t read tokens?"""
    while t and t[0] in ('ref', 'ptr'):
        t = t[2]
    return bool(t) and t[0] == 'adt' and F.short(t[1]).rsplit('::', 1)[-1] in ('CompilerState', 'Tokenizer')


def owns(F, t, name):
    return bool(t) and t[0] == 'adt' and (F.short(t[1]) == name or any(owns(F, x, name) for x in t[2]))


def fillers(F):
    """functions that read an argument into something of their caller's."""
    def gives(b):
        r = b.locals[0][0]
        return b.argc and reader(F, b.locals[1][0]) and r and r[0] == 'adt' and r[1] == 'std::result::Result' \
            and r[2][0] != ['tuple', []] and not owns(F, r, 'TokenInfo')
    out = set()
    for b in F.all_fns():
        r = b.locals[0][0]
        if b.kind == 'fn' and b.argc > 1 and r and r[0] == 'adt' and r[1] == 'std::result::Result' and r[2][0] == ['tuple', []] \
                and reader(F, b.locals[1][0]) and any(t[0][0] == 'ref' and t[0][1] for t in b.locals[2:b.argc + 1]) \
                and any(gives(F.bodies[x]) for x in F.calls.get(b.id, ()) if x in F.bodies):
            out.add(b.id)
    return out


def groups(s):
    """groups of tags of a structure that exclude each other."""
    n = s[4:] if s.startswith('Test') and s != 'TestVacation' else s.replace('Test', '')
    gs = [set(g.split()) for g in GROUPS.get(n, '').split(' | ')]
    return gs + [{t} for t in sorted(SPEC[s][0]) if not any(t in g for g in gs)]


class FieldRule(Rule):
    """state: (bits: the tag of this run was given, the one that goes with it was given, it was given before; tag whose argument comes next, positional arguments so far)"""

    def __init__(self, F, s, tag, comp, bodies):
        self.s = s
        self.tag = tag
        self.comp = comp
        self.tags, pos = SPEC[s]
        self.pos = pos.split()
        self.bodies = bodies
        self.seen = set()
        self.vague = set()
        self.others = set()
        for g in groups(s):
            for t in (tag, comp):
                if t in g:
                    self.others |= g - {t}

    def relevant(self, F):
        return self.bodies

    def carry(self, k, v):
        return k[0] == 'discr' and leaf(k[1]) == TAG

    def on_branch(self, E, c, m, st, cond, val, line):
        seen, pend, n, word = st
        if cond[0] == 'call' and cond[1].rsplit('::', 1)[-1] in ('eq_ignore_ascii_case', 'eq', 'ne') and val in (0, 1):
            said = [y[1] for y in cond[2] if y[0] == 's']
            now = pend[0] if isinstance(pend, tuple) else pend
            if said and now == self.tag and now in SAID and (val == 1) != cond[1].endswith('ne'):
                return seen, pend, n, text(said[0])
            for x, y in (cond[2], cond[2][::-1]) if len(cond[2]) == 2 else ():
                if leaf(x) == TAG and y[0] == 'v' and y[1] == 'Word':
                    w = E.F.discr_of('Word', y[2])
                    val = w if (val == 1) != cond[1].endswith('ne') else ('not', frozenset([w]))
                    cond = ('discr', x)
                    break
            else:
                return st
        if cond[0] != 'discr':
            return st
        if leaf(cond[1]) == TAG:
            w = E.F.variant_by_discr('Word', val) if isinstance(val, int) else None
            live = pend if isinstance(pend, str) else None      # the tag of this very token
            if live is not None:
                if w is not None:
                    return st if w == live else None
                return None if E.F.discr_of('Word', live) in val[1] else st
            if w is None:
                return seen, None, n, word
            if w in self.others:
                return None
            return (seen | (1 | (seen & 2) << 1 if w == self.tag and not seen & 1 else 2 if w == self.comp else 0), w, n, word)
        if E.adt_of.get(cond[1]) == 'lexer::Token':
            t = E.F.discr_of('lexer::Token', 'Tag')
            if val != t and (isinstance(val, int) or t in val[1]):
                return seen, None, n, word
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        seen, pend, n, word = st
        tag = pend[0] if isinstance(pend, tuple) else pend
        lid = E.F.callee(k)[0] if 'fn' in k else None
        if name == NEXT or lid and E.F.bodies[lid].argc and reader(E.F, E.F.bodies[lid].locals[1][0]) \
                and owns(E.F, E.F.bodies[lid].locals[0][0], 'TokenInfo'):
            return ('state', (seen, (pend,) if isinstance(pend, str) else pend, n, word))
        meth = name.rsplit('::', 1)[-1]
        if 'fn' in k and tag is not None and vec_call(E.F, name, k, 'Modifier') not in (None, 'contains'):
            for a in args:
                a = E.read(m, a) if a[0] == 'loc' else a
                a = a[3][0][1] if a[0] == 'v' and a[1:3] == ('Option', 'Some') else a
                if a[0] == 'v' and a[1] == 'Modifier':
                    self.seen.add(('modifiers', tag))
                    if a[2] != tag:
                        E.report('wrong modifier %s' % tag, c.bid, line, ':%s adds the modifier %s' % (tag, a[2]))
            return None
        if self.tag == 'Notify' and meth == 'push' and len(args) == 2 and args[1][0] == 'v' and args[1][1] == 'NotifyItem' and word \
                and args[1][2].lower() != word:
            E.report('wrong item %s' % word, c.bid, line, '"%s" makes NotifyItem::%s' % (word, args[1][2]))
        if lid is None or lid in self.bodies:
            return None
        b = E.F.bodies[lid]
        ret = b.locals[0][0]
        if b.kind != 'fn' or not b.argc or not ret or ret[0] != 'adt' or ret[1] != 'std::result::Result':
            return None
        if ret[2][0] == ['tuple', []]:
            return [(st, ok(UNIT))]
        own = b.locals[1][0]
        if not reader(E.F, own):
            return None
        if self.tag == 'Local':
            ops = b_ops(E, c)
            for i, a in enumerate(args):
                if b.locals[i + 1][0] == ['prim', 'bool'] and i < len(ops) and ops[i][0] != 'k' and a[0] == 'i':
                    self.seen.add(('', 'Local', seen & 1))
                    if a[1] != seen & 1:
                        E.report('local of %s' % self.s, c.bid, line, '%s %s :local: its variable is %s' % (
                            self.s, 'with' if seen & 1 else 'without', 'local' if a[1] else 'not local'))
        if tag is not None:
            return [(st, ok(('call', TAGARG, (('s', tag),), None)))]
        n = min(n + 1, 5)
        return [((seen, None, n, word), ok(('call', POSARG, (('i', n),), None)))]

    # -------------------------------------------------------------- obligations
    def on_agg(self, E, c, m, st, v, line):
        own = v[2] == self.s and v[1].rsplit('::', 1)[-1] == self.s
        vals = {}
        for f, x in v[3]:
            for key in ((f,) if own else ('%s.%s' % (v[1], f), '%s::%s.%s' % (v[1], v[2], f)) + (
                    (f,) if v[1] == 'ByTime' else ())):
                vals[key] = x
        for f, x in vals.items():
            tags = {t for t, g in self.tags.items() if g == f}
            pos = [p for p in self.pos if p.strip('?~*') == f]
            if own and f in OUTER:
                tags = {t for t, g in self.tags.items() if t in OUTER[f]}
            if tags or pos or own:
                for l in labels(x):
                    if l[0] == 's' and l[1] not in tags or l[0] == 'i' and not pos:
                        E.report('wrong %s of %s' % (f, self.s), c.bid, line, '%s of %s is made from %s' % (
                            f, self.s, 'the argument of :%s' % l[1] if l[0] == 's' else 'a positional argument'))
            for i, t in enumerate((self.tag, self.comp)):
                if t in tags and not (own and f in OUTER and t not in CARRIES):
                    self.one(E, c, st, f, x, line, t, st[0] >> i & 1)
        if own:
            self.order(E, c, self.pos, vals, line)
        elif (v[1], v[2]) in NESTED:
            self.order(E, c, NESTED[v[1], v[2]].split(), dict(v[3]), line)
        return st

    def one(self, E, c, st, f, x, line, T, seen):
        def bad(why):
            E.report('%s of %s' % (f, self.s), c.bid, line, '%s %s :%s: %s' % (self.s, 'with' if seen else 'without', T, why))
        if f == 'modifiers':
            return
        choice = x[0] == 'v' and x[1] != 'Option' and (f in CHOICES or f in ENUMS)
        got = ('s', T) in labels(x)
        if vague(x) and not choice and not got:
            self.vague.add((f, T, seen))
            return
        self.seen.add((f, T, seen))
        if f == 'index':
            if T == 'Index' and seen and not got:
                bad('the index is lost')
            elif T == 'Index' == self.tag and seen and self.comp == 'Last' and negated(x) != (bool(st[0] & 2)):
                bad('the index counts from the %s' % ('start' if bool(st[0] & 2) else 'end'))
        elif x[0] == 'i' and not got and T not in VALUED:
            if x[1] != seen:
                bad('%s is %s' % (f, bool(x[1])))
        elif choice and f in CHOICES:
            want = NAMED.get((f, T), T)
            if seen and x[2] != want:
                bad('%s is %s' % (f, x[2]))
            elif seen and T in VALUED and not got and not vague(x):
                bad('the argument of :%s is lost' % T)
            elif not seen and x[2] == want and want != DEFAULT.get(f):
                bad('%s is %s' % (f, x[2]))
        elif choice:
            if (x[2] == 'Default') == bool(seen):
                bad('%s is %s' % (f, x[2]))
            elif seen and T == self.tag and st[3] and x[2].lower() != {w: 'items' for w in ITEMS}.get(st[3], st[3]):
                bad('"%s" is taken for %s' % (st[3], x[2]))
        elif seen and not got:
            bad('the argument of :%s is lost' % T)

    def order(self, E, c, fields, vals, line):
        last = 0
        for p in fields:
            f = p.strip('?~*')
            x = vals.get(f)
            if x is None:
                E.report('unseen %s' % f, c.bid, line, '%s has no field %s' % (self.s, f))
                continue
            got = {l[1] for l in labels(x) if l[0] == 'i'}
            if not got:
                if vague(x) or p.endswith('~'):
                    self.vague.add((f, ''))
                elif not p.endswith('?'):
                    E.report('%s of %s lost' % (f, self.s), c.bid, line, '%s of %s is not made from its argument' % (f, self.s))
                continue
            self.seen.add((f, ''))
            if len(got) > 1 and not p.endswith('*') and not vague(x) and max(got) < 5:
                E.report('order %s of %s' % (f, self.s), c.bid, line, '%s of %s is made from several arguments' % (f, self.s))
            if min(got) <= last < 5:
                E.report('order %s of %s' % (f, self.s), c.bid, line,
                         '%s of %s is made from argument %d, not from a later one' % (f, self.s, min(got)))
            last = max(got)


NESTED = {('Metadata', 'Mailbox'): 'name annotation', ('Metadata', 'Server'): 'annotation'}
OUTER = {'fcc': FCC, 'by_time': BYTIME}
CARRIES = ('Fcc', 'ByTimeRelative', 'ByTimeAbsolute')
VALUED = ('Days', 'Seconds', 'Handle', 'Header', 'UniqueId', 'Zone', 'Param', 'Content')
ENUMS = ('notify', 'return_of_content', 'mode')
SAID = ('Notify', 'Ret', 'ByMode')
ITEMS = ('success', 'failure', 'delay')
DEFAULT = {'match_type': 'Is', 'address_part': 'All', 'location': 'Personal', 'body_transform': 'Text'}


def b_ops(E, c):
    t = E.F.bodies[c.bid].blocks[E.cur]['t']
    return t[2] if t[0] == 'call' else []


def text(x):
    return (x.decode() if isinstance(x, bytes) else x).strip('"').lower()


def labels(x):
    return {y[2][0] for y in calls_in(x) if y[1] in (TAGARG, POSARG)}


def vague(x):
    if not isinstance(x, tuple) or not x:
        return False
    return x[0] in ('ph', 'r', 'u', 'hv', 'loc', 'ld', 'old') or any(vague(y) for y in x)


def negated(x):
    if not isinstance(x, tuple) or not x:
        return False
    if x[0] == 'un' and x[1] == 'Neg' or x[0] == 'call' and x[1].endswith('_neg') or x[0] == 'bin' and (
            x[1].startswith('Sub') and x[2] == ('i', 0) or x[1].startswith('Mul') and ('i', -1) in x[2:]):
        return True
    return any(negated(y) for y in x)


# what each command or test word makes
TESTS = {w: w for w in 'Address Envelope Exists Header Size Body Convert Date CurrentDate Duplicate String Environment Ihave '
         'NotifyMethodCapability ValidNotifyMethod ValidExtList HasFlag MailboxExists Metadata MetadataExists MailboxIdExists '
         'SpamTest VirusTest SpecialUseExists Vacation'.split()}
TESTS.update(ServerMetadata='Metadata', ServerMetadataExists='MetadataExists')
COMMANDS = {w: w for w in 'Keep FileInto Redirect Discard Stop Replace Enclose ExtractText Convert AddHeader DeleteHeader Set '
            'Notify Reject Vacation Error Include Return Let'.split()}
COMMANDS.update(Ereject='Reject', SetFlag='EditFlags', AddFlag='EditFlags', RemoveFlag='EditFlags')
# what tells words apart that make the same
PARTS = {('Reject', 'ereject'): {'Reject': 0, 'Ereject': 1},
         ('EditFlags', 'action'): {'SetFlag': 'Set', 'AddFlag': 'Add', 'RemoveFlag': 'Remove'},
         ('TestMetadataExists', 'mailbox'): {'MetadataExists': 'Some', 'ServerMetadataExists': 'None'}}
ONLY = {('Metadata', 'Server'): {'ServerMetadata'}, ('Metadata', 'Mailbox'): {'Metadata'}}


class DispatchRule(Rule):
    """state: the command or test being compiled"""

    def __init__(self, bodies):
        self.bodies = bodies
        self.seen = set()

    def relevant(self, F):
        return self.bodies

    def carry(self, k, v):
        return k[0] == 'discr' and leaf(k[1]) == IDENT

    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'discr' and leaf(cond[1]) == IDENT:
            w = E.F.variant_by_discr('Word', val) if isinstance(val, int) else None
            if w is not None:
                return (w,)
        return st

    def on_agg(self, E, c, m, st, v, line):
        w = st[0]
        for adt, table in (('Instruction', COMMANDS), ('Test', TESTS)):
            if v[1] == adt and v[2] in table.values():
                self.seen.add((adt, w, v[2]))
                if table.get(w) != v[2]:
                    E.report('%s makes %s' % (w, v[2]), c.bid, line, '%s is compiled to %s::%s' % (w, adt, v[2]))
        if (v[1], v[2]) in ONLY and w not in ONLY[v[1], v[2]]:
            E.report('%s makes %s' % (w, v[2]), c.bid, line, '%s is compiled to %s::%s' % (w, v[1], v[2]))
        for f, x in v[3]:
            want = PARTS.get((v[1].rsplit('::', 1)[-1], f))
            if want and (x[0] == 'i' or x[0] == 'v'):
                got = x[1] if x[0] == 'i' else x[2]
                self.seen.add((v[2], f, w))
                if want.get(w) != got:
                    E.report('%s of %s' % (f, w), c.bid, line, '%s makes a %s with %s %s' % (w, v[2], f, got))
        return st


def one_run(job):
    s, root, tag, comp, bodies = job
    part = Result()
    r = FieldRule(FACTS, s, tag, comp, bodies)
    FlowCheck().simulate(FACTS, r, [root], (0, None, 0, ''), part)
    return r.seen, r.vague, part


def parallel(F, jobs):
    global FACTS
    FACTS = F
    n = min(8, os.cpu_count() or 1)
    if n > 1:
        try:
            with multiprocessing.get_context('fork').Pool(n) as pool:
                return pool.map(one_run, jobs, chunksize=4)
        except OSError:
            pass
    return [one_run(j) for j in jobs]


class C13(FlowCheck):
    explanation = (
        'Property simulation of the parser of every command and test, once for every pair of tagged arguments: what follows a tag is labelled '
        'with the tag, other arguments with their position; where the command\'s structure is made, each of its fields must '
        'be made from the argument that a table gives for it and from no other, flags must be set if and only if their tag '
        'was given, and a tag that chooses between variants must make the variant of its name. Every word of the tables of words must stand for the variant of its name.')

    def check(self, F):
        res = self.result()
        touch = bodies_touching(F, lambda k, n: (k == 'field' and n == TAG) or (k == 'discr' and n == 'Word'))
        touch |= fillers(F)
        todo, vag, done, jobs = 0, set(), 0, []
        for s, (tags, pos) in sorted(SPEC.items()):
            making = bodies_touching(F, lambda k, n: k == 'agg' and ('::' + n).endswith('::%s::%s' % (s, s)))
            roots = [b for b in making if not tags or F.reach([b]) & touch]
            if not roots:
                roots = [b for b in F.reach_back(making) if F.bodies[b].kind == 'fn' and F.reach([b]) & touch]
            roots = sorted(roots, key=lambda b: (len(F.reach([b])), b))
            if s not in ('Convert', 'TestString', 'TestMetadata', 'TestMetadataExists'):
                roots = roots[:1]
            if not roots:
                todo += 1
                res.bad('unseen %s' % s, '?', 0, 'no function makes a %s' % s)
            for root in roots:
                for tag in sorted(tags) or [None]:
                    # one tag of every other group goes with it
                    comps = [max(g, key=lambda t: (t == 'Last', t)) for g in groups(s) if tag and g and tag not in g]
                    if tag and tags[tag] == 'match_type' and tag != 'Is':
                        comps = comps[:2]
                    for comp in comps or [None]:
                        jobs.append((s, root, tag, comp, touch | making))
        got = {}
        for job, (seen, vagues, part) in zip(jobs, parallel(F, jobs)):
            s, root, tag = job[:3]
            todo += 1
            vag |= {(s,) + x for x in vagues}
            done += len(seen)
            got.setdefault((s, root, tag), set()).update(seen | vagues)
            res.functions = max(res.functions, part.functions)
            for k, n in part.analysed.items():
                res.analysed[k] = res.analysed.get(k, 0) + n
            for k, v in part.violations.items():
                res.violations.setdefault(k, v)
        for (s, root, tag), x in got.items():
            if tag and s != 'TestString' and not any(y[1] == tag and (len(y) == 2 or y[2]) for y in x):
                b = F.bodies[root]
                res.bad('unseen %s :%s' % (s, tag), b.file, b.line, ':%s of %s reaches no field' % (tag, s))
        root = F.fn('Compiler::compile')
        r = DispatchRule(bodies_touching(F, lambda k, n: (k == 'field' and n == IDENT) or (k == 'discr' and n == 'Word') or (
            k == 'agg' and (n.startswith(('Instruction::', 'Test::', 'Metadata::')) or ('::' + n).endswith(
                ('::Reject::Reject', '::EditFlags::EditFlags', '::TestMetadataExists::TestMetadataExists'))))))
        self.simulate(F, r, [root.id], ('',), res)
        need = [('Instruction', w, x) for w, x in COMMANDS.items()] + [
            ('Test', w, x) for w, x in TESTS.items()] + [(s, f, w) for (s, f), t in PARTS.items() for w in t]
        for x in need:
            if x not in r.seen:
                res.bad('unseen %s %s' % (x[1], x[2]), root.file, root.line, '%s %s is not seen to make %s' % x)
        todo += len(need)
        words(self, F, res, ['Word', 'RelationalMatch', 'Comparator'])
        res.ob(todo, not res.violations)
        res.samples.append('%d structures, %d pairs of tags and words; %d fields seen; beyond the analysis: %s' % (len(SPEC), todo, done, sorted(vag)))
        return res
