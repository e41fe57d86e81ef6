"""C11: nothing in a script is skipped, and what is open is closed."""
from collections import namedtuple
from base import FlowCheck, bodies_touching, Rule
from engine import leaf, contains, fields_in
from r_caps import NEXT, IDENT
from r_jumps import STACK, calls_in
from r_tests import TOKEN, TOK

ITER = 'tokenizer::Tokenizer.iter'
BUF = 'tokenizer::Tokenizer.buf'
STATE = 'tokenizer::Tokenizer.state'
LASTCH = 'tokenizer::Tokenizer.last_ch'
QUEUE = 'tokenizer::Tokenizer.next_token'
TAGFLAG = 'tokenizer::Tokenizer.token_is_tag'
SPACE = {9, 10, 13, 32}
PUNCT = {'{': 'CurlyOpen', '}': 'CurlyClose', ';': 'Semicolon', ',': 'Comma', '[': 'BracketOpen', ']': 'BracketClose',
         '(': 'ParenthesisOpen', ')': 'ParenthesisClose', ':': 'Colon'}
PUNCT = {ord(k): v for k, v in PUNCT.items()}
WORDS = ('Identifier', 'Tag', 'Number', 'Unknown')

# lex0: state in which the byte was read | lex: state now | role of the byte | ch, last: what is known of it and the one before
# push: characters kept since | same: the byte itself kept | word: pending word given out or none | queued: token kept for later
# kept: fields for what was read ahead, known empty | due: one of them is not
L = namedtuple('L', 'lex0 lex role ch last push same word tag queued eof esc kept due')
L0 = L(None, None, None, None, None, 0, False, None, False, None, False, False, frozenset(), None)


def known(x, n):
    """is the byte n (True), not n (False), unknown (None)?"""
    if isinstance(x, int):
        return x == n
    if isinstance(x, frozenset) and n in x:
        return False
    return None


def learn(x, val):
    if isinstance(val, int):
        return val if known(x, val) is not False and (not isinstance(x, int) or x == val) else 'no'
    if isinstance(x, int):
        return x if x not in val[1] else 'no'
    return (x or frozenset()) | val[1]


def tokens_in(v):
    out = []
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == 'v' and v[1] == TOK:
            out.append(v[2])
        for y in v:
            if isinstance(y, tuple):
                out += tokens_in(y)
    return out


def is_err(v):
    return v[0] == 'v' and v[2] == 'Some' and (lambda x: x[0] == 'v' and x[2] == 'Err')(dict(v[3])['0'])


class LexRule(Rule):
    opaque = ('CompilerState',)

    def __init__(self, root, ahead):
        self.root = root
        self.ahead = ahead
        self.ch = set()
        self.last = set()
        self.roles = set()

    def relevant(self, F):
        return {self.root} | bodies_touching(F, lambda k, n: k == 'field' and n in (BUF, STATE, ITER, QUEUE, LASTCH))

    def carry(self, k, v):
        return False

    # ------------------------------------------------------------ what may happen to a byte
    def settle(self, E, c, st, line, ret):
        """the byte at hand is done with: another is read, or `ret` is returned."""
        def bad(key, msg):
            E.report(key, c.bid, line, msg)
        if st.ch is None and st.role is None:
            return
        if st.eof or ret is not None and is_err(ret):
            return
        x, r = st.ch, st.role
        toks = tokens_in(ret) if ret is not None else []
        self.roles.add((st.lex0, r))
        if r == 'slash':
            if x != 42 or st.lex != 'BracketComment':
                bad('slash', 'a slash is skipped although no comment begins')
            elif st.word is None:
                bad('comment joins', 'a comment does not end the word before it')
            elif not st.esc:
                bad('comment star', 'the star that begins a comment may end it too')
            return
        if r == 'textline':
            if st.lex != 'MultiLine' or not (x in (9, 13, 32, 35, 10) or st.esc):
                bad('text line', 'something between text: and the end of its line is skipped')
            return
        if r == 'dot':
            if x == 10 and ret is not None or x == 13 and ret is None and st.push == 0:
                return
            if st.push < (1 if x == 46 else 2):
                bad('dot', 'a character after a leading dot of a multi-line string is lost')
            return
        if r == 'dotcr':
            if ret is None:
                bad('dotcr', 'the end of a multi-line string is passed over')
            return
        if st.lex0 == 'None':
            if st.word == 'gave' and not toks and ret is None:
                bad('word lost', 'a word of the script is lost')
            if st.same:
                return
            if x in SPACE:
                if st.word is None:
                    bad('joined', 'white space does not end a word')
            elif x == 34:
                if st.lex != 'QuotedString' or st.word is None:
                    bad('quote', 'a quote does not begin a string, or not after the word before it')
            elif x == 35:
                if st.lex != 'HashComment' or st.word is None:
                    bad('hash', 'a # does not begin a comment, or not after the word before it')
            elif x == 47 and ret is None:
                pass            # judged with the next byte
            elif x == 58 and ret is None:
                if not (st.tag or st.lex == 'MultiLine'):
                    bad('colon', 'a colon is skipped')
            elif isinstance(x, int) and x in PUNCT and ret is not None:
                # `toks` is empty where the word and the punctuation are joined in what is returned
                if st.word == 'gave':
                    if PUNCT[x] not in (st.queued or ()):
                        bad('token ' + chr(x), 'the character %s does not become the token it stands for' % chr(x))
                    elif toks and not set(toks) & set(WORDS):
                        bad('word lost', 'a word of the script is lost')
                elif PUNCT[x] not in toks:
                    bad('token ' + chr(x), 'the character %s does not become the token it stands for' % chr(x))
            else:
                bad('skipped', 'a character of the script is skipped%s' % (' (%s)' % chr(x) if isinstance(x, int) else ''))
        elif st.lex0 == 'QuotedString':
            if st.push == 0:
                if x == 34 and st.lex == 'None' and ret is not None:
                    if known(st.last, 92) is not False:
                        bad('quote escaped', 'an escaped quote ends a string')
                elif x == 92:
                    if known(st.last, 92) is not False:
                        bad('backslash', 'an escaped backslash of a string is lost')
                else:
                    bad('string', 'a character of a string is lost%s' % (' (%s)' % repr(chr(x)) if isinstance(x, int) else ''))
            elif x == 92 and not st.esc:
                bad('escape', 'an escaped backslash escapes the character after it')
        elif st.lex0 == 'MultiLine':
            if st.push == 0 and not (x == 46 and known(st.last, 10)):
                bad('multi-line', 'a character of a multi-line string is lost%s' % (' (%s)' % repr(chr(x)) if isinstance(x, int) else ''))
        elif ret is not None:
            bad('comment', 'a token is made of a comment')

    # ------------------------------------------------------------ hooks
    def which(self, v):
        if v in self.ch or v[0] == 'p' and v[2].endswith('Some.0') and v[1][0] == 'call' and v[1][2] and leaf(v[1][2][0]) == ITER and \
                v[1][1].rsplit('::', 1)[-1] == 'next':
            return 'ch'
        if v in self.last or leaf(v) == LASTCH:
            return 'last'
        return None

    def empty(self, cond, val):
        """(field, is it empty) for a branch that tells whether what was read ahead is."""
        x = cond
        if x[0] == 'discr':
            x, full = x[1], val == 1
        elif x[0] == 'call' and x[1].rsplit('::', 1)[-1] in ('is_empty', 'is_none'):
            full = val == 0
        elif x[0] == 'call' and x[1].rsplit('::', 1)[-1] == 'is_some':
            full = val == 1
        else:
            return None
        if x[0] == 'call' and x[2]:
            x = x[2][0]
        return (leaf(x), not full) if leaf(x) in self.ahead else None

    def on_branch(self, E, c, m, st, cond, val, line):
        e = self.empty(cond, val) if st.role is None and val in (0, 1) else None
        if e:
            return st._replace(kept=st.kept | {e[0]}) if e[1] else st._replace(due=e[0])
        if cond[0] == 'discr':
            x = cond[1]
            if leaf(x) == STATE:
                names = [v for v in E.F.variants('tokenizer::State')]
                if isinstance(val, int):
                    w = E.F.variant_by_discr('tokenizer::State', val)
                    if st.lex is not None and st.lex != w:
                        return None
                    if st.lex0 is None:
                        st = st._replace(lex0=w)
                    return st._replace(lex=w)
                left = [w for w in names if E.F.discr_of('tokenizer::State', w) not in val[1]]
                if st.lex is not None:
                    return st if st.lex in left else None
                if st.eof and set(left) <= {'None', 'HashComment'}:
                    return st._replace(lex='None')
                if len(left) == 1:
                    return st._replace(lex=left[0], lex0=st.lex0 or left[0])
                return st
            if x[0] == 'call' and x[1].rsplit('::', 1)[-1] == 'next' and x[2] and leaf(x[2][0]) == ITER:
                return None if st.eof and val == 1 else st._replace(eof=val == 0)
            return st
        if cond[0] == 'call' and cond[1].rsplit('::', 1)[-1] == 'is_empty' and leaf(cond[2][0]) == BUF:
            return st._replace(word='none') if val == 1 else st
        if leaf(cond) == TAGFLAG:
            return st
        if cond[0] == 'bin' and cond[1] in ('Eq', 'Ne') and val in (0, 1):
            a, b = cond[2], cond[3]
            if a[0] == 'i':
                a, b = b, a
            if b[0] == 'i':
                v = b[1] if (cond[1] == 'Eq') == (val == 1) else ('not', frozenset({b[1]}))
                return self.byte(st, a, v)
            return st
        return self.byte(st, cond, val)

    def byte(self, st, v, val):
        w = self.which(v)
        if w is None:
            return st
        x = learn(st.ch if w == 'ch' else st.last, val)
        if x == 'no':
            return None
        return st._replace(ch=x) if w == 'ch' else st._replace(last=x)

    def on_agg(self, E, c, m, st, v, line):
        if v[1] == TOK and v[2] in WORDS:
            return st._replace(word='gave')
        return st

    def on_store(self, E, c, m, st, loc, v, line):
        l = leaf(loc)
        if l == STATE:
            w = v[2] if v[0] == 'v' else None
            if w is None:
                return st
            ok = True
            if st.lex0 == 'HashComment' and w == 'None':
                ok = st.ch == 10
            elif st.lex0 == 'BracketComment' and w == 'None':
                ok = st.ch == 47 and st.last == 42
            elif st.lex0 == 'MultiLine' and w == 'None':
                ok = st.role == 'dot' and st.ch == 10 or st.role == 'dotcr'
            elif st.lex0 == 'QuotedString' and w == 'None':
                ok = st.ch == 34
            if not ok:
                E.report('ends early', c.bid, line, 'a comment or string ends before its end (%s)' % st.lex0)
            return st._replace(lex=w)
        if l == TAGFLAG and v == ('i', 1):
            return st._replace(tag=True)
        if l == LASTCH and v[0] == 'i' and v[1] not in (42, 92):
            return st._replace(esc=True)
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        n = name.rsplit('::', 1)[-1]
        if not args:
            return None
        a0 = leaf(args[0])
        if n == 'next' and a0 == ITER and st.eof:
            return None
        if n == 'next' and a0 == ITER:
            self.settle(E, c, st, line, None)
            if st.role is None and (st.due or self.ahead - st.kept):
                E.report('read ahead', c.bid, line, 'the script is read on although a token or error met while looking ahead is still due')
            role = 'main'
            if st.lex0 == 'None' and st.role == 'main' and st.ch == 47 and not st.same:
                role = 'slash'
            elif st.lex0 == 'None' and st.role == 'main' and st.ch == 58 and st.lex == 'MultiLine':
                role = 'textline'
            elif st.role == 'textline' and st.ch != 10:
                role = 'textline'
            elif st.lex0 == 'MultiLine' and st.role == 'main' and st.ch == 46 and known(st.last, 10) and not st.push:
                role = 'dot'
            elif st.role == 'dot' and st.ch == 13 and not st.push:
                role = 'dotcr'
            comment = role == 'textline' and (st.ch == 35 and st.role == 'textline' or st.esc)
            if role == 'main':
                lex = None if st.role is None else st.lex
                return ('state', L0._replace(role='main', lex=lex, lex0=lex))
            return ('state', st._replace(role=role, ch=None, last=None, push=0, same=False, esc=comment))
        if n == 'push' and a0 == BUF:
            return ('state', st._replace(push=min(2, st.push + 1), same=st.same or contains_any(args[1], self.which)))
        if n == 'push' and a0 == QUEUE:
            return ('state', st._replace(queued=tuple(sorted(set((st.queued or ()) + tuple(tokens_in(args[1])))))))
        return None

    def after_call(self, E, c, m, st, name, k, args, ret, line):
        if 'Tokenizer' in name and ret[0] == 'v' and ret[2] == 'Some':
            x = dict(ret[3])['0']
            if x[0] == 't' and len(x[1]) == 2:
                self.ch.add(x[1][0])
                self.last.add(x[1][1])
        return st

    def on_return(self, E, c, m, st, v, line):
        if c.bid != self.root:
            return st
        if st.due and st.due != QUEUE and not is_err(v):
            E.report('error due', c.bid, line, 'an error met while looking ahead is lost when the next token is asked for')
        if st.eof:
            toks = tokens_in(v)
            if is_err(v):
                return st
            if st.lex not in ('None', 'HashComment'):
                E.report('unterminated', c.bid, line, 'a script that ends within a comment or string is accepted')
            if st.word is None and st.lex0 in (None, 'None', 'HashComment') or st.word == 'gave' and not (v[0] == 'v' and v[2] == 'Some'):
                E.report('last word', c.bid, line, 'the last word of a script is lost')
            return st
        if st.role is not None:
            self.settle(E, c, st, line, v)
        return st


def contains_any(v, which):
    if which(v) == 'ch':
        return True
    return any(isinstance(y, tuple) and y and contains_any(y, which) for y in v)


class PeekRule(Rule):
    """an error met while looking ahead is kept for the next token."""
    opaque = ('CompilerState',)

    def __init__(self, root):
        self.root = root
        self.kept = set()
        self.met = 0

    def relevant(self, F):
        return {self.root}

    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'discr' and isinstance(val, int) and fetched(cond[1]) and leaf(cond[1]) == 'Option::Some.0' and E.F.variant_by_discr('Result', val) == 'Err':
            self.met += 1
            return 'err'
        return st

    def keep(self, st, loc, v):
        l = leaf(loc)
        if st == 'err' and l and l.startswith('tokenizer::Tokenizer.') and (fetched(v) or any(fetched(y) for y in calls_of(v))):
            self.kept.add(l)
            return 'kept'
        return st

    def on_store(self, E, c, m, st, loc, v, line):
        return self.keep(st, loc, v)

    def on_call(self, E, c, m, st, name, k, args, line):
        if name.rsplit('::', 1)[-1] in ('push', 'push_back', 'insert', 'replace') and len(args) > 1:
            return ('state', self.keep(st, args[0], args[-1]))
        return None

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.root and st == 'err':
            E.report('peeked error', c.bid, line, 'an error met while looking ahead is lost')
        return st


def calls_of(v):
    """values within v, itself included."""
    out = [v]
    for y in v:
        if isinstance(y, tuple) and y:
            out += calls_of(y)
    return out


def fetched(v):
    """a value read by asking for the next token."""
    while v and v[0] in ('p', 'old') and isinstance(v[1], tuple):
        v = v[1]
    return bool(v) and v[0] == 'call' and isinstance(v[1], str) and v[1].rsplit('::', 1)[-1] == 'next' and 'Tokenizer' in v[1]


# tok: kind of the token read last, if known | open: a command was begun | block: a block was opened for it
# nested: some block is open | popped: it closed one | prev: how the command before ended, not yet judged
Q = namedtuple('Q', 'tok open block nested popped prev')
Q0 = Q(None, False, False, None, False, None)


class CommandRule(Rule):
    """every command ends with a semicolon or a block before the next begins."""
    opaque = ('CompilerState', 'instruction::Block', 'Block')

    def __init__(self, root):
        self.root = root
        self.ends = set()
        self.begun = 0
        self.site = {}

    def relevant(self, F):
        get = bodies_touching(F, lambda k, n: k == 'call' and n.rsplit('::', 1)[-1] in ('next', 'unwrap_next') and 'Tokenizer' in n)
        own = ('CompilerState.tokens', STACK)
        more = bodies_touching(F, lambda k, n: k == 'field' and n.startswith('CompilerState.') and n not in own or
                               k == 'agg' and n.startswith('Instruction::'))
        return {self.root} | get - more - {F.fn(NEXT).id, self.peek(F)}

    def peek(self, F):
        return F.fn('tokenizer::Tokenizer::peek').id

    def ended(self, st, c):
        return st.tok == 'Semicolon' or st.tok == 'CurlyOpen' and st.block or st.tok == 'CurlyClose' and not st.block

    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'discr' and leaf(cond[1]) == TOKEN and 'peek' not in repr(cond[1])[:4000]:
            top = c.bid == self.root and fetched(base_of(cond[1]))
            if isinstance(val, int):
                t = E.F.variant_by_discr(TOK, val)
                if isinstance(st.tok, str) and st.tok != t or isinstance(st.tok, frozenset) and t in st.tok:
                    return None
                st = st._replace(tok=t)
            else:
                no = frozenset(E.F.variant_by_discr(TOK, v) for v in val[1])
                if isinstance(st.tok, str):
                    if st.tok in no:
                        return None
                else:
                    st = st._replace(tok=no | (st.tok or frozenset()))
            if top and st.prev is not None and self.site.get(base_of(cond[1])) == st.prev[1]:
                if st.prev[0] != 'ok':
                    E.report(st.prev[0], c.bid, line, self.WHY[st.prev[0]])
                self.begun += 1
                st = st._replace(open=True, popped=False, block=False, prev=None)
            return st
        e = some_left(cond, val, STACK)
        if e is not None:
            if st.nested is not None and st.nested != e:
                return None
            return st._replace(nested=e)
        if cond[0] == 'discr' and cond[1][0] == 'call' and cond[1][1].rsplit('::', 1)[-1] == 'pop' and cond[1][2] and leaf(cond[1][2][0]) == STACK:
            if st.popped == '?' and val == 1:
                return st._replace(popped=True)
            if st.popped == '?' and val == 0:
                return st._replace(popped=False, nested=False)
        return st

    WHY = {'command end': 'a command is taken up although the one before has not ended with a semicolon or a block',
           'stray brace': 'a closing brace is accepted where no block is open',
           'block closed': 'a block is closed by something else than a closing brace',
           'block without brace': 'a block is opened without an opening brace'}

    def over(self, st):
        """how the command at hand ends, seen when the next token is read."""
        if not st.open:
            return 'ok'
        if st.popped == '?':
            return 'stray brace'
        if st.popped:
            return 'ok' if st.tok == 'CurlyClose' else 'block closed'
        if st.tok == 'Semicolon':
            self.ends.add('semicolon')
            return 'block without brace' if st.block else 'ok'
        if st.tok == 'CurlyOpen' and st.block:
            self.ends.add('block')
            return 'ok'
        if st.tok == 'CurlyClose' and not st.block:
            self.ends.add('skipped block')
            return 'ok'
        return 'command end'

    def on_call(self, E, c, m, st, name, k, args, line):
        n = name.rsplit('::', 1)[-1]
        if n in ('next', 'unwrap_next') and 'Tokenizer' in name and args:
            if n == 'next' and c.bid == self.root:
                return ('state', st._replace(tok=None, prev=(self.over(st), line), nested=None))
            if n == 'unwrap_next':
                return ('state', st._replace(tok=None))
        if args and leaf(args[0]) == STACK:
            if n == 'push':
                return ('state', st._replace(block=True, nested=True))
            if n == 'pop':
                if st.tok != 'CurlyClose':
                    E.report('block closed', c.bid, line, self.WHY['block closed'])
                return ('state', st._replace(popped=True if st.nested else '?', nested=None))
        return None

    def after_call(self, E, c, m, st, name, k, args, ret, line):
        if c.bid == self.root and fetched(base_of(ret)):
            self.site[base_of(ret)] = line
        return st

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.root and v[0] == 'v' and v[2] == 'Ok':
            if st.prev is None:
                E.report('end unread', c.bid, line, 'a script is accepted before it is read to the end')
            elif st.prev[0] != 'ok':
                E.report('last command', c.bid, line, 'a script is accepted although its last command has not ended with a semicolon or a block')
            if st.nested is not False:
                E.report('open block', c.bid, line, 'a script is accepted although a block may be open')
        return st


def some_left(cond, val, field):
    """does the branch tell that the vector `field` has elements (True), none (False), nothing (None)?"""
    def is_len(v):
        return v[0] == 'call' and v[1].rsplit('::', 1)[-1] == 'len' and v[2] and leaf(v[2][0]) == field
    if cond[0] == 'call' and cond[1].rsplit('::', 1)[-1] == 'is_empty' and cond[2] and leaf(cond[2][0]) == field and val in (0, 1):
        return val == 0
    if is_len(cond):
        return val != 0 if isinstance(val, int) else True if 0 in val[1] else None
    if cond[0] == 'bin' and val in (0, 1):
        op, a, b = cond[1:4]
        if a[0] == 'i':
            op, a, b = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op), b, a
        if is_len(a) and b[0] == 'i':
            n = b[1]
            if (op, n) in (('Eq', 0), ('Lt', 1), ('Le', 0)):
                return val == 0
            if (op, n) in (('Ne', 0), ('Ge', 1), ('Gt', 0)):
                return val == 1
    return None


def base_of(v):
    """what a place is part of."""
    while v and v[0] in ('p', 'old') and isinstance(v[1], tuple):
        v = v[1]
    return v


class C11(FlowCheck):
    explanation = (
        'The tokenizer\'s next() is simulated from every entry, keeping the lexical state in which a byte was read, what its '
        'branches tell of the byte and the one before, what was pushed to the buffer, whether the pending word was given out, and '
        'what tokens are returned or queued. When the next byte is read or a token returned, the byte before must have become a '
        'character of a word or string, the token it stands for, or be white space, part of a comment, an escape or dot-stuffing; '
        'otherwise an error must be returned. At the end of the script, an open comment or string must be an error and the last word '
        'be returned. Errors met while looking ahead must be stored in a field of the tokenizer that next() returns before reading on. '
        'The compile loop is simulated to show that, whenever it takes up a token as a command, the token read last for the command '
        'before was its semicolon, an opening brace with a block pushed, or a closing brace, that blocks are popped only for a closing '
        'brace while one is open, and that a script is accepted only when its last command has ended and no block is open.')

    def check(self, F):
        res = self.result()
        p = F.fn('tokenizer::Tokenizer::peek').id
        pr = PeekRule(p)
        self.simulate(F, pr, [p], '-', res)
        root = F.fn(NEXT).id
        r = LexRule(root, {QUEUE} | pr.kept)
        self.simulate(F, r, [root], L0, res)
        main = F.fn('Compiler::compile').id
        q = CommandRule(main)
        self.simulate(F, q, [main], Q0, res)
        T = 'src/compiler/lexer/tokenizer.rs'
        if not pr.met or not pr.kept:
            res.bad('unseen errors', T, 0, 'what becomes of errors met while looking ahead was not found')
        if len(r.roles) < 7:
            res.bad('unseen bytes', T, 0, 'where the bytes of a script are read was not found')
        if q.begun < 3 or not {'semicolon', 'block'} <= q.ends:
            res.bad('unseen commands', 'src/compiler/grammar/instruction.rs', 0, 'where commands begin and end was not found')
        res.ob(len(r.roles) + q.begun + pr.met, not res.violations)
        res.analysed['places of a byte'] = len(r.roles)
        res.analysed['command heads'] = q.begun
        res.samples.append('bytes: ' + ', '.join(sorted('%s/%s' % x for x in r.roles)))
        res.samples.append('ends of commands: ' + ', '.join(sorted(q.ends)))
        return res
