"""the properties, their checks, and those not claimed."""
SIM = 'property simulation (typestate) over rustc MIR'
NOTE = ('Sound over every path of the analysed functions up to the engine\'s modelled std semantics; trusts the rustc '
        'driver, the call-graph resolution and the documented behaviour of dependencies.')
PROPS = [
    dict(id='C01', title='Extension features compile only when their capability is declared',
         statement='Compilation fails for every script that uses a command, test, tagged argument or envelope part of a '
                   'Sieve extension without having declared that extension\'s capability with require (or ihave), unless '
                   'the embedder switched capability checks off. This holds for each of the supported extensions, in '
                   'every block and every combination with other arguments.',
         over=['programs'], forall='every script, every extension keyword, tag and envelope part, in every context',
         why='Each keyword is used under a matching require in the fixtures; the undeclared use of each of some 150 '
             'keyword/tag combinations is almost nowhere compiled.',
         files=['src/compiler/grammar/mod.rs', 'src/compiler/grammar/instruction.rs', 'src/compiler/grammar/test.rs',
                'src/compiler/grammar/actions', 'src/compiler/grammar/tests'],
         mech=[('validate_argument / has_capability', 'src/compiler/grammar/mod.rs'),
               ('command and test dispatch', 'src/compiler/grammar/instruction.rs, src/compiler/grammar/test.rs')],
         observe=['result of Compiler::compile'],
         tech=SIM, note=NOTE + ' The keyword-to-capability table is the checker\'s own, from the RFCs.'),
    dict(id='C02', title='A tagged argument is accepted at most once per command or test',
         statement='Compilation fails when a tagged argument of a command or test is given twice, or together with another '
                   'tag of the same mutually exclusive group (match type, address part, MIME option and so on). Tags of '
                   'different groups are never refused because of one another, and the arguments of one command have no '
                   'influence on those of the next.',
         over=['programs'], forall='every command and test, every pair of its tags, in every order, and every sequence of commands',
         why='Quadratically many combinations of tags per command exist; the fixtures repeat a handful.',
         files=['src/compiler/grammar/mod.rs', 'src/compiler/grammar/actions', 'src/compiler/grammar/tests'],
         mech=[('validate_argument duplicate slots', 'src/compiler/grammar/mod.rs'),
               ('validate_match slot', 'src/compiler/grammar/mod.rs')],
         observe=['result of Compiler::compile'],
         tech=SIM, note=NOTE + ' The groups are the checker\'s own table, from the RFCs.'),
    dict(id='C03', title='Compile-time limits bound every script',
         statement='A script that compiles stays within the configured limits: script size, length of each string, depth '
                   'of nested blocks, nested tests and nested foreverypart loops, number of includes, length of global '
                   'variable names, and length of the constant values given to addheader. A script that exceeds one of '
                   'them is refused with an error.',
         over=['programs', 'configurations'], forall='every script, every setting of the limits, every way to reach the limited construct',
         why='Each limit must hold on every path that opens a block, accepts a string or counts an include; the tests '
             'exceed almost none of them.',
         files=['src/compiler/lexer/tokenizer.rs', 'src/compiler/grammar/instruction.rs', 'src/compiler/grammar/test.rs',
                'src/compiler/grammar/actions', 'src/compiler/mod.rs'],
         mech=[('Compiler.max_* comparisons', 'src/compiler/grammar, src/compiler/lexer')],
         observe=['result of Compiler::compile'], tech=SIM, note=NOTE),
    dict(id='C04', title='Blocks, tests and loops run exactly the commands they enclose',
         statement='Each branch of the compiled script leads to a definite place: a false test skips exactly its block, and the end of a '
                   'taken branch skips the rest of its if-elsif-else chain. The end of a loop leads back to its test, allof and '
                   'anyof stop at the first test that decides them, and break and continue lead to the end and the next round of '
                   'their loop; no branch stays unset, and running a branch takes the direction it was compiled for.',
         over=['programs'], forall='every nesting of conditions, test lists and loops, however long the chains',
         why='Branch targets are patched in from lists kept per block; a target that is left out or belongs to another block only '
             'shows for chains or nestings of a certain shape.',
         files=['src/compiler/grammar/instruction.rs', 'src/compiler/grammar/test.rs', 'src/runtime/context.rs'],
         mech=[('if_jmps, match_test_pos, jump lists of a block', 'src/compiler/grammar'), ('Jz, Jnz, Jmp', 'src/runtime/context.rs')],
         observe=['instructions of the compiled script', 'actions of a run'], tech=SIM,
         note=NOTE + ' Lists of pending branches are treated as wholes: a list is patched when every element of it is visited.'),
    dict(id='C05', title='Break, continue and return leave exactly the loops they name',
         statement='A break, continue or return compiled at any depth ends the iteration of exactly the foreverypart loops '
                   'it leaves, from the innermost outwards, and a labelled break or continue acts on the enclosing loop '
                   'with that label. A label can name only one of the loops that enclose a point of the script.',
         over=['programs'], forall='every nesting of foreverypart, while and if blocks and every label',
         why='The number of nestings of loops, conditions and labels is unbounded; fixtures cover a few shallow ones.',
         files=['src/compiler/grammar/instruction.rs', 'src/compiler/grammar/actions/action_mime.rs'],
         mech=[('block stack walk of break/continue/return', 'src/compiler/grammar/instruction.rs')],
         observe=['instructions of the compiled script', 'message part at hand after leaving a loop'], tech=SIM,
         note=NOTE + ' Counts of passed loops are exact up to three, bounded below beyond.'),
    dict(id='C06', title='Every reference to a local variable is renumbered',
         statement='Wherever an instruction can hold a reference to a local variable - value, string, header name, part, '
                   'body transform, expression or any other argument - the reference denotes the slot that the variable '
                   'has when the script runs, whatever scopes and blocks surround it.',
         over=['programs'], forall='every argument position of every instruction that can mention a variable',
         why='The pass must visit each of more than a hundred argument positions; a skipped one only shows when a script '
             'uses a variable from an inner scope exactly there.',
         files=['src/compiler/grammar/instruction.rs', 'src/compiler/grammar/mod.rs'],
         mech=[('renumbering of provisional variable numbers', 'src/compiler/grammar/instruction.rs')],
         observe=['variable read at run time'],
         tech='type-directed coverage analysis (field write/borrow effects over the call graph)',
         note='Decides that every payload field that can hold a local variable is written or mutably borrowed by the pass; '
              'does not decide that the number computed for the slot is the right one.'),
    dict(id='C10', title='The name of a variable means the same variable in any case',
         statement='Whatever the case its name is written in, a variable that is set, declared global, extracted to or referred to is the '
                   'same variable. A name declared global means the global variable, never a local one of that name.',
         over=['programs'], forall='every name, spelling and place where a variable is named',
         why='Each place that reads a name must fold it alike; a miss shows only for names written in two ways across two such places.',
         files=['src/compiler/lexer/string.rs', 'src/compiler/grammar/instruction.rs', 'src/compiler/grammar/actions/action_set.rs'],
         mech=[('register_variable', 'src/compiler/grammar/actions/action_set.rs'), ('parse_variable', 'src/compiler/lexer/string.rs')],
         observe=['values of variables in a run'], tech='dataflow analysis over rustc MIR, interprocedural, with values followed through calls', note=NOTE),
    dict(id='C11', title='Nothing in a script is skipped, and what is open is closed',
         statement='Every character of a script belongs to a token, white space or a comment, or compilation fails; strings keep each '
                   'character between their delimiters, escapes and leading dots of multi-line strings aside. Comments, strings '
                   'and blocks must be closed by the end of the script. Every command ends with a semicolon or a block before '
                   'the next one begins.',
         over=['inputs', 'programs'], forall='every sequence of bytes given to the compiler',
         why='A character is skipped or a string ended early only for particular neighbours; tests compile well-formed scripts.',
         files=['src/compiler/lexer/tokenizer.rs', 'src/compiler/grammar/instruction.rs'],
         mech=[('Tokenizer::next', 'src/compiler/lexer/tokenizer.rs'), ('compile loop', 'src/compiler/grammar/instruction.rs')],
         observe=['Compiler::compile'], tech=SIM, note=NOTE + ' Commands skipped because of ihave end where the skipping loop says.'),
    dict(id='C12', title='Negation and test lists mean what they say',
         statement='A test after not holds exactly when it does not hold alone, for every kind of test and whatever hands back its '
                   'result. allof holds when all its tests do, anyof when any does, also when negated or nested. Lists of tests are '
                   'not empty and have a comma between any two tests, or compilation fails.',
         over=['programs'], forall='every test and every nesting of not, allof and anyof',
         why='Negation must be carried through each kind of test and each nesting; tests negate a few of them.',
         files=['src/compiler/grammar/test.rs', 'src/runtime/tests/mod.rs', 'src/runtime/context.rs'],
         mech=[('parse_test', 'src/compiler/grammar/test.rs'), ('set_not', 'src/compiler/grammar/test.rs'), ('TestResult', 'src/runtime/context.rs')],
         observe=['branch taken by the script'], tech=SIM, note=NOTE),
    dict(id='C13', title='Every argument of a command ends up where it belongs',
         statement='The compiled form of each command and test holds the value of each tagged argument exactly if the tag was given, in the '
                   'place that the argument stands for, and the positional arguments in the order they are written, in whatever order and '
                   'combination tags appear. A tag that selects among variants (match type, address part, zone, mode, modifier) selects the '
                   'one it names, and each command or test word is compiled to the operation of its name.',
         over=['programs'], forall='every command and test, with every pair of tagged arguments in either order',
         why='Arguments may come in any order and combination; the tests try few of them.',
         files=['src/compiler/grammar/actions', 'src/compiler/grammar/tests', 'src/compiler/grammar/instruction.rs', 'src/compiler/grammar/test.rs'],
         mech=[('CompilerState::parse_redirect', 'src/compiler/grammar/actions/action_redirect.rs'), ('CompilerState::parse_vacation', 'src/compiler/grammar/actions/action_vacation.rs')],
         observe=['instructions of a compiled script', 'events from Context::run'], tech='symbolic provenance by property simulation over rustc MIR, once for every pair of tags',
         note=NOTE + ' Which value a string, number or date part is read as is not followed; neither are arguments the language of expressions takes.'),
    dict(id='C14', title='The text of a string around its references is kept',
         statement='Each byte of a string outside a recognised reference or encoded character is part of its value, once and in '
                   'order; a reference that is not closed, not well formed or to an unknown namespace stays as text as it was '
                   'written. The name of a reference is what is between its braces, and an encoded character stands for all of its '
                   'digits. A string counts as a number only when that number is written in the same way.',
         over=['inputs', 'programs'], forall='every sequence of bytes in a string, and every list of items of a string at run time',
         why='Only particular neighbours (a brace after a failed reference, digits after an invalid one) or the end of the string '
             'reveal a lost byte; tests use a few well-formed references.',
         files=['src/compiler/lexer/string.rs', 'src/compiler/lexer/tokenizer.rs', 'src/runtime/eval.rs'],
         mech=[('tokenize_string, add_value', 'src/compiler/lexer/string.rs'), ('Context::eval_value', 'src/runtime/eval.rs')],
         observe=['values of strings at run time', 'result of Compiler::compile'], tech=SIM, note=NOTE +
         ' What a namespace or an index within a name means is not covered. Where the bytes are not gone through with an iterator, '
         'nothing is decided about them.'),
    dict(id='R01', title='Every executed instruction is charged against the CPU limit',
         statement='Running a script - including everything it includes, jumps, loops and resumptions after an event - '
                   'executes at most the configured number of instructions in total; the run then ends with an error '
                   'saying that the CPU limit was reached.',
         over=['programs', 'inputs', 'configurations'], forall='every script, message, limit and history of events',
         why='One path that fetches or re-enters without being charged lets a loop run forever; tests stop at a few '
             'sample scripts.',
         files=['src/runtime/context.rs'], mech=[('num_instructions / cpu_limit', 'src/runtime/context.rs')],
         observe=['Context::run'], tech=SIM, note=NOTE),
    dict(id='R02', title='No run ends without the pending keep or other final action',
         statement='When a run ends with an error, the remaining scripts are abandoned and the pending final action (the '
                   'implicit keep, unless an action replaced or cancelled it) is still handed out afterwards; when '
                   'it ends normally, the final action is handed out. A script given to the interpreter is run or '
                   'refused with an error, never silently dropped.',
         over=['programs', 'inputs', 'histories'], forall='every script and message, every kind of error, at every point',
         why='There are many kinds of errors and points at which they strike; each must save the message.',
         files=['src/runtime/context.rs'], mech=[('finish_loop', 'src/runtime/context.rs'), ('end of run', 'src/runtime/context.rs')],
         observe=['events from Context::run'], tech=SIM, note=NOTE),
    dict(id='R03', title='Only the right actions replace or cancel the implicit keep',
         statement='A message is kept unless discard, reject, fileinto or redirect was executed: keep makes keep the final action, '
                   'discard makes it discard, reject cancels it, and fileinto and redirect cancel it exactly '
                   'when :copy is absent and the message is indeed filed or sent (a pending explicit keep with flags of its own '
                   'survives fileinto). No other action changes it.',
         over=['programs', 'inputs'], forall='every sequence of actions with every combination of arguments',
         why='Whether mail is lost or duplicated depends on combinations of actions, flags, limits and failures that fixtures sample sparsely.',
         files=['src/runtime/context.rs', 'src/runtime/actions/action_fileinto.rs', 'src/runtime/actions/action_redirect.rs'],
         mech=[('final_event', 'src/runtime')], observe=['events from Context::run'], tech=SIM, note=NOTE),
    dict(id='R04', title='Outgoing messages stay within their limits',
         statement='A script makes at most the configured number of outgoing messages by redirect, notify and vacation '
                   'together, and at most the configured number of redirects; each such message is counted. A message '
                   'with too many Received headers is neither redirected nor answered by vacation.',
         over=['programs', 'inputs', 'configurations'], forall='every script, message and setting of the limits',
         why='The bound is over all mixes of the sending actions in one run; tests send one or two messages.',
         files=['src/runtime/actions/action_redirect.rs', 'src/runtime/actions/action_notify.rs', 'src/runtime/actions/action_vacation.rs'],
         mech=[('num_out_messages, num_redirects', 'src/runtime/actions')], observe=['events from Context::run'],
         tech=SIM, note=NOTE + ' Vacation: the limit is examined by the test compiled directly before the action.'),
    dict(id='R05', title='Scripts act only through events, and the same run gives the same outcome',
         statement='Compiling and running a script touches no file, network, process, environment variable, standard stream or thread, and '
                   'needs no unsafe code; all it does is what it hands back. The outcome depends only on the script, the settings, the message and the '
                   'answers to events: no clock, randomness, state shared between runs or order of a hash map decides it (generated '
                   'dates, message ids and boundaries aside).',
         over=['programs', 'inputs', 'histories'], forall='every script, message and history, on every path through the library',
         why='An effect or a dependence on hidden state hides on rare paths and shows no difference in a test that runs once.',
         files=['src/runtime', 'src/compiler', 'src/lib.rs'], mech=[('Context::run', 'src/runtime/context.rs'), ('Compiler::compile', 'src/compiler/grammar/instruction.rs')],
         observe=['system calls', 'events of repeated runs'], tech='effect analysis over the call graph of rustc MIR (resolved callees, function values, statics, unsafe blocks)',
         note=NOTE + ' Functions of dependencies are classed by name, not analysed.'),
    dict(id='R06', title='Text from messages and scripts cannot add header fields',
         statement='Line breaks in text that comes from the received message, the envelope or the script never reach the name or value of a '
                   'header that a script adds, replaces or encloses with, nor the header section of a vacation reply or notification; such text stays within '
                   'its own field. Each field of a generated message is on a line of its own and the header section is ended '
                   '(the received message\'s own header fields are copied as they are, and a :mime reason brings its own headers).',
         over=['inputs', 'programs'], forall='every message, envelope and script value, through every header that is made',
         why='A break in the text comes from an encoded word or a percent escape that nobody types in a test.',
         files=['src/runtime/actions/action_vacation.rs', 'src/runtime/actions/action_notify.rs', 'src/runtime/actions/action_mime.rs', 'src/runtime/actions/action_editheader.rs'],
         mech=[('insert_header', 'src/runtime/actions/action_editheader.rs'), ('Vacation::exec', 'src/runtime/actions/action_vacation.rs'), ('Notify::exec', 'src/runtime/actions/action_notify.rs')],
         observe=['messages in CreatedMessage events'], tech='qualifier inference (taint) and property simulation over rustc MIR',
         note=NOTE + ' Raw slices of received header fields, the user address and the settings are trusted.'),
    dict(id='R07', title='Events carry the arguments the command was given',
         statement='Each part of an event - folder, mailbox id, special use, flags, create, reason, recipient, delivery options, notification '
                   'method and options, included script, duplicate id, lists, mailboxes - is made from the argument of the executed '
                   'command or test that stands for it, and from no other; a part is left out only when its argument is. '
                   'An event speaks of the message as it stands then, or, after vacation and notify, of the message they made; '
                   'keep and fileinto without flags use those of the internal variable.',
         over=['programs', 'inputs'], forall='every action and test that produces an event, with every combination of its arguments',
         why='An argument that is dropped or swapped shows only for the combination of tags that nobody tried.',
         files=['src/runtime/actions', 'src/runtime/context.rs', 'src/runtime/tests'],
         mech=[('FileInto::exec', 'src/runtime/actions/action_fileinto.rs'), ('Redirect::exec', 'src/runtime/actions/action_redirect.rs'), ('Notify::exec', 'src/runtime/actions/action_notify.rs')],
         observe=['events from Context::run'], tech='symbolic provenance by property simulation over rustc MIR', note=NOTE + ' What a value evaluates to and the expiry of duplicate and vacation entries are not followed.'),
    dict(id='R09', title='Every event an action produces is handed to the caller',
         statement='Each event that an action, a set variable or a failure produces is handed to the caller before the script '
                   'goes on; none is overwritten or left behind by a later action.',
         over=['programs', 'histories'], forall='every sequence of actions and every way an event comes about',
         why='An event is lost only for particular successions of actions, some through variables that look like any other.',
         files=['src/runtime/context.rs', 'src/runtime/actions'], mech=[('queued_events', 'src/runtime/context.rs')],
         observe=['events from Context::run'], tech='typestate analysis by property simulation over rustc MIR', note=NOTE),
    dict(id='R10', title='Includes nest within the limit and return to where they left off',
         statement='Included scripts nest no deeper than the configured limit, and include :once runs no script twice. An included script '
                   'starts at its first instruction; after it ends, the including script goes on after '
                   'the include with its own local and match variables. Jumps and resumptions continue at the position they name, each '
                   'instruction moving the position on exactly once.',
         over=['programs', 'configurations', 'histories'], forall='every tree of includes and every point of return or suspension',
         why='Positions and variables must survive arbitrary nesting, return, stop and suspension; fixtures include two scripts.',
         files=['src/runtime/context.rs', 'src/runtime/actions/action_include.rs'],
         mech=[('ScriptStack frames', 'src/runtime/context.rs')], observe=['events and variables of a run'],
         tech=SIM, note=NOTE),
    dict(id='R11', title='A script runs only if the embedder allows what it requires',
         statement='Every capability that require declares is examined before any command of that script runs, and the run ends with an '
                   'error at the first one that the embedder has not allowed. Compiling drops or reorders none of them.',
         over=['programs', 'configurations'], forall='every list of required capabilities and every set of allowed ones, included scripts too',
         why='Whether a missing permission is noticed depends on the position of the capability in the list and the sets involved.',
         files=['src/compiler/grammar/actions/action_require.rs', 'src/compiler/grammar/instruction.rs', 'src/runtime/context.rs'],
         mech=[('Require instruction', 'src/compiler/grammar/actions/action_require.rs'), ('allowed_capabilities', 'src/runtime/context.rs')],
         observe=['error of Context::run'], tech=SIM, note=NOTE),
    dict(id='R12', title='No automatic reply to lists, robots, strangers or oneself',
         statement='A vacation reply goes out only when the sender in the envelope is known, is neither one of the user\'s own addresses nor a '
                   'mailer or list owner, one of the user\'s addresses is among the recipients named in the header, and no field of the header '
                   'shows a mailing list, an automatic message, bulk precedence or a wish for no replies. Even then the embedder is asked whether '
                   'that sender got one within the period the script gives, and a yes means no reply. Replies go to the sender in the envelope '
                   'only, notifications are not sent for automatic messages, and both are marked as automatic.',
         over=['inputs', 'histories'], forall='every message, envelope and setting, and every vacation or notify command',
         why='Whether a reply is wrong depends on the combination of header fields, their order and case; mail loops begin with the one the '
             'tests do not have.',
         files=['src/runtime/actions/action_vacation.rs', 'src/runtime/actions/action_notify.rs', 'src/compiler/grammar/actions/action_vacation.rs'],
         mech=[('TestVacation::exec', 'src/runtime/actions/action_vacation.rs'), ('Notify::exec', 'src/runtime/actions/action_notify.rs')],
         observe=['events of Context::run'], tech=SIM,
         note=NOTE + ' How a header is split into fields and addresses is the mail parser\'s.'),
    dict(id='R08', title='Protected header fields and size limits hold for every script',
         statement='addheader, deleteheader and enclose never add or remove a field that the embedder protects, however its name is written. '
                   'Values that scripts put into header fields are cut to the configured length, and no variable that a script sets grows '
                   'beyond the configured size, whatever command sets it and whatever characters it holds.',
         over=['inputs', 'programs', 'configurations'], forall='every script, message and setting of protected fields and sizes',
         why='Names can be written in any case, with characters that are left out, and come from variables; sizes matter at one length of '
             'value, for characters of several bytes.',
         files=['src/runtime/actions/action_editheader.rs', 'src/runtime/actions/action_mime.rs', 'src/runtime/actions/action_set.rs'],
         mech=[('AddHeader::exec', 'src/runtime/actions/action_editheader.rs'), ('DeleteHeader::exec', 'src/runtime/actions/action_editheader.rs'),
               ('Enclose::exec', 'src/runtime/actions/action_mime.rs'), ('Context::set_variable', 'src/runtime/actions/action_set.rs')],
         observe=['events of Context::run'], tech=SIM,
         note=NOTE + ' That two names are equal in any case is the mail parser\'s.'),
    dict(id='R13', title='A changed message is handed over before it is kept, filed or sent',
         statement='After a command changed the header or the parts of the message, the next event that keeps, files or sends it - and the '
                   'implicit keep at the end of a run or after an error - is preceded by exactly one event with the new message under a number '
                   'that no other message has, and later events refer to that number. Without a change no new message is made.',
         over=['programs', 'histories'], forall='every sequence of commands and every message',
         why='It depends on the order of changes, copies, notifications and errors in one run; a change that is not noted shows only in what '
             'is kept at its end.',
         files=['src/runtime/actions/action_mime.rs', 'src/runtime/actions/action_convert.rs', 'src/runtime/actions/action_editheader.rs',
                'src/runtime/context.rs'],
         mech=[('Context::build_message_id', 'src/runtime/actions/action_mime.rs'), ('Context::finish_loop', 'src/runtime/context.rs'),
               ('Convert::exec', 'src/runtime/actions/action_convert.rs')],
         observe=['events of Context::run'], tech=SIM,
         note=NOTE + ' That the bytes of the new message are right is not decided here.'),
    dict(id='C07', title='Expressions mean what they say',
         statement='In an expression every operator is applied to exactly its own operands in their order: signs and ! first, then * and /, + and -, < <= > >=, == and !=, '
                   '^, && and ||, equal ones from the left, and parentheses group. The right operand of && and || is skipped exactly if the left one decides, '
                   'a function gets its arguments in their order and one with the wrong number of arguments does not compile, also if the expression has to wait for a '
                   'function of the embedder. Integer arithmetic never overflows but stops at the largest or smallest integer, division by zero gives 0, and '
                   'a string is the text between its quotes with its escapes replaced.',
         over=['programs', 'inputs'], forall='every expression and every value of its operands',
         why='Expressions nest without bound and every operator meets every other one on the stack of the parser; the tests evaluate a few dozen expressions.',
         files=['src/compiler/grammar/expr/tokenizer.rs', 'src/compiler/grammar/expr/parser.rs', 'src/runtime/expression.rs', 'src/runtime/mod.rs'],
         mech=[('Tokenizer::next', 'src/compiler/grammar/expr/tokenizer.rs'), ('ExpressionParser::parse', 'src/compiler/grammar/expr/parser.rs'),
               ('Context::eval_expression', 'src/runtime/expression.rs'), ('Variable::op_add', 'src/runtime/expression.rs')],
         observe=['values of let and of while and if conditions that are expressions', 'Event::Function'], tech=SIM,
         note=NOTE + ' What a malformed expression (an operator without operands, two operands in a row) gives is not decided, nor the digits of floating point results.'),
    dict(id='R14', title='A setting applies as it is given, and no other one changes',
         statement='Every setting of the runtime, of the compiler and of the context of a run takes effect with exactly the value that the embedder gives, '
                   'whatever it is, has a place of its own, so that setting one never changes another one or leaves an earlier value in place, '
                   'and is the same whether it is set in place or handed on. Taking a capability or a protected name back removes exactly that.',
         over=['configurations'], forall='every setting and every value of it',
         why='There are about a hundred setters of the same shape; the tests call a few of them with one value each, and a limit that is lost shows '
             'only when a script reaches it.',
         files=['src/runtime/mod.rs', 'src/runtime/context.rs', 'src/compiler/mod.rs'],
         mech=[('Runtime::set_max_redirects', 'src/runtime/mod.rs'), ('Context::with_user_address', 'src/runtime/context.rs'),
               ('Compiler::with_max_includes', 'src/compiler/mod.rs')],
         observe=['limits and capabilities of compiled and run scripts'], tech=SIM,
         note=NOTE + ' That a setting is then read where it matters belongs to the properties of its use.'),
    dict(id='R15', title='A reference stands for what it names',
         statement='Whatever is stored and however the names are combined, a reference in a script gives the value of exactly what it names: the variable, '
                   'environment item or envelope part of that name, the header field, part of the field or body that is written, from the field and the value '
                   'that its indexes select (from the front if positive, from the back if negative, all of them for a star). '
                   'Setting a variable changes the place that a reference to it is read from, and no other.',
         over=['inputs', 'programs'], forall='every reference, every message and every content of the variables',
         why='The names, places, kinds of parts and signs of two indexes combine to thousands of references; the tests use a few dozen of them on one message each.',
         files=['src/runtime/eval.rs', 'src/compiler/lexer/string.rs', 'src/runtime/actions/action_set.rs'],
         mech=[('Context::variable', 'src/runtime/eval.rs'), ('HeaderVariable::eval_part', 'src/runtime/eval.rs'),
               ('CompilerState::parse_header_variable', 'src/compiler/lexer/string.rs'), ('Context::set_variable', 'src/runtime/actions/action_set.rs')],
         observe=['values of references in strings and tests'], tech=SIM,
         note=NOTE + ' What the message parser finds in a field is taken as given, as is the text that a date or an address is shown as.'),
    dict(id='R16', title='Flags are kept as a set and handed over whole',
         statement='Setting flags replaces those of the variable that is named (or the set of the script if none is), adding puts in exactly those that are not there yet, '
                   'and removing takes out exactly those that are named: names are compared without regard to case and stay as they are written, each flag is in the set once, '
                   'and every flag of a list counts. A message is kept or filed with the flags that its action gives, or with the set of the script if it gives none, '
                   'however the script ends.',
         over=['programs', 'inputs'], forall='every list of flags, content of the variables and order of the actions',
         why='What a flag action does depends on what earlier ones left in the variable; the tests change a few short sets.',
         files=['src/runtime/actions/action_flags.rs', 'src/runtime/actions/action_fileinto.rs', 'src/runtime/context.rs',
                'src/compiler/grammar/actions/action_flags.rs'],
         mech=[('EditFlags::exec', 'src/runtime/actions/action_flags.rs'), ('Context::tokenize_flags', 'src/runtime/actions/action_flags.rs'),
               ('Context::get_local_or_global_flags', 'src/runtime/actions/action_flags.rs')],
         observe=['flags of keep and fileinto events', 'content of flag variables'], tech=SIM,
         note=NOTE + ' A flag that is in a variable twice because the script put it there with set is removed once; a list of several strings is not split further.'),
    dict(id='R17', title='Modifiers change a text as they say, in their order',
         statement='Each modifier of set and of extracttext changes the text exactly as its name says, whatever the text is: the case of all or of the first character, '
                   'a backslash before each special character, the percent form of every byte but unreserved ones, the length in characters, every occurrence replaced. '
                   'Modifiers are applied in falling precedence, those of the same precedence in the order given, each to what the last one gave, none left out. '
                   'The variable that is named gets the result, which is cut only where there is no room for more.',
         over=['inputs', 'programs'], forall='every text and every list of modifiers',
         why='The sets of special and unreserved characters, the orders of nine modifiers and texts outside ASCII are far more than the tests show.',
         files=['src/runtime/actions/action_set.rs', 'src/compiler/grammar/actions/action_set.rs', 'src/runtime/actions/action_mime.rs',
                'src/compiler/grammar/actions/action_mime.rs'],
         mech=[('Modifier::apply', 'src/runtime/actions/action_set.rs'), ('Set::exec', 'src/runtime/actions/action_set.rs'),
               ('Modifier::order', 'src/compiler/grammar/actions/action_set.rs')],
         observe=['values of variables after set and extracttext'], tech=SIM,
         note=NOTE + ' The case mapping of a character and the replacing of a text are those of the standard library.'),
]
NA = []
