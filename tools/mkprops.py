import json
T="src/parser/tokenizer.rs"; S="src/parser/source_buffer.rs"; P="src/parser/parser.rs"
E="src/parser/expressions.rs"; ST="src/parser/statements.rs"; B="src/parser/blocks.rs"; F="src/parser/functions.rs"
ALL=[S,T,P,E,ST,B,F]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=obs or ["token stream returned by the lexer","tree or error returned by the parse entry points"]
    a["hook_needed"]=hook
    return dict(id=id,title=title,statement=st,quantifier={"over":over,"text":qt},why_tests_cant=why,anchors=a)
R=[]
R.append(p("C01","Concurrent sessions are isolated under every schedule",
"Lexing or parsing a text gives exactly the result it gives when that session is the only one in the process, however many other sessions exist and however their work is interleaved. This holds when sessions run on different threads preempted at any instruction block, when many sessions take turns on one thread, and when a session is moved to another thread between requests. No interleaving makes a session fail, hang or deadlock.",
["schedules","inputs","histories"],"All interleavings of any set of lexer and parser sessions over any texts, at the granularity of basic blocks, including migration between threads.",
"Every existing test runs one session, alone, on one thread; the test runner even gives each test its own process, so state shared between sessions can never show.",
ALL,[("all lexer state lives in the session value",T+":PythonCoreTokenizer"),("parser owns its lexer and lookahead",P+":PythonCoreParser"),("source text is owned by the session",S+":SourceBuffer")],
[("lexer session state","parenthesis stack, indent stack, pending, line-start flag, position",T),("except_status","which kind of except clause the current try uses",P)],None,
"cfg(dst): Debug on tokens/nodes, visible parser module, tick at each source read"))
R.append(p("C02","Text that ends early is lexed faithfully up to its end",
"If the source text ends early at any character (a short read, a cut-off write), the tokens lying wholly before that end are delivered with the same kind, span, text and trivia as in the full text. What remains is delivered as tokens made of exactly the remaining characters or reported as an error, and what remains of a string literal cut before its closing quote is never delivered as a string token (unless it happens to be a closed literal itself, as the two quotes of a cut triple quote are). The lexer reports end of text at exactly the length of the text, without crash, hang, or any position past the end.",
["inputs","crash_points"],"Every text and every character position at which it may end, for lexer and all parse entry points.",
"The tests cut no text: a handful of one-token inputs end where the token ends, so nearly every (state, end of text) pair is never reached.",
[S,T],[("reads past the end give NUL",S+":get_char/peek_three_chars"),("end-of-text branches of every literal loop",T+":get_symbol"),("unterminated string errors",T+":handle_string")],
[("index","read position, must stay <= count",S)],None,"cfg(dst): Debug on tokens"))
R.append(p("C03","Every character of a damaged text is accounted for",
"Whatever the stored text holds, including text damaged by flipped, lost, duplicated or reordered characters and blocks, each delivered token and trivia item spans a range inside the text and carries exactly the characters of that range, and ranges never overlap or go backwards. Up to the first reported error, every character belongs to a delivered token, to the trivia attached to one, or to the indentation at the start of a line; nothing is skipped silently. The lexer never crashes or hangs on such text.",
["inputs","fault_sequences"],"Every stored text and every sequence of storage damage to it: single-character flips, NULs, lost, duplicated, swapped and stale blocks.",
"The tests lex small well-formed snippets and check the one token of interest; none checks that the characters between tokens are kept, and none lexes damaged text.",
[S,T],[("token spans are taken from the read position",T+":get_symbol"),("trivia collector attached to the next token",T+":get_symbol"),("lexical error on unknown characters",T+":get_symbol")],
[("trivia_collector","whitespace, comments, continuations and swallowed newlines seen before the token",T)],None,"cfg(dst): Debug on tokens and trivia"))
R.append(p("C04","Request history never corrupts a lexing session",
"Asking for another token after the end of text returns the end of text again at the same position, any number of times; asking again after an error never crashes, hangs, delivers text a second time, or goes back over text already delivered. Position queries, in any number and at any moment, change nothing. Tokens already handed out never change when the session continues, fails, moves or is dropped.",
["histories","inputs"],"Every sequence of token requests, position queries, retries after errors, moves of the session and drops of results, over every text.",
"Tests call the lexer once or a few times in a straight line; none continues after an error or an end of text, or keeps asking.",
[T,S,P],[("end-of-text branch consumes nothing",T+":get_symbol"),("tokens own their text and trivia","src/parser/tokens.rs"),("position query is read-only",T+":get_position")],
[("token_start_position","start of the token last requested",T)],None,"cfg(dst): Debug on tokens"))
R.append(p("C05","Every request finishes in polynomial work, whatever the damage",
"Lexing or parsing any text whose brackets, operators and blocks nest at most 100 deep - valid, cut off or damaged - finishes within work bounded by a small polynomial of its length: linear for lexing, at most quadratic for parsing, and never exponential in the nesting. No such text, fault or order of requests makes a request run forever, crash the process, or grow its memory without bound.",
["inputs","fault_sequences","histories"],"Every text shape and size family, with and without end-of-text and damage faults, on a logical clock counting executed basic blocks.",
"The tests use inputs of a few dozen characters, where linear, quadratic and exponential work look alike, and never reach an unusual end of text inside a loop.",
ALL,[("every loop consumes a character or a token",T+":get_symbol"),("predictive descent, one token of lookahead",E),("suite and list loops stop on anything unexpected",ST)],
None,["simulated clock: basic blocks executed between request and answer","live bytes"],"cfg(dst): tick at each source read; coverage instrumentation for the clock"))
R.append(p("C06","Cancelled, failed or finished sessions release everything",
"A session dropped between any two requests, or unwound at any instant inside a request, releases all memory it obtained, as does a session that finished or failed once its results are dropped. Repeating sessions, cancelled or not, never accumulates memory, and cancelling one session does not disturb any other.",
["crash_points","schedules","histories"],"Every cancellation instant of every session over every text, alone or among other running sessions, repeated any number of times.",
"No test cancels anything, measures memory, or runs a second session after a first was interrupted.",
ALL,[("ownership: boxes and vectors only, no globals, no leaks","whole crate"),("no lock or global is held across a read",S)],
None,["live bytes and blocks owned by the code under test after the last drop"],"cfg(dst): tick at each source read, from which the simulator unwinds"))
R.append(p("C07","A refused allocation never yields a wrong result",
"If the allocator refuses any single request, every request from some point on, or every request above some size, while a text is lexed or parsed, the outcome is an abort of the process, a reported error, or the correct result. It is never a shortened, altered or partial token stream or tree presented as success, and the session never hangs.",
["fault_sequences","inputs"],"Every allocation made by a session as the point of refusal, one-shot, sticky or by size, over every text.",
"Tests run with an allocator that never refuses.",
ALL,[("infallible std collections that abort on refusal","whole crate: Vec, String, Box"),],
None,["exit of the simulated process, or the returned result"],None))
R.append(p("C08","Incomplete input is signalled exactly while a triple quote is open",
"When text arrives in pieces and the client submits everything received so far, the lexer answers with its request for more data exactly when the text so far ends inside an open triple-quoted string, and with no other text. The tokens delivered before the signal are those of the final text. When the rest arrives, in whatever pieces, the result is that of the complete text delivered at once.",
["inputs","schedules","fault_sequences"],"Every text, every way of cutting its delivery into pieces (short reads, duplicated submissions, end of input between any two pieces).",
"One or two tests check one fixed unterminated string; no test delivers a text in pieces or checks that the signal is absent elsewhere.",
[T],[("more-data error of the triple-quote loop",T+":handle_string")],
[("triple","the open string is triple quoted",T+":handle_string")],None,"cfg(dst): Debug on tokens"))
R.append(p("C09","Restart at a statement boundary loses and invents nothing",
"A client that crashes after any top-level statement and restarts with a fresh session on the text from the start of the next one gets exactly the remaining statements of the uninterrupted parse, positions shifted by that offset. What was parsed before, and whether it is replaced by other valid code, never changes how a later statement is parsed. Asking for statements one at a time gives the same statements as parsing the whole file at once. Nor do the statements around it matter: put inside other compound statements, a program yields the same statements it yields alone.",
["crash_points","histories","inputs"],"Every program, every set of crash points at statement boundaries, every replacement of earlier or enclosing statements.",
"Tests parse single statements from fresh sessions; none parses a sequence in which an earlier statement could leave state behind.",
[T,P,ST,B],[("lexer state returns to its initial value at top-level statement boundaries",T+":get_symbol"),("parser state is lookahead only, try-kind flag restored",ST+":parse_statements_try_stmt"),("file loop",B+":parse_blocks_file_input")],
[("except_status","kind of except clause in the current try",P),("indent_stack, parenthesis","must be back to empty between top-level statements",T)],None,"cfg(dst): Debug on nodes"))
R.append(p("C10","Results do not depend on the ambient environment",
"For a given text the result is the same whatever the clock, the environment variables, the random source, process and thread identity, memory addresses, the contents of freshly allocated memory, the working directory and the state of open files. Lexing and parsing perform no input or output of their own, and failures of those services cannot change a result.",
["configurations","fault_sequences","schedules"],"Every ambient configuration and every failure of an ambient service, during any session over any text.",
"Tests run in one ordinary environment, in which such a dependence would look like a constant.",
ALL,[("the text is the only input: one String moved into the session",S+":new"),("no call to time, env, random, thread or I/O services","whole crate below src/parser")],
None,["results, and the list of ambient services called while the session ran"],None))
R.append(p("C11","Accepted text, damaged or not, is never silently dropped",
"Whenever a whole-input entry point (file, expression, function type) accepts a text - intact, cut off or damaged - the returned tree contains every token of that text exactly once, and the text contains no lexical error. Nothing the reader delivered is dropped, duplicated or replaced by the parser on the way into an accepted tree.",
["inputs","fault_sequences"],"Every text and storage damage or early end applied to it, for the whole-input entry points.",
"Tests assert the shape of small trees for intact snippets; none compares the tree with the token stream, least of all for damaged text that happens to be accepted.",
[P,E,ST,B,F],[("nodes store their tokens",E),("errors from the lexer end the parse",P+":advance")],
None,None,"cfg(dst): Debug on nodes and tokens"))
R.append(p("C12","Earlier failures and cancellations leave no residue",
"After any number of sessions in the same process or thread have finished, failed, been abandoned or been cancelled, a new session on any text gives exactly the result it gives in a fresh process, at essentially the same cost. This holds for storms of thousands of failing sessions and for a failing session nested between two requests of a healthy one.",
["histories","fault_sequences","schedules"],"Every history of finished, failing and cancelled sessions before or between the requests of an observed session.",
"Each test runs in its own process with a single session; no history exists for a residue to build up in.",
ALL,[("no process or thread state in the crate","whole crate"),("sessions start from constants",T+":new")],
None,None,"cfg(dst): tick at each source read, from which the simulator cancels"))
R.append(p("C13","Damage leaves what comes before it untouched",
"However the stored text is damaged from some character on, everything lying wholly before the damage is delivered exactly as from the intact text: the same tokens with the same positions and trivia, and the same statements. Only a token that ends within three characters of the damage may be read differently. An error names a position inside the text, not before tokens already delivered, and, where the intact text is accepted, not before the top-level statement that holds the damage or is followed by it.",
["inputs","fault_sequences"],"Every text and every damage, of any kind and size, behind every character of it, for lexer and parse entry points.",
"The tests use intact texts only; that nothing far behind a token can change it is a statement about all continuations of a text.",
[S,T,P,ST],[("three characters of lookahead",S+":peek_three_chars"),("one token of lookahead",P+":advance"),("errors are reported when they are reached",T+":get_symbol")],
[("index","everything read so far lies before it",S)],None,"cfg(dst): Debug on tokens and nodes"))
R.append(p("C14","Line ends rewritten in transit change nothing but positions",
"If the transport or storage rewrites line ends (any of them, to LF, CR or CR LF, without merging two), the lexer and every parse entry point deliver the same tokens, trivia, trees and errors, with positions of the same characters, differing only in the line ends that tokens and trivia themselves carry.",
["inputs","fault_sequences"],"Every text, intact or damaged, and every choice of line ends for each of its lines, also inside strings, brackets, comments and continuations.",
"Most tests use one line and one kind of line end; none compares the same text with different line ends.",
[T,S],[("three forms of line end in every state",T+":get_symbol"),("line ends inside strings",T+":handle_string")],
[("is_at_beginning_of_line","set by every form of line end",T)],None,"cfg(dst): Debug on tokens and nodes"))
R.append(p("C15","Reformatting in transit changes nothing but positions and trivia",
"If an intermediary reformats a text between its tokens - adds, replaces or removes blanks where tokens stay apart, adds line continuations, comments (other than type comments) at line ends, blank and comment lines, and line breaks and comments inside brackets - the lexer and every parse entry point deliver the same tokens, trees and errors, with positions between the same tokens. Only the trivia attached to tokens may differ. This holds for texts that are rejected as well as for accepted ones.",
["inputs","fault_sequences"],"Every text, intact or damaged, and every combination of such edits at every gap between its tokens.",
"Tests hold one layout of one line each; none compares two layouts of the same tokens.",
[T,P,E,ST],[("white space, comments, continuations and line breaks become trivia in every state",T+":get_symbol"),("the parser looks at tokens only",P+":advance")],
[("parenthesis","line breaks inside brackets are trivia",T)],None,"cfg(dst): Debug on tokens and nodes"))
R.append(p("C16","Names, literals and comments are opaque",
"If an intermediary replaces names, numbers, string literals and comments of a text by others of the same kind, soft keywords and type comments aside (a renaming or anonymising transport), the lexer and every parse entry point deliver the same tokens, trivia, trees and errors, with positions of the same places and the replaced texts where the old ones were. Nothing depends on what a name is called, how long or large a literal is, or what a comment says.",
["inputs","fault_sequences"],"Every text, intact or damaged, and every choice of replaced tokens and replacements.",
"Tests use a handful of fixed names and literals; none compares texts that differ in these only.",
[T,P,ST],[("text of names, literals and comments collected and passed on",T+":get_symbol"),("string literals",T+":handle_string"),("the parser looks at kinds only",P+":advance")],
[("token kind","independent of the text of names and literals",T)],None,"cfg(dst): Debug on tokens and nodes"))
def n(id,title,st,files,mech,qt="Every source text.",over=["inputs"]):
    return p(id,title,st,over,qt,"Tests sample a few dozen texts of an infinite set.",files,mech)
R.append(n("N01","Tokens are classified by longest match, keywords and operators as in Python","Every maximal run of characters that forms a Python operator, delimiter, keyword or identifier is delivered as one token of the right kind.",[T],[("three-character peek table and keyword table",T+":get_symbol")]))
R.append(n("N02","Number literals are accepted and delimited as in Python","Exactly the Python number literals are accepted as numbers, each as one token with its full text.",[T],[("number branches",T+":get_symbol")]))
R.append(n("N03","String literals, prefixes and escapes are delimited as in Python","Every well-formed string literal, with any legal prefix and any escapes, is one token ending at its closing quote.",[T],[("string branches",T+":handle_string")]))
R.append(n("N04","Indentation is turned into matching indent and dedent tokens as in Python","Indentation of logical lines produces balanced indent and dedent tokens as Python defines, ignoring blank and comment lines.",[T],[("indent stack",T+":get_symbol")]))
R.append(n("N05","Operator precedence and associativity follow the Python grammar","Expression trees group operands as the Python grammar does.",[E],[("one method per precedence level",E)]))
R.append(n("N06","Exactly the texts of the supported grammar are accepted","Each statement and expression form of the Python grammar is accepted and every other text is rejected.",[E,ST,B,F],[("recursive descent methods",ST)]))
R.append(n("N07","Node ranges nest and cover their children","The range of every node contains the ranges of its tokens and children.",[E,ST,B,F],[("start and end taken from lexer position",E)]))
R.append(n("N08","No nesting depth exhausts the stack","A text nested arbitrarily deep is parsed or rejected with an error, and never exhausts the stack.",[E,ST],[("none: recursion is unbounded",E)]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(r)+"\n" for r in R))
