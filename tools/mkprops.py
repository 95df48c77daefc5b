#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so that the wording has one source).
import json,os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
I,H,PR,C,F='inputs','histories','programs','configurations','fault_sequences'
prop('C01','Alternation is ordered choice, horizontally and vertically',
 "An alternation tries its alternatives strictly in the order they were written, each from the position where the alternation started, and yields exactly the result and end position of the first one that succeeds, without trying any later one. It fails if and only if every alternative fails, and then leaves the input position where it was. `a | b | c` and the same alternatives written as a rank of lines behave identically.",
 [PR,I],"every alternation in every grammar, every input, any mix of failing and succeeding alternatives",
 "Tests sample a few grammars; an alternative skipped, retried, started at a moved position or an off-by-one on the list only shows with particular mixes of partial matches.",
 ['parser_choice.go','parser_rank.go'],[('ordered choice loop','parser_choice.go: choice.parse'),('rank loop','parser_rank.go: rank.parse')])
prop('C02','A sequence matches all its elements in order, or fails',
 "A sequence runs its elements one after the other in the written order, each starting where the previous one stopped, and succeeds only when every element succeeded; its end position is where the last one stopped. As soon as one element fails the sequence fails and no later element is run.",
 [PR,I],"every sequence of any length, every input, failure of any element",
 "Each of the three result shapes has its own loop; tests exercise a handful of element mixes and failures at few indices.",
 ['parser_sequence.go'],[('three loops','parser_sequence.go: parseAsSingle, parseAsArray, parseAsObject'),('dispatch','parser_sequence.go: sequence.parse')])
prop('C03','Repetition is greedy and respects its bounds and join',
 "`e{m,n}` and all repetition forms accept occurrences greedily and never more than n; they fail, leaving the position where it was, exactly when fewer than m occurrences match, and otherwise stop at the end of the last accepted occurrence. With a join, exactly one join lies between two consecutive occurrences and a join that is not followed by an occurrence is not consumed. The result lists the occurrences' results, in order, without the joins.",
 [PR,I],"every value, join, m, n (including absent, 0, 1, contradictory) and every input",
 "Tests cover few (m,n) pairs and never the small bounds, absent matches after a join, or values that match the empty string.",
 ['parser_pattern.go'],[('repetition loop','parser_pattern.go: pattern.parse'),('bounds decoding','parser_pattern.go: newPattern')])
prop('C04','Lookahead and negation never consume input',
 "After `(?e)` or `!e`, whether it succeeded or failed, the input position is where it was before, even if e itself moved it. `(?e)` succeeds exactly when e does and `!e` exactly when e fails; e is tried once, at the current position, and their result is always the undefined value, never e's production.",
 [PR,I],"every e (consuming, empty, failing after a partial match) and every input",
 "Needs an e that moves the position before failing, or a labelled lookahead: not in the tests.",
 ['parser_lookahead.go','parser_not.go'],[('save and restore of the position','parser_lookahead.go: lookahead.parse; parser_not.go: not.parse')])
prop('C05','The optional operator never fails and never eats on a miss',
 "`e?` always succeeds: when e succeeds the result and end position are e's, and when e fails the result is the undefined value and the position is where it was before e was tried. e is tried exactly once.",
 [PR,I],"every e, every input",
 "A miss after a partial match of e is the only way to see a missing restore.",
 ['parser_existential.go'],[('save and restore','parser_existential.go: existential.parse')])
prop('C06','Parsing always terminates',
 "Parsing any finite input returns: a repetition does not go on once an occurrence no longer consumes input (and its minimum is met), the growing of a left-recursive rule goes on only while each round ends strictly further, and no other loop of the parser runs without a bound (provided the callbacks of the user return; a left-recursive rule marked SkipCache is excluded, since it cannot grow).",
 [PR,I],"every grammar, including those with empty-matching repetitions and left recursion, and every input",
 "A hang needs a grammar whose body matches the empty string, or a growth round that does not progress.",
 ['parser_pattern.go','packrat.go'],[('progress test of the repetition','parser_pattern.go: pattern.parse'),('strict growth','packrat.go: loopify')])
prop('C07','Memoization is transparent',
 "For every rule and position, the outcome remembered is exactly the outcome of running the rule there (its result, or its failure, and its end position), remembered under that rule and that position only; asking again returns that same result and moves to that same end position without running the rule again. A rule with SkipCache is run every time and remembers nothing.",
 [PR,I,H],"every rule, position and sequence of activations within a parse",
 "A wrong key, a stale end position or a result stored on the wrong path only shows when a rule is reused at the same position by another alternative.",
 ['packrat.go','parsectx.go'],[('memo','packrat.go: loopify'),('table lookup','parsectx.go: getFrame, newFrame')],
 [dict(name='frames',meaning='remembered outcome per position and rule id',where='parsectx.go')])
prop('C08','Left recursion grows from a failing seed to the longest match',
 "A rule that recurses into itself at the same position first fails there; when this still produces a result the rule is run again from its starting position with the previous result as the answer of the recursion, for as long as it succeeds strictly further. The rule then yields the last (longest) successful result with its end position, intermediate answers of the rules involved in the recursion are forgotten between rounds, and those belonging to the round that was kept are restored.",
 [PR,I,H],"every directly, indirectly or mutually left-recursive grammar and every input",
 "Tests use a few small recursive grammars; the order wipe, store, reposition, rerun, compare, restore matters only for particular nestings.",
 ['packrat.go','parsectx.go'],[('growth loop','packrat.go: loopify'),('wipe and restore','parsectx.go: wipeWith, restoreWith'),('involved rules','packrat.go: loopify, recursion case')],
 [dict(name='loopstage',meaning='0 idle, 1 running, 2 recursion met, 3 growing',where='packrat.go')])
prop('C09','Active rules form a balanced stack of unbounded depth',
 "Every activation of a rule pushes one entry for that rule and position on the stack of active rules and removes it when it ends, whichever way it ends normally, so that after any sub-parse the stack is as it was. Nesting depth is bounded by memory only: no input makes the parser crash by nesting too deep a number of rules.",
 [PR,I],"every nesting depth and every way a rule ends",
 "Tests nest a few levels; an unbalanced path corrupts the detection of left recursion only later.",
 ['packrat.go','parsectx.go'],[('push and pop','packrat.go: stack; parsectx.go: stackPush, stackPop, stackPeek')])
prop('C10','A parse yields a complete match or a ParseError',
 "ParseString and ParseTokens return the result of the entry rule when it succeeded and consumed the whole input, and a ParseError in every other case (entry rule failed, also on an empty input, or input left over); they never return nil. Building the error reports a position inside the input and never crashes.",
 [PR,I],"every grammar, both kinds of input, every input including the empty one",
 "Tests check few failing inputs and never the empty input or a failure at the very start or end.",
 ['grammar.go'],[('verdict','grammar.go: Grammar.parse'),('entry points','grammar.go: ParseString, ParseTokens')])
prop('C11','Parses are isolated from each other',
 "A parse changes neither the grammar, nor its trace options, nor any package-level state, however it ends (result, ParseError, or a panic of a callback): parsing the same input again with the same grammar gives the same outcome, whatever was parsed before with this or any other grammar. Options given to one parse apply to that parse only, and each parse works on its own memo table and stack.",
 [H,F],"every history of parses, including ones aborted by a panic in a callback",
 "Tests build a grammar per test; leaks between parses and after a panic need a particular history.",
 ['grammar.go','parsectx.go','packrat.go','codestream_token.go'],[('fresh context per parse','grammar.go: ParseString, ParseTokens; parsectx.go: newParseContext'),('per-parse options','grammar.go: Grammar.parse; parseoption.go')])
prop('C12','Tracing never changes what is parsed',
 "With any combination of trace options (environment variable, grammar options, Debug, SkipLog, line filter), a parse gives the same result, consumes the same input and remembers the same outcomes as without tracing, and tracing never makes a parse crash, whatever the values traced.",
 [C,PR,I],"every trace configuration, grammar and input",
 "Tests run mostly without tracing; code under a trace test is executed for failed results, invalid UTF-8 or filtered lines only in rare combinations.",
 ['packrat.go','parsectx.go','grammar.go','traceoptions.go'],[('guarded logging','packrat.go: loopify'),('log line','parsectx.go: log, String')])
prop('C13','A result already produced is not modified by later parsing',
 "Once an element has produced a result, the parser itself does not change that object any more, apart from the location recorded on it: in particular an abandoned alternative leaves no trace in a result that is reused by another one. Only user callbacks and the grammar-notation compiler may modify what they are given.",
 [PR,I,H],"every result that is remembered and then reused by another alternative or another round",
 "Needs two alternatives sharing a prefix whose remembered result is extended by the first one.",
 ['parser_sequence.go','packrat.go','native_map.go'],[('own map per sequence','parser_sequence.go: parseAsObject, ownedMap, merge')])
prop('C14','Callbacks run once per success and decide the outcome',
 "The callback of a rule is called exactly once for each time its body succeeds, with the body's result (wrapped under its label when it has one of its own), the context of the parse and the rule, and never when the body failed or when a remembered outcome is reused. What it returns becomes the rule's result, nil making the rule fail; the location (source, start, end, line) of the match is then recorded on that result (an element which is not a rule but has a label or a callback records the start of the rule it is part of).",
 [PR,I],"every rule with or without callback or label, every outcome of the body and of the callback",
 "Tests hardly look at callbacks returning nil, at calls on failure or at the recorded location.",
 ['packrat.go','line.go','attr.go'],[('post processing','packrat.go: prepareResult, wrap'),('three callback signatures','line.go: lineInit')])
prop('C15','The shape of a sequence result follows labels and captures',
 "A sequence with at least one label yields a map holding, for each labelled element and nothing else, its label and result (the latest one winning), `@` and `&` merging the element's own keys, as does an optional of labelled elements; an element with a label that is not one of a sequence gives a map of its own; without label it yields an array of the results of its capturing elements, in order, when more than one captures, the result of the last capturing element when there is one capture, and the undefined value when there is none (the captures are counted over the elements and those nested in them). String literals, lookaheads and references to names starting with an underscore do not capture; an alternation captures when all its alternatives do, a repetition when its element does, an optional when its element does.",
 [PR,I],"every mix of labels, captures and element kinds",
 "The shape depends on flags computed over the whole tree; tests cover a few mixes.",
 ['parser_sequence.go','parser_str.go','parser_ref.go','parser_choice.go','parser_existential.go','rule.go'],[('type, labels and captures of a sequence','parser_sequence.go: calculateType, calculateLabels, calculateCaptures'),('capture flags','constructors and prepare() of parser_*.go')])
prop('C16','Every rule is registered once and every reference finds its rule',
 "Building a grammar visits every element of every rule (alternatives, elements, repeated and join parts, tested parts, included rules), keeps their order, and gives each rule a distinct number in [0, number of rules) under which, and under whose name, it can be looked up. Each pass over the grammar goes through the elements of an element exactly once, so that building does not blow up with nesting; an element found at two places of the tree is refused. A reference parses as the rule of that name of the same grammar, and a reference to a missing name is reported, not ignored.",
 [PR],"every grammar tree: any nesting of ranks, lines and operators",
 "An element kind whose child is not visited is only noticed by a grammar that puts a reference there.",
 ['grammar.go','walk.go','parser_ref.go','rule.go','parser_pattern.go'],[('depth-first walk','walk.go'),('numbering and registration','grammar.go: postinit'),('children of each kind','forEachChild in parser_*.go'),('lookup','parser_ref.go: ref.parse; grammar.go: getRuleRef')])
prop('C17','Lines and ranks compile to the rules they were written as',
 "Compiling a list of lines keeps one alternative per `o` line, in order, and makes every `i` line available by name without adding it to the alternation; each rule gets the name it was given (or parent[index]), its own callback in any of the three accepted signatures, and its own options (those given both to an o line and to a line nested in it are merged, the callback of the outer one winning). A rule text that does not parse stops the construction of the grammar with an error. The grammar made from lines has them as its entry, and the name and trace options given.",
 [PR],"every nesting of named and unnamed lines, ranks, compiled parsers, callbacks and options",
 "Tests use the common combinations only (no option after a callback, few compiled lines, no bad text).",
 ['line.go','line_o.go','line_i.go','line_named.go','parser_rank.go','joeson_handcompiled.go'],[('lines to rank','parser_rank.go: rankFromLines'),('line to rule','line.go: getRule, lineInit; line_o.go: toRule')])
prop('C18','The two definitions of the grammar notation agree',
 "The hand-compiled grammar of the notation and the textual one define the same language with the same productions: same rules, same structure, names, labels, bounds, literals and character classes, and callbacks that build the same operator from the same arguments, every reference naming an existing rule. The operators documented in the README are each recognised and build the matcher they are documented as.",
 [PR],"every rule text",
 "The bootstrap test compares parses of one text; an operator absent from it may differ between the two.",
 ['joeson_handcompiled.go','joeson_intention.go'],[('hand-compiled','joeson_handcompiled.go: JoesonRules'),('textual','joeson_intention.go: IntentionRules')])
prop('C19','Terminals match only at the current position and advance exactly',
 "On both kinds of stream, matching a string, a regular expression or a rune succeeds only for text that starts exactly at the current position, returns that text, and moves the position to just after it; on a mismatch (including at the end of input) it reports no match and leaves the position alone. Moving on up to an end (GetUntil) stops just after the first place where that end is found, and returns exactly the text moved over. A literal is compared entirely and case-sensitively, and the parser of a literal or of a regular expression yields the matched text or fails accordingly.",
 [I,H],"every position, every needle, any Unicode or invalid UTF-8 text, both streams",
 "Tests use short needles in the middle of short texts; ends of input, longer needles and multi-byte runes are sparse.",
 ['codestream_rune.go','codestream_token.go','parser_str.go','parser_regex.go'],[('matchers','MatchString, MatchRegexp, MatchRune of RuneStream and TokenStream'),('terminal parsers','parser_str.go: str.parse; parser_regex.go: regex.parse')])
prop('C20','Looking at a stream never moves it; positions stay in range',
 "The position of a stream is always between 0 and the length of its text: SetPos refuses anything else by panicking and otherwise sets exactly the given position, and a stream starts at 0. Asking for a line, a column, a number of runes or of lines around the position, the code, a length or a printable description never moves the position and never panics, whatever the position and the arguments.",
 [I,H],"every text, position and argument, both streams",
 "Tests try few arguments; out-of-range lines, the empty text and invalid UTF-8 are not among them.",
 ['codestream_rune.go','codestream_token.go','helpers/helpers.go','helpers/bisect.go'],[('position','SetPos'),('peeking','PeekRunes, PeekLines, Print'),('slicing helpers','helpers: SliceString, LastNRunes')])
prop('C21','Lines and columns are those of the text',
 "The line of a position is the number of newlines before it and its column the number of bytes since the last of them, for every position from the start to the end of the text, on both kinds of stream (in the original text for a token stream). A range of lines peeked around the position is exactly those lines of the text, those beyond either end being left out.",
 [I],"every text and position, including on a newline, after the last one and at the end",
 "Off-by-one errors show only on the newline itself, the first byte after it, or the last line.",
 ['codestream_rune.go','codestream_token.go','helpers/bisect.go'],[('line table','NewRuneStream, NewTokenStream'),('search','helpers: BisectRight; PosToLine, PosToCol')])
prop('C22','Token positions map back to the original text',
 "A position inside the k-th token of a token stream is reported at the place of the original text recorded for that token plus the offset inside the token, for every token including the first and the last (the tokenized text being the tokens laid end to end). Positions, lengths used while parsing and matching refer to the tokenized text, while code, lines, columns and printed excerpts refer to the original text.",
 [I],"every list of tokens and every position",
 "Tests look up a few words of one sample; the last token and the end of the text are not looked up.",
 ['codestream_token.go'],[('mapping','codestream_token.go: coords')])
prop('C23','Tokenizing Go code is faithful and reports scan errors',
 "TokenStreamFromGoCode returns an error, and no stream, if and only if the scanner reported an error anywhere in that source, independently of earlier calls. Otherwise the stream has one token per scanned token, in order, holding its text with its offset in the source and with its offset in the tokenized text equal to the total length of the tokens before it; a word is kept apart from a word before it, in whatever letters it is written.",
 [I,H],"every source text, valid or not, and every sequence of calls",
 "Tests tokenize valid code only; errors and repeated calls are not exercised.",
 ['codestream_token.go'],[('tokenizer','codestream_token.go: TokenStreamFromGoCode')])
prop('C24','Ordered maps keep their keys and values consistent',
 "After any sequence of operations a NativeMap lists each key it holds exactly once, in order of first insertion, and its lookups, emptiness and existence answers agree with the values last set; values set are never lost and absent keys are never reported as present.",
 [H],"every sequence of Set and lookups",
 "One small test exists; overwriting, ordering and emptiness are not tested.",
 ['native_map.go'],[('keys and values','native_map.go')])
prop('C25','Outcomes do not depend on map iteration order',
 "Building the same grammar and parsing the same input gives the same rule numbers, the same results in the same order and the same messages in every run: no outcome depends on the iteration order of a Go map, on time, on randomness or on memory addresses.",
 [H,C],"every run of the same program on the same input",
 "A test run sees one iteration order; a dependency shows up rarely and irreproducibly.",
 ['grammar.go','helpers/mapsorter.go','native_map.go','walk.go'],[('sorted or insertion-ordered keys','helpers: SortStringKeys; rule.go: rulesK')])
prop('C26','Errors of called functions are never dropped',
 "Every error that a called function can report (number conversion, regular expression compilation, tokenizing) is examined before the value that came with it is used, and ends up reported to the caller, as an error, a panic or a ParseError; no failure is silently turned into a value.",
 [I,F],"every call that can fail, every failing argument",
 "Tests hardly pass malformed numbers, expressions or options.",
 ['parser_regex.go','native_int.go','native_map.go','traceoptions.go','codestream_token.go'],[('error checks','each call site')])
prop('C27','Trace configuration follows the documented precedence',
 "When the TRACE (or trace) environment variable is set it alone decides the trace options, each documented word switching on exactly what it names, `line=N` setting the line filter, and an unknown word being refused; when it is not set the given defaults apply. A copy of trace options equals the original in every option and is independent from it, and Mute and Verbose are as documented (`all` being Verbose). With SkipSetup the texts of a grammar are compiled without the Loop and Stack traces, otherwise with the options of the grammar, which are left as they were given. A parse runs with the trace options of its grammar, Debug given to it adding the Stack trace for this parse only.",
 [C],"every value of the environment variable and every set of defaults",
 "Tests run under one environment.",
 ['traceoptions.go','line.go'],[('setup','line.go: getRule'),('environment','traceoptions.go: checkEnvironmentForTraceOptions, TraceOptionsFromEnvironmentOrUse'),('copy','traceoptions.go: Copy')])
prop('C28','Conversions of native values are total and lossless',
 "Converting or concatenating native values keeps everything: the concatenation of an array or map is the concatenation, in order, of its elements (undefined ones contributing nothing), numbers and strings convert back and forth unchanged, and a value that cannot be converted is refused by a panic rather than replaced by a default. A result type that is not supported is never silently ignored.",
 [I],"every nesting of native values",
 "Tests convert a few digits.",
 ['native_array.go','native_map.go','native_int.go','native_string.go'],[('type switches','NativeIntFrom, NativeStringFrom, Concat, GetIntExists, GetStringExists')])
prop('C29','What a callback panics with reaches the caller of the parse unchanged',
 "A callback may stop a parse by panicking with a ParseError (made by ctx.Error), as the README recommends: this value, its message and its context unchanged, reaches the caller of the parse and IsParseError tells it apart. Nothing reachable from a parse recovers from a panic without panicking again with the very same value on every path, runs rules in another goroutine (where a panic could not be recovered), or ends the process or goroutine.",
 [I,'callbacks that panic'],"every callback, rule, and point of a parse where it may panic",
 "Tests have no callback that panics within nested rules.",
 ['packrat.go','grammar.go','parseerror.go'],[('recover, go, exit','everything reachable from ParseString and ParseTokens'),('errors','parseerror.go')])
prop('C30','Native arrays hold what was put in them, in order',
 "Appending puts the element last and leaves those before it as they were, Length counts them, Get and Array give each element at the position where it was put; an array made from a list holds exactly that list, an empty one nothing.",
 [I,'sequences of operations'],"every array, element and position; one step from any array, so any sequence",
 "Tests use short arrays made at once.",
 ['native_array.go'],[('methods','NewNativeArray, NewEmptyNativeArray, Append, Get, Length, Array')])
prop('C31','A lazy value is computed at most once, and only when first asked',
 "A lazy made from a function does not call it before the value is asked; the first Get calls it once and every Get gives that one result; a value given with Set is what Get gives, without calling the function. IsSet is true exactly once there is a value.",
 ['sequences of operations'],"every function, value and order of operations",
 "Tests do not count calls.",
 ['helpers/lazy.go'],[('lazy','LazyFromValue, LazyFromFunc, Get, Set, IsSet')])
# --- not claimable by static analysis
prop('C40','Parsing takes time linear in the input',
 "For a grammar without left recursion, the time taken to parse grows linearly with the length of the input.",
 [PR,I],"every grammar without left recursion, every input length","Tests do not measure time.",['packrat.go'],[('memo table','packrat.go')])
prop('C41','Printing a compiled grammar and compiling it again gives the same grammar',
 "The textual form of a compiled rule, stripped of colours, compiles to a rule that accepts the same inputs with the same results.",
 [PR],"every compiled rule","No test re-parses printed rules.",['parser_*.go'],[('String methods','parser_*.go')])
prop('C42','One grammar can be used by several goroutines',
 "Concurrent parses with one grammar give the results they would give alone.",
 ['schedules'],"every interleaving of parses sharing a grammar","No test is concurrent.",['grammar.go','helpers/lazy.go'],[('per-parse context','parsectx.go')])
prop('C43','The example calculators compute correct values',
 "The arithmetic examples evaluate every expression to its mathematical value with the documented precedence and associativity.",
 [I],"every expression","A few expressions are tested.",['examples/calculator','examples/precedence'],[('callbacks','examples/*')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
