#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

S='src/stream.rs'; A='src/algorithm.rs'; C='src/combinator.rs'; PR='src/primitive.rs'; PA='src/parser.rs'
R='src/recovery.rs'; E='src/error.rs'; L='src/location.rs'; SC='src/scanner.rs'; CO='src/container.rs'; RE='src/recursive.rs'

p('C01','A parser that fails leaves the input exactly where it started',
  'Whenever any parser (primitive, combination, mapped, repeated, recursive or recovering) reports failure, with or without recovery enabled, the input position, the next token and the current location are exactly what they were before that parser ran. Consequently whatever is parsed next, and the remaining tokens handed out after a failed parse, are the complete input from that position.',
  ['programs','inputs','configurations'],'every composition of the library\'s parsers, every token sequence, recovery on and off, at every node of the composition',
  'The tests look at the tail after a failure of a dozen flat two/three-token parsers; they never nest combinators, never fail inside try_map/recovery/separators, and never look at inner nodes.',
  [A,C,PR,S,R],[('save/restore around sequences and repeats',A),('Stream::attempt',S),('ToRecover restore on failed recovery',C),('TryMap restore',C)],
  ['Parser::parse_internal return with Failed','Stream::index/token/location before and after'])
p('C02','The token stream behaves like an array with a cursor',
  'For any sequence of operations on a token stream (peek, advance, advance to an index, save, save at a future index, restore, attempt, drop of saved states, end-of-input queries, token/location/span queries at the cursor or at a saved state), every answer equals that of an immutable array of the source tokens with an integer cursor. In particular any still-held saved state can always be returned to and queried, advancing never moves past the end of input, and end of input is reported consistently for ever after.',
  ['histories','inputs'],'every finite sequence of stream operations, every source length (including empty) and every pattern of held and released saved states',
  'The stream has no tests of its own; the parsers in the tests use inputs of 1-6 tokens, so buffer pruning, far-ahead saved states and repeated end-of-input handling are hardly ever exercised.',
  [S],[('backtrack buffer with pruning',S),('weak backtrack markers',S),('EOF sentinel',S)],
  ['Stream public methods'],[dict(name='buffer/index_in_buffer/index',meaning='window of the source kept for backtracking',where=S)])
p('C03','Streaming needs memory only for the backtracking window',
  'While a token source is consumed, the number of source tokens kept alive by the stream (and the memory it uses) is bounded by a small constant times the largest backtracking window in use so far, that is the distance from the oldest position that may still be returned to up to the furthest token read, however long the input is. Dropping saved states or finishing an item of a streamed parse makes the tokens before them reclaimable.',
  ['histories','inputs'],'every source length, every save/restore/drop history, every streamed grammar whose items are of bounded length',
  'No test measures memory or uses inputs longer than a few tokens; a leak of markers or a pruning that stops working is invisible to result comparison.',
  [S,PA],[('pruning when the buffer is at capacity',S),('weak markers reused',S),('Stream iterator of Parser::stream',PA)],
  ['live token count','allocator live bytes'])
p('C04','Input is pulled lazily and never polled past its end',
  'A parse pulls at most one token beyond the furthest token that had to be inspected to determine its result; later tokens stay in the source untouched, and creating a parser, stream or saved state pulls nothing. Each source item is pulled exactly once and in order no matter how often the parser backtracks, and once the source has returned its end marker it is never polled again.',
  ['programs','inputs','histories'],'every grammar, every input, with and without recovery, streamed or not, for non-fused sources as well',
  'Tests parse from complete in-memory slices, where over-reading, re-reading and polling past the end cannot be observed.',
  [S,PR,A],[('make_next_available',S),('source_at_eof sentinel',S)],['next() calls on the source iterator'])
p('C05','Composed grammars match exactly the ordered-choice language they denote',
  'With recovery out of play, a composed parser succeeds or fails on an input, consumes the number of tokens, and yields the output that the ordered-choice (PEG) reading of its combinators prescribes: sequences run left to right, choices take the first alternative that matches with full backtracking, options never fail, repetition is greedy, and token primitives, end-of-input, literal sequences, ignore/delimit/pad variants and recursive references mean what their names say.',
  ['programs','inputs'],'every well-formed grammar built from the combinators and every token sequence',
  'Each combinator has one test on 2-4 literal inputs; nesting, recursion, backtracking across several tokens and interaction of combinators are untested apart from one JSON and one EBNF example.',
  [A,C,PR,RE],[('concatenate!/concatenate',A),('alternate!/alternate',A),('repeat',A),('primitives',PR)],
  ['Parser::parse','Parser::parse_internal'])
p('C06','Repetition honours its bounds, separators and leading/trailing options',
  'A repeated parser succeeds exactly if at least the minimum number of items can be matched, never yields more than the maximum, matches greedily, and yields the items in order and without separator outputs. Separators are required between items; a separator before the first item is consumed only if leading separators are allowed (then also with zero items); a separator after the last item is consumed only if trailing separators are allowed and at least one item was parsed; otherwise it stays in the input.',
  ['programs','inputs','configurations'],'every combination of minimum, maximum, separator, leading and trailing options over arbitrary item and separator parsers and inputs, with and without recovery',
  'Eight tests use single-token items and separators with at most one option set; combinations of options, multi-token items/separators and failing-in-the-middle cases are not covered.',
  [A,C],[('repeat',A),('SeparatedBy builder methods',C)],['output vector','stream position after the parser'])
p('C07','Enabling recovery never changes the outcome for valid input',
  'For every parser and input, parsing with recovery enabled yields a plain success if and only if parsing without recovery succeeds, and then with the same output and the same number of tokens consumed. Without recovery a result is never a recovered one; a recovered result is only ever produced for input the parser rejects, and recovered and failed results always carry at least one error.',
  ['programs','inputs'],'every grammar with recovery strategies at arbitrary nodes, every input, recovery on versus off',
  'Tests exercise one strategy on a one-token parser; recovery nested under choices, repeats, options and maps is not tested at all.',
  [A,C,R,PA],[('alternate: strict pass first',A),('repeat: recovery accumulation',A),('ToRecover',C),('Result::try_map',PA)],['ParseResult variants'])
p('C08','Every recovered error is reported, in input order',
  'If parts of the input were recovered from and the surrounding parse goes on to a result, then the result is a recovered one and its error list is the concatenation, in the order in which the parts were parsed, of the errors of all recovered parts: none is lost, duplicated or reordered by sequencing, repetition with separators, mapping, optional parts, boxing or recursion.',
  ['programs','inputs'],'every grammar with several recoverable parts and every input that triggers any subset of them',
  'No test has more than one recoverable part, and none checks the content of the error list.',
  [A,C,PA],[('error accumulation in concatenate/repeat',A),('Result::map/try_map',PA)],['ParseResult::Recovered error list'])
p('C09','Choice under recovery prefers valid alternatives, then the one that got furthest',
  'With recovery enabled, a choice first tries every alternative without recovery in the order written and takes the first that matches; only if none does, it tries to recover the alternatives in order of how far each one got into the input (furthest first, ties in the order written), and yields the first recovered result. It fails only if no alternative can be recovered.',
  ['programs','inputs'],'every choice of two or more alternatives, nested or not, with arbitrary recovery strategies, every input',
  'No test uses recovery inside a choice.',
  [A],[('alternate!/alternate',A)],['ParseResult of Or/Alters/OrNot'])
p('C10','A failed choice reports the furthest alternative and merges expectations',
  'When a choice fails, it reports the failure position of the alternative that got furthest into the input (the first written on ties). If that alternative has a single expected/found error, the tokens expected by the other alternatives\' expected/found errors at the same location are merged into it; if it has any other errors, those are reported unchanged; errors of the less far alternatives are never reported instead.',
  ['programs','inputs'],'every nesting of choices over arbitrary alternatives, every failing input',
  'Tests only check that a failed choice is a failure at index 0; no test inspects the merged error or alternatives that got differently far.',
  [A,E],[('alternate!/alternate error combination',A),('merge_expected_found',E)],['ParseResult::Failed index and errors'])
p('C11','Errors pinpoint the offending token',
  'When a parser without choices or recovery fails, the reported failure index is the position of the first token that could not be matched, and the single error names exactly the token(s) the parser that failed there asks for (none for predicates and negative sets), the token actually found (or end of input), and the location or span of that token.',
  ['programs','inputs'],'every sequence/repetition/primitive grammar, every failing input, including failures at end of input',
  'Tests match on the failure index in a handful of flat cases and never look at expected set, found token or location.',
  [PR,A],[('error construction in primitives',PR),('failure propagation in concatenate/repeat',A)],['ParseResult::Failed'])
p('C12','Recovery strategies execute exactly the sequence of steps they spell out',
  'A recovery strategy runs only after its parser failed, from the position where that parser started, and performs its steps in the order written: moving (restart, seek to failure, skip, skip if, find, scan), branching (maybe, while-not), re-parsing (retry or another parser, exactly and/or silently) and error-list edits; the first step that produces a result ends it. Output, input position and error list afterwards are those of that step sequence; a strategy that produces nothing leaves the input at the start position and reports the edited error list with the original failure index.',
  ['programs','inputs'],'every composition of strategy steps over every parser and input',
  'Ten tests use one- or two-step strategies on a one-token parser; errors, failed_at updates, silently/exactly, maybe, try_to_parse and the error-editing steps are not tested at all.',
  [R,C],[('Recover implementations',R),('ToRecover::parse_internal',C)],['ParseResult of a recovering parser','calls received by user-supplied closures'])
p('C13','Delimiter scanning matches nested delimiters and reports every mismatch',
  'Scanning for nested delimiters over any token sequence stops before the right delimiter that closes the first left delimiter, before the token at which no delimiter is open any more, or at end of input; along the way inner right delimiters close the innermost open delimiter of their type, every open delimiter skipped that way or left open at end of input is reported once as unmatched (innermost first) with its own token and span, and a right delimiter with no open partner is reported as a mismatch closing the innermost open one (or, if nothing is open, as unmatched). A user-supplied scanner sees each token in order with its span until it says stop, or end of input exactly once.',
  ['inputs','configurations'],'every set of delimiter pairs (including equal left and right delimiters) and every token sequence',
  'One test checks only the stop position on six short inputs, and no errors.',
  [SC,R],[('NestedDelimiters::handle_token',SC),('Scan recovery step',R)],['Scanner::scan/eof','error list'])
p('C14','Spans and locations denote exactly the matched part of the input',
  'Every span handed to mapping functions, recovery functions or errors runs from the first to just past the last token of the part it describes (and is empty for parts that match nothing), and every location is that of the token it describes, in token indices as well as in the coordinates of the location tracker: file name, 1-based row and column, and byte offset as obtained by advancing the tracker once over each preceding token from the given start location. Backtracking, lookahead, recovery and streaming do not disturb this.',
  ['programs','inputs','configurations'],'every grammar, input, tracker (simple, row/column, user-defined) and start location',
  'Span tests cover one-token spans at position 0 with the trivial tracker; the row/column tracker is never used with multi-line or multi-byte tokens or non-default start locations.',
  [S,L,C,R],[('location stored with each buffered token',S),('Rich tracker',L),('map_with_span',C)],['spans and locations passed to closures and errors'])
p('C15','A streamed parse equals repeated parsing of what is left',
  'Each item produced by a streamed parse equals the result of a recovering parse of exactly the tokens left by the previous item (with positions counted from the start of the source); the stream ends exactly when the input is exhausted, and the tail taken at any moment yields exactly the remaining tokens in order. No source token is lost, duplicated or reordered across items and tail.',
  ['programs','inputs'],'every grammar, every input, every number of items taken before the tail is requested',
  'Tests take one item and the tail of inputs of at most five tokens.',
  [PA,S],[('Stream::next',PA),('Tail::next',PA)],['items and tail of Parser::stream'])
p('C16','Boxing, cloning, recursion wrappers and reuse never change behaviour',
  'Boxing or cloning a parser or a recovery strategy, annotating its error type, writing a strategy with its shorthand, or reaching a parser through a recursive reference yields a parser with identical results on every input. Parsers are immutable: using one any number of times, interleaved on different inputs and nested in itself, gives the same result each time for the same input.',
  ['programs','inputs','histories'],'every grammar, every placement of wrappers, every interleaving of uses',
  'Tests clone or box a parser once and run it on two inputs.',
  [C,RE,R],[('Boxed',C),('WithError',C),('Recursive',RE),('strategy Boxed and shorthand functions',R)],['results of structurally equivalent parsers'])
p('C17','Mapping functions see exactly the matched value and may turn it into errors',
  'Output maps are applied to the child\'s value once per successful or recovered match and never on failure; error maps are applied to each error in order and never to outputs. A fallible map that accepts keeps success a success and a recovered result recovered with all earlier errors; one that rejects turns the result into a failure at the start of the part with the child\'s errors followed by its own; one that recovers gives a recovered result if recovery is enabled and otherwise fails with its errors.',
  ['programs','inputs'],'every child parser, mapping behaviour, input and recovery mode',
  'The source itself says "TODO map_err, map_err_with_span, try_map" at the tests; none exist.',
  [C,PA],[('TryMap',C),('MapErr/MapErrWithSpan',C),('Result::try_map',PA)],['closure calls','ParseResult'])
p('C18','All entry points and result conversions agree',
  'For every parser and source, the plain, with-recovery, with-location and streaming entry points agree with each other: plain parsing returns the output for a success and otherwise exactly the first error of the recovering parse, the default-location variants equal the with-location variants at the default location, and the streaming variant\'s first item is the recovering parse\'s result. The result accessors (is-ok, tree, errors, map, map-err, try-map, conversion to a standard result) preserve variant, output, failure index and the full ordered error list.',
  ['programs','inputs'],'every grammar and input through every entry point, and every result value through every accessor',
  'Tests use parse or stream on a few inputs and never compare entry points or exercise the accessors.',
  [PA],[('Parser provided methods',PA),('impl Result',PA)],['public entry points'])
p('C19','Equal token containers are interchangeable',
  'Literal sequences, one-of and none-of behave identically (match, output token, consumption, errors) whichever container type holds the same tokens: string, string slice, array, slice, vector, references to these by clone or by reference, or a single token; the container is traversed in order from first to last item each time and its length and duplicates carry through.',
  ['inputs','configurations'],'every token list held in every supported container type, every input',
  'Tests use one array type each; strings, vectors, slices and by-clone references are never compared.',
  [CO,PR],[('Container impls',CO),('Seq/OneOf/NoneOf',PR)],['ParseResult','Container::get_iter'])
p('C20','Rendered error messages state exactly what the error contains',
  'The text of every error names each expected token once (with "EOF" for end of input), the found token or EOF, and the location (file, row, column) it is attached to, in the fixed grammatical form for zero, one, two or more expectations; delimiter errors name both tokens/positions involved; custom messages appear verbatim; unknown locations add nothing. Errors built through the public constructors report back the same location, kind and contents they were built from.',
  ['inputs'],'every error value: kind, expected set, found token, location kind and token text',
  'No test ever renders an error.',
  [E,L],[('Display for Simple/At',E),('Display for Rich*',L),('Error constructors',E)],['Display output','Error trait accessors'])
p('C21','The parse outcome does not depend on the error or location type',
  'For the same grammar and input, every error type and location tracker (detailed, discarding, user-defined) gives the same kind of result, output, consumed tokens, failure index and number of errors; error and location types only change what is recorded about errors.',
  ['programs','inputs','configurations'],'every grammar and input over the built-in and user-defined error and tracker types',
  'All tests but one use the default error and tracker; the discarding error type and user-defined types are never compared with it.',
  [E,L,A,PR],[('Error trait abstraction',E),('Void',E),('Tracker',L)],['ParseResult across instantiations'])
p('C22','Parsing is total and scales: no panics, hangs or blow-ups',
  'Every well-formed grammar (no left recursion, no unbounded repetition of an empty match) terminates without panicking on every input, recovery on or off. For backtracking-free grammars the number of token inspections grows linearly with the input length, for long flat inputs as well as for deep nesting (with recovery enabled on broken nesting: at most quadratically with the depth).',
  ['programs','inputs'],'every well-formed grammar and every input, including long and deeply nested ones',
  'Tests use inputs of a few tokens; internal assertions and unreachable branches are only reached by combinations the tests do not contain.',
  [A,S,R,C],[('unreachable!/assert! guards',A),('buffer asserts',S)],['panics, token comparisons, source polls'])
p('C23','The EBNF tool chain: generated parser and reference parser agree',
  'For every EBNF text, the generated parser (tokenizer plus grammar, produced from the self-specification) accepts exactly the texts the specification\'s grammar describes and builds the corresponding tree, whether the text is parsed by the generated code or by the bootstrap implementation; regenerating the parser from the self-specification reproduces the checked-in generated code.',
  ['inputs','programs'],'every EBNF text over the self-specified syntax, including malformed ones',
  'A single test parses the self-specification with the generated parser and only checks that there are no errors.',
  ['src/test_pangram.rs','pangram/bootstrap.py','pangram/self-spec.ebnf'],[('generated tokenizer and parser','src/test_pangram.rs'),('bootstrap parser and generator','pangram/bootstrap.py')],['parse tree','token list','generated file'])
p('C24','Parsing is memory-safe and releases everything it took',
  'No parse, recovery, streaming or stream manipulation performs an invalid memory access, and every token and error taken from the source or created during parsing is released exactly once: after the results, the stream and its saved states are gone, no token and no memory allocated on behalf of the parse remains, also when the parse is abandoned half-way or a user closure panics.',
  ['programs','inputs','histories'],'every grammar, input and abandonment point',
  'Tests never count drops, never abandon a parse and are not run under a sanitizer.',
  [S,A,PA],[('Rc/Weak markers',S),('buffer ownership',S)],['live token count, live bytes, AddressSanitizer/LeakSanitizer/Miri reports'])
p('C25','Realistic language front ends built with the library parse correctly',
  'Grammars for practical languages written with the library (JSON-like documents with string escapes and numbers, operator-precedence arithmetic, nested lists with recovery, statement lists with separators) accept exactly their language, build the right values, and with delimiter-based recovery keep all correct siblings of a broken element while reporting at least one error located inside or at the end of the broken element.',
  ['inputs'],'every valid document of the languages and every document obtained by local corruption',
  'One JSON example test parses a single document.',
  [A,C,PR,R,RE],[('combinators in realistic composition','src/test_json.rs')],['values and errors compared with independent recursive-descent oracles'])
json_lines = "\n".join(json.dumps(x, ensure_ascii=False) for x in P) + "\n"
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w").write(json_lines)
