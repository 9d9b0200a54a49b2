#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as one script so that the text can be edited readably)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Composed parsers mean what LL(1) recursive descent with commit means",
"For every grammar built from the library's token, sequencing, choice, optional, lookahead, attempt and transforming combinators, and every complete input, parsing succeeds or fails, returns the value, leaves the remaining input and reports committed or uncommitted exactly as an ordered-choice recursive-descent reading of the grammar does: sequences run left to right, a choice takes its first alternative that does not fail uncommitted, and a failure after input was consumed is final unless wrapped in attempt.",
["programs","inputs"],"every finite composition of these combinators (including the tuple, slice, array and macro forms) and every finite token sequence",
"The unit tests fix a few dozen hand-picked compositions and inputs; the meaning of a combinator depends on which commit status its neighbours report, and the number of compositions is unbounded.",
["src/parser/sequence.rs","src/parser/choice.rs","src/parser/combinator.rs","src/parser/token.rs","src/parser/char.rs","src/parser/mod.rs"],
[("tuple_parser!","src/parser/sequence.rs"),("do_choice! / slice_parse_mode","src/parser/choice.rs"),("Try, LookAhead, NotFollowedBy, AndThen, FlatMap","src/parser/combinator.rs"),("ParseResult, Commit","src/error.rs")],
["Parser::parse_stream result","remaining input"])

p("C02","Repetition combinators collect exactly what their definition says",
"For every element, separator, operator and terminator parser and every complete input, many, many1, count, count_min_max, sep_by, sep_end_by, chainl1, chainr1, take_until, repeat_until, escaped, iterate and their skipping forms yield exactly the elements, in order and with the fold direction, bounds and minimum counts their documentation defines, leave the input right after what they matched, and fail (committed if anything was consumed) otherwise.",
["programs","inputs"],"every element/separator/terminator grammar that consumes input, every bound, and every finite input",
"Tests cover single-token elements with a handful of counts; off-by-one bounds, trailing separators, elements that fail half-way and nested repetitions form an unbounded space.",
["src/parser/repeat.rs","src/parser/sequence.rs"],
[("Iter, Many, Many1, CountMinMax","src/parser/repeat.rs"),("SepBy1, SepEndBy1, Chainl1, Chainr1","src/parser/repeat.rs"),("TakeUntil, RepeatUntil, Escaped, Iterate","src/parser/repeat.rs")],
["Parser::parse_stream result","remaining input"])

p("C03","A parser that backtracks leaves the stream exactly where it started",
"Whenever a parser fails without committing, or succeeds as pure lookahead, parsing afterwards continues at exactly the token, source position and range start it would have continued from had that parser never run; this holds for attempt, look_ahead, not_followed_by, optional, failed choice alternatives and the last failed iteration of a repetition, on every resettable stream kind.",
["programs","inputs","configurations"],"every grammar with backtracking points, every input, and every resettable stream adapter (slices, strings, position, state, span, buffered iterators and readers, easy errors, partial wrappers)",
"Tests use backtracking mostly on plain &str, where a missed reset of a wrapper's position or of a buffer index is not visible.",
["src/parser/combinator.rs","src/parser/choice.rs","src/parser/repeat.rs","src/stream/mod.rs","src/stream/position.rs","src/stream/buffered.rs","src/stream/state.rs"],
[("ResetStream::checkpoint/reset","src/stream/mod.rs"),("position::Stream reset","src/stream/position.rs"),("buffered::Stream reset","src/stream/buffered.rs")],
["tokens and positions parsed after the backtracking point"])

p("C04","Resumed partial parsing is independent of where the input was cut",
"For every parser composed of combinators that support partial parsing, feeding an input in any number of chunks cut anywhere, resuming with the saved state after each end of input, produces the same final value, the same total consumption and the same success or failure as feeding it in one piece, and a suspended parser only ever asks for more input.",
["programs","inputs","schedules"],"every resumable grammar, every input, and every way of cutting it into chunks, including cuts inside multi-byte characters for byte-fed string decoding and empty chunks",
"The existing partial tests try a handful of grammars; each resumable combinator has a hand-written state machine whose correctness depends on the cut falling at any of its internal states.",
["src/parser/mod.rs","src/parser/sequence.rs","src/parser/choice.rs","src/parser/repeat.rs","src/parser/combinator.rs","src/parser/range.rs","src/stream/mod.rs"],
[("PartialState / ParseMode","src/parser/mod.rs"),("SequenceState","src/parser/sequence.rs"),("decode","src/stream/mod.rs"),("MaybePartialStream, PartialStream","src/stream/mod.rs")],
["stream::decode return value after each chunk"],
[("PartialState","progress of a suspended parser","associated type of Parser")])

p("C05","Decoders deliver every byte of a reader exactly once, whatever the I/O does",
"For every sequence of messages written to a byte source, decoding the source message by message through the decoder macros (blocking, tokio and futures variants, buffered and unbuffered) yields exactly the same messages as parsing the concatenated bytes, whatever sizes the reads return, however often the source is not ready, is interrupted or returns a transient error that the caller retries; a truncated or malformed source is reported as an error and never as a message.",
["inputs","schedules","fault_sequences"],"every message sequence, every sequence of read sizes, pending polls, interruptions and I/O errors, and every decoder variant",
"The async tests replay a few quickcheck'd read splits for three grammars without I/O errors; they do not compare the variants with each other nor retry after errors.",
["src/stream/mod.rs","src/stream/decoder.rs","src/stream/buf_reader.rs","src/future_ext.rs"],
[("decode!, decode_tokio!, decode_futures_03!","src/stream/mod.rs"),("Decoder, before_parse, advance","src/stream/decoder.rs"),("Buffer, Bufferless, CombineRead","src/stream/buf_reader.rs")],
["values returned by the decode macros","Decoder::position, Decoder::buffer"],
[("Decoder","buffered bytes, parse position and saved partial state","src/stream/decoder.rs")])

p("C06","BufReader hands out the underlying bytes in order, exactly once",
"For every sequence of buffered and unbuffered reads, fill, consume and parse operations on the library's buffered reader, over any read-size and error behaviour of the source, the bytes observed by the caller are exactly the source's bytes in order with none lost, duplicated or altered, and end of file is reported only at the end of the source.",
["histories","fault_sequences","schedules"],"every operation history on BufReader through its std, tokio and futures read interfaces and every source behaviour",
"No existing test drives BufReader directly; only whole decode runs exercise it.",
["src/stream/buf_reader.rs"],
[("BufReader, Buffer, Bufferless","src/stream/buf_reader.rs"),("extend_buf, advance","src/stream/buf_reader.rs")],
["bytes returned by read/fill_buf/poll_read/poll_fill_buf","BufReader::buffer"],
[("BufReader.buf","bytes read ahead of the caller","src/stream/buf_reader.rs")])

p("C07","The kind of stream does not change what a grammar accepts or returns",
"For every grammar and every input, parsing the same tokens through a string, a slice, an iterator or reader behind a sufficiently large lookahead buffer, with or without position tracking, spans, user state, easy errors or a complete partial wrapper, gives the same success or failure, the same value, and the same number of tokens left.",
["programs","inputs","configurations"],"every grammar of non-range parsers, every input and every stream adapter stack",
"Tests run each grammar on one or two stream kinds.",
["src/stream/mod.rs","src/stream/buffered.rs","src/stream/position.rs","src/stream/state.rs","src/stream/span.rs","src/stream/read.rs","src/stream/easy.rs"],
[("StreamOnce implementations","src/stream/*.rs"),("read::Stream, IteratorStream","src/stream/read.rs, src/stream/mod.rs")],
["parse result and remaining tokens per stream kind"])

p("C08","Stream operations obey the slice model, and checkpoints restore it",
"For every sequence of token, range, predicate-range, checkpoint and reset operations on a resettable range stream, each operation returns what the corresponding operation on the underlying slice returns, consumes exactly what it returned, fails with end of input exactly when the slice is too short, reports distances equal to the amount consumed since the checkpoint, and after a reset behaves as it did when the checkpoint was taken.",
["histories","inputs","configurations"],"every operation sequence, every input and every range stream type and adapter",
"The stream traits have almost no direct tests; misbehaviour at empty input, multi-byte characters, predicate matching to the end, or nested checkpoints only shows for particular histories.",
["src/stream/mod.rs","src/stream/position.rs","src/stream/easy.rs","src/stream/state.rs","src/stream/span.rs"],
[("StreamOnce, RangeStreamOnce, ResetStream, FullRangeStream","src/stream/mod.rs"),("slice_uncons_while, slice_uncons_while1","src/stream/mod.rs")],
["values returned by uncons, uncons_range, uncons_while, uncons_while1, distance, range, is_partial"])

p("C09","Zero-copy range parsers equal their token-by-token counterparts",
"For every input, each range parser (range, take, take_while, take_while1, take_until_range, take_fn, recognize, recognize_with_value, length-prefixed takes) succeeds, fails, consumes and commits exactly as the obvious token-by-token parser would, and the range it returns is the very subslice of the input that it consumed.",
["inputs","programs"],"every input string, byte slice and token slice, every predicate, length and needle, and every position in the input; recognised grammars of any shape",
"The tests check a few literals on short ASCII inputs.",
["src/parser/range.rs","src/stream/mod.rs"],
[("take_while, take_while1, take, range, take_until_range, take_fn, recognize","src/parser/range.rs")],
["returned range pointer and length","remaining input"])

p("C10","Reported positions follow the tokens consumed",
"For every input and every mix of token-wise, range and repeated parsers with backtracking, the position reported at any point and in any error depends only on the tokens consumed before it: line and column for text (a new line starts after each newline character, columns count characters), the count for indexes, and the byte offset for pointer based positions after translation to the start of the input.",
["inputs","programs","histories"],"every input (including multi-byte characters, lone carriage returns and newlines inside ranges), every consumption pattern, every positioner",
"Tests check positions for a few ASCII texts consumed token by token.",
["src/stream/position.rs","src/stream/mod.rs","src/stream/span.rs"],
[("SourcePosition::update, update_range, IndexPositioner","src/stream/position.rs"),("PointerOffset::translate_position","src/stream/mod.rs")],
["position() parser, Positioned::position, ParseError::position"])

p("C11","The lookahead buffer is exact inside its limit and never silently wrong outside",
"For every sequence of reads, checkpoints and resets on a buffered stream with lookahead n, a reset to a checkpoint at most n tokens back replays exactly the original tokens and positions, and a reset further back is reported as an error rather than yielding wrong tokens; the end of input and input errors are reproduced at the same place.",
["histories","configurations"],"every read/checkpoint/reset history, every lookahead size including zero, every input length",
"Two tests try one lookahead size with one backtrack each.",
["src/stream/buffered.rs"],
[("buffered::Stream uncons/reset","src/stream/buffered.rs")],
["tokens, positions and errors returned after reset"],
[("offset, buffer_offset, buffer","read cursor, absolute token count and retained window","src/stream/buffered.rs")])

p("C12","A parse error points at the right place and names the right alternatives",
"For every grammar and every rejected input, the reported error lies at the furthest position at which the failing parser, or one of its alternatives, stopped; it names as unexpected the token (or end of input) found there, lists as expected everything that the failing parser and its alternatives needed there and what the parsers left just before it without consuming would have taken, lists nothing that belongs to parsers not tried there (or at the start of an attempt that got further), and lists nothing twice; labels replace the expectations of the parser they wrap where it has not consumed anything, silencing hides them, and messages are kept.",
["programs","inputs"],"every grammar built from labelled and unlabelled terminals, sequences, ordered choices, attempts, optionals and repetitions, and every rejected input",
"Expected-set bookkeeping is lazy and index based, so correctness depends on how many parsers precede the failure at each nesting level; tests check a few dozen exact error messages.",
["src/error.rs","src/parser/sequence.rs","src/parser/choice.rs","src/parser/error.rs","src/parser/mod.rs","src/stream/easy.rs"],
[("add_error, add_committed_expected_error, ErrorOffset, parser_count","src/parser/*.rs"),("Errors::merge, set_expected","src/stream/easy.rs")],
["easy::Errors returned by easy_parse"])

p("C13","Error values combine, convert and display without losing or adding information",
"For all error values: merging keeps the one at the later position, or the union without duplicates when the positions are equal; adding an equal error twice changes nothing; mapping or converting tokens, ranges, positions or error types keeps each error's kind (unexpected, expected, message, end of input), text and order, an error of another type becoming a message with its text; the cheap error types keep what they can tell apart (end of input, input error, character boundary) whatever is added; and the displayed text lists every distinct error under its own heading.",
["inputs"],"all lists of errors of every kind, with tokens, ranges, owned and static texts, at all positions",
"Tests check single examples of formatting and merging.",
["src/stream/easy.rs","src/error.rs"],
[("Errors::merge, add_error, map_*, Display","src/stream/easy.rs"),("StreamError/ParseError into_other, StringStreamError, UnexpectedParse, Tracked","src/error.rs")],
["easy::Errors contents and Display output"])

p("C14","The error type chosen does not influence the outcome of a parse",
"For every grammar and input, parsing with rich error reporting, with the cheap built-in error types, or through lazily collected errors gives the same success or failure, value, commit status and remaining input, and all that report a position for a failure agree with the furthest position rule.",
["programs","inputs","configurations"],"every grammar and input, for each error type in the library",
"Tests use easy_parse or parse for a given grammar, rarely both, and never compare.",
["src/error.rs","src/stream/easy.rs","src/parser/mod.rs"],
[("ParseError implementations for easy::Errors, StringStreamError, UnexpectedParse","src/error.rs, src/stream/easy.rs"),("parse_lazy / parse_stream","src/parser/mod.rs")],
["Parser::parse_stream result per error type"])

p("C15","Binary number parsers decode exactly the bytes they consume",
"For every number and every byte order, parsing the bytes of its standard encoding yields that number bit for bit and consumes exactly its width, fewer bytes fail with end of input without consuming, and trailing bytes are untouched, on complete as well as incrementally fed input.",
["inputs","schedules"],"all integer and float types, both byte orders and native order, all bit patterns, all cuts of the input",
"One test per type with a fixed value.",
["src/parser/byte.rs"],
[("num module macros, Endianness","src/parser/byte.rs")],
["parsed value and remaining bytes"])

p("C16","Delimiter searches stop at the first occurrence, in any chunking",
"For every input and delimiter, the parsers that take input up to a byte, one of two or three bytes, a byte sequence or a range return exactly the input before the first occurrence and leave the delimiter unread; without an occurrence they report end of input on complete input and wait for more on partial input, and cutting the input anywhere, including inside the delimiter or a multi-byte character, does not change the result.",
["inputs","schedules"],"all inputs, all delimiters including self-overlapping and absent ones, byte and string streams, all cuts",
"Tests search a couple of fixed needles in one complete input.",
["src/parser/byte.rs","src/parser/range.rs"],
[("take_until_byte, take_until_byte2, take_until_byte3, take_until_bytes","src/parser/byte.rs"),("TakeFn, TakeUntilRange","src/parser/range.rs")],
["returned range and remaining input"])

p("C17","Regex parsers agree with the regex engine on the remaining input",
"For every supported pattern and every input position, match_ succeeds, taking nothing and giving all the remaining input, exactly if the engine finds a match in the remaining input, find and its capturing and repeating forms return exactly the engine's ranges for the remaining input, and the input consumed ends where the engine's match (or last match) ends, for string and byte regexes alike.",
["inputs","programs"],"all patterns over a small alphabet including anchors, empty matches and groups, and all inputs",
"Tests use three fixed patterns.",
["src/parser/regex.rs"],
[("Regex trait implementations, match_, find, find_many, captures, captures_many","src/parser/regex.rs")],
["returned ranges and remaining input"])

p("C18","Token class and literal parsers accept exactly their documented set",
"For every character and every byte, each class parser (digit, letter, space, newline, tab, upper, lower, alpha-numeric, hex, octal and the CRLF parser) succeeds exactly on the tokens its documented predicate accepts and consumes exactly one token (or the two of CRLF); literal parsers (token, tokens, string, string_cmp, bytes, bytes_cmp, one_of, none_of) accept exactly the matching prefix.",
["inputs"],"all Unicode scalar values, all bytes, all literals and inputs",
"Each class is tested on one or two characters.",
["src/parser/char.rs","src/parser/byte.rs","src/parser/token.rs"],
[("char::* and byte::* parsers","src/parser/char.rs, src/parser/byte.rs"),("tokens, tokens_cmp, one_of, none_of","src/parser/token.rs")],
["success and consumption per token"])

p("C19","Wrapping a parser does not change what it does",
"For every parser and input, running it through any of the library's transparent wrappers - boxing, mutable reference, the parser-definition macro, opaque and lazy parsers, factories, either, dispatch, explicit partial-state erasure, no-partial, struct and sequence macros, spanned-error wrapper - gives the same result, value, remaining input, commit status and reported error as the parser itself (the spanned-error wrapper only widens the position of an error to the span from where the parser started).",
["programs","inputs","configurations"],"every grammar, every input, every wrapper at any node, complete and partial",
"Tests check that wrapped parsers compile and parse one input.",
["src/parser/mod.rs","src/parser/combinator.rs","src/parser/function.rs","src/parser/choice.rs","src/parser/sequence.rs","src/parser/error.rs","src/lib.rs"],
[("forward_parser!, parser!, opaque!, dispatch!, struct_parser!","src/lib.rs, src/parser/*.rs"),("AnyPartialState*, Lazy, Factory, Either, NoPartial","src/parser/combinator.rs")],
["Parser::parse_stream result and easy errors with and without the wrapper"])

p("C20","A parser value carries no memory from one parse to the next",
"For every parser and every sequence of inputs, running one parser value over the inputs one after another - including after failures and after abandoned partial parses started with fresh state - gives for each input the result a newly built parser gives, and a resumable state left behind by a completed parse or a failed alternative does not influence the next use.",
["programs","histories"],"every grammar, every sequence of inputs, complete and partial",
"Tests build a new parser per input.",
["src/parser/mod.rs","src/parser/repeat.rs","src/parser/combinator.rs","src/parser/choice.rs","src/parser/sequence.rs"],
[("PartialState reset on completion","src/parser/*.rs"),("Factory, Iterate, Lazy","src/parser/combinator.rs, src/parser/repeat.rs")],
["parse results of consecutive runs"])

p("C21","All ways of running a parser agree, and results compose lawfully",
"For every parser and input, parse, easy_parse, parse_stream, parsing with explicit state, iterating with iter and partial_iter, and running through a mutable borrow agree on success, value, remaining input and commit status; and mapping, chaining, merging and converting parse results and commit values keep the value and treat the whole as committed exactly when some part was.",
["programs","inputs"],"every grammar and input through every entry point; all combinations of result and commit values",
"Entry points are tested separately on different grammars.",
["src/parser/mod.rs","src/error.rs","src/parser/repeat.rs"],
[("Parser::parse, parse_stream, parse_with_state, iter, partial_iter; EasyParser","src/parser/mod.rs"),("Commit::map/merge/combine, ParseResult::map/and_then/or_else","src/error.rs")],
["results of each entry point"])

p("C22","Parsing arbitrary input neither panics nor runs forever",
"For every grammar whose repeated parsers consume input, of any width and nesting depth, and every input, complete or partial, well formed or not, on every stream kind, parsing terminates with a result and does not panic, also with debug assertions and overflow checks enabled.",
["programs","inputs","configurations"],"every grammar without empty repetition, including sequences of hundreds of parsers, any input, any chunking",
"Tests see only inputs their author thought of; internal counters and debug assertions trip only for large or oddly resumed grammars.",
["src/parser/sequence.rs","src/parser/repeat.rs","src/parser/combinator.rs","src/stream/mod.rs","src/error.rs"],
[("ErrorOffset arithmetic, parser_count","src/parser/sequence.rs"),("unreachable!/unwrap/debug_assert sites","src/parser/*.rs")],
["panics and running time"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
