#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))

p("C01", "Parsing a string yields exactly the tokens of Rust's lexical grammar",
  "Parsing a string into a token stream succeeds exactly when the string is a sequence of well-formed Rust tokens, whitespace and comments with balanced delimiters. On success the stream contains, in source order, exactly the tokens the grammar assigns to that text: their kinds, their exact spelling, the joint/alone spacing of punctuation, and the nesting of delimiters.",
  ["inputs"], "every Unicode string",
  "The tests parse a few dozen hand-picked strings; the lexer's case analysis (number/exponent/range ambiguities, escapes per literal kind, raw-string hashes, lifetimes versus characters, raw identifiers, comment starts versus operators) has far more combinations.",
  ["src/parse.rs", "src/fallback.rs"],
  [("main loop with explicit delimiter stack", "src/parse.rs token_stream"), ("literal before punct before ident", "src/parse.rs leaf_token"), ("literal scanners", "src/parse.rs string..digits"), ("lifetime rule", "src/parse.rs punct")],
  [("delimiter stack", "open groups and tokens gathered so far", "src/parse.rs token_stream")],
  ["TokenStream::from_str", "IntoIterator for TokenStream"])

p("C02", "Parsing, cloning, iterating and dropping are total at any size and nesting depth",
  "Parsing any string as a token stream or as a literal always comes back with a value or an error: it never panics, aborts, hangs or exhausts the stack, however long the text or deep the nesting. The same holds for cloning, iterating over, extending and dropping any stream so obtained, whatever parts of it are still shared.",
  ["inputs", "histories"], "every string, including malformed, truncated and extremely nested ones, and every order of releasing the handles on the result",
  "Tests try one deep nesting and a handful of malformed inputs; a slice at a non-boundary, an underflow at end of input or one recursive path only shows on particular inputs or particular sharing.",
  ["src/parse.rs", "src/fallback.rs", "src/rcvec.rs"],
  [("explicit stack instead of recursion", "src/parse.rs token_stream"), ("non-recursive Drop", "src/fallback.rs impl Drop for TokenStream"), ("char-boundary aware cursor", "src/parse.rs Cursor::advance")],
  observe=["TokenStream::from_str", "Literal::from_str", "drop of TokenStream/Group/IntoIter"])

p("C03", "Printing a stream and parsing the text gives the same stream back",
  "For every token stream obtained by parsing, its printed text parses again, and to an equal stream: same tokens, spelling, spacing and delimiters (locations aside). The same holds for every stream assembled by hand without invisible delimiters in which joint punctuation is followed by something it can be glued to.",
  ["inputs", "programs"], "every parseable string, and every hand-built stream of valid tokens meeting the stated condition",
  "Tests round-trip a few fixed strings; losslessness depends on every adjacent pair of token kinds and on every literal spelling.",
  ["src/fallback.rs", "src/parse.rs", "src/lib.rs"],
  [("stream printer", "src/fallback.rs impl Display for TokenStream"), ("group printer", "src/fallback.rs impl Display for Group"), ("lexer", "src/parse.rs")],
  observe=["Display for TokenStream", "TokenStream::from_str"])

p("C04", "The printed form of a stream is the canonical one and depends on tokens only",
  "Outside a procedural macro, printing a stream writes its tokens' exact spellings in order with one space between neighbours, except none after joint punctuation; parentheses and brackets hug their content, non-empty braces are padded by one space on each side, empty braces print as \"{ }\", and invisible delimiters print nothing. The text depends only on the tokens: not on locations, on how the stream was assembled or shared, or on the formatting options of the caller.",
  ["inputs", "programs"], "every stream, nested and shared in any way",
  "Tests compare a few outputs; they do not cover combinations of nesting, emptiness, spacing and sharing.",
  ["src/fallback.rs"],
  [("space/joint rule", "src/fallback.rs impl Display for TokenStream"), ("delimiter rule", "src/fallback.rs impl Display for Group")],
  observe=["Display for TokenStream", "Display for Group", "Display for TokenTree"])

p("C05", "Ordinary comments and whitespace vanish; doc comments become doc attributes",
  "Whitespace and non-doc comments, nested block comments included, never contribute a token and separate the tokens around them. Every doc comment becomes exactly the tokens of #[doc = \"...\"] (outer) or #![doc = \"...\"] (inner), all located at the comment, whose string value is exactly the comment text between its markers; a bare carriage return in a doc comment and an unterminated block comment are errors.",
  ["inputs"], "every source text containing comments, with any nesting, line endings, escapes and non-ASCII text inside them",
  "tests/comments.rs has eight fixed cases.",
  ["src/parse.rs", "src/fallback.rs"],
  [("trivia skipping", "src/parse.rs skip_whitespace"), ("block comment scanner", "src/parse.rs block_comment"), ("doc comment desugaring", "src/parse.rs doc_comment, doc_comment_contents, take_until_newline_or_eof")],
  observe=["TokenStream::from_str"])

p("C06", "Parsing a literal accepts exactly one literal and keeps its spelling",
  "Parsing a string as a literal succeeds exactly when the whole string is one Rust literal (with optional suffix), or a minus sign directly followed by a numeric literal; no surrounding whitespace, comment or second token is tolerated. The resulting literal prints exactly as it was written, and as a single token it lexes the same way in a stream.",
  ["inputs"], "every string",
  "Tests try a dozen literals; acceptance is a language-equality question over all strings.",
  ["src/fallback.rs", "src/parse.rs"],
  [("whole-string check and minus rule", "src/fallback.rs Literal::from_str_checked"), ("literal grammar", "src/parse.rs literal_nocapture")],
  observe=["Literal::from_str", "Display for Literal"])

p("C07", "A literal built from a value denotes exactly that value",
  "A literal built from a string, character, byte, byte string, C string, integer or finite float is one well-formed literal of the matching kind (with exactly the type suffix asked for) whose value under Rust's literal rules is exactly the argument; unsuffixed floats are recognisable as floats. Non-finite floats are refused. Put into a stream, a negative number appears as a minus sign followed by the number.",
  ["inputs"], "every string, char, byte sequence, C string, every value of every integer type, every finite float",
  "Tests sample a few values; escaping must be right for every character in every context (e.g. a NUL before a digit, invalid UTF-8 at any offset).",
  ["src/fallback.rs", "src/lib.rs"],
  [("string escaping", "src/fallback.rs escape_utf8"), ("byte/byte-string/C-string escaping", "src/fallback.rs Literal::byte_character, byte_string, c_string"), ("number formatting", "src/fallback.rs suffixed_numbers, unsuffixed_numbers, f32_unsuffixed, f64_unsuffixed"), ("minus splitting", "src/fallback.rs push_token_from_proc_macro")],
  observe=["Literal constructors", "Display for Literal", "Extend/FromIterator for TokenStream"])

p("C08", "Reading the value of a string literal decodes its spelling exactly",
  "Asking a literal for its string, byte-string or C-string value gives exactly the sequence of characters or bytes its spelling denotes under Rust's escape rules (C strings with one terminating NUL), for cooked and raw spellings alike. Any literal of another kind, or with a suffix, is reported as being of the wrong kind, never decoded to something.",
  ["inputs"], "every string, byte string and C string literal spelling without raw carriage returns, and every literal of any other kind",
  "Existing tests decode a few literals; escapes, line continuations, high bytes and Unicode escapes combine without bound.",
  ["src/lib.rs", "src/rustc_literal_escaper.rs", "src/num.rs"],
  [("value accessors", "src/lib.rs Literal::str_value, cstr_value, byte_str_value, get_raw"), ("unescaping", "src/rustc_literal_escaper.rs Unescape")],
  observe=["Literal::str_value", "Literal::byte_str_value", "Literal::cstr_value"])

p("C09", "Exactly the valid Rust identifiers can be constructed",
  "Constructing an identifier succeeds exactly for non-empty strings whose first character is an underscore or has the XID_Start property and whose other characters have XID_Continue; constructing a raw identifier additionally refuses _, self, Self, super and crate; every other argument panics. The lexer recognises exactly the same identifiers, and a constructed identifier prints as its name, with r# in front if raw.",
  ["inputs"], "every string over Unicode (characters assigned in Unicode 15)",
  "Tests try about ten strings; the property ranges over all of Unicode and all positions.",
  ["src/fallback.rs", "src/parse.rs", "src/lib.rs"],
  [("validation", "src/fallback.rs validate_ident, validate_ident_raw"), ("character classes", "src/fallback.rs is_ident_start, is_ident_continue"), ("lexing", "src/parse.rs ident_any, ident_not_raw")],
  observe=["Ident::new", "Ident::new_raw", "Display for Ident"])

p("C10", "Identifier comparison, ordering and hashing follow the printed spelling",
  "Two identifiers are equal exactly when their spellings including any r# prefix are equal, irrespective of location; an identifier equals a string exactly when the string is that spelling. Ordering is the ordering of spellings, is total, and agrees with equality, and equal identifiers hash equally and like their spelling.",
  ["inputs"], "every pair of identifiers (raw or not) and every string",
  "Tests compare a handful of names; the law quantifies over all pairs.",
  ["src/lib.rs", "src/fallback.rs"],
  [("equality", "src/fallback.rs impl PartialEq for Ident, PartialEq<T> for Ident"), ("order and hash", "src/lib.rs impl Ord, Hash for Ident")],
  observe=["PartialEq, Ord, Hash for Ident"])

p("C11", "Every parsed token's location is exactly where it stands in the source",
  "For every token of a parsed stream or literal, the byte range, the source text and the start and end line/column (lines from 1, columns in characters from 0) are exactly those of the token's text in the string that was parsed. A group's whole, opening and closing locations (also through its combined delimiter location) are its text, its first and its last delimiter; all tokens of a doc comment are located at the comment.",
  ["inputs"], "every parseable string: multi-line, multi-byte, CRLF, byte order mark, comments, nesting",
  "Tests check a few ASCII and one or two non-ASCII inputs; offsets go wrong only for particular mixtures of widths, lines and token kinds.",
  ["src/fallback.rs", "src/parse.rs", "src/location.rs", "src/extra.rs"],
  [("character-offset cursor", "src/parse.rs Cursor::advance"), ("offset to byte/line/column", "src/fallback.rs FileInfo::byte, offset_line_column, lines_offsets"), ("delimiter spans", "src/fallback.rs Span::first_byte, last_byte; src/extra.rs DelimSpan")],
  [("char to byte cache", "per file memo of character index to byte offset", "src/fallback.rs FileInfo.char_index_to_byte_offset")],
  ["Span::byte_range", "Span::source_text", "Span::start", "Span::end", "Group::span_open", "Group::span_close", "DelimSpan"])

p("C12", "Span queries and arithmetic are exact whatever was parsed or asked before",
  "The answer to a span query is the same whenever and in whatever order it is asked, and however many other strings were parsed or failed to parse in between. Joining two spans of the same parsed string gives the smallest span covering both and joining spans of different strings gives nothing; a sub-span of a literal is exactly the requested byte range, or nothing when out of bounds; the file name distinguishes different parsed strings, none of which has a local file; combining resolution and location takes the location from the span asked for; positions are ordered by line, then column.",
  ["histories", "inputs"], "every sequence of parses, failed parses and queries on a thread",
  "Queries fill a cache and share a global table of files; tests ask in one order with one or two files.",
  ["src/fallback.rs"],
  [("file table search", "src/fallback.rs SourceMap::find, add_file, next_start_pos"), ("offset cache", "src/fallback.rs FileInfo::byte"), ("join/subspan", "src/fallback.rs Span::join, Literal::subspan")],
  [("source map", "thread-local list of parsed texts", "src/fallback.rs SOURCE_MAP")],
  ["Span::join", "Span::file", "Span::byte_range", "Span::source_text", "Literal::subspan", "Span::located_at", "Span::resolved_at"])

p("C13", "Location data of a thread is its own, and invalidating it affects only old spans",
  "What one thread parses, queries or invalidates never changes any location answer on another thread, under any interleaving. After a thread invalidates its spans, every string it parses afterwards has exact locations again, and call-site spans stay valid.",
  ["schedules", "histories"], "every interleaving of parses, queries and invalidations on any number of threads",
  "Tests use one thread and one invalidation.",
  ["src/fallback.rs", "src/extra.rs", "src/wrapper.rs"],
  [("thread-local source map", "src/fallback.rs SOURCE_MAP"), ("truncate to the dummy file", "src/fallback.rs invalidate_current_thread_spans")],
  [("source map", "thread-local list of parsed texts", "src/fallback.rs SOURCE_MAP")],
  ["extra::invalidate_current_thread_spans", "Span queries"])

p("C14", "Streams, groups and iterators are independent values that never leak",
  "A clone of a stream, group or iterator, and the content stream taken out of a group, behave as independent copies: no later operation on one handle (extending, iterating, consuming, dropping, changing spans) is observable through another. Token storage is kept as long as some handle can reach it and released once none can.",
  ["histories"], "every sequence of create, clone, extend, consume, iterate, group, ungroup and drop operations over any number of handles",
  "Storage is shared and copied on write with a hand-written destructor; aliasing errors show only for particular combinations of sharing and order of operations, which tests do not enumerate.",
  ["src/rcvec.rs", "src/fallback.rs"],
  [("copy on write", "src/rcvec.rs RcVec::make_mut, make_owned, get_mut"), ("moving out without drop", "src/fallback.rs TokenStream::take_inner"), ("destructor", "src/fallback.rs impl Drop for TokenStream")],
  [("shared vector", "reference-counted token vector", "src/rcvec.rs RcVec")],
  ["Clone, Extend, IntoIterator, Drop for TokenStream", "Group::new", "Group::stream"])

p("C15", "Stream construction is sequence concatenation",
  "Building a stream from tokens or streams, extending it with tokens or streams, and iterating over it behave as operations on sequences: every token appears exactly once, in order, unchanged in kind, spelling, spacing and location, except that a negative numeric literal becomes a minus sign and the number. A stream is empty exactly when iterating yields nothing, and an iterator's size hint brackets, and stays consistent with, the number of tokens it still yields.",
  ["programs", "inputs"], "every way of combining tokens and streams through the collection interfaces",
  "Tests exercise a few collects and one negative literal.",
  ["src/fallback.rs", "src/lib.rs", "src/rcvec.rs"],
  [("extend/collect", "src/fallback.rs Extend, FromIterator impls"), ("minus splitting", "src/fallback.rs push_token_from_proc_macro"), ("iterator", "src/rcvec.rs RcVecIntoIter")],
  observe=["Extend<..>, FromIterator<..>, From<TokenTree> for TokenStream", "TokenStream::is_empty", "token_stream::IntoIter"])

p("C16", "A lex error points at the place that made the text unlexable",
  "When parsing a stream fails, the error's location is an empty span inside the parsed text: at the first character that no token can start with, at the closing delimiter that matches nothing, or, when the text ends early, at the innermost delimiter still open. When parsing a single literal fails the error carries the call-site location.",
  ["inputs"], "every string that is not parseable",
  "Tests look at the position of one or two errors.",
  ["src/parse.rs", "src/fallback.rs"],
  [("error construction", "src/parse.rs token_stream, lex_error"), ("literal errors", "src/fallback.rs LexError::call_site")],
  observe=["LexError::span"])

p("C17", "Forcing the fallback takes effect at once and lasts until unforced",
  "From the moment a call that forces the fallback implementation has returned, every newly created stream, span and literal uses the fallback, on every thread, until a call to unforce; after a call to unforce on a procedural macro's own thread the compiler's implementation is used again on that thread, and outside a macro the fallback always is. Objects made under different settings are never silently confused: combining them either keeps all their tokens or fails with the mismatch panic.",
  ["schedules", "histories"], "every interleaving of first use, force, unforce and object creation across threads, inside and outside a procedural macro",
  "The detection is a lazily initialised racy flag; tests run outside any macro and on one thread.",
  ["src/detection.rs", "src/fallback.rs", "src/wrapper.rs"],
  [("mode flag and once initialisation", "src/detection.rs WORKS, INIT, inside_proc_macro, initialize"), ("mismatch checks", "src/wrapper.rs mismatch")],
  [("WORKS", "0 unknown, 1 fallback, 2 compiler", "src/detection.rs")],
  ["fallback::force", "fallback::unforce", "TokenStream::new", "Span::call_site"],
  "a guarded hook between detecting and publishing the mode, to place another thread's call there")

p("C18", "Inside a procedural macro streams carry exactly the tokens put into them",
  "Inside a procedural macro, every stream behaves as the sequence of the tokens put into it whatever mixture of single-token and whole-stream appends, clones, groupings and iterations was used: no token is lost, duplicated, reordered or altered. Converting to and from the compiler's token stream preserves the tokens, and malformed text is rejected with an error without reaching the compiler's parser.",
  ["histories", "programs"], "every sequence of operations on compiler-backed streams, and every macro input",
  "The test suite never runs inside a procedural macro, so the deferred-append buffering is not executed at all.",
  ["src/wrapper.rs"],
  [("deferred append buffer", "src/wrapper.rs DeferredTokenStream, evaluate_now, into_token_stream"), ("token conversion", "src/wrapper.rs into_compiler_token, TokenTreeIter::next"), ("pre-validation", "src/fallback.rs FromStr2::from_str_checked")],
  [("extra", "tokens appended but not yet handed to the compiler", "src/wrapper.rs DeferredTokenStream")],
  ["TokenStream API inside a proc macro", "From<proc_macro::TokenStream>", "From<TokenStream> for proc_macro::TokenStream"])

p("C19", "Tokens report exactly what they were built with",
  "A group, punctuation mark, identifier or literal reports exactly the delimiter, content, character, spacing, spelling and location it was built with or last given; a newly built token has the call-site location, and changing the location of a token changes nothing else, in particular not the tokens inside a group nor any clone. Punctuation can be built from exactly Rust's punctuation characters and anything else panics.",
  ["inputs", "programs"], "every token value, every character, every sequence of location changes",
  "Tests check a few tokens and a few characters.",
  ["src/lib.rs", "src/fallback.rs"],
  [("punctuation check", "src/lib.rs Punct::new"), ("accessors", "src/lib.rs Group, Punct, Ident, Literal, TokenTree"), ("set_span", "src/fallback.rs Group::set_span, Ident::set_span, Literal::set_span")],
  observe=["Punct::new", "accessors and set_span of all tokens"])

p("C20", "Tokens and text do not depend on the build configuration",
  "With or without the compiler bridge, with or without location tracking, and with or without the exempt interfaces, the same program produces the same tokens, the same printed text and the same accept/reject decisions; turning location tracking on only adds locations.",
  ["configurations", "inputs"], "every supported feature combination and every input",
  "Tests run in each configuration but with the same few inputs and no comparison across configurations.",
  ["src/lib.rs", "src/fallback.rs", "src/parse.rs", "src/wrapper.rs", "build.rs"],
  [("conditional compilation", "build.rs cfg selection; cfg(span_locations), cfg(wrap_proc_macro)")],
  observe=["whole public API"])

p("C21", "Inside a procedural macro locations are where the user's tokens stand",
  "Inside a procedural macro with locations turned on, the start and end line/column (lines from 1, columns in characters from 0) and the source text of every input token, of a group and of its delimiters, and of the invocation are exactly those of the tokens in the user's file, and the file and local file are that file. Resolving one span at another keeps the former's location and locating it at another takes the latter's. Where the compiler offers them, byte ranges, joins and sub-spans are those of the user's file too.",
  ["inputs", "programs"], "every macro invocation in every source file",
  "The test suite never runs inside a procedural macro: the compiler-side location code is not executed at all, and it differs by toolchain.",
  ["src/wrapper.rs", "src/lib.rs", "src/extra.rs", "src/probe"],
  [("compiler spans", "src/wrapper.rs impl Span: start, end, byte_range, file, local_file, source_text, join, resolved_at, located_at"), ("delimiter spans", "src/extra.rs DelimSpan"), ("version probes", "src/probe/proc_macro_span*.rs")],
  observe=["Span::{start,end,byte_range,source_text,file,local_file,join,resolved_at,located_at}", "Literal::subspan", "Group::{span,span_open,span_close,delim_span}"])

p("C22", "Debug output shows exactly the tokens",
  "The debug output of a token, stream or stream iterator, plain and pretty, shows exactly its kind, spelling, spacing and delimiter, and the content of groups completely, in order and in the same nesting (an iterator: what it still yields); where locations are tracked it shows the byte range of exactly those tokens whose location is not the call site's, and without location tracking it shows no location. Inside a procedural macro it is the compiler's own debug output of the same tokens, including those just appended.",
  ["inputs", "programs"], "every token tree, parsed or built, of any size and nesting",
  "Tests compare the debug output of one or two small streams.",
  ["src/lib.rs", "src/fallback.rs", "src/wrapper.rs"],
  [("debug impls", "src/fallback.rs impl Debug for TokenStream, Group, Ident, Literal, Span; debug_span_field_if_nontrivial"), ("public wrappers", "src/lib.rs impl Debug for TokenTree, Punct, token_stream::IntoIter")],
  observe=["Debug for TokenStream, TokenTree, Group, Ident, Punct, Literal, Span, token_stream::IntoIter"])

p("C23", "Inside a procedural macro spans keep location and hygiene exactly",
  "Inside a procedural macro the call-site, mixed-site and (where available) definition-site spans are the compiler's own, and converting a span from or to the compiler's loses nothing. A span resolved at another keeps its location and takes the other's name-resolution context; a span located at another keeps its context and takes the other's location. A token keeps exactly the span it was last given, both parts of it, through construction, cloning, grouping, iterating and conversion to and from the compiler's tokens; newly built and parsed tokens, and lex errors, have the call-site span; and two spans compare equal exactly if both parts are the same.",
  ["inputs", "programs"], "every macro invocation, every history of span operations and every kind of token",
  "The test suite never runs inside a procedural macro, and outside of one spans have no name-resolution context at all.",
  ["src/wrapper.rs", "src/lib.rs"],
  [("compiler spans", "src/wrapper.rs impl Span: call_site, mixed_site, def_site, resolved_at, located_at, unwrap, eq; From<proc_macro::Span>"), ("spans of tokens", "src/wrapper.rs span/set_span of Group, Ident, Literal; src/lib.rs Punct; into_compiler_token")],
  observe=["Span::{call_site,mixed_site,def_site,resolved_at,located_at,unwrap,eq}", "From<proc_macro::Span> for Span", "span and set_span of tokens", "From<TokenStream> for proc_macro::TokenStream and back"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
