import json
A="parsel/src/ast.rs"; U="parsel/src/util.rs"; D="parsel_derive/src/"
def P(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook))
props=[
P("C01","Derived structs parse as sequences and derived enums as ordered choice",
 "For every node type built with the derive macros and every token input, a struct parses exactly when its fields parse one after another in declaration order, and an enum yields the first variant, in declaration order, whose fields parse (even if a later variant would also parse or match more). The resulting value stores, in each field, precisely what that field consumed. Parsing fails when a field of a struct fails, when no variant of an enum fits, and always for an enum with no variants.",
 ["programs","inputs"],"all derivable node types (named, tuple and unit structs and variants, any number of fields or variants, generic and recursive ones) x all token sequences, matching and non-matching",
 "Tests derive about ten fixed types and parse one or two well-formed inputs each; they never enumerate field/variant shapes, ambiguous alternatives or rejected inputs.",
 [D+"parse.rs",U],[("expand_fields / expand_variants generate in-order field parsing and in-order variant attempts",D+"parse.rs"),("try_parse_variant forks, parses, commits on success",U)],["parsel::parse_str","Parse::parse of derived types"]),
P("C02","Failed speculative attempts consume nothing; successes exactly their tokens",
 "When a derived enum variant, either side of an either-choice, an optional production's prefix, a further repetition item or a separator is attempted and fails, even after matching several tokens or a whole delimited group, the next thing parsed starts at exactly the token where the attempt began. When the attempt succeeds, parsing continues at exactly the token after it. An enum or either-choice that fails altogether leaves the input position where it was.",
 ["programs","inputs"],"all productions with multi-token alternatives, prefixes, items and separators x all inputs on which an attempt fails part-way, at every nesting level",
 "Tests only use alternatives that fail on their first token or succeed; none observes the stream position after a failed multi-token attempt.",
 [A,U],[("fork + advance_to only on success","parsel/src/util.rs try_parse_variant; parsel/src/ast.rs impl Parse for Maybe, Separated, Any, Either")],["position and remaining tokens of a ParseStream before and after a parse"]),
P("C03","Repetitions accept exactly their sequences and keep items and separators",
 "The greedy repetition takes the longest run of consecutive items, possibly empty, and stops without error at the first non-item. The punctuated sequence takes the whole rest of its input as items alternating with separators with an optional trailing separator, the unseparated sequence takes the whole rest as items, and the separated sequence takes one or more items with no trailing separator, stopping only where no separator follows and failing if a separator is not followed by an item. Each yields all items and separators, in input order, none lost, duplicated or merged.",
 ["inputs","programs"],"all item and separator productions that consume at least one token x all inputs of any length",
 "Doc tests check a handful of short lists with single-token items; lengths, multi-token items and separators, partial items at the end and nesting are not covered.",
 [A],[("impl Parse for Any / Punctuated / Separated; Many = Punctuated<_, NotEof>",A)],["parsel::parse_str","iter(), pairs(), len()"]),
P("C04","Optional, either-choice and end-of-input productions decide by lookahead only",
 "An optional production is present exactly when its prefix parses at the current position, and once the prefix has parsed its body is mandatory: a missing body is an error, never a silent absence. An either-choice takes the left production whenever it parses and otherwise the right one. The end marker succeeds only, and the not-at-end marker only otherwise, at the end of the current nesting level, and they and the empty production consume and print nothing.",
 ["inputs","programs"],"all prefix, body, left and right productions x all inputs, at top level and inside every kind of delimiter",
 "Doc tests use one grammar per type on two or three accepted inputs; the commit-after-prefix rule and per-level end detection are checked on almost no rejected input.",
 [A],[("impl Parse for Maybe / Either / Eof / NotEof / Empty",A)],["parsel::parse_str","left()/right(), as_prefix()/as_ref()"]),
P("C05","Operator chains associate to the declared side and keep every operand",
 "A left-associative chain x0 op1 x1 ... opn xn always yields the tree ((x0 op1 x1) ...) opn xn, a right-associative chain yields x0 op1 (x1 ... (opn xn)), and a chain without an operator yields just the operand. Operands and operators appear in source order with none lost or swapped, at every chain length and when chains of different precedence are nested. A dangling operator is an error, and printing the tree gives the chain back.",
 ["inputs","programs"],"all operator and operand productions x chains of every length, nested through precedence levels and parentheses",
 "One doc test per type with three operands or fewer per level; longer chains, mixed operators and rejected inputs are not exercised.",
 [A],[("impl Parse for LeftAssoc / RightAssoc via Separated::into_first_rest / into_last_rest",A)],["shape of the parsed tree","to_tokens"]),
P("C06","Repetitions and operator chains parse with linear work and constant stack depth",
 "Parsing a repetition or an operator chain of n items attempts item and separator productions a number of times linear in n, and every item is parsed at the same call-stack depth however many items precede or follow it. A repetition, chain, choice or optional production attempts each of its parts at most once at a position, and a choice none after one succeeded, so that nesting them does not multiply the work. Every parse over productions that consume at least one token terminates.",
 ["inputs"],"all repetition and chain types over token-consuming items x input lengths from 0 to tens of thousands, including inputs that fail at the end",
 "Tests look only at the resulting value on short inputs; neither attempt counts nor stack depth is observed.",
 [A,U],[("iterative loops in impl Parse for Any / Separated / LeftAssoc / RightAssoc",A),("early return after the first successful variant",D+"parse.rs")],["instrumented item production counting attempts and sampling stack addresses"],"instrumented element type in the harness; no hook in the repository"),
P("C07","Delimited nodes require their own delimiter and confine parsing to the group",
 "A parenthesised, bracketed or braced node parses only from a group with exactly that delimiter whose whole content is the inner production: any other delimiter, a missing group, or tokens left over inside the group make the whole parse fail. The inner production never sees tokens outside the group, and parsing continues right after it. Printing wraps the printed content in the same delimiter, also when the content is empty.",
 ["inputs","programs"],"all inner productions x all inputs with right, wrong, missing, empty, overfull and nested groups",
 "Doc tests have one accepted input and one should-panic input per delimiter with single-token content; leftover tokens and nesting are not covered.",
 [A],[("impl Parse/ToTokens for Paren / Bracket / Brace over syn's delimiter macros",A)],["parsel::parse_str","to_tokens"]),
P("C08","Literals parse to exactly the value they spell, or are rejected",
 "Every literal node accepts exactly the literal tokens of its kind and holds the value the token denotes in Rust syntax: any radix, digit separators, suffix, sign (possibly spaced from the number), escape, raw or byte form. An integer or floating-point value that does not fit its type is rejected instead of being wrapped, saturated or turned into infinity. The any-literal node accepts every kind, holds negative integers as signed and other integers as unsigned, and rejects literals of unsupported kinds.",
 ["inputs"],"all spellings of boolean, byte, integer, unsigned, float, character, string and byte-string literals, in and out of range, and all literals of a wrong kind",
 "Doc tests spell fewer than twenty literals, all in range and nearly all in the simplest spelling.",
 [A],[("impl TryFrom<syn::LitInt/LitFloat>, From<syn::Lit*>, impl Parse for Lit*",A)],["value()","parsel::parse_str"]),
P("C09","Printing a literal and parsing it back yields the same value",
 "For every boolean, byte, 64-bit signed or unsigned integer, finite float, character, string and byte string, the literal node built from it prints, as text and as tokens, to a valid literal that parses back to a literal node of the same type with exactly the same value (floats bit for bit). The same holds through the any-literal node in its canonical form, and in procedural macros, run by the compiler. The conversion to and from the host library's literal types preserves the value too.",
 ["inputs"],"all 256 bytes, both booleans, all 64-bit integers, all finite floats, all characters, all strings and byte strings",
 "Seven bytes are checked in a doc test; other kinds are printed for one or two values only.",
 [A],[("token() methods, Display and ToTokens of literal types; From<Lit*> for syn::Lit*",A)],["to_string, to_tokens, parse"]),
P("C10","Comparison and hashing follow the value and ignore source location",
 "Two literal nodes are equal, ordered and hashed exactly as their values are, also when compared with or looked up by a bare value, whatever their source locations. The same holds for identifiers and keyword nodes with respect to their text, and delimited, optional, sequence and choice nodes are equal exactly when their contents are. Equal nodes always hash equally.",
 ["inputs"],"all pairs of values of each kind with all combinations of source locations",
 "Tests use equality only between nodes that should be equal; inequality, ordering, hashing and lookups are not tested.",
 [A],[("PartialEq/Ord/Hash/Borrow impls in impl_literal!, define_keywords!, CustomIdent and derives on wrappers",A)],["==, cmp, partial_cmp, Hash, HashMap lookup"]),
P("C11","Keyword lists decide exactly which words are identifiers",
 "A custom identifier accepts every single word, including host-language keywords, except exactly those in its keyword list, which it rejects; the unrestricted word type accepts all words. Each keyword type declared with the keyword macro accepts exactly its own word and nothing else, reports and prints that word, and keeps its source location, and the generated keyword list contains exactly the declared words, including the bare underscore when declared; every such declaration compiles, whatever names its keyword types have. Raw identifiers are distinct from the keyword they escape.",
 ["inputs","programs"],"all keyword declarations (with and without underscore, empty, host-language keywords, prefixes of each other, any names for the keyword types) x all words",
 "One doc test declares one module with four keywords and tries six words.",
 [A],[("CustomIdent::try_from, Parse for CustomIdent, define_keywords! macro",A)],["FromStr/Parse, as_str, token, Display, KeywordList::KEYWORDS"]),
P("C12","Printing a parsed node reproduces the tokens it was parsed from",
 "For every node type and every accepted input, converting the parsed node back to tokens gives exactly the input's token sequence, with the same nesting and order, where only the spelling of literals may change to another spelling of the same value. Nothing is dropped, repeated, reordered or invented.",
 ["programs","inputs"],"all derived and built-in node types in any composition x all inputs they accept",
 "Two round-trip tests on one small grammar.",
 [A,D+"to_tokens.rs"],[("expand_struct/expand_variants of the ToTokens derive; ToTokens impls of ast types",D+"to_tokens.rs")],["to_token_stream of the parsed node against the lexed input"]),
P("C13","Printed nodes parse back to an equal node",
 "For every node of an unambiguous grammar (one in which no two different values print alike), obtained by parsing or built canonically, parsing its tokens, its default (pretty) text and its alternate (compact) text each gives a node equal to the original.",
 ["programs","inputs"],"all node types x all parsed or canonically constructed values; three printing routes",
 "One identity test on a hand-built value of one grammar, by tokens only.",
 [A,U,D+"to_tokens.rs",D+"display.rs"],[("ToTokens impls, TokenStreamFormatter, Display impls","parsel/src/util.rs, parsel/src/ast.rs")],["parse2(to_tokens(x)), parse_str(format!(\"{x}\")), parse_str(format!(\"{x:#}\"))"]),
P("C14","Formatting a token stream never changes its tokens",
 "For every token stream, the text written by the pretty, compact and custom-indent formatter lexes back to the same tokens in the same order and nesting, with multi-character operators kept together and adjacent separate operators kept apart. Groups without delimiters contribute their contents in place. Custom indentation is accepted exactly when it consists of whitespace.",
 ["inputs","configurations"],"all token streams, of any depth and length, including undelimited groups and literals containing line breaks x pretty, compact and every whitespace indentation",
 "One QuickCheck test covers the pretty formatter on small streams with two-character operators; compact, custom indentation, undelimited groups and long or deep streams are not covered.",
 [U],[("TokenStreamFormatter::write / with_indent",U)],["formatter output re-lexed"]),
P("C15","Formatter layout: compact is one line, pretty indents by nesting",
 "Compact output separates tokens with exactly one space, except inside delimiters and after joined punctuation, and adds no line breaks. Pretty output puts the contents of every non-empty delimited group on lines of their own, indented by exactly one indentation unit per enclosing group, closes the group on its own line at the outer level, starts a new line after a group, comma or semicolon that is followed by more tokens, prints empty groups as just their delimiters, and otherwise spaces tokens as compact output does. Displaying a node gives the pretty text, and the compact text under the alternate flag.",
 ["inputs","configurations"],"all token streams of any depth and length x pretty, compact and custom indentation units",
 "Two doc tests compare one sample stream each; no test covers custom units, deep nesting or the alternate flag.",
 [U,A],[("TokenStreamFormatter::write, write_indent, write_newline; format_ast_node",U)],["formatter output text"]),
P("C16","Writer failures are reported, with only a prefix written",
 "If the output sink fails at any point while a token stream or node is being formatted, the formatting call reports failure; everything written until then is a prefix of the text that a working sink would have received. If the sink never fails, formatting succeeds. A formatter whose sink has failed, or has been written to before, formats further streams as a fresh one would.",
 ["fault_sequences","inputs"],"every position at which the sink can fail x all token streams and nodes x all formatters",
 "No test uses a failing sink.",
 [U],[("? after each write in TokenStreamFormatter",U)],["fmt::Write sink with injected failures"]),
P("C17","Source ranges of nodes are exact",
 "For every source text and every node parsed from it, the byte range, character range, source substring and line:column display cover exactly the text from the first character of the node's first token to the last character of its last token. This holds for multi-byte characters, any line endings, multi-line tokens, comments, a leading byte-order mark, and at the end of the text.",
 ["inputs"],"all source texts and layouts x nodes of one or many tokens at every position",
 "Three doc tests on one short source each.",
 [U],[("SpannedExt, byte_offset, char_offset, SpanDisplay",U)],["byte_range, char_range, source_substring, format_span"]),
P("C18","A failed choice reports the error of an alternative that got furthest",
 "When no variant of an enum, or neither side of an either-choice, parses, the reported error is the error of one of the alternatives, and no other alternative's error is located further in the source. Its location and underlying message are those of that alternative's own failure at that position.",
 ["programs","inputs"],"all derived enums and either-choices x all rejected inputs with source locations",
 "One doc test compares one message.",
 [U,A,D+"parse.rs"],[("try_parse_variant max_by_key on span end; Either::parse",U)],["Error::span, Error::to_string against each alternative parsed on its own"]),
P("C19","Parse errors name the production path and keep the original cause",
 "When a field of a derived struct or variant fails to parse, the reported error names the type, the variant if any and the field (name or index) that failed, outermost production first, followed by the original cause's message. Its source location is that of the original cause.",
 ["programs","inputs"],"all derived types at any nesting depth x all failing inputs and fields",
 "No test checks the composed message or its location.",
 [U,D+"parse.rs"],[("chain_error and its call sites in generated code",U)],["Error::to_string, Error::span against the failing field parsed on its own"]),
P("C20","No input makes parsing or printing panic",
 "Parsing arbitrary text or tokens into any node type returns a value or an error and never panics. Any value that parsing accepted can be printed as tokens and text, displayed, debug-formatted, cloned, compared, hashed and asked for its source location, and any error can be displayed, without panicking.",
 ["inputs"],"all texts and token streams, well-formed or hostile, with bounded nesting depth x all node types",
 "Tests feed almost exclusively accepted inputs and extreme literals never.",
 [A,U],[("fallible conversions, expect() invariants of Separated and literal token()",A)],["catch_unwind around every call"]),
P("C21","Sequence nodes behave like ordered lists and keep their invariants",
 "Under any sequence of operations the separated sequence is never empty and never ends in a separator, and its length, first and last item, indexing, iteration, pairs and splits into first/rest and last/rest all agree with the items and separators put in, in order. The punctuated sequence and the greedy repetition agree with an ordinary list under the same operations. Converting a raw punctuated list into a separated sequence succeeds exactly when it is non-empty and has no trailing separator.",
 ["histories"],"all sequences of push, insert, extend, mutate, index, iterate, convert and split operations on sequences of any length",
 "Doc tests apply one push and two splits.",
 [A],[("Separated::{push,insert,extend,into_first_rest,into_last_rest,try_from}, Punctuated and Any containers",A)],["public accessors after every operation"]),
P("C22","Conversions and accessors preserve value and source location",
 "Converting literal nodes to and from the host library's literal types and to tokens keeps their value and source location; reading a location gives the parsed or last-set one, and setting it changes nothing else. Wrapping, unwrapping, borrowing and splitting delimited, optional and identifier nodes give back exactly the parts that were put in, and constructors for default and test values yield the stated value.",
 ["inputs"],"all values and source locations of every literal, identifier, delimited and optional node",
 "One doc test compares spans of eight literals; accessors are not tested.",
 [A],[("From/TryFrom/span/set_span impls, Paren/Bracket/Brace/Maybe accessors",A)],["public accessors and conversions"]),
P("C23","The either type behaves as a value and iterates as its active side",
 "Projections, flipping, mapping, transposing and borrowing of an either value act on exactly the active side and keep which side it is. Used as an iterator it yields, from both ends and through counting, skipping, taking the last item and size hints, exactly what the active side's iterator would, tagged with that side. Extending it extends the active side.",
 ["inputs","histories"],"all left and right values and underlying iterators x all interleavings of iterator operations",
 "Doc tests map, flip and project once; the iterator behaviour is untested.",
 [A],[("impl Either, impl Iterator/DoubleEndedIterator/Extend for Either",A)],["public methods against the wrapped iterator"]),
P("C24","The derive macros accept every supported shape with the right bounds",
 "The derives compile for every struct and enum shape (named, tuple, unit, empty, generic with associated types, lifetimes, consts, where clauses and defaults, raw or unusual field and variant names) and the result behaves as declared. The generated implementations require exactly that each field type not marked recursive implements the trait, so a type with an unsupported field type does not implement it, and marking fields recursive lets directly and mutually recursive types compile. Unions and malformed attributes are rejected with a diagnostic.",
 ["programs"],"all struct, enum and union definitions a user can annotate, including field, variant and generic parameter names that coincide with names used inside the generated code",
 "Tests derive ten conventional shapes; odd names, empty types, consts, rejected items and bound precision are not covered.",
 ["parsel_derive/src/util.rs",D+"parse.rs",D+"to_tokens.rs",D+"from_str.rs",D+"display.rs"],[("add_bounds / field_type, split_for_impl, generated bindings","parsel_derive/src/util.rs")],["rustc's verdict on the annotated program and the behaviour of the compiled program"]),
P("C25","Text, token and macro entry points agree and consume the whole input",
 "Parsing from a string by the standard string-parsing trait gives the same outcome as the parse function for every node type, and it succeeds only if the whole text was consumed: anything left over is an error. Parsing the equivalent token stream gives an equal node, also when runs of its tokens are in groups without delimiters, as macro substitution leaves them. What is accepted, the nodes and what they print are the same in a procedural macro, run by the compiler, as in an ordinary program. The fallible quote macros return the parsed node or an error, never panic, and give macro-originated tokens the requested location while interpolated tokens keep theirs.",
 ["inputs","programs"],"all node types x all accepted inputs, and the same with any extra token appended or prepended",
 "Two tests call from_str or Display once; leftovers are checked on two inputs.",
 [D+"from_str.rs",D+"display.rs",A,U],[("FromStr impls, try_parse_quote!, try_parse_quote_spanned!",U)],["FromStr::from_str, parse_str, parse2, macros"]),
P("C26","Parsing depends only on the tokens, not on their layout",
 "Inserting, removing or changing whitespace, line breaks and comments between tokens, without joining or splitting tokens, changes neither whether an input is accepted nor the parsed node (by equality, hash and printed form). On rejection, the reported error's message is unchanged and its location stays on the same tokens.",
 ["inputs","programs"],"all node types x all inputs x all layouts of the same tokens",
 "Tests use one layout per input.",
 [A,U,D+"parse.rs"],[("equality ignoring spans; error choice by line and column order","parsel/src/util.rs, parsel/src/ast.rs")],["two layouts of one token sequence compared"]),
]

with open('/verif/properties.jsonl','w') as f:
    for p in props:
        if len(p['title'])>80: print('LONG',p['id'],len(p['title']),p['title'])
        f.write(json.dumps(p,ensure_ascii=False)+'\n')
