#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the texts stay readable)."""
import json
P = []
S = "packages/teleparse/src/"
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[S+f if not f.startswith("packages") else f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=observe, hook_needed=None)))

p("C01", "FIRST sets are exact",
  "For every grammar, the FIRST set computed for each symbol contains exactly the terminals that can begin a sentence derived from it by the textbook FIRST equations, and contains the empty symbol exactly when all of some alternative's symbols can be empty. Nothing is missing and nothing is extra, whatever the order in which the productions were registered and however they refer to each other.",
  ["inputs","programs"], "all finite sets of sequence/union/terminal/empty productions, all registration orders, all token types and literals",
  "The tests compare FIRST for one textbook grammar; the claim is about the fixpoint of an arbitrary recursive equation system.",
  ["syntax/first/builder.rs","syntax/first/set.rs","syntax/metadata.rs"],
  [("relation list built per production","FirstBuilder::build_sequence / build_union"),("iteration to a fixpoint","FirstBuilder::build, FirstRel::process_rel")],
  ["Metadata::first"])
p("C02", "FOLLOW sets are exact",
  "For every grammar and root, the FOLLOW set computed for each symbol contains exactly the terminals required by the textbook FOLLOW equations, including those separated from it only by symbols that can be empty, and contains end of input exactly when the equations starting from the root require it.",
  ["inputs","programs"], "all finite production systems and roots, all orders",
  "The tests compare FOLLOW for one grammar whose sequences never need to look past an empty symbol.",
  ["syntax/follow/builder.rs","syntax/follow/set.rs","syntax/metadata.rs"],
  [("relation list built per production","FollowBuilder::build_sequence / build_union"),("iteration to a fixpoint","FollowBuilder::build, FollowRel::process_rel")],
  ["Metadata::follow"])
p("C03", "Grammar is accepted exactly when it is LL(1)",
  "Building the metadata of a grammar succeeds if and only if no production reachable from the root has an LL(1) conflict (two alternatives that can start alike or both be empty; a symbol that can be empty, followed within a sequence by something that can start like it; a production that can be empty whose FIRST and FOLLOW overlap) and no reachable production is left recursive. No conflict is missed and no conflict-free grammar is rejected.",
  ["inputs","programs"], "all finite production systems and roots",
  "The tests contain a handful of conflicting and conflict-free grammars; accept/reject has to be right for all shapes of nullable runs, recursion and shared sub-productions.",
  ["syntax/metadata.rs","syntax/term_set.rs","syntax/lit_set.rs"],
  [("depth-first conflict check","check_conflicts, check_self_first_follow_conflict"),("set intersection","TerminalSet::intersects")],
  ["Result of Metadata::build_for / MetadataBuilder::build","Root::metadata"])
p("C04", "Left-recursive grammars are never accepted",
  "If some production reachable from the root can reach itself again without a token being consumed on the way (through alternatives, first symbols of sequences, or symbols preceded only by symbols that can be empty), building the metadata fails; a left recursion error is reported only when there is such a cycle.",
  ["inputs","programs"], "all finite production systems and roots, cycles of any length through any mix of left and non-left references",
  "No test covers left recursion; the check is a graph search over arbitrary cyclic graphs.",
  ["syntax/metadata.rs"],
  [("search over leftmost references","check_left_recursive")],
  ["Result of MetadataBuilder::build"])
p("C05", "The predictive table selects the right alternative",
  "For every accepted grammar and every choice point, looking up a next token selects the one alternative that can begin with that token; if no alternative can begin with it, or the input has ended, the alternative that can be empty is selected when there is one, and none otherwise.",
  ["inputs","programs"], "all accepted grammars, all choice productions, all token type/text pairs and end of input",
  "Tests only parse with a few enums, none with an alternative that can be empty.",
  ["syntax/jump.rs","syntax/metadata.rs","syntax/first/set.rs"],
  [("table construction","build_jump, Jump::register, FirstSet::add_to_jump_table"),("look up","JumpTable::look_up")],
  ["Jump::look_up","enum produce in derived code"])
p("C06", "Terminal sets behave as mathematical sets",
  "The sets of terminals used by the grammar analysis act as sets of (token type, text) pairs plus one empty symbol: insertion, union, clearing, membership, emptiness, intersection test and intersection agree with set theory, where a terminal without literal stands for every text. Every operation that reports a change reports it exactly when the set changed.",
  ["inputs","histories"], "all sets, all literals, all token types, all sequences of operations",
  "Unit tests try a few literal sets per operation; the fixpoints of the analysis depend on the change flags being right for all of them.",
  ["syntax/lit_set.rs","syntax/term_set.rs","syntax/first/set.rs","syntax/follow/set.rs","lex/map.rs"],
  [("literal sets with a universe element","LitSet"),("per token type map plus the empty symbol","TerminalSet")],
  ["LitSet, TerminalSet, FirstSet, FollowSet public methods"])
p("C07", "Token type sets behave as sets for every lexicon",
  "For every lexicon of 1 to 128 token types, the compact token type sets behave as mathematical sets: insert, remove, membership, containment, emptiness and union agree with set theory for every combination of members, no operation affects an unrelated token type, and iterating yields exactly the members, each once, in declaration order.",
  ["inputs","histories","configurations"], "all lexicon sizes up to 128 and all subsets of their token types",
  "Tests use one lexicon with 8 token types and a few subsets; word-size boundaries (8/16/32/64/128) are never exercised.",
  ["lex/set.rs","packages/macros/src/lexicon.rs"],
  [("bit set over the lexicon's unsigned integer","Set, Iter"),("one bit per token type","derive_lexicon: to_bit, id, next")],
  ["lex::Set public methods and iterator"])
p("C08", "Derived lexicons number and classify token types faithfully",
  "For every lexicon derived from an enum of 1 to 128 variants, ids are the declaration positions, converting an id back gives the same token type, starting from the first and stepping with next visits every token type exactly once in order, each token type has its own single bit that fits the chosen integer, and exactly the token types without terminals are the ones to be set aside by the parser. A per-token-type map keeps one independent slot per token type.",
  ["inputs","configurations","programs"], "all enum sizes 1..=128, all variants, all placements of extracted variants",
  "Snapshot tests fix the generated text for two small enums; nothing checks the meaning for large ones.",
  ["packages/macros/src/lexicon.rs","lex/lexicon.rs","lex/map.rs"],
  [("generated Lexicon impl","derive_lexicon expand"),("per token type storage","lex::Map")],
  ["Lexicon trait methods","lex::Map"])
p("C09", "Token lookup by position is exact",
  "For every token vector with ordered, non-overlapping, non-empty tokens and every span or position, the lookups return exactly the tokens wholly inside the span, exactly the tokens sharing at least one character with it, the single token when exactly one is inside, and the maximal run of matching tokens ending or beginning exactly at a position. They never panic, and an empty or inverted span matches nothing.",
  ["inputs"], "all ordered token vectors, all spans (also empty, inverted, out of range) and all predicates",
  "Tests probe fixed small vectors; boundary combinations of binary searches over arbitrary gaps are not enumerable by examples.",
  ["lex/vec.rs","lex/span.rs"],
  [("binary searches over lo and hi","TokenSlice::search_lo/search_hi"),("bounds","inside_bounds, overlap_bounds, ends_at_matches_bounds, begins_at_matches_bounds")],
  ["TokenSlice public methods"])
p("C10", "Semantic types are applied exactly to the tokens of the node",
  "Applying semantic types to a node adds exactly those types to every parsed token lying wholly inside the node's span and to no other token; types already present stay, and the tokens themselves, their order and their number never change.",
  ["inputs","histories"], "all token vectors, spans, semantic sets and sequences of applications",
  "One test checks a few tokens of one grammar; it cannot see a tag leaking to or missing from neighbouring tokens in general.",
  ["lex/vec.rs","parser/parser_impl.rs","lex/set.rs","packages/macros/src/syntax.rs"],
  [("tagging","Parser::apply_semantic, TokenSlice::apply_semantic"),("generated calls","derive_syntax semantic attribute")],
  ["Parser::info().tokens"])
p("C11", "The token stream loses, duplicates and reorders nothing",
  "Whatever sequence of parser operations is performed, the tokens handed to the syntax tree followed by those still to come are exactly the lexer's ordinary tokens in source order; set-aside tokens (such as comments) are recorded exactly once, in order, and never reach the tree; each piece of invalid text is recorded exactly once together with one error. Looking ahead any number of times consumes nothing and changes nothing later observed.",
  ["inputs","histories"], "all sources, all lexicons, all interleavings of peeking, consuming and parsing",
  "Tests run fixed inputs through one path; the guarantee is an invariant over every operation history.",
  ["parser/parser_impl.rs","parser/info.rs","lex/lexer.rs"],
  [("one token of lookahead","Parser::peek_token/consume_token/try_read_next_token")],
  ["Parser::info() tokens, extracted_tokens, invalid_source, errors"],
  [("peeked","token read but not consumed","parser/parser_impl.rs")])
p("C12", "Terminals match, insert or fail exactly as specified",
  "Parsing a terminal consumes the next token and succeeds if and only if its type (and text, when the terminal has a literal) match. Otherwise nothing is consumed: a terminal with a literal is inserted, with zero width at the end of the last consumed token and with one error, exactly when the next token or end of input is in the given FOLLOW set; in every other case the parse fails with exactly one error located at the next token or at end of input.",
  ["inputs","histories"], "all parser states, token types, literals and FOLLOW sets",
  "Tests cover a few mismatches; insertion at end of input with trailing ignored text, for example, is not among them.",
  ["parser/parser_impl.rs"],
  [("matching and insertion","Parser::parse_token, Parser::parse_token_lit")],
  ["syntax::Result of the parse","Parser::info().tokens"])
p("C13", "A parse is error-free or reports errors, never silent failure",
  "Every tree node parse that is reported as recovered or failed carries at least one error, one reported as successful carries none, and all of them end up in the parser's error list in the end; in particular parsing a root returns no tree only if at least one error was recorded, and errors are never dropped when the result is transformed or combined with others (Split, Punct and Recover, which skip over a part that failed, may report its errors merged into one).",
  ["inputs","programs"], "all grammars built from the provided node types, all inputs",
  "Tests compare error lists of chosen inputs; a silent failure on some other input or nesting is invisible to them.",
  ["syntax/error.rs","parser/parser_impl.rs","tp_impl/option.rs","tp_impl/iter.rs","tp_impl/split.rs","tp_impl/punct.rs","tp_impl/recover.rs","tp_impl/tuple.rs","packages/macros/src/syntax.rs"],
  [("result type","syntax::Result, From<(T, Vec<Error>)>, handle_result!"),("final accounting","Parser::parse_with_meta")],
  ["Root::parse, Parser::parse, Parser::info().errors"])
p("C14", "Spans of tree nodes are well-formed and in source order",
  "Every node produced by a parse, also one produced by error recovery, has a span whose start is not after its end, that starts no earlier than the last token consumed before it and ends no later than the last token consumed by it; so children lie in source order inside their parents, and all spans lie within the source.",
  ["inputs","programs"], "all grammars built from the provided node types, all inputs including invalid ones",
  "Tests assert the spans of chosen trees; recovery paths and trailing ignored text are combinations they do not reach.",
  ["parser/parser_impl.rs","lex/span.rs","tp_impl/option.rs","tp_impl/iter.rs","tp_impl/split.rs","tp_impl/punct.rs","tp_impl/recover.rs","tp_impl/tuple.rs","tp_impl/node.rs"],
  [("span computation of each node type","Produce impls"),("zero-width position","Parser::empty_span")],
  ["ToSpan of every node"])
p("C15", "A successful parse consumed a sentence of the production",
  "Whenever parsing a node succeeds without errors, the tokens it consumed, taken together, are a sentence of the node type's documented production: sequences of its parts in order, one alternative, an optional or nothing, one or more, separated by single delimiters, and so on (a Loop takes any number of items); and the node holds one child per consumed part, in order.",
  ["inputs","programs"], "all compositions of the provided node types, all inputs",
  "Tests check chosen inputs; the claim is for every composition of node types and every token sequence.",
  ["tp_impl/option.rs","tp_impl/iter.rs","tp_impl/split.rs","tp_impl/punct.rs","tp_impl/recover.rs","tp_impl/tuple.rs","tp_impl/boxed.rs","parser/parser_impl.rs","packages/macros/src/syntax.rs"],
  [("produce of each node type","Produce impls, derive_syntax")],
  ["syntax::Result::Success and the consumed tokens"])
p("C16", "Every sentence of an accepted grammar parses without errors",
  "For every accepted grammar, if the remaining input starts with a sentence of a node's production and continues with something that may follow it (or ends where the input may end; for a Loop, only the end), parsing the node succeeds without errors and consumes exactly that sentence.",
  ["inputs","programs"], "all accepted grammars over the provided node types, all sentences and continuations",
  "Tests parse a few sentences of a few grammars; rejection of a valid sentence in another grammar shape goes unnoticed.",
  ["tp_impl/option.rs","tp_impl/iter.rs","tp_impl/split.rs","tp_impl/punct.rs","tp_impl/recover.rs","tp_impl/tuple.rs","syntax/metadata.rs","packages/macros/src/syntax.rs"],
  [("decisions by FIRST/FOLLOW/predictive table","Produce impls")],
  ["Root::parse"])
p("C17", "Lists and optionals have the documented shape",
  "Repetition takes items as long as the next token can begin one; one-or-more lists never come back empty; a Split list always has exactly one more element than delimiters and a Punct list parsed without errors has as many delimiters as elements or one fewer; items and delimiters are kept in source order. An optional is absent without consuming anything if the next token cannot begin it, is present if its content parsed, and never makes the parse fail.",
  ["inputs","programs"], "all element and delimiter types, all inputs including ones that need recovery",
  "Tests check lists of identifiers and single delimiters only.",
  ["tp_impl/iter.rs","tp_impl/split.rs","tp_impl/punct.rs","tp_impl/option.rs"],
  [("list loops","Plus/Star/Split/Punct produce, ProduceIter"),("optional","produce_option")],
  ["Plus, Star, Split, Punct, Optional, Exists values"])
p("C18", "Parsing always makes progress and recovery terminates",
  "On every input, each list or recovery construct terminates: every round consumes at least one token or stops. A Loop only stops at the end of input or with an error, Recover skips tokens only until its tail parses and keeps a head that parsed, and no token is skipped without an error being reported.",
  ["inputs","programs"], "all accepted grammars over the provided node types, all inputs",
  "Tests cannot establish termination or the absence of silently skipped tokens on all inputs.",
  ["tp_impl/iter.rs","tp_impl/split.rs","tp_impl/punct.rs","tp_impl/recover.rs"],
  [("recovery loops","Loop/Split/Punct/Recover produce")],
  ["Parser::info() after parsing"])
p("C19", "Text captured by nodes is the source text of their span",
  "The text of a span is the part of the source it covers, cut at the end of the source and empty for empty, inverted or out-of-range spans, without panicking for spans on character boundaries; a quoted or parsed string node has the span of its content and is built from exactly that text, and an existence node is true exactly when its content was present.",
  ["inputs","programs"], "all sources, spans on character boundaries, all content types",
  "Tests try a few ASCII spans.",
  ["lex/span.rs","lex/token.rs","parser/info.rs","tp_impl/string.rs","tp_impl/option.rs"],
  [("slicing","Span::get"),("string nodes","Quote, Parse")],
  ["Span::get, Token::src, Quote, Parse, Exists"])
p("C20", "Lexing reports invalid text exactly",
  "Each step of the lexer returns the next valid token, preceded, if there is any text before it that is neither a token nor ignored, by one span from the first to the last such character; ignored text alone is never reported as invalid, no valid token is skipped, and successive results are in source order without overlap.",
  ["inputs"], "all sources for any derived lexicon",
  "Tests lex a few strings with single invalid characters.",
  ["lex/lexer.rs"],
  [("merging of invalid pieces","LogosLexerWrapper::next, next_internal")],
  ["Lexer::next"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80, x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))
