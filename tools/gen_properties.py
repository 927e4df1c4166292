#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator only so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Directives come out complete and stably date-ordered",
 "For every ledger that parses, the directives returned are exactly those the sources declare, none lost, duplicated or changed, in non-decreasing date order, and on any one date every open precedes every balance, which precedes every other directive. Directives of the same date and the same of those three classes keep the order in which they are declared, an included file standing in the place of its include.",
 ["inputs"], "every sequence of declarations, with any mixture of dates, directive kinds and ties, in one file or several",
 "The sort tests sample a few short integer sequences and the golden files have few ties; the ordering and the conservation of elements must hold for every sequence.",
 ["src/sort.rs", "src/lib.rs"],
 [("bucketed stable sort", "src/sort.rs Sort::new, Sort::next"), ("sort key (date, class)", "src/lib.rs BeancountParser::parse"), ("directive stream", "src/lib.rs PragmaProcessor::next")],
 [("buckets", "directives not yet emitted, by key, in arrival order", "src/sort.rs Sort")], ["ParseSuccess.directives"])

prop("C02", "Every span resolves to its own text, lines and file, and never panics",
 "Resolving any span of a real source gives exactly the source text from its start to its end less trailing whitespace (untrimmed if it is all whitespace), the 1-based numbers of the lines on which it starts and ends, and the file it came from (none for inline text). A span which is out of range, reversed or not on character boundaries, or which names no existing source, resolves to empty text on line 1 rather than panicking, and the text reported for an error is that of its span under the same rules.",
 ["inputs"], "every source text, including multi-byte text, and every (source, start, end) triple whatsoever",
 "Tests resolve a handful of valid spans, nearly all ASCII; offsets, character boundaries and invalid triples range over an unbounded space.",
 ["src/sources.rs", "src/trim.rs"],
 [("trailing whitespace trim", "src/trim.rs trim_trailing_whitespace"), ("invalid spans collapse", "src/sources.rs trimmed_span, BeancountSources::get_adjusted_source"), ("byte to character offsets", "src/sources.rs byte_to_rune"), ("line counting", "src/sources.rs BeancountSources::resolve_span")],
 [("char indices", "byte offset of each character of a source", "src/sources.rs IncludedSource, BeancountSources")], ["BeancountSources::resolve_span", "BeancountSources::error_source_text"])

prop("C03", "Synthetic spans keep denoting their fragment as more are added",
 "Each fragment registered as synthetic content under a source name gets a span which, at any later time, resolves to that fragment's text less trailing whitespace, under that name, at its line within everything registered under the name so far, whatever else was registered before or since. Spans of real sources resolve through the synthetic sources exactly as without them, and anything else resolves to empty text rather than panicking.",
 ["histories", "inputs"], "every sequence of registrations, with any interleaving of names and any Unicode content, and every later resolution",
 "Tests register at most a few ASCII fragments; the guarantee is over whole histories of registrations.",
 ["src/sources.rs"],
 [("append to named content", "src/sources.rs SyntheticSources::create_synthetic_span"), ("lookup by id", "src/sources.rs SyntheticSources::get_adjusted_source"), ("resolution", "src/sources.rs resolve_span")],
 [("content", "accumulated text and character offsets by source name", "src/sources.rs SyntheticSources"), ("source ids", "names in order of first registration, numbered after the real sources", "src/sources.rs SyntheticSources")],
 ["SyntheticSources::create_synthetic_span", "SyntheticSources::resolve_span"])

prop("C04", "The token stream is always cleanly structured into lines",
 "For every input text the token stream never begins with an end-of-line, never has two in a row, and ends with exactly one unless there are no tokens at all; an indent occurs only immediately after an end-of-line, exactly where a line after the first which has tokens begins with blanks, positioned among them, and the joint marker for both never survives. Blank lines, comments and lines whose first non-blank character is a colon leave no other tokens behind, and no token of any other line is dropped, added or reordered.",
 ["inputs"], "every input text, with any arrangement of blank, comment, indented and ignored lines, LF or CRLF, with or without a final newline",
 "The lexer tests sample a few dozen fixed texts; line folding is a state machine over unbounded token sequences.",
 ["src/lexer.rs"],
 [("line folding", "src/lexer.rs EolIndentHandler::{new,skip_to_end_of_line,get_second_tok_if_required,merge,next_merged,next}"), ("end-of-line classes", "src/lexer.rs Token::is_eol")],
 [("pending", "tokens read ahead but not yet emitted", "src/lexer.rs EolIndentHandler")], ["lex_with_source"])

prop("C05", "Keywords become keys exactly before a colon; recovery keeps offsets",
 "For every input, a keyword token followed by a colon is delivered as a key with the keyword's own text and position, a keyword not followed by a colon is delivered as the keyword, and every other token passes through once, unchanged and in order. Text the lexer rejects is re-lexed from its own start, so that every resulting token or error still carries its true position in the source.",
 ["inputs"], "every token sequence, including runs of keywords, keywords at the end, and rejected text anywhere",
 "Tests cover a few keyword/colon combinations; lookahead with a pending token has to be right for every sequence.",
 ["src/lexer.rs"],
 [("lookahead rewriting", "src/lexer.rs KeywordThenColonToKey::{potential_key,next}"), ("re-lexing of failed text", "src/lexer.rs RecoveryAttempter::{next_primary_item,next_recovery_item,create_recovery_lexer}")],
 [("pending_tok", "token read but not yet delivered", "src/lexer.rs KeywordThenColonToKey")], ["lex_with_source"])

prop("C06", "Pushed tags apply to exactly the directives in their scope",
 "A directive carries its own tags plus every tag pushed before it and not yet popped, each once, its own occurrence taking precedence, else the most recent push; nothing else about it changes. A tag pushed n times needs n pops; a pop with no outstanding push and each push never popped is reported as an error at its own position.",
 ["histories", "inputs"], "every sequence of pushes, pops and directives, nested, repeated and interleaved across tags and files",
 "Tests use one or two pushes; the guarantee is about all histories of the push stack.",
 ["src/lib.rs", "src/parsers.rs"],
 [("push/pop stack", "src/lib.rs PragmaProcessor::next (Pushtag, Poptag)"), ("unbalanced push detection", "src/lib.rs PragmaProcessor::result"), ("tag augmentation", "src/parsers.rs Metadata::augment_tags")],
 [("tags", "outstanding pushes by tag, oldest first", "src/lib.rs PragmaProcessor")], ["ParseSuccess.directives", "ParseError.errors"])

prop("C07", "Pushed metadata applies to exactly the directives in its scope",
 "A directive carries its own metadata plus, for every key pushed before it and not yet popped and not among its own, the most recently pushed value of that key; its own values always win and nothing else about it changes. A key pushed n times needs n pops, each restoring the previous value; a pop with no outstanding push and a push never popped are reported as errors.",
 ["histories", "inputs"], "every sequence of pushmeta, popmeta and directives, nested, repeated and interleaved across keys and files",
 "Tests use one or two pushes of one key; the guarantee is about all histories of the push stack.",
 ["src/lib.rs", "src/parsers.rs"],
 [("push/pop stack", "src/lib.rs PragmaProcessor::next (Pushmeta, Popmeta)"), ("unbalanced push detection", "src/lib.rs PragmaProcessor::result"), ("metadata augmentation", "src/parsers.rs Metadata::augment_key_values")],
 [("meta_key_values", "outstanding values by key, oldest first, never empty", "src/lib.rs PragmaProcessor")], ["ParseSuccess.directives", "ParseError.errors"])

prop("C08", "Options are recognised, validated and recorded once, under their own name",
 "Each option in the sources with a known name and a valid value is readable afterwards under that very option with that value and the position of its value, and no other option changes; an unknown name or an invalid value is an error at the offending name or value. Giving a single-valued option twice, or the same value twice to a multi-valued one, is an error at the repetition which points back at the first, whose value stands. (The account type names, see C09, and the long string limit, see C19, take effect while reading instead and may be given repeatedly, the last standing.)",
 ["inputs", "histories"], "every sequence of option pragmas over all option names and all value strings",
 "Tests try a few options each once; the mapping of names to settings and duplicate handling ranges over all names, values and orders.",
 ["src/options.rs", "src/parsers.rs"],
 [("name and value parsing", "src/options.rs BeancountOption::parse and parse_* helpers"), ("recording", "src/options.rs Options::{assimilate,update_optional,update_hashmap,update_unit_hashmap}"), ("early parser options", "src/options.rs ParserOptions::assimilate"), ("accessors", "src/options.rs Options accessors")],
 [("Options", "each setting with the source of its name and value", "src/options.rs Options")], ["ParseSuccess.options", "ParseError.errors"])

prop("C09", "Account type names stay a one-to-one mapping through every renaming",
 "Initially the five account types bear their default names, and renaming a type to a valid unused name frees its old name and makes accounts of the new name, and no longer of the old one, belong to that type, leaving the other types alone. Renaming to a name borne by another type is rejected and changes nothing, so that at all times the five types have five distinct names and an account is accepted exactly if its first component is one of them, with the type that currently bears it.",
 ["histories", "inputs"], "every sequence of renamings, including swaps through intermediate names, and every account name",
 "Tests rename once or twice; the one-to-one invariant must survive every sequence of renamings.",
 ["src/types.rs", "src/options.rs"],
 [("renaming", "src/types.rs AccountTypeNames::update"), ("lookup", "src/types.rs AccountTypeNames::get"), ("defaults", "src/types.rs Default for AccountTypeNames"), ("account classification", "src/types.rs Account::new")],
 [("name_by_type, type_by_name", "the mapping and its inverse", "src/types.rs AccountTypeNames")], ["Account::account_type", "Options::account_type_name"])

prop("C10", "Identifiers are accepted exactly when well formed",
 "For every string, conversion to a currency, tag, link, key, account name, account type name or flag letter succeeds exactly if the string meets the published character rules for that kind (first, inner and last characters, minimum length, required letter), and then preserves the string unchanged, comparing equal to that string and to no other. Every other string is refused with an error, and no string, empty or non-ASCII, panics.",
 ["inputs"], "every Unicode string for every identifier kind",
 "Tests try a few dozen ASCII strings; acceptance is a predicate over all Unicode strings.",
 ["src/types.rs"],
 [("validation", "src/types.rs TryFrom<&str> for Currency, Tag, Link, Key, AccountName, AccountTypeName, Subaccount; TryFrom<char> for FlagLetter")],
 [], ["Currency::try_from", "Tag::try_from", "Link::try_from", "Key::try_from", "AccountName::try_from", "AccountTypeName::try_from"])

prop("C11", "Arithmetic expressions evaluate correctly, at the largest written scale",
 "Every amount expression evaluates as decimal arithmetic with the usual precedence, left associativity, unary sign and parentheses, rounded to the largest number of decimal places written in any operand, and compares equal to a decimal exactly if that value does. Division by zero or overflow is reported as an error of the parse, never a panic or a wrong value.",
 ["inputs"], "every expression over +, -, *, /, unary sign, parentheses and decimal literals, of any shape and depth",
 "Tests sample a dozen shallow expressions; evaluation is an inductive property over all expression trees.",
 ["src/types.rs", "src/parsers.rs"],
 [("evaluation", "src/types.rs Expr::evaluate, ExprValue::checked_from"), ("tree building", "src/parsers.rs expr"), ("error reporting", "src/parsers.rs expr_value")],
 [], ["ExprValue::value", "Posting::amount"])

prop("C12", "Cost specifications keep every component, each given at most once",
 "A cost specification built from components in any order contains exactly the per-unit and total amounts, currency, date, label and merge flag which were given, each with its own value, and nothing that was not given. Giving any of them more than once is refused as an error naming that component; giving each at most once is never refused.",
 ["inputs", "histories"], "every sequence of components, of any length, order and repetition, including compound amounts",
 "Tests build a few specifications in a few orders; the guarantee is over all component sequences.",
 ["src/types.rs", "src/parsers.rs"],
 [("builder", "src/types.rs CostSpecBuilder::{compound_expr,currency,date,label,merge,build}"), ("component folding", "src/parsers.rs cost_spec")],
 [("CostSpecBuilder", "components so far and errors so far", "src/types.rs CostSpecBuilder")], ["Posting::cost_spec", "ParseError.errors"])

prop("C13", "Tags, links, keys and currencies of a directive: all kept, no duplicates",
 "A directive's tags and links are exactly those on its first line together with those on its metadata lines, its metadata exactly the given key/value pairs, and an open's currencies exactly those listed. Any tag, link, key or currency given twice on the same element, on the first line, in the metadata or across both, is reported as an error; distinct ones never are.",
 ["inputs"], "every arrangement of tags, links, keys and currencies on first lines and metadata lines",
 "Tests include a few duplicates; collection into sets with duplicate detection ranges over all lists.",
 ["src/parsers.rs"],
 [("header tags and links", "src/parsers.rs tags_links"), ("metadata collation", "src/parsers.rs metadata"), ("merging", "src/parsers.rs Metadata::{merge_tags,merge_links}"), ("currency list", "src/parsers.rs currency_list")],
 [("Metadata", "key/values, tags, links of a directive or posting", "src/types.rs Metadata")], ["Directive::metadata", "Open::currencies", "ParseError.errors"])

prop("C14", "Literals denote the value they spell",
 "Every date, time, number, string or boolean literal which is accepted yields the calendar date, time of day, decimal (value and scale, commas ignored) or text (escapes resolved, otherwise verbatim) which it spells. A number with more digits than a decimal holds is rounded to the nearest one that fits. A date or time which does not exist, a number out of range, or a bad escape is reported as an error and never panics.",
 ["inputs"], "every literal the lexer can match, including every digit combination, separator, escape and non-ASCII digit",
 "Tests sample some literals; decoding is a function over unboundedly many spellings.",
 ["src/lexer.rs"],
 [("decoding", "src/lexer.rs parse_date, parse_time, parse_number, unescape_string_literal")],
 [], ["Directive::date", "ExprValue::value", "lex_with_source"])

prop("C15", "Diagnostics keep everything attached to them, in order",
 "An error or warning reports the message, reason and span it was created with, and every context and every related element attached to it, in the order attached, each under its element kind and span, contexts and related elements never mixed up, with the annotation last given. Attaching one thing never removes or alters another. What is written of a list of them for the user has one report for each, in order, followed by its annotation, which says the message and, at the file, line and characters of its span, the reason, and labels each context and related element at its own place.",
 ["histories", "inputs"], "every sequence of attachments of any element kinds and spans",
 "Tests hardly touch the builder; the guarantee is over all sequences of attachments.",
 ["src/types.rs"],
 [("builder", "src/types.rs ErrorOrWarning::{new,related_to,related_to_all,related_to_named_span,in_context,in_contexts,in_explicitly_labelled_contexts,with_annotation}"), ("element errors", "src/types.rs Spanned::{error,warning}"), ("accessors", "src/types.rs Report for ErrorOrWarning")],
 [("contexts, related", "attachments in order", "src/types.rs ErrorOrWarningImpl")], ["Report::{message,reason,span,contexts,related}", "BeancountSources::write_errors_or_warnings"])

prop("C16", "Parsing succeeds exactly if nothing is wrong, and reports all that is",
 "Parsing returns success exactly if no error was found in any source by any stage, and then with every plugin in order of declaration; otherwise it returns every error found by every stage, in every file. Warnings alone never make it fail, and are returned in either case.",
 ["inputs"], "every set of sources with any mixture of valid declarations, syntax errors, option errors, unbalanced pragmas and long strings",
 "Tests have one or two errors at a time; accumulation across stages and files must hold for all combinations.",
 ["src/lib.rs"],
 [("accumulation and verdict", "src/lib.rs BeancountParser::parse"), ("collection", "src/lib.rs BeancountParser::parse_declarations, PragmaProcessor::result"), ("plugins", "src/lib.rs PragmaProcessor::next (Plugin)")],
 [("errors, warnings, plugins", "accumulated so far", "src/lib.rs PragmaProcessor")], ["BeancountParser::parse"])

prop("C17", "Each included file contributes exactly once, where first included",
 "Include paths are resolved relative to the directory of the including file, and every file reached, directly or through other includes, contributes its declarations exactly once, in place of its first include, after which the including file resumes where it left off. A path which matches nothing, a file which cannot be read, and a repeated include under different pushed tags or metadata are each reported as an error at the include; a harmless repetition is ignored, while including the root file again is an error. The order among several files matched by one glob pattern is unspecified.",
 ["configurations", "inputs"], "every tree or graph of files and includes, at any depth, with relative paths, globs, repeated and missing files",
 "Tests have a few two-file fixtures; resolution and resumption must hold for every include graph.",
 ["src/lib.rs", "src/sources.rs"],
 [("path resolution", "src/sources.rs resolve_included_path, path_dir"), ("reading and duplicate detection", "src/sources.rs BeancountSources::read_with_includes"), ("include processing", "src/lib.rs PragmaProcessor::next (Include)")],
 [("stacked", "suspended including files, innermost first", "src/lib.rs PragmaProcessor"), ("remaining", "files read but not yet included", "src/lib.rs PragmaProcessor")], ["ParseSuccess.directives", "ParseError.errors"])

prop("C18", "Source positions never affect equality, hashing or mapped values",
 "Two parsed elements are equal, and hash alike, exactly if their contents are, wherever in the sources they occur. Mapping or referencing an element applies to its content and keeps its position unchanged.",
 ["inputs"], "every pair of elements, contents and positions, and every mapping function",
 "Tests rely on this to compare trees but never test it for elements and positions in general.",
 ["src/types.rs"],
 [("transparent spans", "src/types.rs PartialEq, Hash, Deref for Spanned; Spanned::{map,map_into,as_ref,item,span}, spanned")],
 [], ["Spanned", "OptionalItem::item"])

prop("C19", "Over-long strings, and only those, draw a warning",
 "A string whose text has more lines than the long_string_maxlines in force where it occurs (64 unless set) draws a warning at its own position, which states the limit, whether it is the default, and the line count needed, and points at the option if one was set, and no other string does. The string itself is unaffected and the parse does not fail for it.",
 ["inputs", "configurations"], "every string literal of any number of lines and every setting of the limit",
 "Tests use one or two strings against one limit; the boundary must be exact for every limit and every length.",
 ["src/parsers.rs", "src/options.rs"],
 [("check", "src/parsers.rs string"), ("limit", "src/options.rs ParserOptions::{assimilate,long_string_maxlines}")],
 [("long_string_maxlines", "limit in force with its source", "src/options.rs ParserOptions")], ["ParseSuccess.warnings", "ParseError.warnings"])

prop("C20", "Every directive carries exactly the fields as written, each in its place",
 "Each accepted directive and posting has the date, flag, payee, narration, accounts, currencies, amounts, tolerance, price annotation, paths, strings and metadata which were written, each in the field it was written for, absent exactly if omitted, at the position where it was written. A lone transaction string is the narration, an empty payee or narration counts as absent, and a price annotation is total exactly for a double at-sign.",
 ["inputs"], "every directive of every kind, with every combination of optional parts and values",
 "Golden tests cover typical directives; field placement must hold for every combination of optional parts.",
 ["src/parsers.rs", "src/types.rs"],
 [("field assembly", "src/parsers.rs transaction, transaction_header_line, posting, price, balance, open, close, commodity, pad, document, note, event, query, custom"), ("payee and narration", "src/parsers.rs replace_some_empty_with_none"), ("price annotation", "src/parsers.rs price_annotation"), ("accessors", "src/types.rs field accessors")],
 [], ["ParseSuccess.directives"])

prop("C21", "Parsing any text whatsoever terminates without panicking",
 "For every text, however malformed, lexing and parsing terminate and return directives or errors without panicking or exhausting the stack.",
 ["inputs"], "every Unicode text of any length and nesting",
 "Tests sample some malformed texts.",
 ["src/lexer.rs", "src/parsers.rs", "src/lib.rs"],
 [("generated lexer and parser combinators", "logos, chumsky"), ("error recovery", "src/parsers.rs declaration")], [], ["BeancountParser::parse"])

prop("C22", "Parsing the same sources twice gives the same result",
 "Two parses of the same sources give the same directives in the same order and the same sets of options, errors and warnings, independently of internal iteration order and of other parses.",
 ["inputs", "schedules"], "every set of sources and every iteration order of internal hash maps",
 "Tests parse once; the iteration order of hash maps differs between processes.",
 ["src/sources.rs", "src/lib.rs"],
 [("file order", "src/sources.rs BeancountSources::content_iter")], [], ["BeancountParser::parse"])

prop("C23", "Printing a directive, posting, value or plugin shows all of it once, in order",
 "The Display text of a directive is its date, its keyword (the flag for a transaction) and then every field it carries, exactly once, in the order of Beancount syntax and separated by a space: accounts, currencies, tags (with #), links (with ^), flags (letters after an apostrophe), numbers and expressions as they were written up to spacing, strings and booking methods in double quotes with their content unaltered. An absent field leaves nothing behind, except that a payee without narration is followed by an empty string. Then follow all tags, all links and all key-values of the metadata, key-values each on a line of its own indented by two, tags and links on the same line except for custom directives and postings, and last the postings, each on a line of its own, with flag, account, amount, currency, cost in braces (number, # total and currency, then date, label and * separated by commas) and, after an at-sign, the price annotation. The same holds of each of these parts printed alone, and of plugins.",
 ["inputs"], "every directive, posting, cost, amount, expression, metadata value and plugin which parsing can yield",
 "No test looks at printed text beyond a few golden outputs; it must hold for every combination of optional parts and any number of tags, links, keys and postings.",
 ["src/types.rs", "src/format.rs"],
 [("lists with separators", "src/format.rs format, simple_format, plain, double_quoted, key_value"), ("directives", "src/types.rs fmt of Directive and of the twelve variants"), ("parts", "src/types.rs Display of Spanned, Flag, Account, Currency, Tag, Link, Key, Expr, ExprValue, Amount, AmountWithTolerance, CostSpec, PriceSpec, SimpleValue, MetaValue, Metadata, Posting, Plugin")],
 [], ["Display of Directive, Posting, Plugin, MetaValue"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
