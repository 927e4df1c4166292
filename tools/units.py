"""Which verification units and which theorems decide which property."""
UNITS = {
    "sort": {
        "assumes": [
            "std BTreeMap::{new,get_mut,insert,pop_first}: assumed contracts over a mathematical map and the total order of the keys",
            "std VecDeque: vstd's contracts, plus assumed is_empty",
            "Ord of (Date, u8) is a total order; iterators obey vstd's prophetic iterator laws and terminate",
        ],
    },
    "keyword": {"assumes": ["the previous stage is an iterator of a fixed sequence of tokens (proved of the stages under contract, assumed of the lexer generated by logos)",
                              "derived PartialEq of Token is equality"]},
    "recovery": {"assumes": ["str slicing on character boundaries", "the lexer generated by logos is an iterator of a fixed sequence; spans of rejected text lie on character boundaries, spans of the recovery lexer within its text"]},
    "eolindent": {"assumes": ["the previous stage is an iterator of a fixed sequence of tokens whose joint marker spans at least one byte (a precondition, discharged in unit lexpipe)",
                                "Option::is_some_and, Range::clone: assumed contracts; slice pattern of next_merged read as tuple pattern, `&mut` scrutinee of merge as `&`"]},
    "lexpipe": {"assumes": ["each stage meets the contract proved of it in units recovery, keyword, eolindent (the definitions are shared files; what one stage requires is proved of the ones before it)", "the lexer generated by logos has no token for an indent by itself, its joint marker spans at least one byte, and its spans lie on character boundaries"]},
    "spans": {"rlimit": 80, "props": {r"create_synthetic|SyntheticSources|theorem_c03|denotes_grow|grown": ["C03"], r"^BeancountSources::error|BeancountSources::resolve": ["C02"]},
        "assumes": ["UTF-8 model of str: len, get, slicing, trim_end, chars, char_indices, is_whitespace uninterpreted; a text is at most isize::MAX bytes long",
                           "std: slice::partition_point on a partitioned slice, bool::then_some, Option::and, HashMap::{get,get_mut,insert} over a mathematical map keyed by text",
                           "BeancountSources as built by read_with_includes is well formed (source n has an entry under name n, with the offsets of its characters): wf, proved of read_with_includes in unit sources",
                           "fewer than 2^32 sources, real and synthetic"]},
    "spanned": {"assumes": ["PartialEq, Hash and Hasher of std: stub traits whose implementations for the content say what is compared and what is fed to the hasher",
                             "derived PartialEq of the types built from Spanned: unit equal"]},
    "equal": {"assumes": ["a derived PartialEq is that of the same variant with every field equal (spelt out by vx from the definition); where one is written by hand it is extracted instead",
                           "PartialEq of str (characters), time::Date, rust_decimal::Decimal (value, whatever the scale), Vec, HashMap and HashSet (by content of keys)"]},
    "costspec": {"assumes": ["Iterator::{once,chain,fold} of std: assumed contracts over sequences, fold as the composition of its closure's contract",
                              "derived Default of CostSpecBuilder gives None, false and empty everywhere",
                              "Display of CostSpecErrors uninterpreted (exercised by the oracle)",
                              "chumsky: the closure given to try_map is called with what the inner parser produced, and its Err becomes an error of the parse"]},
    "expr": {"assumes": ["rust_decimal: checked_add, checked_sub, checked_mul, checked_div, neg, scale, rescale uninterpreted, what decimal arithmetic means; None on overflow and division by zero",
                          "chumsky: foldl applies its closure from the left, the levels of the grammar nest as written (exercised by the oracle)"]},
    "diag": {"assumes": ["format! of the two messages uninterpreted in the kind (their wording exercised by the oracle)",
                          "std: Option::get_or_insert, Option::iter, Iterator::{flatten,map,collect}, Vec::{push,append}, ToString: assumed contracts over sequences",
                          "the types whose kind is named are opaque here", "chumsky's Rich: its text, reason, position and contexts as it reports them"]},
    "ident": {"assumes": ["char::is_alphanumeric and is_alphabetic uninterpreted; the ASCII classes by their ranges",
                           "str::{chars,is_empty,find,split}, Iterator::{next,next_back,filter,take,count,last,any,all,collect}: assumed contracts over the sequence of characters"]},
    "names": {"assumes": ["std HashMap::{entry,get,insert,remove,from_iter} over mathematical maps keyed by the text of the name; Vec::sort_by_key leaves what is in order alone",
                           "contracts of AccountTypeName::try_from and AccountName::try_from (proved in unit ident)", "str::split at colons gives at least one piece"]},
    "options": {"props": {r"^ParserOptions::long_string_maxlines|^Sourced::item": ["C19"], r"account_type_name$": ["C09"]},
                "assumes": ["contracts of AccountTypeNames::update (unit names), of the identifiers (unit ident), of Error::{new,related_to_named_span} (unit diag)",
                             "what a text denotes as decimal, integer, booking method or processing mode, and ASCII case-insensitive equality, uninterpreted; Path::{parent,join} uninterpreted",
                             "std HashMap over mathematical maps; Option and Result combinators by their documented meaning; a text equals a literal exactly if their characters agree",
                             "constructors used as functions (`.map(Title)`) read as closures"]},
    "literals": {"assumes": ["std's numerals, the crates time (Month, Date, Time), rust_decimal and unescaper: what a text denotes, uninterpreted; a text without backslash unescapes to itself; months are 1 to 12",
                              "str::{split,contains}, String::retain: assumed contracts; the lexer's patterns give a date three parts and a time two or more"]},
    "longstring": {"assumes": ["chumsky hands map_with's closure the token's text, its span and the state; SimpleState derefs to the state",
                                "str::chars, Iterator::{filter,count}: assumed contracts; a text is at most isize::MAX bytes long", "contracts of Warning::{new,related_to_named_span} (unit diag); format! of the hint uninterpreted in the limit and the line count"]},
    "pragma": {"props": {r"augment_tags": ["C06"], r"augment_key_values": ["C07"], r"same_meta": ["C17"], r"BeancountParser::parse": ["C01", "C16"], r"Directive::(date|variant)": ["C01"]},
               "assumes": ["std HashMap, VecDeque, mem::replace and Path over mathematical maps, sequences and the text of the path; HashMap equality of pushed tags (same_tags) by content; draining a map visits each entry once in some order",
                            "canonicalization of a path is a function for the duration of a parse",
                            "the include table has an entry for every include of every source (`covered`): proved of read_with_includes in unit sources for the includes which get_includes finds",
                            "contract of Options::assimilate (unit options) and of Sort (unit sort: the stable rearrangement by key of all its iterator yields)",
                            "Spanned<Metadata> and Spanned<Directive> reach their content through Deref (named `.item` in the extracted text)"]},
    "sources": {"props": {r"content_iter|num_sources|complete_wf|SourceId|usize": ["C02", "C03", "C16", "C17"], r"path_dir|resolve_included|error_paths|included_globs|root_path|read_with|complete|added|take_next|expand": ["C17"], r"BeancountParser|own_n|outputs|one_more|tokens_at": ["C16", "C17"]},
                "assumes": ["the file system does not change while the sources are read: canonical form, content and what the glob crate matches are functions of the path; a directory which cannot be searched cannot be read as a file; matched paths are UTF-8",
                             "termination of the reading loop (finitely many files are reachable) not proved",
                             "get_includes finds every include which the grammar reads (includes_of), exercised by the oracle",
                             "chumsky: what the grammar gives and how it leaves the state is a function of path, source number, tokens, end position and state",
                             "fewer than 2^32 sources (wf)",
                             "std HashMap, VecDeque, Result and Option combinators, once, chain, filter_map, collect: assumed contracts over maps and sequences"]},
    "assembly": {"props": {r"theorem": ["C13", "C20"]},
                 "assumes": ["std HashMap and HashSet over mathematical maps keyed by the text of the name; Vec::iter, Iterator::fold as the loop it stands for, ExactSizeIterator::len: assumed contracts; derived Default of Metadata is empty",
                              "chumsky: the closures given to validate, map, map_with and try_map are called with what the inner parser produced, and each error emitted becomes one error of the parse",
                              "Spanned<Metadata> reaches its metadata through Deref (named `.item` in the extracted text)"]},
}
UNITS["front"] = {"props": {"lex_with_source|end_of_input": ["C02", "C05", "C17"], "get_includes": ["C17"]},
    "assumes": ["what lex yields is a function of the text (its stages under contract in units recovery, keyword, eolindent, lexpipe; the lexer generated by logos given)",
                "Iterator::{map,collect}, str::len: assumed contracts over sequences",
                "chumsky: Input::{map,with_context} present the tokens, end and context given; parse_with_state yields a function of them (the include parser itself proved in unit grammar)",
                "a file whose includes parser gives no output at all has none (unreachable, the parser accepts every sequence)"]}
UNITS["render"] = {"assumes": ["the crate ariadne: a report is built of exactly the place, message and labels given and written as one piece; how it looks is exercised by the oracle",
                "what a writer or formatter has been given: assumed contracts of write_fmt and write!, nothing said once writing has failed; format strings uninterpreted except that the text mentions its argument",
                "source and characters which a span means (means, means_syn): functions of sources and span, contract of get_adjusted_source (unit spans); the accessors of Report (unit diag)",
                "std HashMap as the set of its pairs, Iterator::{map,filter_map,chain,collect}, Vec::{extend,into_iter}: assumed contracts"]}
UNITS["print"] = {"assumes": ["what a formatter has been given: text appended by write_str and by showing a thing, nothing said once writing has failed; write! and writeln! read as the calls they stand for",
                "how dates, decimals and booking methods are shown (time, rust_decimal, strum): functions of the value",
                "the crate lazy_format, for the four formats used; the functions passed to format are called as such",
                "std HashMap and HashSet iterated in an order which is a function of the map; Option and Vec in their order",
                "showing a part of an expression: the recursive call is assumed to end, and is then as proved"]}
UNITS["grammar"] = {"rlimit": 60, "props": {"^date$": ["C20"], "^decimal$": ["C20"], "^tag$": ["C10", "C20"], "^link$": ["C10", "C20"], "^key$": ["C10", "C20"], "^currency$": ["C10", "C20"], "^booking$": ["C20"], "^account$": ["C09", "C20"], "^string$": ["C19", "C20"], "^bool$": ["C20"], "^flag$": ["C20"], "^txn$": ["C20"], "^expr_value$": ["C11"], "^amount$": ["C20"], "^loose_amount$": ["C20"], "^amount_with_tolerance$": ["C20"], "^compound_expr$": ["C12", "C20"], "^scoped_expr$": ["C20"], "^compound_amount$": ["C12", "C20"], "^cost_comp$": ["C12", "C20"], "^cost_spec$": ["C12", "C20"], "^price_annotation$": ["C20"], "^tags_links$": ["C13", "C20"], "^currency_list$": ["C13", "C20"], "^simple_value$": ["C20"], "^meta_value$": ["C20"], "^meta_key_value$": ["C20"], "^metadatum_line$": ["C20"], "^metadata$": ["C13", "C20"], "^posting$": ["C20"], "^price$": ["C20"], "^balance$": ["C20"], "^close$": ["C20"], "^commodity$": ["C20"], "^pad$": ["C20"], "^document$": ["C20"], "^note$": ["C20"], "^event$": ["C20"], "^query$": ["C20"], "^open_header_line$": ["C20"], "^open$": ["C20"], "^custom$": ["C20"], "^transaction_header_line$": ["C20"], "^transaction$": ["C20"], "^directive$": ["C20"], "^expr$|^in_parens|^signed|^is_minus|expr .map": ["C11"], "^includes|^include_texts": ["C17"], "^option$": ["C08"], "^declaration$": ["C16"], "^file$": ["C01", "C16"], "^pragma$": ["C06", "C07", "C08", "C16", "C17"]},
    "assumes": ["chumsky's combinators: just, any_ref, end, select_ref!, map, map_with, try_map, validate, to, ignored, then, ignore_then, then_ignore, delimited_by, or, or_not, choice, group, repeated, collect, foldl, recursive, recover_with(skip_then_retry_until), labelled, as_context: assumed contracts over the sequence of tokens (verus/chumsky.inc): what is consumed and yielded, the span, the errors emitted, and that the state keeps what failed alternatives did to it; recursive gives a fixed point",
                 "the closures given to validate, try_map_with, and some of map and map_with by the contract proved of them in units assembly, costspec, expr, names, options, longstring",
                 "a function given to map or map_with is deterministic: it yields what its body says (the contract is its own text)",
                 "Vec::into_iter, Iterator::{filter_map,collect}, Option::is_some_and: assumed contracts"]}
PROPS = {
    "C01": {"units": ["sort"], "level": "proof", "theorems": ["theorem_c01_sort"],
            "bounded": ["PragmaProcessor::next interleaving of includes (see C17)", "chumsky grammar: which directives a file declares"]},
}
PROPS["C04"] = {"units": ["eolindent", "lexpipe"], "level": "proof", "theorems": ["theorem_c04", "all_lined (postcondition of lex, for every text)"],
    "bounded": ["logos-generated lexer: which characters make which token"],
    "note": "EolIndentHandler proved to yield handled(s, final_eol) for every token sequence s, and theorem_c04 proves of handled: no leading or doubled Eol, Indent only after Eol, no internal marker, final Eol, and every token of every line not ignored kept in order."}
PROPS["C05"] = {"units": ["keyword", "recovery", "lexpipe", "front"], "level": "proof", "theorems": ["tokens_of, end_at (postconditions of lex_with_source, end_of_input)", "next (KeywordThenColonToKey): rem == keyed(...)", "next (RecoveryAttempter): rem == recovered(...)"],
    "bounded": ["logos-generated lexers: which characters make which token"],
    "note": "KeywordThenColonToKey and RecoveryAttempter proved to yield exactly keyed(s) and recovered(s) for every sequence s, positions included."}
PROPS["C01"]["units"] = ["sort", "pragma"]
PROPS["C01"]["theorems"] = ["theorem_c01_sort", "outcome (postcondition of BeancountParser::parse)", "yields (postcondition of PragmaProcessor::next)"]
PROPS["C01"]["bounded"] = ["chumsky itself and the lexer generated by logos (the grammar is proved over assumed contracts of the combinators)"]
PROPS["C01"]["note"] = "For every sequence of directives Sort proved to yield the stable rearrangement by key, each exactly once; the key proved to be date, then open, balance, others; PragmaProcessor proved to hand on every directive of every file in order, and parse to return exactly that sequence sorted."
PROPS["C06"] = {"units": ["pragma"], "level": "proof", "theorems": ["tags_augmented (postcondition of Metadata::augment_tags)", "yields (postcondition of PragmaProcessor::next)", "leftover (postcondition of PragmaProcessor::result)"],
    "bounded": ["chumsky itself and the lexer generated by logos"],
    "note": "For every sequence of declarations in every file, next proved to push and pop tags on per-tag stacks, to report a pop without a push at its position, to add exactly the most recent outstanding push of each tag a directive does not carry, and result to report each outstanding push."}
PROPS["C07"] = {"units": ["pragma"], "level": "proof", "theorems": ["metas_augmented (postcondition of Metadata::augment_key_values)", "yields (postcondition of PragmaProcessor::next)", "leftover (postcondition of PragmaProcessor::result)"],
    "bounded": ["chumsky itself and the lexer generated by logos"],
    "note": "As C06, of metadata: per-key stacks, own values win, the top of each stack otherwise."}
PROPS["C16"] = {"units": ["pragma", "sources"], "level": "proof", "theorems": ["outcome (postcondition of BeancountParser::parse)", "yields (postcondition of PragmaProcessor::next)", "gathered (postcondition of BeancountParser::parse_declarations)", "all_sources (postcondition of BeancountSources::content_iter)"],
    "bounded": ["chumsky itself: where and with which message it reports that the input does not follow the grammar"],
    "note": "parse proved to succeed exactly if the errors of the files, of the pragmas and of what is left over are all none, to return all of them in order otherwise, the plugins in order of declaration and the warnings unchanged in either case."}
PROPS["C17"] = {"units": ["pragma", "sources", "front"], "level": "proof", "theorems": ["include_texts (postcondition of get_includes)", "yields (postcondition of PragmaProcessor::next)", "same_meta_key_values: same_metas", "complete (postcondition of BeancountSources::read_with_includes)", "against (postcondition of resolve_included_path)", "all_sources, gathered"],
    "bounded": ["which files the glob crate finds", "that includes and the grammar see the same tokens"],
    "note": "read_with_includes proved to expand every include of every file relative to that file's directory, to read each file found once, whatever paths lead to it, and to keep it complete under the path found first. For every table of includes and every set of files, next proved, with a termination measure, to enter each file once, in place of its first include, to resume the including file afterwards, and to report what matches nothing, what cannot be read and what is repeated in another context, at the include."}
PROPS["C02"] = {"units": ["spans", "sources", "front"], "level": "proof", "theorems": ["tokens_of, end_at (postconditions of lex_with_source, end_of_input)", "resolved (postcondition of BeancountSources::resolve_span)", "resolved_text"],
    "bounded": [],
    "note": "For every text and every span triple, resolve_span and error_source_text proved to give the text less trailing whitespace, its 1-based lines and its file name, invalid spans and sources collapsing to nothing; no slicing panics."}
PROPS["C03"] = {"units": ["spans", "sources"], "level": "proof", "theorems": ["theorem_c03", "theorem_c03_files", "grown_keeps"],
    "bounded": [],
    "note": "create_synthetic_span proved to preserve the invariant and what every earlier span denotes, so by induction every fragment's span resolves to its fragment for ever."}
PROPS["C11"] = {"units": ["expr"], "level": "proof", "theorems": ["expr_value closure: value == rounded(value_of(expr), most_places(written(expr)))", "most_places_max"],
    "bounded": ["chumsky itself and the lexer generated by logos"],
    "note": "For every expression tree evaluate, its helpers and ExprValue::checked_from proved to give the value by structural recursion, rounded to the largest scale written, or none; the error path of expr_value proved; folds of the grammar proved to build the tree to the left. The grammar of expressions proved, over assumed contracts of the combinators, to be the only one in which sums are of products of factors, each level grouping to the left, a factor a number or a parenthesised expression, perhaps signed."}
PROPS["C12"] = {"units": ["costspec"], "level": "proof", "theorems": ["theorem_c12"],
    "bounded": ["chumsky itself and the lexer generated by logos"],
    "note": "For every sequence of components the builder, the cost_spec closure and the accessors proved to keep exactly what was given, and to refuse exactly repetitions, naming them."}
PROPS["C15"] = {"units": ["diag", "render"], "level": "proof", "theorems": ["all_told, told, at_hand (postconditions of write_errors_or_warnings, write_report, sources of both kinds of sources)", "postcondition of fmt_error_or_warning", "postconditions of ErrorOrWarning::{new,related_to,related_to_all,related_to_named_span,in_context,in_contexts,in_explicitly_labelled_contexts,with_annotation}, of the accessors of Report, and of From<ParserError> for Error"],
    "bounded": ["wording of messages"],
    "note": "Every builder proved to append exactly what is attached to its own list and to keep everything else; every accessor proved to report the lists unchanged and in order; kinds of all elements proved."}
PROPS["C18"] = {"units": ["spanned", "equal"], "level": "proof", "theorems": ["theorem_c18", "same (postcondition of the equality of each of 41 types)"],
    "bounded": ["derived hashing of identifiers"],
    "note": "eq, hash, map, map_into, as_ref and the conversions of Spanned proved for every content type against stub traits; equality of every type of element proved to be equality of the contents of all its fields."}
PROPS["C08"] = {"units": ["options"], "level": "proof", "theorems": ["recognised (postcondition of BeancountOption::parse)", "option_refused, option_taken (postcondition of the closure of the option parser)", "recorded (postcondition of Options::assimilate)"],
    "bounded": ["iteration order of documents and operating_currency"],
    "note": "For all names and values BeancountOption::parse proved to yield the setting of that name with that value and its positions, or the right kind of error; Options::assimilate proved to record it once under its own name, changing no other, and to point back at the first on repetition; accessors proved."}
PROPS["C09"] = {"units": ["names", "options"], "level": "proof", "theorems": ["theorem_c09", "AccountTypeNames::wf preserved by update, established by default"],
    "bounded": [],
    "note": "One-to-one invariant proved of the default names and preserved by every renaming, accepted or refused; Account::new proved to accept exactly accounts whose first component is a current name, with its type."}
PROPS["C10"] = {"units": ["ident"], "level": "proof", "theorems": ["postconditions of the nine conversions: Ok exactly on currency_ok, tag_ok, key_ok, name_ok, type_name_ok, subaccount_ok, upper"],
    "bounded": [],
    "note": "For every string each conversion proved to succeed exactly if the published rules hold, to keep the string, and not to panic."}
PROPS["C14"] = {"units": ["literals"], "level": "proof", "theorems": ["postconditions of parse_date, parse_time, parse_number, unescape_string_literal"],
    "bounded": ["logos-generated lexer: which characters make a literal, and the callbacks in its attributes"],
    "note": "For every text the decoding functions proved to give what the pieces denote (time, rust_decimal and unescaper as given), an error exactly otherwise, and not to panic."}
PROPS["C19"] = {"units": ["longstring", "options"], "level": "proof", "theorems": ["postcondition of the closure of string: a warning exactly if lines > limit"],
    "bounded": ["chumsky backtracking over a string in a malformed directive"],
    "note": "For every string and every setting the check proved to add exactly one warning, at the string, with count, limit and option, if and only if the lines exceed the limit; the setting proved to be the last given, or 64."}
PROPS["C13"] = {"units": ["assembly"], "level": "proof", "theorems": ["postconditions of tags_links_gather, metadata_gather, currency_list_gather, Metadata::{merge_tags,merge_links}, and `joined` of every directive's closure"],
    "bounded": ["chumsky itself and the lexer generated by logos"],
    "note": "For every list of tags, links, metadata lines and currencies, the closures proved to keep exactly what occurs and to emit exactly one error per repetition, on the first line, in the metadata and across both, for every kind of directive."}
PROPS["C20"] = {"units": ["assembly"], "level": "proof", "theorems": ["postconditions of the assembling closure of each of the twelve directives, of postings, amounts, price annotations, payee and narration, and of all accessors"],
    "bounded": ["chumsky itself and the lexer generated by logos"],
    "note": "Every closure which puts a directive, posting, amount or price annotation together proved to place each part in its own field unchanged, with its position; every accessor proved to give its own field."}
PROPS["C23"] = {"units": ["print"], "level": "proof", "theorems": ["postcondition of Display::fmt and of the fmt of each directive: the text added is text(), body()", "postcondition of format: run_of"],
    "bounded": ["Display of the crates time and rust_decimal"],
    "note": "For every value, the text which each Display adds proved to be that of its parts in order, with absent parts leaving nothing; lists of any length by induction in format."}
GRAMMAR_THEOREMS = {'C01': 'file: p.sem() == file_s', 'C06': 'pragma: run == pragma_g at pushtag, poptag', 'C07': 'pragma: run == pragma_g at pushmeta, popmeta', 'C08': 'option: p.sem() == option_s', 'C09': 'account: p.sem() == account_s', 'C10': 'tag, link, key, currency: p.sem()', 'C11': 'expr: p.sem() == expr_s (only_expr)', 'C12': 'compound_amount, cost_comp, cost_spec: p.sem()', 'C13': 'tags_links, currency_list, metadata: p.sem()', 'C16': 'declaration, file: p.sem()', 'C17': 'includes: exactly the texts after include, in order (included_many)', 'C19': 'string: p.sem() == string_s', 'C20': 'p.sem() == X_s of every parser of src/parsers.rs; only_X: keyword decides the directive'}
for p_ in ("C01", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C16", "C17", "C19", "C20"):
    PROPS[p_]["units"].append("grammar")
    PROPS[p_]["theorems"].append("grammar: " + GRAMMAR_THEOREMS[p_])
NOT_APPLICABLE = {
    "C21": "Termination and absence of panics for arbitrary text rest on the lexer generated by logos and on chumsky's combinators, whose generics (recursive parsers, dyn closures, associated input types) are beyond Verus, and a contract on our closures says nothing about them; the panic-freedom of our own functions is proved where they are under contract (C02, C10, C11, C14).",
    "C22": "The only source of nondeterminism is HashMap iteration order (BeancountSources::content_iter), a relation between two runs; a contract speaks of one run, and the order is deliberately unspecified in the assumed contracts on HashMap.",
}
