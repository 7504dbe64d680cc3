#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table. Run by hand: `python3 tools/mkdocs.py`."""
import json, pathlib

root = pathlib.Path(__file__).resolve().parent.parent
P = []

def prop(id, title, statement, over, text, why, files, mech, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, note=note, observe=observe))

ALLPARSE = ["src/parse.rs", "src/parse_type.rs", "src/parse_fn.rs", "src/parse_impl.rs",
            "src/parse_mod.rs", "src/parse_extern.rs", "src/parse_utils.rs"]

prop("C01", "Parsing then printing an item gives back exactly the same tokens",
     "For every supported Rust item, turning the parsed item back into tokens yields the input token for token: "
     "the same identifiers, literals and punctuation in the same order, the same delimiters and nesting (invisible groups included), "
     "and the same joint/alone spacing of every punctuation token. The same holds for each nested item, member and other part (field, variant, parameter, attribute, type, bound, predicate) printed on its own or after other tokens.",
     ["inputs", "programs"], "every supported item (struct, enum, union, fn, impl, trait, mod, extern block, extern crate, const, static, type alias, use, macro), with any attributes, visibility, generics, where clauses, types and values, of any size and nesting",
     "The unit tests round-trip some 90 hand-written items and compare rendered text, which hides spacing, invisible groups and most combinations of optional parts.",
     ALLPARSE + ["src/types.rs", "src/punctuated.rs"],
     [("parsers keep every punctuation and group they consume", "src/parse*.rs"),
      ("ToTokens of each type", "src/types.rs"), ("ToTokens of Punctuated", "src/punctuated.rs")],
     "random items against the token tree the generator emitted")
prop("C02", "Printed tokens keep their source locations; item spans cover the item",
     "Every token of a printed item carries the span it had in the input, delimiters included. "
     "The span reported for a parsed item, and for each part of it that can be printed (field, variant, parameter, member, attribute, type, bound, predicate), "
     "starts at the first and ends at the last token of that part.",
     ["inputs", "programs"], "every supported item, laid out over any number of lines",
     "The existing tests never look at spans except for a few error positions; a macro's diagnostics depend on all of them.",
     ["src/types.rs", "src/parse_utils.rs", "src/parse_type.rs", "src/parse_fn.rs", "src/punctuated.rs"],
     [("GroupSpan", "src/types.rs GroupSpan, ToTokens impls"), ("span via quote::spanned::Spanned", "src/types.rs, src/types_edition.rs")],
     "positions of printed tokens against the positions of the lexed input; span() against first and last token")
prop("C03", "Every supported item is accepted, as the right kind",
     "Every item of stable Rust syntax in the supported set is accepted without error or panic and reported as the kind of item it is, "
     "both at top level and as a member of a module, impl, trait or extern block. "
     "The syntax venial has no place for (listed in the known-findings file) is the only exception.",
     ["inputs", "programs"], "all valid items generated from the Rust grammar minus the recorded exceptions",
     "The tests sample one or two examples of each kind; which keyword sequences start which item is a combination of attributes, visibility, qualifiers and names.",
     ALLPARSE, [("dispatch on the leading keywords", "src/parse.rs consume_item"), ("member dispatch", "src/parse_impl.rs consume_either_fn_type_const_static_impl, parse_impl_body, parse_trait; src/parse_mod.rs parse_mod; src/parse_extern.rs")],
     "a grammar-based generator of valid items; the kind is known by construction")
prop("C04", "Struct, union and enum contents are reported exactly",
     "For every struct, union or enum definition, the parsed item reports its name, its shape (unit, tuple, named), and each field or variant in order with exactly its own attributes, visibility, name, type, nested fields and discriminant. "
     "No field or variant is lost, merged, split or attributed to another.",
     ["inputs", "programs"], "every struct, union and enum definition, with any field types (commas, angle brackets, arrows and groups inside of them included)",
     "Splitting is driven by punctuation inside arbitrary types; tests cover a few field types.",
     ["src/parse.rs", "src/parse_type.rs", "src/parse_utils.rs", "src/types.rs"],
     [("parse_tuple_fields, parse_named_fields, parse_enum_variants, consume_field_type", "src/parse_type.rs"), ("angle-bracket tracking", "src/parse_utils.rs consume_stuff_until")],
     "parsed tree against the tree the generator built")
prop("C05", "Generic parameters and where clauses are reported exactly",
     "For every definition with generic parameters or a where clause, each parameter is reported in order with its kind (lifetime, type, const), name and bound, and each where predicate with its left side and its bound, and nothing else is mixed in.",
     ["inputs", "programs"], "every generic parameter list and where clause on any item that can have one",
     "Bounds and predicates contain arbitrary nested types with `>`, `->`, `::`, `:` and `,`; tests hold a dozen of them.",
     ["src/parse_type.rs", "src/parse_utils.rs", "src/types.rs", "src/types_edition.rs"],
     [("consume_generic_params, consume_bound, consume_where_clause", "src/parse_type.rs")],
     "parsed tree against the tree the generator built")
prop("C06", "Functions are reported exactly",
     "For every function, with or without a body, the parsed item reports its qualifiers (default, const, async, unsafe, extern and ABI), name, generics, receiver and typed parameters in order (each with attributes, `mut`, reference, lifetime, name and type), return type, where clause and body.",
     ["inputs", "programs"], "every function: free, in impl, trait or extern block; every combination of qualifiers and receivers",
     "Combinations of qualifiers, receivers and types are many; tests hold about twenty functions.",
     ["src/parse_fn.rs", "src/types.rs"],
     [("consume_fn_qualifiers, parse_fn_params, consume_fn_return, consume_fn", "src/parse_fn.rs")],
     "parsed tree against the tree the generator built")
prop("C07", "Impls, traits, modules and extern blocks report every member",
     "For every impl, trait, module and extern block, the header (unsafe, generics, negation, trait and self type, supertraits, ABI, where clause) is reported exactly, inner attributes are separated from the members, and the members come out complete, in order and with the right kind and contents. "
     "A module without a body is told apart from one with an empty body.",
     ["inputs", "programs"], "every container item, nested to any depth, with any mix of members",
     "Tests contain a few containers with up to a handful of members and no deep nesting.",
     ["src/parse_impl.rs", "src/parse_mod.rs", "src/parse_extern.rs", "src/types.rs"],
     [("parse_impl, parse_impl_body, parse_trait", "src/parse_impl.rs"), ("parse_mod", "src/parse_mod.rs"), ("parse_extern_block", "src/parse_extern.rs")],
     "parsed tree against the tree the generator built")
prop("C08", "Constants, statics, aliases, uses, macros, extern crates: exact contents",
     "For every const, static, type alias, use declaration, macro invocation or definition and extern crate, the parsed item reports exactly its name, mutability, type, value, import tree, macro name and body, and alias, with each optional part present exactly when it was written.",
     ["inputs", "programs"], "every such item, at top level or as member; values may be any expression (comparisons, closures, blocks, struct literals)",
     "The values are arbitrary expressions; tests use literals and a couple of operators.",
     ["src/parse_impl.rs", "src/parse_mod.rs", "src/parse_extern.rs", "src/parse_fn.rs", "src/types.rs"],
     [("parse_const_or_static, consume_ty_definition", "src/parse_impl.rs"), ("parse_use_declaration", "src/parse_mod.rs"), ("consume_macro", "src/parse_fn.rs"), ("consume_extern_crate", "src/parse_extern.rs")],
     "parsed tree against the tree the generator built")
prop("C09", "Attributes and visibility are attached to the right place, unchanged",
     "Every attribute and doc comment, outer or inner, is reported on exactly the item, field, variant, parameter or member it was written on, in order, with its path and its value (none, `= value`, or delimited group) exactly as written. "
     "The visibility marker of every item, field and member is reported exactly as written, and absent when there is none.",
     ["inputs", "programs"], "every position where an attribute or visibility can be written, every attribute form",
     "Tests put attributes in six positions with a few forms each.",
     ["src/parse_utils.rs", "src/parse.rs", "src/types.rs"],
     [("consume_attributes_with_inner, consume_vis_marker", "src/parse_utils.rs")],
     "parsed tree against the tree the generator built, items dense with attributes and visibilities")
prop("C10", "Consuming one item leaves exactly the rest of the stream",
     "For every stream that starts with an item, consuming an item takes exactly the tokens of that item, and the remaining tokens come out afterwards unchanged, so that a stream of items can be read one after another. "
     "Parsing a stream as a single item panics when tokens are left after it and otherwise agrees with consuming.",
     ["inputs", "histories"], "every sequence of supported items, and every item followed by arbitrary tokens that do not belong to it",
     "One existing test rejects trailing tokens; the end of the consumed range is not tested for most kinds.",
     ["src/parse.rs"] + ALLPARSE[1:],
     [("consume_item, parse_item", "src/parse.rs")],
     "sequences of generated items read one by one, and foreign tails, against the emitted tokens")
prop("C11", "Unknown or broken input is rejected or kept, never silently altered",
     "For every token stream whatsoever, parsing either rejects it (error or panic, in finite time) or accepts it; if accepted, printing the result gives back exactly the input tokens, and parsing that output again gives the same result. "
     "Parsing and consuming agree on acceptance, and the same input always gives the same outcome.",
     ["inputs"], "all token streams: random tokens, mutated and spliced items, truncated items",
     "Tests reject five malformed inputs; loss of tokens on unexpected input is invisible to example tests.",
     ALLPARSE + ["src/types.rs", "src/punctuated.rs"],
     [("panic on unexpected tokens", "src/parse_utils.rs parse_punct, parse_ident, consume_stuff_until; src/parse*.rs"), ("ToTokens", "src/types.rs")],
     "arbitrary, mutated and spliced token streams; lossless-or-rejected, agreement and stability oracles")
prop("C12", "Enum discriminants: single tokens accepted, complex ones a located error",
     "An enum whose discriminants are each a single token is accepted with each value on its variant. "
     "An otherwise supported enum with a discriminant of several tokens gives an error, not a panic, whose position lies within such a discriminant, also when the enum is nested in modules.",
     ["inputs", "programs"], "every enum, with any discriminant expression on any variants, at any nesting of modules",
     "Two tests cover one simple and one complex discriminant at top level.",
     ["src/parse_type.rs", "src/parse.rs", "src/parse_mod.rs"],
     [("consume_enum_discriminant, parse_enum_variants", "src/parse_type.rs"), ("error propagation", "src/parse_mod.rs parse_mod")],
     "enums with generated discriminants; verdict and error position known by construction")
prop("C13", "Types are recognised as paths exactly when they are paths",
     "Asking a parsed type for its path gives a path exactly when the type is a plain path (simple, qualified by `::`, with generic arguments or turbofish), with the right segments in order, each with its generic arguments in order and classified as lifetime, binding, or type or const value. "
     "The path has the same tokens as the type, and references, tuples, slices, pointers, fn, dyn, impl, qualified-self and macro types give none. Formatting a path for debugging never panics.",
     ["inputs", "programs"], "every type in the grammar",
     "Three tests cover a handful of types.",
     ["src/types_edition.rs", "src/parse_utils.rs", "src/parse_type.rs", "src/types.rs"],
     [("TypeExpr::as_path", "src/types_edition.rs"), ("consume_path", "src/parse_utils.rs"), ("consume_generic_args, parse_generic_arg", "src/parse_type.rs")],
     "generated path and non-path types against the generated segments")
prop("C14", "Adding generic parameters keeps lists well formed and everything else intact",
     "Building a generic parameter (lifetime, bounded lifetime, type, bounded type, const) gives one with that name, kind and bound, and adding it to any parameter list or item, any number of times in any order, puts lifetimes before all others and other parameters at the end, in a list that is separated correctly. "
     "The result parses again as the same item, and nothing else of it changes.",
     ["inputs", "histories"], "every item that can have generics (and standalone lists), every sequence of additions",
     "Doc tests add one parameter to one list.",
     ["src/types_edition.rs", "src/punctuated.rs"],
     [("GenericParam constructors, is_ty, is_lifetime, is_const, GenericParamList::with_param", "src/types_edition.rs"), ("per-item with_param", "src/types_edition.rs")],
     "stateful: random sequences of additions against a list model, then print and reparse")
prop("C15", "Where predicates can be parsed, added and derived without damage",
     "Any predicate given as tokens is parsed into its left side and bound (tokens without a colon panic), and adding predicates to a where clause or item, any number of times, appends them in order after the existing ones with correct separators. "
     "Deriving a where clause for a trait keeps every declared predicate and adds exactly one bound by that trait per type parameter; the result parses again, and nothing else of the item changes.",
     ["inputs", "histories"], "every item that can have a where clause, every predicate, every sequence of additions",
     "Doc tests add one predicate to one item.",
     ["src/types_edition.rs", "src/parse_type.rs", "src/types.rs"],
     [("WhereClausePredicate::parse, WhereClause::with_predicate, from_predicate", "src/types_edition.rs"), ("with_where_predicate, create_derive_where_clause", "src/types_edition.rs")],
     "stateful: random sequences of additions against a list model, then print and reparse")
prop("C16", "Inline generic arguments match the declared parameters",
     "For every generic parameter list, the inline arguments name each declared parameter once, in order, without bounds, and with lifetimes kept as lifetimes; the owned form is the same, separated as the list is. "
     "An impl block written from an item's parameters, name, inline arguments and where clause is again a supported item.",
     ["inputs", "programs"], "every generic parameter list",
     "One snapshot test and two doc tests.",
     ["src/types_edition.rs", "src/types.rs"],
     [("as_inline_args, InlineGenericArgs, to_owned_args", "src/types_edition.rs, src/types.rs"), ("get_inline_generic_args", "src/types_edition.rs")],
     "generated lists against the arguments known by construction; parse of the derived impl")
prop("C17", "Punctuated lists behave like sequences of values and separators",
     "After any sequence of pushes, inserts and edits in place, a separated list holds exactly the values and separators a plain sequence would, and its length, order and iterators agree with it. Printing it puts exactly one separator between neighbours, and a trailing one only if the last value was given one; inserting past the end panics.",
     ["histories", "inputs"], "every sequence of operations on a list",
     "No unit test drives more than one insertion.",
     ["src/punctuated.rs"],
     [("push, insert, items, punct, len, Deref, DerefMut, ToTokens", "src/punctuated.rs")],
     "model-based: random operation sequences against a Vec of (value, separator)")
prop("C18", "Generic item queries agree with the item",
     "For every item, each kind query answers for exactly the item's own kind, and the name, attributes and generic parameters obtained through the general item are those of the specific item, with writes through the mutable forms visible in both and in the printed tokens. "
     "Cloning gives an equal, independent item, and formatting an item for debugging never panics.",
     ["inputs", "programs"], "every supported item, every query",
     "Tests exercise each query on at most one kind.",
     ["src/types_edition.rs", "src/types.rs"],
     [("Item::as_*, name, attributes, attributes_mut, generic_params, generic_params_mut", "src/types_edition.rs"), ("Debug impls", "src/types.rs")],
     "generated items of every kind; all queries against the generated tree")
prop("C19", "Field, variant, parameter and attribute queries agree with the tree",
     "For every struct, enum, union, constant and attribute, the convenience queries (field names, field tokens, field types; whether an enum has only empty variants, whether a variant is empty or wraps a single type; parameters by kind; static or constant; an attribute's single path segment and value tokens) answer exactly what the definition says, in declaration order.",
     ["inputs", "programs"], "every such definition",
     "Doc tests and two unit tests show one example each.",
     ["src/types_edition.rs", "src/types.rs"],
     [("Struct::field_names, field_tokens, field_types; Fields and Enum queries", "src/types_edition.rs"), ("Attribute::get_single_path_segment, get_value_tokens", "src/types_edition.rs"), ("Constant::is_static", "src/types.rs")],
     "generated definitions; all queries against the generated tree")
prop("C20", "Errors keep every message and location and render as compile errors",
     "An error built with any message, span or tokens reports that span, and combining errors, in any order and nesting, keeps all of their messages and locations in order. "
     "Rendered as tokens it is a sequence of compile-error macro calls, one per message in order, each with the exact message text and located over the first to last token of its span; its display text is the first message and its debug text holds all.",
     ["inputs", "histories"], "every message text, every span, every sequence of combinations",
     "Doc tests make two errors with plain text.",
     ["src/error.rs"],
     [("new, new_at_span, new_at_tokens, span, to_compile_error, combine, Display, Debug", "src/error.rs")],
     "stateful: random constructions and combinations against a list model")
prop("C21", "Edits through public fields change exactly what was edited",
     "Replacing, removing, adding or reordering any public part of a parsed item (attributes, visibility, names, generics, fields, variants, parameters, types, bodies, members, values) changes the printed tokens at exactly that place, and the edited item parses again to the same contents. "
     "Clones taken before, and items that parts were taken from, stay unaffected.",
     ["inputs", "histories"], "every supported item, every sequence of edits",
     "Tests edit attributes of one struct and one or two builders; printing from fields is otherwise only tested on unedited items.",
     ["src/types.rs", "src/punctuated.rs", "src/types_edition.rs"],
     [("ToTokens impls print from the fields alone", "src/types.rs"), ("Clone derives", "src/types.rs")],
     "stateful: random edits of the parsed item mirrored on the generated tree; print and reparse")
prop("C22", "Presentation does not change the meaning",
     "The same item gives the same parsed contents however it is presented: any whitespace, comments and line breaks, spacing of punctuation as made by the compiler or by quoting, types and values wrapped in invisible groups by macro expansion, or printed to text and read again.",
     ["inputs", "programs"], "every supported item, every pair of presentations",
     "Tests parse quoted code only, so that one presentation (of several a macro sees) is exercised.",
     ALLPARSE, [("punctuation is matched by character", "src/parse_utils.rs"), ("group handling", "src/parse_utils.rs, src/parse_type.rs")],
     "metamorphic: two presentations of one generated item, contents compared")
prop("C23", "An item means the same wherever it stands",
     "An item or member is reported with the same contents when it stands alone, as a member of a module, impl, trait or extern block where it is allowed, and whatever items come before and after it.",
     ["inputs", "programs"], "every supported item, every legal container and neighbours",
     "Tests parse members in one context each.",
     ["src/parse.rs", "src/parse_impl.rs", "src/parse_mod.rs", "src/parse_extern.rs"],
     [("shared parsers for items and members", "src/parse_impl.rs, src/parse_mod.rs, src/parse_extern.rs")],
     "metamorphic: contents of the item alone against its contents within generated containers")

prop("C24", "Broken items are rejected",
     "An item that lacks a token its syntax requires (keyword, name, colon, body, parameter list, closing semicolon of a unit struct, constant, alias, macro or bodiless function), has another punctuation token in place of a required colon, equals sign, semicolon or exclamation mark, or of a comma after a variant, a receiver or a generic parameter without bound, a body, parameter list, visibility or attribute in the wrong delimiters, stray tokens in an attribute, a doubled or leading comma, a doubled or misplaced keyword, qualifier, visibility or attribute, a member its container can't have, a function parameter whose pattern isn't a plain name (which venial has no place for), or tokens left over after its end, isn't reported as a parsed item: parse_item returns an error or panics. (Errors inside of types, bounds and expressions, missing commas between fields, and a missing semicolon after a tuple struct are left to rustc.)",
     ["inputs", "programs"], "every supported item, broken in one place at any level of nesting",
     "Tests try a few broken inputs of one shape each; the place and the surroundings of the error vary without limit.",
     ["src/parse.rs", "src/parse_type.rs", "src/parse_fn.rs", "src/parse_impl.rs", "src/parse_mod.rs", "src/parse_extern.rs", "src/parse_utils.rs"],
     [("expected-token panics and errors", "src/parse.rs, src/parse_type.rs, src/parse_fn.rs, src/parse_impl.rs"), ("end of input checks", "src/parse.rs parse_item")],
     "fault injection: generated items with one breaking edit, which has to be rejected")

prop("C25", "All of this holds in a procedural macro run by the compiler",
     "When rustc hands an item to a procedural macro (as source tokens, or from macro_rules! with types, expressions, paths or attribute contents as `$fragments` in invisible groups), venial behaves as outside of a compiler: "
     "every supported item is accepted and reported with the same contents, prints back exactly the tokens the macro was given with their spans, its span starts at its first token, and a complex discriminant gives an Error positioned at that discriminant. The compiler neither crashes nor hangs.",
     ["inputs", "programs"], "every supported item, given to a procedural macro directly or through macro_rules! fragments",
     "The tests run outside of a compiler on proc_macro2's own tokens; the compiler's tokens, spans and invisible groups are another implementation.",
     ALLPARSE + ["src/types.rs", "src/error.rs", "src/punctuated.rs"],
     [("everything users' macros call", "src/parse.rs parse_item, src/types.rs ToTokens, src/error.rs to_compile_error")],
     "random items compiled by rustc with a reporting procedural macro; reports against the generated tree",
     ["reports written by the macro crate /verif/incompiler, run by rustc"])
prop("C26", "The work grows at most quadratically with the size of an item",
     "Parsing, printing, cloning, debug output, spans and the type and generics accessors do an amount of work that grows at most quadratically with the number of parts of an item (fields, variants, parameters, predicates, attributes, members, arguments, tokens) and with the depth of nesting (types, groups, modules). "
     "No input makes them explode exponentially.",
     ["inputs", "programs"], "every supported item, any repetition or nesting of its parts",
     "Tests hold small items only; blow-up by repeated scanning or copying shows on large ones.",
     ["src/parse_utils.rs", "src/parse_type.rs", "src/parse_impl.rs", "src/types.rs", "src/types_edition.rs"],
     [("token iterators are cloned to look ahead", "src/parse_utils.rs, src/parse_type.rs, src/parse_impl.rs"), ("as_path", "src/types_edition.rs, src/parse_type.rs")],
     "metamorphic: allocation counts for n and 4n repetitions of generated parts")
prop("C27", "A result depends on the input alone, whatever was called before",
     "What parsing, printing, querying or building gives for an input is determined by that input: it is the same in a fresh process, after any number of earlier calls (whether these succeeded, returned an error or panicked), for the n-th time with the same input, and while other threads parse other items. No call changes an item or a token stream that it isn't given to change.",
     ["histories", "schedules"], "every sequence of calls on valid and invalid inputs, in one or several threads, before any call",
     "Every test starts from a state that few calls have led to; what is kept from one call to the next shows after long or failed histories only.",
     ALLPARSE + ["src/types.rs", "src/error.rs", "src/punctuated.rs"],
     [("parsers keep their state in the token iterator alone", "src/parse.rs, src/parse_mod.rs, src/parse_impl.rs"), ("panics unwind out of parsers", "src/parse_utils.rs, src/parse_type.rs")],
     "stateful: random histories in a process of their own, results compared with those in a fresh process",
     ["public API of the venial crate, in child processes of the harness"])
prop("C28", "Code that a macro writes with venial's answers compiles",
     "For every definition that rustc accepts within the supported syntax, a function-like, attribute or derive macro can print the item and write, with venial's queries and builders alone, code that compiles and type-checks: "
     "impl blocks from generic params, inline or owned generic args and where clause, also with added params and predicates; a derive where clause that bounds every type param; patterns, matches and reads of all fields with their names, tokens and types; constructors of single-type variants; discriminant values; wrappers with the signature of each function; an implementation of each trait; uses of the members of a module; the strings of doc attributes; copies of types with all field types replaced and fields or variants added.",
     ["programs"], "every definition that rustc accepts and that is in the supported syntax, directly or with types as macro_rules! fragments",
     "The tests never compile what a macro would emit; whether names, args, bounds and types fit together is decided by the compiler, on the whole of a definition.",
     ["src/types.rs", "src/types_edition.rs", "src/punctuated.rs"] + ALLPARSE,
     [("generic args, derive where clause and builders", "src/types_edition.rs implement_common_methods, GenericParamList, InlineGenericArgs"), ("field and variant accessors", "src/types_edition.rs Struct, Enum, EnumVariant")],
     "random semantically valid definitions compiled by rustc with a deriving procedural macro; rustc's type checker as oracle",
     ["code written by the macro crate /verif/incompiler, compiled by rustc"])


with open(root / "properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"] or ["public API of the venial crate"],
                        "hook_needed": None},
        }, ensure_ascii=False) + "\n")

man = {
    "version": 1,
    "setup_cmd": "./build.sh all",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']} --tier quick",
        "thorough_cmd": f"./check.sh {p['id']} --tier thorough",
        "technique": "property-based testing with shrinking: " + p["note"],
        "level": "exploration",
        "level_note": "Held on every generated case of the run (counts, classes and samples in the evidence); no claim beyond them. "
                      "Trusts the generator and reference tree in /verif/harness, proc_macro2's lexer and the Rust toolchain.",
    } for p in P],
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed through the public API. See DESIGN.md.",
}
(root / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
