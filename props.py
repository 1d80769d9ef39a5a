"""The checked properties: statement, harness program, entry points, bounds.

properties.jsonl and MANIFEST.json are generated from this file by gen.py.
"""

COMMON_ASSUMPTIONS = [
    "The semantics of the LLVM IR instructions, intrinsics and of malloc/memcpy/memcmp/memset as implemented in symex (validated on every run: sampled paths are executed natively and compared).",
    "HashMap hashing is replaced by a constant hash (all keys collide); lookups then depend on key equality only, and iteration order is insertion order.",
    "rustc's translation of the crate to LLVM IR at opt-level 1 with fat LTO, overflow checks on.",
]

PROPS = {}


def prop(pid, **kw):
    PROPS[pid] = kw


def E(name, bounds, covers, **kw):
    return dict(name=name, bounds=bounds, covers=covers, **kw)


SPEC = "solver-based symbolic execution of the crate's LLVM IR against a reference written from the C standard"

prop(
    "C01",
    title="Integer literals have exactly their C value and type",
    statement="A text is accepted as an integer literal exactly when it is a C integer constant (decimal, octal, "
    "hexadecimal or binary digits and a valid suffix in any letter case) that fits the representation, and then its "
    "value and suffix type are the ones C assigns. No other text is accepted, in particular none with digits of another "
    "base, stray characters, or a value that overflows; an octal constant never contains the digits 8 or 9.",
    quantifier=(["inputs"], "all texts (within the stated lengths and alphabets), all digits, all suffixes"),
    why="The tests parse a dozen fixed literals; acceptance, value and suffix must be right for every text, and near "
    "misses (leading zeros, letter case, overflow by one) are what macros in real headers contain.",
    files=["src/ast/literal/int.rs", "src/ast/literal.rs"],
    mechanism=[("digit runs per base and suffix table", "src/ast/literal/int.rs: LitInt::parse / TryFrom<&str>")],
    observe=["LitInt::try_from", "Lit::try_from"],
    bin="c01",
    entries=[
        E("int_free", "every ASCII string of length 0..=5", [1, 2, 3, 4]),
        E("int_digits", "every base, up to 24 digits with three of them free, every suffix", [1, 2, 3, 4]),
        E("int_overflow", "digit strings around the largest representable value in every base", [1, 2, 3, 4]),
        E("int_unicode", "one non-ASCII character at any position of six literals", [2]),
    ],
    asserts={1: "text which is no integer literal was accepted", 2: "wrong value", 3: "wrong suffix type",
             4: "an integer literal was rejected"},
)

prop(
    "C02",
    title="Character literals have exactly their C value and kind",
    statement="A text is accepted as a character literal exactly when it is a C character constant with one character: "
    "an optional prefix, and between single quotes one source character, simple escape, octal or hexadecimal escape or "
    "universal character name. The value is the one C assigns and the kind is given by the prefix; escapes out of the "
    "range of the kind and invalid code points are rejected.",
    quantifier=(["inputs"], "all texts within the stated lengths, all escapes, all code points, all prefixes"),
    why="Tests cover a few escapes; the value has to be right for every escape sequence, digit count and prefix, and "
    "every malformed literal has to be rejected rather than misread.",
    files=["src/ast/literal/char.rs", "src/ast/literal.rs"],
    mechanism=[("escape sequence parsers", "src/ast/literal.rs: escaped_char, universal_char"),
               ("prefix dispatch", "src/ast/literal/char.rs: LitChar::parse_str")],
    observe=["LitChar::try_from"],
    bin="c02",
    entries=[
        E("char_free", "every ASCII string of length 0..=5 in quotes with every prefix, and bare", [1, 2, 3, 4, 5, 7]),
        E("char_escape", "backslash and every ASCII string of length 1..=5, every prefix", [1, 2, 3, 4, 5, 7]),
        E("char_ucn", "\\u and \\U with digits of all three kinds in every position and one free character", [1, 3, 4, 5, 7]),
        E("char_hex", "hexadecimal escapes of 2..=11 characters", [1, 2, 3, 4, 5, 7]),
        E("char_unicode", "one unescaped character of two, three or four bytes, every prefix", [1, 3, 4, 5, 7]),
    ],
    asserts={1: "text which is no character literal was accepted", 2: "wrong value", 3: "wrong kind",
             4: "a character literal was rejected"},
)

prop(
    "C03",
    title="String literals denote exactly the code units C assigns",
    statement="A text is accepted as a string literal exactly when it is a C string literal, and its content is the "
    "sequence of code units of its kind (bytes for unprefixed strings, UTF-8, UTF-16, UTF-32 or wide), with every "
    "escape sequence and universal character name translated. Adjacent string literals are one literal with the "
    "concatenated content, and an unprefixed one takes the kind of its neighbour.",
    quantifier=(["inputs"], "all texts within the stated lengths; all sequences of escapes, universal character names and characters of every encoded length; all prefixes"),
    why="Tests parse a few strings; escapes interact with what follows them (digit counts, multi-byte characters, "
    "adjacent literals), and a wrong byte reaches the generated constant silently.",
    files=["src/ast/literal/string.rs", "src/ast/literal.rs"],
    mechanism=[("string element parsers", "src/ast/literal/string.rs: LitString::parse_str"),
               ("adjacent literals", "src/ast/literal/string.rs: LitString::parse, concat")],
    observe=["LitString::try_from", "Lit::try_from", "VarMacro::parse(..).value()"],
    bin="c03",
    entries=[
        E("str_free", "every ASCII string of length 0..=6", [1, 2, 3, 4, 5, 7]),
        E("str_two", "two elements of any of nine kinds with free characters, every prefix", [1, 2, 3, 4, 5, 7]),
        E("str_three", "an escape or a multi-byte character between two others, every prefix", [1, 2, 3, 4, 5, 7]),
        E("str_adjacent", "two or three adjacent literals of any kinds", [1, 2]),
    ],
    asserts={1: "text which is no string literal was accepted", 2: "wrong code units", 3: "a string literal was rejected",
             4: "wrong concatenation", 5: "not one string", 6: "concatenation rejected"},
)

prop(
    "C04",
    title="Floating literals have the right value, type and rendering",
    statement="A text is accepted as a floating literal exactly when it is a decimal C floating constant, and its value is "
    "the floating-point number of its type nearest to the decimal number. The generated Rust expression denotes the "
    "same number, also for infinities, tiny and huge exponents.",
    quantifier=(["inputs"], "all texts within the stated lengths, all digits in the free positions, the whole range of exponents"),
    why="Tests parse a few numbers; grammar corner cases (missing digits, exponents, suffix case) and rounding must be "
    "right for every text.",
    files=["src/ast/literal/float.rs", "src/ast/literal.rs"],
    mechanism=[("grammar and conversion", "src/ast/literal/float.rs: LitFloat::parse_str"),
               ("rendering", "src/ast/literal/float.rs: LitFloat::to_tokens")],
    observe=["LitFloat::try_from", "VarMacro::generate"],
    bin="c04",
    entries=[
        E("float_free", "every ASCII string of length 0..=5", [1, 2, 3, 4]),
        E("float_forms", "every form of the grammar with up to three free digits, every suffix", [1, 2, 3, 4]),
        E("float_render", "fixed mantissas with a free leading digit and exponents over the whole range", [1, 2, 3, 5, 6]),
        E("float_midpoint", "six numbers half way between two floats or doubles, followed by up to two free digits directly or 14 places later", [1, 2, 3]),
        E("float_unicode", "one non-ASCII character at any position of three literals", [4]),
    ],
    asserts={1: "text which is no floating literal was accepted", 2: "a floating literal was rejected", 3: "wrong value",
             4: "wrong type", 5: "the generated text denotes another number"},
    assumptions=["Decimal-to-binary conversion of std (str::parse::<f32/f64>) is executed concretely per digit string, the digits being enumerated by the solver."],
)

prop(
    "C05",
    title="Identifiers are recognised exactly",
    statement="A text is accepted as an identifier exactly when it is a C identifier: characters of the Unicode classes "
    "XID_Start (or an underscore) and XID_Continue, each written directly or as universal character name; its name is the "
    "sequence of the characters denoted. Identifier continuations differ in the first character only. Macro names and "
    "parameters are accepted exactly when they are identifiers.",
    quantifier=(["inputs"], "all ASCII texts of the stated length, all characters of Unicode, all universal character names of the stated forms"),
    why="Tests cover five identifiers; every character of Unicode and every spelling has to be classified rightly, since a "
    "name cut short or rejected silently loses or confuses macros.",
    files=["src/ast/identifier.rs", "src/ast/literal.rs"],
    mechanism=[("character classes and universal character names", "src/ast/identifier.rs: Identifier::parse_str, IdentifierContinue::parse_str, is_identifier")],
    observe=["Identifier::try_from", "IdentifierContinue::try_from", "VarMacro::parse", "FnMacro::parse", "MacroSet::expand_fn_macro"],
    bin="c05",
    entries=[
        E("id_free", "every ASCII string of length 0..=5", [1, 2, 3]),
        E("id_unicode", "every character of two or three bytes, a sample of four bytes, alone, at the start and within", [1, 2, 3]),
        E("id_astral", "every character of four bytes at the start and within", [1, 2, 3]),
        E("id_ucn", "universal character names with ten values, any ASCII character for any digit, a digit missing, four prefixes, any next character", [1, 2, 3]),
        E("names", "macro and parameter names of up to three ASCII characters and one other", [1, 2]),
    ],
    asserts={1: "accepted although no identifier", 2: "identifier rejected", 3: "wrong name", 4: "accepted although no continuation",
             5: "continuation rejected", 6: "wrong continuation", 7: "macro name wrongly accepted or rejected", 8: "macro name changed",
             9: "parameter rejected or lost", 10: "parameter accepted which is no identifier"},
    assumptions=["The tables of XID_Start and XID_Continue of the unicode-ident crate are taken as the definition of these classes."],
)

prop(
    "C06",
    title="Token texts are classified exactly",
    statement="Every text handed over as token becomes what it is in C: an identifier, a literal, a punctuator (digraphs included) "
    "or a comment, with its exact content; text made of identifier characters is an identifier continuation; any other text is reported as an "
    "invalid token with that text. The classification does not depend on the neighbours.",
    quantifier=(["inputs"], "all ASCII texts of the stated length, mixtures with other characters"),
    why="Tests use a few dozen token texts; one misclassified text silently changes or drops a macro.",
    files=["src/macro_set/mod.rs", "src/ast/punctuation.rs", "src/ast/comment.rs", "src/macro_token/mod.rs"],
    mechanism=[("ordered classification", "src/macro_set/mod.rs: Token::from_str, detokenize"), ("list of punctuators", "src/ast/punctuation.rs: Punctuation::try_from")],
    observe=["MacroSet::expand", "Punctuation::try_from", "Comment::try_from"],
    bin="c06",
    entries=[
        E("text_free", "every ASCII string of length 0..=5", [1, 2, 3, 4, 5, 6]),
        E("text_unicode", "one of 12 characters between up to one and two ASCII characters", [2, 3, 4, 6]),
        E("text_punct", "up to three ASCII characters behind 42 beginnings of line splices, comments and punctuators", [1, 2, 3, 4, 5, 6]),
    ],
    asserts={1: "wrong identifier", 2: "wrong literal", 3: "wrong identifier continuation", 4: "wrong punctuator", 5: "wrong comment",
             6: "not one token", 7: "a valid token was rejected", 8: "wrong error", 9: "the neighbours change the classification"},
)

prop(
    "C07",
    title="Macro expansion always ends and never panics",
    statement="Defining macros with arbitrary token texts and expanding them or any token sequence returns a token list "
    "or an error in bounded time; it never panics, overflows the stack or loops.",
    quantifier=(["inputs", "programs"], "all token texts within the stated lengths, all definitions over the stated alphabets, recursive ones included"),
    why="Tests expand well-formed macros only; a panic or endless recursion in a build script is triggered by one odd "
    "macro among the thousands of a header tree.",
    files=["src/macro_set/mod.rs", "src/ast/identifier.rs", "src/ast/punctuation.rs"],
    mechanism=[("tokenisation with an invalid-token case", "src/macro_set/mod.rs: tokenize/detokenize"),
               ("set of names being expanded", "src/macro_set/mod.rs: Token::NonReplacable")],
    observe=["MacroSet::expand", "MacroSet::expand_var_macro", "MacroSet::expand_fn_macro"],
    bin="c07",
    entries=[
        E("any_tokens", "two tokens of up to three and one arbitrary ASCII characters", [1, 2]),
        E("any_paste", "pasting any text of up to three ASCII characters with any of 22 tokens, on either side", [1, 2]),
        E("any_macro", "bodies of up to three tokens of 15 kinds or four of 9, eight parameter lists, three uses", [1, 2]),
        E("any_recursion", "two function-like and two object-like macros which call each other with any of five names as callee and argument", [2]),
        E("any_set", "four macros whose bodies and use are any of eight one-character tokens", [1, 2]),
    ],
    asserts={},
)

prop(
    "C08",
    title="Object-like macros expand as the C preprocessor expands them",
    statement="Expanding an object-like macro, or a token sequence that uses object-like macros, yields the tokens the C "
    "preprocessor yields: names are replaced repeatedly, whatever the order of definition, until no replaceable name is "
    "left. A name is never replaced within the replacement of itself, and tokens that are no macro names are "
    "kept in order.",
    quantifier=(["programs", "inputs"], "all definitions of the stated sizes over alphabets with every kind of token"),
    why="Tests cover a few chains; rescanning and self-reference have to be right for every way macros refer to each "
    "other.",
    files=["src/macro_set/mod.rs"],
    mechanism=[("replacement and rescanning", "src/macro_set/mod.rs: expand_macro_body, expand_var_macro_body")],
    observe=["MacroSet::expand", "MacroSet::expand_var_macro"],
    bin="c08",
    entries=[
        E("obj_chain", "three macros with up to two, two and one tokens out of 14, three orders of definition", [2]),
        E("obj_text", "three tokens out of six expanded with two macros of up to two and one tokens", [2]),
        E("obj_text_deep", "four tokens out of six expanded with two macros of up to two tokens", [2], only_thorough=True),
    ],
    asserts={1: "wrong tokens", 2: "an error was expected", 3: "a valid expansion was rejected"},
)

prop(
    "C09",
    title="Function-like macros expand as the C preprocessor expands them",
    statement="A call of a function-like macro is recognised, its arguments separated, counted, completely expanded and "
    "substituted, and the result rescanned together with the tokens after it exactly as in C; a name without parentheses is "
    "not a call, and no macro is replaced within its own replacement. A wrong number of arguments or an unterminated call is an error. "
    "In the expansion of a definition the parameters stand for themselves.",
    quantifier=(["programs", "inputs"], "all definitions and calls of the stated sizes over alphabets of names, parameters, parentheses, commas"),
    why="Tests cover a handful of calls; nesting, rescanning, empty and variable arguments combine in more ways than "
    "tests can list.",
    files=["src/macro_set/mod.rs"],
    mechanism=[("argument collection and substitution", "src/macro_set/mod.rs: collect_args, expand_arguments, expand_fn_macro_body")],
    observe=["MacroSet::expand", "MacroSet::expand_fn_macro"],
    bin="c09",
    entries=[
        E("fn_one", "one parameter, bodies of up to three tokens out of six, argument text of up to three tokens out of seven", [2, 3, 4]),
        E("fn_two", "two parameters, bodies of two tokens, argument text of up to four tokens out of eight", [2, 3, 4]),
        E("fn_zero", "no parameters, bodies of up to two tokens, five tokens of text", [2, 3, 4]),
        E("fn_mutual", "two macros with up to three and two tokens calling each other, up to three tokens after the call", [2, 3]),
        E("fn_variadic", "four parameter lists, bodies of three tokens, argument text of up to four tokens", [2, 3, 4]),
        E("fn_definition", "definitions of up to five tokens with a call and an object-like macro", [2, 3, 4]),
        E("fn_recursion", "two object-like macros which call a function-like one of up to two tokens with up to two of four names as argument", [2]),
        E("fn_parens", "names and parentheses out of two object-like macros of up to two and one tokens, text of up to three tokens", [2, 3]),
    ],
    asserts={1: "wrong tokens", 2: "an error was expected", 3: "a valid expansion was rejected", 4: "wrong error about the number of arguments"},
)

prop(
    "C10",
    title="The operators # and ## act as in C",
    statement="In a replacement list, ## pastes its neighbours into the token that the joined spelling denotes and # makes "
    "a string of the spelling of an argument, both on the arguments as written rather than expanded; other parameters get the "
    "expanded argument, and the operators mean nothing outside replacement lists. Joined spellings that are no token, and "
    "misplaced operators, are errors.",
    quantifier=(["programs", "inputs"], "all pairs of tokens of the stated kinds and lengths, all replacement lists of the stated sizes, all argument texts"),
    why="Tests paste and stringify a few tokens; which token results must be right for every pair, and the interplay of "
    "#, ##, expansion and empty arguments is where preprocessors go wrong.",
    files=["src/macro_set/mod.rs", "src/ast/punctuation.rs", "src/ast/stringify.rs"],
    mechanism=[("pasting and stringification", "src/macro_set/mod.rs: expand_concat, stringify; src/ast/punctuation.rs: Punctuation::concat")],
    observe=["MacroSet::expand", "MacroSet::expand_var_macro", "MacroSet::expand_fn_macro"],
    bin="c10",
    entries=[
        E("paste_object", "any two of 22 tokens pasted", [1, 2, 3, 4]),
        E("paste_chars", "any one or two ASCII characters pasted with any one or two, on identifiers, numbers, prefixes", [1, 2, 3, 4]),
        E("paste_punct", "any punctuator of one or two characters pasted with any other", [2, 4]),
        E("ops_call", "replacement lists of up to five tokens with up to two operators, called with all kinds of arguments", [2, 3, 4]),
        E("string_arg", "argument texts of up to four tokens, directly and through another macro, variable arguments", [2, 3, 4]),
        E("string_lit", "one or two of ten literals with quotes and escapes as argument", [2]),
        E("ops_definition", "definitions with operators on parameters and on other names", [2]),
    ],
    asserts={1: "wrong tokens", 2: "an error was expected", 3: "a valid expansion was rejected", 4: "wrong error about the number of arguments"},
    assumptions=["White space within generated strings is ignored (the macro set does not see the white space between the tokens of an argument)."],
)

prop(
    "C11",
    title="Definitions, redefinitions and removals are tracked exactly",
    statement="After any sequence of definitions and removals every name has the definition given last, or none after its "
    "removal; a name is never both object-like and function-like. A definition is reported as redefinition exactly when the "
    "name had a different definition (white space aside), and a removal exactly when there was something of that kind to remove.",
    quantifier=(["histories"], "all sequences of the stated length over two names, all pairs of definitions of the stated sizes"),
    why="Tests define a macro twice; the reported result has to be right for every pair of definitions and every history.",
    files=["src/macro_set/mod.rs"],
    mechanism=[("two maps kept disjoint", "src/macro_set/mod.rs: define_var_macro, define_fn_macro, undefine_*")],
    observe=["MacroSet::define_var_macro", "MacroSet::define_fn_macro", "MacroSet::undefine_var_macro", "MacroSet::undefine_fn_macro"],
    bin="c11",
    entries=[
        E("redefine_object", "two bodies of up to three tokens out of three, white space at any position of each", [1, 2]),
        E("redefine_function", "two definitions of up to two parameters and two tokens, variable ones included", [3, 4]),
        E("history", "four operations on two names", [1, 2, 3, 4, 5, 6]),
        E("names", "two names of up to two characters, a copy of the set", [1, 2]),
    ],
    asserts={1: "wrong report on the definition of an object-like macro", 2: "wrong report on the definition of a function-like macro",
             3: "wrong report on a removal", 4: "a name is defined which should not be", 5: "wrong object-like definition",
             6: "wrong function-like definition", 7: "names confused", 8: "wrong definition of a name"},
)

prop(
    "C12",
    title="Operators keep their C grouping and meaning in generated code",
    statement="The code generated for a macro whose body is an expression applies the same operators to the same operands "
    "as C does: parsing follows C's precedence and associativity, generated parentheses restore the tree under "
    "Rust's different precedence, conditions and logical not compare with zero, and what is generated is valid as a "
    "Rust expression at its place. Expressions of supported operators are not rejected.",
    quantifier=(["inputs", "programs"], "all expressions within the stated sizes over the stated operators, all operand names, function-like macros "
                "exported as macro or as function and object-like macros"),
    why="Tests fix a handful of operator pairs. Precedence errors concern pairs and triples of operators and parentheses, "
    "of which there are thousands, and each silently computes a different value.",
    files=["src/ast/expr.rs", "src/ast/binary_expr.rs", "src/ast/unary_expr.rs", "src/ast/ternary_expr.rs", "src/ast/cast.rs",
           "src/macro_body.rs", "src/fn_macro.rs", "src/var_macro.rs"],
    mechanism=[("precedence climbing parser", "src/ast/expr.rs: Expr::parse_term_prec1 to parse_term_prec14"),
               ("parentheses of generated code", "src/ast/binary_expr.rs: BinaryExpr::parens; src/ast/unary_expr.rs: to_token_stream"),
               ("conditions", "src/ast/expr.rs: finish_condition"), ("names in parentheses", "src/macro_body.rs: unparenthesize_names")],
    observe=["FnMacro::parse", "FnMacro::generate", "VarMacro::parse", "VarMacro::generate"],
    bin="c12",
    entries=[
        E("trees_macro", "every expression with two operators out of 7 prefix, 2 postfix, 8 binary operators and ?:, operands optionally in parentheses, untyped arguments", [1]),
        E("trees_fn", "the same with int arguments", [1]),
        E("three_ops", "any three of the 16 binary operators in a row, of arguments and of literals", [1]),
        E("free_macro", "every sequence of up to five tokens out of a b 1 - * ! ~ < = ? : ( ) which is an expression", [1]),
        E("free_fn", "the same with int arguments", [1]),
        E("trees_deep", "every expression with three operators", [1], only_thorough=True),
    ],
    asserts={1: "the generated code means something else", 2: "the generated code is no Rust expression",
             3: "a valid expression was not parsed", 4: "no code was generated for a valid expression",
             5: "a function gets a copy of what the macro modifies"},
    assumptions=[
        "Rust expressions are read by harness/src/refs/rexpr.rs after the grammar of the Rust reference; types are not checked.",
        "Left out: &&, || and the comma operator (not supported by the crate), constant operations which C leaves undefined, arithmetic with "
        "truth values whose result is again taken for a truth value, calls of a parenthesised name.",
    ],
)

prop(
    "C13",
    title="Places are read and written exactly as often as in C",
    statement="In generated code every assignment, increment, decrement, member access, element access, address and "
    "dereference refers to the place C means, has the value C gives it, evaluates operands with side effects exactly "
    "once, and accesses what C accesses as volatile by volatile reads and writes. A macro which modifies an argument or "
    "takes its address is not turned into a function, which would get a copy.",
    quantifier=(["inputs", "programs"], "all combinations of the stated operations within the stated sizes, all names, all assignment operators, "
                "all positions of volatile in pointer types"),
    why="Tests have one example per operation; the defects are in their combinations (an increment inside an assigned place, a volatile element, a "
    "member of a dereferenced increment).",
    files=["src/ast/expr.rs", "src/ast/binary_expr.rs", "src/ast/unary_expr.rs", "src/ast/ty.rs", "src/fn_macro.rs"],
    mechanism=[("postfix operations", "src/ast/expr.rs: parse_term_prec1"), ("assignments", "src/ast/binary_expr.rs: to_token_stream"),
               ("increments and dereferences", "src/ast/unary_expr.rs: to_token_stream"), ("volatile", "src/ast/unary_expr.rs: volatile_ptr; src/ast/ty.rs: TypeQualifier"),
               ("export as macro", "src/ast/binary_expr.rs, src/ast/unary_expr.rs: finish")],
    observe=["FnMacro::parse", "FnMacro::generate"],
    bin="c13",
    entries=[
        E("places_macro", "every combination of two of: * . -> [] ++ -- (prefix and postfix) = -= & call", [1]),
        E("places_fn", "the same with int arguments and with a pointer and an int argument", [1]),
        E("places_deep", "every combination of three", [1]),
        E("assignments", "11 assignment operators, ten kinds of places, five kinds of values", [1]),
        E("volatiles", "six qualified types, one or two stars, four pointers, five kinds of access, eight uses", [1]),
    ],
    asserts={1: "the generated code means something else", 2: "the generated code is no Rust expression",
             3: "a valid expression was not parsed", 4: "no code was generated for a valid expression",
             5: "a function gets a copy of what the macro modifies"},
    assumptions=["As for C12. Types are not checked: pointer arithmetic other than below a dereference is read as integer arithmetic, and *mut and *const are not told apart."],
)

prop(
    "C14",
    title="Constant integer expressions have their C value",
    statement="A macro whose body is an expression of integer literals, the operators + - * / % << >> & ^ | and the "
    "prefix operators - + ! ~ is evaluated to the value the expression has in C, for all operands of all integer literal "
    "types for which C defines it; dividing by zero gives no value. An integer is written in generated code with exactly its value, "
    "and in a cast with a type suffix that can hold it.",
    quantifier=(["inputs"], "all values of the literals within the stated bits, all suffixes, all operators"),
    why="Tests evaluate three expressions of small positive numbers. Wrong signs, overflow, division of negative numbers, shifts, "
    "precedence of folding and the limits of every integer type are where folding goes wrong, silently.",
    files=["src/ast/expr.rs", "src/ast/literal/int.rs", "src/ast/cast.rs", "src/ast/unary_expr.rs"],
    mechanism=[("folding", "src/ast/expr.rs: Expr::finish"), ("arithmetic", "src/ast/literal/int.rs: Add, Sub, Mul, Div, Rem, Shl, Shr, BitAnd, BitOr, BitXor"),
               ("numbers in casts", "src/ast/cast.rs: to_tokens")],
    observe=["VarMacro::parse", "VarMacro::generate", "VarMacro::value"],
    bin="c14",
    entries=[
        E("two", "any of 10 operators, two literals of 64 bits (second factor, divisor 12 bits, dividend 16 bits) of 9 types", [1]),
        E("wraps", "sum and difference of two literals of 12 bits, modular", [1]),
        E("by_zero", "three spellings of zero as divisor", [1]),
        E("prefixed", "any operator, optional prefix operator on each operand and on the result, 64 bits (7 and 4 for * / %)", [1]),
        E("three_ints", "two operators, either grouping, three int literals of 20, 5 and 5 bits (7, 4, 4 with * / %), except division of a difference", [1]),
        E("written", "any 128-bit number, any suffix", [1]),
        E("casted", "any number of up to 64 bits and its negative, eight types", [1]),
        E("three_deep", "as three_ints, with int, unsigned and long literals", [1], only_thorough=True),
    ],
    asserts={1: "a constant expression was not parsed", 2: "no code was generated", 3: "an expression has no value", 4: "an expression has another value",
             5: "a number is written as another number", 6: "a cast to another type", 7: "a number is written with a type which it does not fit",
             8: "a division by zero has a value"},
    assumptions=["int has 32 bits, long, long long and size_t 64; literals without suffix are decimal. Expressions for which C leaves the result undefined are left out."],
)

prop(
    "C15",
    title="Constant floating expressions have their C value and type",
    statement="A macro whose body is an expression of literals of which some are floating ones, the operators + - * / and "
    "comparisons, the prefix operators - + !, casts and the conditional operator has in generated code the value which C gives it: the operands "
    "of an operator are converted to C's common type before it is applied, every operation rounds to its own type, and the "
    "type of the constant is that of C. What is not evaluated is left such that Rust "
    "gives every literal the type it has in C.",
    quantifier=(["inputs"], "all values, including zeros, subnormal and infinite ones, of all floating types, all 64-bit integers of five types, all operators within the stated sizes"),
    why="Tests add two halves. Whether an operation is done in float or double, and whether an integer is rounded once or twice, shows only for "
    "particular values out of 2^64, and the result is a slightly wrong number.",
    files=["src/ast/expr.rs", "src/ast/binary_expr.rs", "src/ast/ternary_expr.rs", "src/ast/cast.rs", "src/ast/literal/float.rs"],
    mechanism=[("common type", "src/ast/expr.rs: convert_to_common_float; src/ast/binary_expr.rs: finish"), ("folding", "src/ast/expr.rs: Expr::finish"),
               ("arithmetic", "src/ast/literal/float.rs: Add, Sub, Mul, Div"), ("literals in casts", "src/ast/cast.rs: to_tokens")],
    observe=["VarMacro::parse", "VarMacro::generate", "VarMacro::value"],
    bin="c15",
    entries=[
        E("sums", "sum and difference of two literals, any types of which one is floating", [1]),
        E("products", "product and quotient of two literals", [1]),
        E("comparisons", "six comparisons of two literals", [2]),
        E("prefixed", "+ and / with optional prefix operators on each operand and on the result, four pairs of types", [1, 2]),
        E("prefixed_deep", "the same with four operators and all types", [1, 2]),
        E("three_deep", "two of + - * /, either grouping, three literals of int, float, double or long double", [1]),
        E("casts", "nine types, all literals, optional sign", [1, 3]),
        E("cast_operands", "a cast of a literal to a floating type as operand of +, * and two comparisons, quarter of the types", [1, 2]),
        E("cast_operands_deep", "the same with eight operators and all types", [1, 2]),
        E("cast_integers", "a cast of an integer literal to an integer type as operand", [1, 2]),
        E("cast_integers_deep", "the same with eight operators and all types", [1, 2]),
        E("conditional", "?: with a literal condition and literals of all types", [1]),
    ],
    asserts={1: "a constant expression was not accepted", 2: "what is left is no Rust expression of the same types", 3: "the value is another",
             4: "the type of the constant is another", 5: "a cast to another type", 6: "the literal in a cast has another type"},
    assumptions=["IEEE single and double formats with rounding to nearest, without excess precision; long double has the format of double, as the crate represents it by f64.",
                 "Names whose type is not known, literals as arguments of functions and the compiler's own names such as __INT_MAX__ are left out.",
                 "NaN results are one value."],
)

prop(
    "C17",
    title="C types become the Rust types with the same meaning",
    statement="A type name, i.e. type specifiers and qualifiers in any order followed by pointers, is accepted exactly if it names a type "
    "in C, and is represented by the Rust type with the same meaning: the same integer or floating type, under the prefix "
    "for FFI types that the context gives, behind as many pointers, which are `*const` when what they point to is const. "
    "Type names known to the context, in casts, variable and function declarations, stand for exactly the type it gives.",
    quantifier=(["inputs", "configurations"], "all sequences of up to six specifiers and qualifiers, all names, two pointers with any qualifiers, three prefixes"),
    why="Tests parse the shortest spelling of each type and a few pointers. C allows any order (gcc itself spells size_t `long unsigned int`); a "
    "type read wrongly has another size or signedness and silently breaks the ABI of everything generated with it.",
    files=["src/ast/ty.rs", "src/ast/cast.rs", "src/ast/var_decl.rs", "src/ast/function_decl.rs", "src/context.rs"],
    mechanism=[("specifiers", "src/ast/ty.rs: builtin_ty, ty"), ("pointers and qualifiers", "src/ast/ty.rs: Type::parse"),
               ("Rust types", "src/ast/ty.rs: to_rust_ty, to_tokens, from_rust_ty")],
    observe=["Type::from_str", "Type::to_rust_ty", "FnMacro::generate"],
    bin="c17",
    entries=[
        E("specifiers", "any one to three of twelve keywords, optional pointer", [1, 2]),
        E("four_specifiers", "any four of twelve keywords", [1, 2]),
        E("five_specifiers", "any five of int, long, char, const, signed, unsigned", [1, 2]),
        E("six_specifiers", "any six of int, long, char, const, signed, unsigned", [1, 2]),
        E("free_word", "any word of three to eight letters", [1]),
        E("pointers", "char, void, a typedef or a struct, with up to two pointers, any qualifiers everywhere", [1]),
        E("named", "up to four words of a name, const, volatile, struct, *, int", [1, 2]),
        E("in_cast", "casts to types of up to two words and two pointers", [1, 2]),
        E("in_cast_long", "casts to types of three words and a pointer", [1, 2]),
        E("resolved", "twelve types given by the context, three prefixes, optional pointer", [1]),
        E("resolved_builtin", "22 built-in types given by the context with three prefixes, plain and behind pointers, three prefixes, in casts and declarations", [1]),
        E("in_declaration", "variable, return value and parameter of types of up to two words and a pointer", [1]),
    ],
    asserts={1: "a type was read from text which names none", 2: "a type was rejected", 3: "a type has no Rust type", 4: "another Rust type",
             5: "void and other types are mixed up", 6: "pointers and other types are mixed up", 7: "a cast to void yields a value", 8: "a type of the context was changed",
             9: "another type in a declaration", 10: "a built-in type for a name", 11: "a name for a built-in type", 12: "another name", 13: "a word was rejected as type", 14: "a keyword was accepted as the name of a type"},
    assumptions=["`_Bool`, `enum`, `union`, complex and atomic types are not supported by the crate and left out."],
)

prop(
    "C23",
    title="Inline assembly keeps its text, operands and effects",
    statement="For an inline assembly statement with general registers as operands, the generated `asm!` has the same assembly text line by line, "
    "with every `%n` standing for the same operand, the same values going into and places written from the same operands, matching constraints "
    "(`\"0\"`) included, and exactly the same clobbers, memory and flags access, and assembler dialect; assembly defining symbols becomes `global_asm!`. "
    "What has no meaning or is not supported (other `%` escapes, impossible matching constraints) is rejected.",
    quantifier=(["inputs", "configurations"], "all assembly texts of up to two (thorough: four) characters with operands, all operand lists of up to two outputs and three inputs, all clobber lists of up to three"),
    why="Tests contain a few statements and compare the tokens. An operand number or option which is wrong for one combination compiles and silently corrupts registers or memory.",
    files=["src/ast/asm.rs", "src/ast/statement.rs", "src/macro_body.rs"],
    mechanism=[("template", "src/ast/asm.rs: parse_template, number_operands"), ("operands and clobbers", "src/ast/asm.rs: parse, finish, to_tokens"),
               ("dialect", "src/ast/asm.rs: is_att_syntax")],
    observe=["FnMacro::generate"],
    bin="c23",
    entries=[
        E("any_text", "any text of up to two characters followed by nothing, `%0` or `%%2)`, one output and two inputs", [1, 2]),
        E("any_long_text", "any text of three or four characters, one output and two inputs", [1, 2], only_thorough=True),
        E("plain_text", "any text of up to three characters without operands, four kinds of qualifiers", [1]),
        E("operands", "any two references to operands, up to two outputs (=r, +r, =rm; names and `*x`) and three inputs (r, 0, 1)", [1, 2]),
        E("clobbers", "up to three of memory, cc and two registers, with and without operands", [1]),
        E("symbols", "lines starting with .globl, .section and similar directives", [1]),
    ],
    asserts={1: "unsupported inline assembly was accepted", 2: "inline assembly was rejected", 3: "the generated code is no asm!",
             4: "a function although it assigns its arguments or defines symbols", 5: "operands differ", 6: "the text differs", 7: "clobbers differ",
             8: "global and local assembly mixed up", 9: "memory or flags access differs", 10: "dialect differs"},
    assumptions=["Symbolic operand names, early clobbers, memory and machine specific constraints, goto labels and dialect alternatives `{a|b}` are not supported by the crate and left out.",
                 "AT&T syntax is recognised by `%%`, `$` or `(%n` like the crate does; C leaves the dialect to compiler options."],
)

prop(
    "C18",
    title="Strings and characters in generated code have their C values",
    statement="A string or character literal, as the value of an object-like or a function-like macro, becomes a Rust value with exactly the code units it has in C "
    "(with the final zero), of the element type, length and lifetime which the target Rust version allows; a CStr never contains an inner zero. Literals next to macro "
    "arguments, #arguments and __FILE__ are concatenated in their order and without loss, or rejected if the result has no representation.",
    quantifier=(["inputs", "configurations"], "all literals of up to two elements of nine kinds (any byte, any escape) with all prefixes; all sequences of up to four parts out of 13; "
                "216 combinations of prefixes, wchar_t types and target versions"),
    why="Tests contain a handful of literals and one target version. A wrong escape, a lost final zero, a wrong length or an inner zero is wrong data or undefined behaviour.",
    files=["src/ast/literal/string.rs", "src/ast/literal/char.rs", "src/ast/expr.rs", "src/ast/stringify.rs", "src/codegen/mod.rs", "src/var_macro.rs", "src/fn_macro.rs"],
    mechanism=[("strings", "src/ast/literal/string.rs: LitString::to_token_stream"), ("characters", "src/ast/literal/char.rs: LitChar::to_tokens"),
               ("concatenation", "src/ast/expr.rs: Expr::finish, ConcatString"), ("lifetimes and pointers", "src/codegen/mod.rs: quote_static_ref, quote_c_char_ptr")],
    observe=["VarMacro::generate", "FnMacro::generate"],
    bin="c18",
    entries=[
        E("strings", "strings of up to one element of any of nine kinds, five prefixes, as a value and as a function", [1, 2, 3, 4, 5]),
        E("strings2", "strings of two elements (numbers in wide strings: 18 elements)", [1, 2, 3, 4, 5], only_thorough=True),
        E("contexts", "strings with one free character, 216 contexts", [1, 2, 3, 4, 5]),
        E("characters", "characters of any of nine kinds, five prefixes", [11, 12, 13, 14, 15]),
        E("character_contexts", "four characters, 216 contexts", [11, 12, 13, 14, 15]),
        E("parts2", "one or two of 13 parts, 216 contexts", [21, 22]),
        E("parts3", "three of 13 parts", [21, 22]),
        E("parts4", "four of 13 parts", [21, 22], only_thorough=True),
    ],
    asserts={1: "rejected although it has a value", 2: "wrong type", 3: "wrong array length", 4: "different code units", 5: "the generated code is not a value of the literal",
             6: "a CStr with a zero inside", 7: "a wide string was concatenated as bytes", 8: "a function which would concatenate its arguments"},
    assumptions=["Literals which C does not give a value to (out-of-range escapes, several characters in one character constant) are left out; so are wide strings with characters beyond 16 bits where wchar_t has 16 bits.",
                 "Without a type for wchar_t wide literals may be rejected."],
)

prop(
    "C19",
    title="Any token sequence gives well-formed Rust or an error",
    statement="Defining, expanding, parsing and generating a macro never panics, whatever tokens it consists of, whatever it and its parameters are "
    "called and whatever types and values the context answers with. When code is generated it is syntactically valid Rust: a macro or a function, or "
    "an expression together with a type. The work for nested expressions does not grow exponentially.",
    quantifier=(["inputs", "configurations"], "all sequences of up to two (thorough: three) tokens out of 62, of up to three arbitrary characters as tokens, "
                "any token of three (thorough: four) characters, all names of up to three characters, 29 kinds of types from the context, 900 combinations of nested shapes"),
    why="Headers contain any kind of macro body. A panic in a build script aborts the whole build, and code which is no Rust makes the whole generated file unusable.",
    files=["src/fn_macro.rs", "src/var_macro.rs", "src/ast/expr.rs", "src/ast/unary_expr.rs", "src/ast/stringify.rs", "src/ast/ty.rs", "src/ast/asm.rs", "src/ast/identifier.rs"],
    mechanism=[("code generation", "src/fn_macro.rs: FnMacro::generate, src/var_macro.rs: VarMacro::generate"),
               ("names and types which are no Rust", "src/ast/identifier.rs: is_identifier, rust_ident; src/ast/ty.rs: Type::from_rust_ty"),
               ("operands generated once", "src/ast/unary_expr.rs: deref_to_token_stream, src/ast/expr.rs: to_place")],
    observe=["FnMacro::parse", "FnMacro::generate", "VarMacro::parse", "VarMacro::generate", "syn::parse2 on the generated code"],
    bin="c19",
    entries=[
        E("one_two", "one or two of 62 tokens (names, keywords, literals of all kinds, all operators, #, ##, __VA_ARGS__), three parameter lists and an object-like macro", [1, 2]),
        E("three", "three of these tokens", [1, 2], only_thorough=True),
        E("characters2", "two tokens which are arbitrary ASCII characters", [1, 2]),
        E("characters3", "three tokens which are arbitrary ASCII characters", [1, 2], only_thorough=True),
        E("token3", "one token of three characters, each any ASCII character or one of four others, alone and behind # and ##", [1, 2]),
        E("token4", "the same with four characters", [1, 2], only_thorough=True),
        E("names", "macro and parameter names of up to three such characters", [1]),
        E("contexts", "29 types and five values from the context for arguments, names, members, functions and enum variants in 20 bodies", [1, 2]),
        E("numbers", "33 numbers at the borders of their types with 19 operators and eight others", [1, 2]),
        E("some_types", "types for any of the arguments in the 20 bodies, five parameter lists", [1]),
        E("asm", "inline assembly with any four of ten tokens", [1]),
        E("nesting", "two of 30 shapes nested 6 and 12 deep: memory allocations grow at most eightfold", [3]),
    ],
    asserts={1: "the macro body is neither an expression nor statements of Rust", 2: "the generated function is no Rust", 3: "the generated value is no Rust expression",
             4: "the generated type is no Rust type", 5: "exponential work for nested expressions"},
    assumptions=["Bodies which modify what is no place (`\"s\"++`, `x y = 1`) and member names like `__LINE__` are no C; only the absence of panics is not claimed for them, they are left out.",
                 "Whether code is valid Rust is decided by syn, an independent parser, executed symbolically as well."],
)

prop(
    "C22",
    title="Statements keep their structure and their jumps",
    statement="A macro body made of statements (expression statements, blocks, declarations, if, else, do-while, break, continue, return, empty statements) is accepted "
    "exactly when it is a C statement or expression, and the generated code runs the same statements under the same conditions: nesting, order, to which `if` an `else` "
    "belongs, loops and jumps are unchanged. A body which jumps out of itself becomes a macro and never a function; keywords are never taken for names.",
    quantifier=(["inputs"], "all sequences of up to four (thorough: five) of 13 phrases, all statements with up to two (thorough: three) blocks, ifs and loops, all words of up to eight letters in nine positions"),
    why="Tests contain one do-while and a few blocks. A dangling else, a lost or doubled statement or a keyword taken for a variable compiles to something else.",
    files=["src/ast/statement.rs", "src/macro_body.rs", "src/ast/identifier.rs", "src/ast/identifier_expr.rs", "src/ast/var_decl.rs"],
    mechanism=[("statement parser", "src/ast/statement.rs: Statement::parse"), ("macro bodies", "src/macro_body.rs: MacroBody::parse"),
               ("keywords", "src/ast/identifier.rs: is_keyword")],
    observe=["FnMacro::parse", "FnMacro::generate", "VarMacro::generate"],
    bin="c22",
    entries=[
        E("short", "up to three of 13 phrases", [1, 2]),
        E("four", "four of 13 phrases", [1, 2]),
        E("five", "five of 13 phrases", [1, 2], only_thorough=True),
        E("four_phrases", "four of 13 longer phrases", [1, 2], only_thorough=True),
        E("five_phrases", "five of 13 longer phrases", [1, 2], only_thorough=True),
        E("words", "any word of two to eight letters in nine positions", [1, 2]),
        E("keywords", "all C keywords in nine positions", [1, 2]),
        E("small", "one or two statements with at most one block, if or loop around others", [1]),
        E("medium", "one or two statements with two blocks, ifs or loops around others, without jumps", [1]),
        E("medium_jumps", "the same with jumps", [1], only_thorough=True),
        E("large", "one or two statements with three blocks, ifs or loops, without jumps", [1], only_thorough=True),
    ],
    asserts={1: "something which is no C statement was accepted", 2: "a statement was rejected", 3: "unreadable generated code", 4: "the statements differ",
             5: "a function although the body jumps out of it", 6: "an object-like macro made of statements was accepted"},
    assumptions=["switch, for, while, goto, labels, arrays and pointers in declarations, calls of values and `&&`, `||` are not supported by the crate and left out; `continue` in a do-while "
                 "loop has no counterpart in the loop generated and is rejected."],
)

prop(
    "C21",
    title="Macro arguments are declared as what they are used as",
    statement="The macro or function generated for a function-like macro has the parameters of the C macro, in order and under "
    "the same names. An argument of a macro has a fragment kind which permits every use the body makes of it: as value, type, name, "
    "field or text. A function is generated only if the types of all parameters are known, then with exactly these types, either given by "
    "the context or by the function to which the argument is passed, and it uses its parameters as values only.",
    quantifier=(["inputs", "configurations"], "all combinations of up to three of 21 uses of up to three parameters, all declarations, which types the context gives"),
    why="Tests use each argument once, in one way. The kind has to suit all uses together, whichever order they are in; one which does not makes the "
    "generated macro fail wherever it is used, far from where it was generated.",
    files=["src/context.rs", "src/fn_macro.rs", "src/ast/var.rs", "src/ast/ty.rs", "src/ast/function_call.rs", "src/ast/stringify.rs", "src/ast/identifier_expr.rs"],
    mechanism=[("uses of arguments", "src/context.rs: MacroArgType"), ("function or macro", "src/fn_macro.rs: generate")],
    observe=["FnMacro::generate", "FnMacro::name", "FnMacro::args"],
    bin="c21",
    entries=[
        E("two", "sums of two of 21 uses of two of three parameters, four sets of known types, `g` known or not", [1, 2, 3]),
        E("three", "sums of three uses of three parameters, two sets of known types", [1, 2, 3], only_thorough=True),
        E("statements", "seven declarations followed by one use", [2, 3]),
        E("named", "13 names of macros and four parameter lists", [1, 2]),
    ],
    asserts={1: "the body was rejected", 2: "other parameters", 3: "the kind of fragment does not permit a use", 4: "a function uses a parameter otherwise than as value",
             5: "a parameter has another type", 6: "a function although a type is unknown, or a macro although all are known", 7: "another name"},
    assumptions=["`sizeof` of an argument without known type is that of a type, since Rust cannot take both; of one with a known type it is the size of that type."],
)

prop(
    "C24",
    title="Generated code uses only what the Rust target has",
    statement="Constants are CStr references exactly if the Rust target is at least 1.59 and the string has no zero in it, references without lifetime are used exactly "
    "from 1.17, and the FFI types for sizes exactly for nightly targets. Versions are compared by number, with or without patch version; a text which is no version is the newest one.",
    quantifier=(["configurations"], "all versions with minor version up to 999 and patch version up to 99, with five suffixes, and twelve other texts"),
    why="Tests use two versions. The version is compared in several places with different thresholds, and comparing anything but its numbers goes wrong for "
    "few of them; the result does not compile with the very compiler which was asked for.",
    files=["src/var_macro.rs", "src/fn_macro.rs", "src/codegen/mod.rs", "src/ast/ty.rs", "src/ast/literal/string.rs"],
    mechanism=[("versions", "src/var_macro.rs, src/fn_macro.rs: generate"), ("lifetimes", "src/codegen/mod.rs: quote_static_ref"), ("sizes", "src/ast/ty.rs: to_rust_ty")],
    observe=["VarMacro::generate", "FnMacro::generate"],
    bin="c24",
    entries=[
        E("strings", "four strings as constants, every version of the stated form", [1, 2, 3]),
        E("pointers", "four strings in functions and macros", [1, 2]),
        E("sizes", "sizeof and parameters of size types, with and without prefix", [1, 2]),
    ],
    asserts={1: "rejected", 2: "something else than a string", 3: "CStr although the target lacks it, or no CStr although it has it",
             4: "lifetime left out although the target needs it, or the other way round", 5: "another type for a size"},
    assumptions=["A pre-release version may be treated as the release or as the one before it."],
)

prop(
    "C25",
    title="Paths in generated code start with the given prefixes",
    statement="The code generated with a prefix for FFI types and one for the standard library is the code generated without them, where every C type "
    "is preceded by the first, and every module and macro of the standard library and CStr by the second; nothing else differs, neither what is accepted nor any token.",
    quantifier=(["inputs", "configurations"], "expressions of up to two of 42 operands, all types at nine places, statements, four pairs of prefixes, three Rust targets"),
    why="Tests use one prefix for most types and one for the standard library in few cases. A path which lacks its prefix, or a type which is no longer recognised because of it, "
    "depends on the combination of configuration and expression.",
    files=["src/codegen/mod.rs", "src/ast/ty.rs", "src/ast/expr.rs", "src/ast/cast.rs", "src/ast/literal/float.rs", "src/ast/asm.rs"],
    mechanism=[("prefixes", "src/context.rs: ffi_prefix, trait_prefix"), ("types of the context", "src/ast/ty.rs: from_rust_ty")],
    observe=["FnMacro::generate", "VarMacro::generate"],
    bin="c25",
    entries=[
        E("one", "42 operands with six prefix operators, four pairs of prefixes, three targets", [1, 2]),
        E("two", "two operands with five operators, one pair of prefixes", [1, 2]),
        E("types", "22 types at nine places, four pairs of prefixes, three targets", [1, 2]),
        E("statements", "operands in five statements, four pairs of prefixes, three targets", [1, 2]),
    ],
    asserts={1: "accepted only with or only without prefixes", 2: "the code differs otherwise than in prefixes"},
    assumptions=["The context gives types under its own prefix."],
)

prop(
    "C26",
    title="Comments count as white space",
    statement="A comment, of either form and with any text in it, inserted anywhere among the tokens of a macro body, a "
    "parameter list or a call changes neither the result of any expansion nor whether a definition counts as "
    "a redefinition.",
    quantifier=(["inputs", "programs"], "all comment texts of up to three characters, all positions in the listed definitions and calls"),
    why="Tests have comments in three places; the property is about every position and every text.",
    files=["src/macro_set/mod.rs", "src/ast/comment.rs"],
    mechanism=[("white space filter", "src/macro_set/mod.rs: tokenize, is_whitespace"), ("comment tokens", "src/ast/comment.rs")],
    observe=["MacroSet::expand", "MacroSet::define_var_macro", "MacroSet::define_fn_macro"],
    bin="c26",
    entries=[
        E("in_object", "nine bodies, every position, both forms of comment with up to three free characters", [1, 2]),
        E("in_function", "eight bodies, every position of parameters, body and call", [1, 2]),
    ],
    asserts={1: "expansion differs", 2: "expansion of the tokens differs", 3: "a redefinition was reported", 4: "a redefinition was reported",
             5: "the call expands differently", 6: "the definition differs", 7: "the parameters differ"},
)

prop(
    "C27",
    title="Results depend on nothing but the inputs",
    statement="Generating code for a macro gives the same code however often it is done, whether with the context or a reference to it, and with a copy of "
    "the macro. Expansions do not depend on the order in which macros are defined or expanded, on definitions that have been replaced, or on unrelated macros.",
    quantifier=(["inputs", "histories"], "all bodies of up to four of 36 tokens, larger expressions and statements, all sets of four macros with three of eleven bodies each, four orders"),
    why="Generating code updates the macro in place and expansion works on shared state; tests do each once with a fresh set. What is left behind by an earlier "
    "call shows only for histories.",
    files=["src/fn_macro.rs", "src/var_macro.rs", "src/macro_set/mod.rs"],
    mechanism=[("body", "src/fn_macro.rs, src/var_macro.rs: generate"), ("definitions", "src/macro_set/mod.rs: MacroSet")],
    observe=["FnMacro::generate", "VarMacro::generate", "MacroSet::expand_var_macro", "MacroSet::expand_fn_macro"],
    bin="c27",
    entries=[
        E("one_two", "every body of one or two of 36 tokens, three contexts", [1, 2]),
        E("three", "every body of three tokens, three contexts", [1, 2], only_thorough=True),
        E("four", "bodies of four tokens", [1, 2], only_thorough=True),
        E("expressions", "18 operands, four operators, one prefix operator", [1, 2]),
        E("expressions_deep", "18 operands, seven operators, four prefix operators", [1, 2], only_thorough=True),
        E("statements", "five statements with any of the operands", [1]),
        E("orders", "four macros, three of them with any of eleven bodies, four orders", [3]),
    ],
    asserts={1: "generating again gives something else", 2: "a copy of the macro or a reference to the context gives something else", 3: "the order of definitions or other definitions matter",
             4: "expanding again gives something else"},
)

NOT_APPLICABLE = []


def assert_text(p, v):
    if v["kind"] == "assert":
        return p.get("asserts", {}).get(v["id"], "")
    return ""
