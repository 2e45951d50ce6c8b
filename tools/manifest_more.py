MORE = {
    "C01": ("model_checking", "Every selector of up to 3-5 simple selectors/combinators (29 kinds of simple selectors, 22 of combinators) at 12 places, every value of 1-3 components with every separator, math functions of up to 3 operands, every gap deviation (2) of 40 statements, statement pairs, triples and nestings, at-rule preludes up to 3 words, every Unicode character, size sweeps; the output is tokenized by an independent CSS Syntax tokenizer and compared token by token, with the meaning of each gap. Trusts that tokenizer; says nothing about other property-specific grammars."),
    "C02": ("model_checking", "Every string body of up to 3/4 fragments (39 kinds) at 14 places with both quotes, every pair of literals, every url body (38 fragments, length 3/4), every identifier built from up to 3/4 escapes at 16 places, every Unicode character raw, escaped and as hex escape, size sweeps. Oracle: the literal verbatim, and the rest of the output identical to that of the same sheet with a neutral literal."),
    "C03": ("model_checking", "Every comment body of up to 3/4 fragments x 16 places x 3 kinds, 1-3 comments in every gap of 40 statements, between every pair of simple selectors, every arrangement of up to 6/7 comments, licenses and statements, size sweeps, against the reference tokenizer and the comment-free sheet. License comments inside selectors are outside the enumerated domain (known finding)."),
    "C04": ("model_checking", "Every sequence of up to 5/6 fragments out of 25 and 17, every bracket sequence up to 9/11, every one-fragment mutation and every truncation of 1600 statement pairs, well-formed pairs with gap deviations, size sweeps; Ok/Err compared with what the reference tokenizer expects. Line breaks inside strings and malformed or unclosed urls are out of the statement."),
    "C05": ("model_checking", "The spaces of C01 and C03 (selectors, values, math, preludes, 40 statements with 2/3 gap deviations out of 8 separators, pairs, triples, nesting, comments, sizes), and 20 names and functions at every pair of 12 places; the output is tokenized by the reference tokenizer, and white space which has no effect is refused, except at the places which the statement lists."),
    "S01": ("model_checking", "Every token sequence of an operand/operator automaton with a stack of brackets (up to 3-5 steps, 76 operands and operators, 24 contexts), 100 statements covering the grammar with every 2/3 gap deviations out of 14 separators, every pair of statements, every pair of tokens, every Unicode character in identifiers and as white space, size sweeps; the output must lex as the same tokens (guided lexer). Scripts terminate statements explicitly; regex literals directly after the `}` of a block are out of the domain (known finding)."),
    "S02": ("model_checking", "Every string, template and regex body of up to 3/4 fragments in every context, nested templates up to depth 6/7, triples of literals, every number up to 5/6 fragments in 13x11 contexts, every Unicode character in each kind of literal, size sweeps. Oracle: the literal verbatim (regex flags up to order), the rest identical to that with a neutral literal."),
    "S03": ("model_checking", "Every comment body of up to 2/3 fragments (30 kinds) x 9 kinds of comments x 36 places, 1-3 comments in every gap of 100 statements and of every expression of the automaton, every arrangement of up to 6/7 comments and statements, size sweeps; the licenses of each output gap are compared with those of the input."),
    "S04": ("model_checking", "The space of S01 with 15 separators (tabs, CR, FF, NBSP, U+2028, licenses); every gap of the output is checked, and the output is compared with the one of the same script separated by plain spaces."),
    "S05": ("model_checking", "39 kinds of uses of a string x 11x11 strings with gap deviations, every pair of uses, every sequence of up to 5/6 strings, lengths x counts around the gain threshold, 40 ways of taking a name x names, up to 300/8000 taken names x up to 130 new ones, every sequence of up to 4/5 declarations holding the strings, every Unicode character, size sweeps (up to 4200/20000 distinct strings); each under 5 combinations of clean_tokens, aggregation and separators. The output is read back and compared token by token. Existing variables are matched without scopes (as the code documents)."),
    "S06": ("model_checking", "The space of S05 for strings, plus array names and every existing array of up to 3/4 slots (strings, holes, templates, other values, trailing commas) x what precedes and follows it, sizes up to 1100/8000; each under 9 combinations of the functions and filters. The output is read back: array, indexes, then tokens."),
    "S07": ("model_checking", "Every sequence of up to 4/5 fragments out of 33 and 6/7 out of 10, statements and pairs with gap deviations, every declaration list of up to 3/4 variables, every Unicode character; 12 callbacks and 10 replacements, compared token by token with a reference."),
    "G01": ("model_checking", "Every sequence of up to 3 fragments out of 50 on every entry point, up to 5/6 out of 37 (css), 4/5 out of 43 (js, 12 entry points), 6/7 out of 18 (json and streaming), 3/4 out of 28 (html); every 3 ASCII characters; every Unicode character; every cut and one-fragment mutation of the corpora; patterns (ab)^n and a^n b^n up to 4096/20000. Panics, overflows (checks on), stack overflow on 2 MB, memory and hangs (25 s alone) are detected by a supervising process. A slow-down which stays below the time limit is not reported."),
    "G02": ("model_checking", "The spaces of J01, C01, C02, C03, S03, S04 (thorough: S01), H01 (quick: a part) and H02, and every sequence of up to 5/6 fragments for JSON: minify(minify(x)) = minify(x), byte for byte."),
    "G03": ("model_checking", "Every sequence of 2-5 units out of 16-172 at the top level and inside blocks, each unit and pair of units repeated up to 2050/9000 times, nesting up to 2050/9000, words, literals, comments and white space up to 70000/300000, for css, js, json, streaming json and html; the expected result is assembled from the results of the parts."),
    "H01": ("model_checking", "Every tag of 14 names x 42 attributes (1, 2 and 3 of them) x separators x ends, every attribute value of up to 4/5 fragments, every page of up to 4/5 fragments out of 30, 5/6 out of 16 and 7/8 out of 9, every optional tag and look-alike at every place, every Unicode character; the output is read by an independent HTML tokenizer and compared event by event. Pages are packed (a thousand in a call), so that every page also has neighbours; small ones are run alone too. No markup inside of attribute values, no inline scripts."),
    "H02": ("model_checking", "Every comment text of up to 4/5 fragments out of 23 at 5 places, every page of up to 5/6 fragments out of 17 with comments and conditional comments, every preformatted text of up to 4/5 fragments in 4 pre and 3 textarea contexts, every Unicode character; compared with an independent tokenizer which follows the comment states of the HTML standard. Unclosed comments and markup inside of textarea are out of the domain."),
    "H03": ("model_checking", "The spaces of H01 (quick: without pairs of attributes) and H02; the output is searched for what must be gone. The absence of white space is not checked in documents with pre or textarea."),
    "L01": ("model_checking", "The real binary, run as an unprivileged user in a scratch directory for each configuration: 28 names x 14 outputs x 4 types x 3 previous states, 7 styles of arguments, every pair and triples of names; the whole tree is compared with the one a model computes from the configuration. The contents are those of the library (other properties)."),
    "L02": ("fault_enumeration", "The real binary with every list of 1-3 inputs of 16 kinds (14 of them bad) x places x 9 outputs x previous outputs, and every bad one at every place of 5 inputs; whole tree compared with the model. Failures halfway of a write() system call (disk full) are not injected."),
}
