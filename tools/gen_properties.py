#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand after editing; not used by any check)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
JM="src/json/json_minifier.rs"; JS="src/json/string.rs"; JR="src/json/read/json_read.rs"; JB="src/json/read/byte_to_char.rs"; JI="src/json/read/internal_reader.rs"; JIB="src/json/read/internal_buffer.rs"
CT="src/css/token.rs"; CM="src/css/mod.rs"; ST="src/js/token.rs"; STO="src/js/tools.rs"; SU="src/js/utils.rs"; H="src/html.rs"; L="src/cli.rs"
p("J01","JSON minification removes insignificant whitespace and nothing else",
 "For every valid JSON text, json::minify yields exactly the input with the whitespace outside string literals removed: every other byte is kept, in order, including everything inside strings (spaces, escapes such as \\\" and \\\\, U+007F, any Unicode character), whatever the nesting, length and number of strings. The output is therefore valid JSON denoting the same value.",
 ["inputs"],"all valid JSON texts",
 "Three unit tests minify three small documents; string state depends on the whole history of quotes and backslashes, so only a sweep over all short histories (and over lengths) can settle it.",
 [JM,JS,"src/json/mod.rs"],[("string/escape state machine deciding which characters are kept","src/json/json_minifier.rs keep_element"),("lazy character filter","src/json/string.rs JsonMultiFilter::next")],
 ["json::minify(..).to_string()"],[dict(name="is_string / escaped_quotation",meaning="inside a string literal / next character is escaped",where=JM)])
p("J02","Streaming JSON equals in-memory JSON for every chunking and buffer size",
 "For every valid UTF-8 text, reading json::minify_from_read to the end delivers exactly the bytes of json::minify on the same text, whatever sizes the underlying reader returns (short reads included) and whatever sequence of non-empty buffer sizes the caller passes to read(). Once the end was reported, further reads keep returning 0 and an empty buffer always yields 0 without losing anything.",
 ["inputs","schedules"],"all UTF-8 texts x all partitions of the source into non-empty reads x all sequences of caller buffer sizes",
 "The only streaming test reads one file through read_to_string with a reader that fills every buffer; short reads and small buffers never occur in it.",
 [JR,JB,JI,JIB],[("buffer refill and end-of-input detection","src/json/read/internal_reader.rs next"),("UTF-8 decoding across buffers","src/json/read/byte_to_char.rs next"),("copy of kept characters into the caller's buffer, with carry-over","src/json/read/json_read.rs read")],
 ["std::io::Read::read on the value returned by json::minify_from_read"],[dict(name="item_iter / item1",meaning="bytes of the current output character not delivered yet / look-ahead character",where=JR)])
p("J03","Streaming JSON survives source errors and rejects invalid UTF-8",
 "When the underlying reader fails, the streaming JSON minifier reports that error (same kind) after delivering only a prefix of the right output, and a temporary failure (Interrupted, WouldBlock) at any point loses, duplicates or reorders nothing once reading resumes. A source that is not valid UTF-8, or ends in the middle of a character, ends in an InvalidData error after a prefix of the right output: it never ends in success, in a panic or in invalid bytes.",
 ["inputs","fault_sequences"],"all sources x all chunkings x all placements of temporary and permanent read errors (up to a bound) x all caller buffer sizes; all invalid byte sequences up to a bound",
 "No test injects a read error or feeds invalid UTF-8 to the streaming API.",
 [JR,JB,JI],[("error propagation and state kept across failures","src/json/read/json_read.rs read"),("UTF-8 validation","src/json/read/byte_to_char.rs next, UTF8_CHAR_WIDTH")],
 ["results of Read::read on the value returned by json::minify_from_read"])
p("O01","write() delivers the same bytes as Display, over any writer",
 "For css, js and json, write(w) on a minified value delivers to w exactly the bytes of its to_string(), whatever number of bytes each call of w accepts and however often it is interrupted. If w fails (error, or accepting 0 bytes), write() returns that error and what w received is a prefix of to_string().",
 ["inputs","fault_sequences"],"all inputs x all behaviours of the writer (short writes, Interrupted, errors at any point, zero-length writes)",
 "No test calls write() at all; the Display and the write paths are separate code in each minifier.",
 [CT,ST,JS],[("css writer","src/css/token.rs Tokens::write and Display"),("js writer","src/js/token.rs tokens_writer!"),("json writer","src/json/string.rs JsonMultiFilter::write and Display")],
 ["Minified::write(w), Minified::to_string()"])
p("C01","CSS minification preserves the token stream and significant whitespace",
 "For every well-formed style sheet, the output of css::minify tokenizes (CSS Syntax) to the same tokens in the same order as the input, and whitespace that has a meaning stays while none is created where its presence would change the meaning: descendant combinators (before/after any kind of simple selector, at any block depth), spaces between the words of a value or of a prelude, before a parenthesis that is not a function call, around + and - in math functions. Only comments and insignificant whitespace go away.",
 ["inputs"],"all well-formed style sheets",
 "About twenty example sheets: the decision to keep a space depends on the kinds of both neighbours, the block depth, at-rule and parenthesis context, whose combinations the examples do not cover.",
 [CT,CM],[("tokenizer (selectors, blocks, operators)","src/css/token.rs tokenize, fill_other"),("whitespace retention rules","src/css/token.rs clean_tokens, get_selectors, is_descendant")],
 ["css::minify(..).to_string()"])
p("C02","CSS strings, escapes and unquoted URLs are kept verbatim",
 "Every quoted string, every backslash escape (with the character(s) it covers) and every unquoted url(...) body of a style sheet appears unchanged in the output of css::minify, whatever characters it contains (whitespace, comment markers, braces, brackets, quotes, semicolons, non-ASCII), and what follows it is still minified as it would be after any other such literal.",
 ["inputs"],"all contents of strings, escapes and URLs, in selectors, attribute selectors, at-rule preludes and declarations",
 "Tests use a handful of strings without special characters, one data URL and one escaped selector.",
 [CT],[("string scanner","src/css/token.rs get_string"),("url scanner","src/css/token.rs get_url"),("escape handling","src/css/token.rs tokenize, ReservedChar::Backslash")],["css::minify(..).to_string()"])
p("C03","CSS keeps license comments and drops all the other ones",
 "Comments starting with /*! or /** (other than /**/) are kept with their content unchanged, each exactly once, in order and at the same place relative to rules and declarations, while no other comment leaves a trace in the output. Removing a comment never joins two tokens, never swallows or exposes code, and never adds a descendant combinator.",
 ["inputs"],"all style sheets with comments of any content at any place between tokens",
 "Tests contain a few comments at rule boundaries; comment content (stars, slashes, quotes, non-ASCII) and placement inside selectors and values are hardly sampled.",
 [CT],[("comment scanner and license detection","src/css/token.rs get_comment"),("comments as separators","src/css/token.rs clean_tokens")],["css::minify(..).to_string()"])
p("C04","CSS minification fails exactly on malformed input",
 "css::minify returns Err exactly when the source contains an unclosed string or comment, a } without its {, a ] without its [ or a [ nested in another (outside strings, comments, escapes and unquoted URLs), and Ok otherwise; in particular every well-formed style sheet is accepted.",
 ["inputs"],"all texts",
 "Two malformed inputs are tested; the acceptance of well-formed sheets is only known for the examples.",
 [CT],[("error returns of the tokenizer","src/css/token.rs tokenize")],["css::minify(..).is_ok()"])
p("C05","CSS output has no useless white space",
 "In the output of css::minify for a well-formed style sheet, outside of strings, urls and license comments, white space is always exactly one space between two tokens (or the one line break which ends a license), never at the start or the end, and only where it matters or where the code keeps it on purpose: never next to {, }, ;, a comma, a slash or a combinator (> + ~), nor next to the colon of a declaration or just inside parentheses, however the source is laid out. It may stay without an effect after an at-keyword, beside square brackets, around * and <, before !, inside calc(), and before the colons directly in the block of an at-rule.",
 ["inputs"],"all well-formed style sheets x all layouts",
 "Tests compare a few outputs; a rule which keeps white space after a rare token, or a state which is never left (calc, media), shows for particular contexts only.",
 [CT],[("what is retained","src/css/token.rs clean_tokens"),("white space after a token","src/css/token.rs tokenize")],["css::minify(..).to_string()"])
p("S01","JS minification preserves the token sequence",
 "For every valid script whose statements end with explicit semicolons (it does not rely on line breaks), the output of js::minify consists of the same tokens in the same order as the input - identifiers, keywords, numbers, punctuators, strings, regexes, templates - apart from empty statements at the very start. Two tokens are never merged, split, dropped, duplicated, reordered or turned into something else (a comment, a regex, another operator), whatever whitespace and comments separate them in the input.",
 ["inputs","programs"],"all scripts of that domain x all placements of whitespace, newlines and comments between tokens",
 "Around sixty tests check fixed snippets; gluing depends on the pair (sometimes triple) of neighbouring token kinds and on what was between them.",
 [ST,SU,STO],[("tokenizer","src/js/token.rs tokenize, fill_other, handle_equal_sign, check_if_number"),("separator removal","src/js/utils.rs clean_tokens, must_stay_separated"),("separator insertion when printing","src/js/token.rs tokens_writer!, get_required, requires_before")],["js::minify(..).to_string()"],
 [dict(name="MyPeekable",meaning="character stream with look-ahead and rewinding",where=ST)])
p("S02","JS string, template, regex and number literals are kept verbatim",
 "Every string, template literal (with nested substitutions), regular expression literal and numeric literal of a script is found at its place in the output of js::minify with exactly its source text (only the order and repetition of the g and i flags of a regex may change), whatever characters it contains (spaces, quotes, comment markers, slashes in classes, escapes, line continuations, non-ASCII), and the code after it is still minified.",
 ["inputs"],"all literal contents, in every position where such a literal may occur",
 "Tests contain about fifteen literals; the end of a literal depends on escapes, classes, nesting and on the division/regex decision, which depends on the preceding tokens.",
 [ST],[("string scanner","src/js/token.rs get_string"),("template scanner","src/js/token.rs get_backtick_string"),("regex/division decision and regex scanner","src/js/token.rs get_regex"),("number canonicalisation","src/js/token.rs fill_other, check_if_number")],["js::minify(..).to_string()"])
p("S03","JS keeps license comments and drops all the other comments",
 "Comments starting with /*! are kept with their content unchanged, each exactly once and at the same place between the tokens, while all other comments (block and line, of any content, at any place, at the end of the source too) leave no trace in the output of js::minify. No code is lost with a comment and no part of a comment becomes code.",
 ["inputs"],"all scripts x all comment contents and placements",
 "Few tests contain comments, none in most positions or with unusual contents (stars, quotes, non-ASCII, end of source).",
 [ST,SU],[("comment scanners","src/js/token.rs get_comment, get_line_comment"),("comment removal","src/js/utils.rs clean_tokens")],["js::minify(..).to_string()"])
p("S04","JS output is actually minified",
 "Outside of literals, kept license comments and a hashbang line, the output of js::minify contains no newline, carriage return or tab, never two spaces in a row, no leading or trailing space, and no space next to a bracket, parenthesis, brace, comma, semicolon, colon, equal sign or quote. The output for a script does not depend on which whitespace and ordinary comments separate its tokens, as long as the same ones are separated.",
 ["inputs","programs"],"all scripts of the domain of S01 x all separators",
 "The tests compare a few outputs; whether a space is needed is decided pairwise, and only some pairs occur in them.",
 [ST,SU],[("space insertion","src/js/token.rs tokens_writer!"),("separator removal","src/js/utils.rs clean_tokens")],["js::minify(..).to_string()"])
p("S05","Aggregating JS strings into variables is reversible and collision-free",
 "After aggregate_strings (with or without separation token), replacing each created variable with the literal it was declared with and removing the declaration gives back the token sequence of the input; instead of a created variable, a variable of the input declared earlier with exactly that string may be used. The created variables are declared once, at the start (after a hashbang), with pairwise different literals and names, and no identifier of the input has one of their names; template literals are left alone.",
 ["inputs","programs"],"all scripts with any number, lengths and kinds of repeated and non-repeated strings, and any identifiers already present",
 "Six tests aggregate fixed lists of strings; name generation (rollover, collisions), counts and length thresholds are only met at a few points.",
 [STO,SU,ST],[("candidate selection and name generation","src/js/tools.rs aggregate_strings_inner"),("name generator","src/js/utils.rs VariableNameGenerator")],["js::aggregate_strings(..), js::aggregate_strings_with_separation(..)"])
p("S06","Aggregating JS strings into an array is reversible and respects the filter",
 "After aggregate_strings_into_array (and its variants), replacing each NAME[i] created by it with the i-th element of the array gives back the token sequence of the input with equal string values; every index is within the array, which is declared before its first use, or extended in place (existing indexes unchanged) when the source already declares that array of strings. Strings refused by the filter and template literals are left alone.",
 ["inputs","programs"],"all scripts with any number, lengths and quoting of strings, any array name, any filter, any pre-existing array of strings",
 "Ten tests with fixed lists; index assignment, quoting and the existing-array logic are only sampled.",
 [STO,SU],[("array construction","src/js/tools.rs aggregate_strings_into_array_inner"),("existing array lookup","src/js/utils.rs get_array")],["js::aggregate_strings_into_array*(..)"])
p("S07","The JS token-list helpers agree with each other and with minify",
 "Printing simple_minify(s) through clean_tokens is js::minify(s); clean_tokens_except and clean_token_except drop only comments, whitespace and semicolons their callback accepts and keep everything else, in order (a semicolon which the callback accepts only goes at the start, at the end or before a closing brace); replace_tokens_with and replace_token_with change exactly the tokens their callback maps, and get_variable_name_and_value_positions returns positions of the declared name and of its initial value.",
 ["inputs","programs"],"all token lists x all callbacks over token kinds",
 "A few examples with one callback each.",
 [SU,STO,ST],[("token list helpers","src/js/utils.rs")],["js::simple_minify, js::clean_tokens*, js::clean_token*, js::replace_token*_with, js::get_variable_name_and_value_positions"])
p("G01","No input makes the library panic, overflow or hang",
 "For every UTF-8 text, however malformed, each entry point (css, js, json, json streaming, html, JS tokenizer and aggregation) returns within a time that stays reasonable for its length: it never panics, overflows the stack, runs out of memory or loops forever.",
 ["inputs"],"all UTF-8 texts",
 "A dozen malformed inputs are tested; slicing by byte positions, look-ahead and recursion fail only on particular short sequences.",
 [ST,CT,H,JM,STO,SU],[("byte-position slicing in the tokenizers","src/js/token.rs, src/css/token.rs"),("recursion cap for templates","src/js/token.rs MAX_BACKTICK_NESTING")],["every public entry point"])
p("G02","Minifying minified output changes nothing",
 "css::minify, js::minify, json::minify and html::minify are idempotent on the inputs they accept (well-formed style sheets, valid scripts without reliance on line breaks, any text for JSON, ordinary HTML documents): minifying the output again succeeds and yields the same bytes.",
 ["inputs"],"all inputs of the domains of C01, S01, J01, H01 and H02",
 "One test minifies one already minified script.",
 [CT,ST,SU,JM],[("whitespace retention rules","src/css/token.rs clean_tokens"),("token printing","src/js/token.rs tokens_writer!")],["minify(minify(x)) == minify(x)"])
p("G03","The result does not depend on size, count, depth or surroundings",
 "What a minifier does to one piece of code does not depend on how many pieces precede or follow it, how long its words, literals, comments and whitespace runs are, or how deeply it is nested (up to the documented template nesting limit): minifying a sequence of independent units yields the sequence of the minified units. This holds for css, js, json (in memory and streaming) and html.",
 ["inputs"],"all repetition counts, lengths and nesting depths of units",
 "Fixed inputs have fixed sizes; counters, buffers, capacities and thresholds are only exercised at the sizes the tests happen to use.",
 [CT,ST,JM,JIB,H],[("counters and flags carried along the source (block depth, media, calc, paren, string state)","src/css/token.rs, src/js/token.rs, src/json/json_minifier.rs")],["minify(u1 u2 .. un) for all n"])
p("H01","HTML minification preserves structure, attributes and text",
 "For documents without inline script/style/pre/textarea content, html::minify keeps every element, every attribute with its value (only quotes of width/height and the default type of script/style may go) and all the text, in order, up to collapsing whitespace; only comments and the optional tags listed in the code are removed. No whitespace appears between two pieces of text or elements that were not separated, and words that were separated stay so.",
 ["inputs"],"all ordinary HTML documents",
 "One page is tested; the implementation is a chain of regex replacements over the whole text, so interactions between tags, attributes, comments and whitespace are unsampled.",
 [H],[("regex passes","src/html.rs remove_comments, condense, clean_unneeded_tags, condense_whitespace, unquote_attributes")],["html::minify(..)"])
p("H02","HTML keeps conditional comments and preformatted whitespace",
 "html::minify keeps every conditional comment (a comment whose text starts with [, possibly after white space, and the end <!--<![endif]--> of a revealed one) and removes every other comment, whatever they contain and wherever they are; comments start and end where the HTML standard says. In a document containing <pre> or <textarea>, the text of those elements is kept byte for byte.",
 ["inputs"],"all HTML documents with comments and preformatted elements",
 "One conditional comment is tested, pre and textarea are not tested at all.",
 [H],[("comment removal","src/html.rs remove_comments"),("whitespace condensing is skipped when preformatted elements are present","src/html.rs condense_whitespace")],["html::minify(..)"])
p("H03","HTML output is minified",
 "In the output of html::minify there is no comment other than conditional ones, no white space at the start or the end, none of the omitted tags (<body>, </li>...), no type=\"text/css\" of a style and no type=\"text/javascript\" or \"application/javascript\" of a script, no quotes around a width or height made of letters, digits, - _ and . (unless a slash follows), no white space between a quoted value and the end of its tag; and, unless the document holds a pre or a textarea, no line break and never two consecutive white characters - however the source is laid out.",
 ["inputs"],"all ordinary HTML documents",
 "One page is tested; each pass only sees what the previous ones left.",
 [H],[("regex passes","src/html.rs remove_comments, condense, clean_unneeded_tags, condense_whitespace, unquote_attributes")],["html::minify(..)"])
p("L01","The CLI writes the right output at the right place",
 "For every combination of input names (relative or absolute, any extension case, several dots), of -t and of -o (absent, existing directory, file, file in a missing directory), each input file is minified according to its type and written to exactly one documented place: NAME.min.EXT next to it, the given file, or inside the given directory (relative inputs are mirrored there, absolute ones and those going through .. are there by file name). Inputs and all other files are left untouched, and files of unknown type are skipped.",
 ["configurations"],"all combinations of arguments, file names and pre-existing output state",
 "The CLI has no test at all.",
 [L,"src/main.rs"],[("type detection, output path computation and writing","src/cli.rs write_out_file")],["files on disk after running the binary, its exit status"])
p("L02","A bad input neither destroys files nor stops the CLI",
 "When an input cannot be read (missing, directory, not UTF-8), is malformed, has an unknown type, or its output cannot be created, the CLI leaves every existing file (also a previous output) as it was, creates no empty or partial output, does not panic, and still processes all the other inputs, wherever the bad one is in the list.",
 ["configurations","fault_sequences"],"all lists of good and bad inputs up to a bound, in every order, with and without previous outputs",
 "The CLI has no test at all, in particular none of its failure paths.",
 [L],[("error handling of each file","src/cli.rs Cli::init, write_out_file, get_all_data")],["files on disk after running the binary, its exit status"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
assert all(len(x['title'])<=80 for x in P), [x['title'] for x in P if len(x['title'])>80]
print(len(P))
