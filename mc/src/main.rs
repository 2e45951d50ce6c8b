mod agg;
mod cli;
mod css;
mod csslex;
mod engine;
mod general;
mod helpers;
mod html;
mod js;
mod jslex;
mod json;
mod sizes;
mod tmpl;
mod wr;

use engine::*;
use std::process::ExitCode;

static PROPS: &[Prop] = &[
    Prop {
        id: "J01",
        level: "model_checking",
        rule: "a state is a prefix of a JSON text (tokens and gaps), a transition adds one token or one gap; a trace is a complete valid JSON text run through json::minify and compared with the reference scanner",
        assumptions: &["the texts are valid JSON (RFC 8259)"],
        judge: json::judge_j01,
        explore: json::explore_j01,
    },
    Prop {
        id: "J02",
        level: "model_checking",
        rule: "a state is a prefix of (text, sizes returned by the source, sizes asked by the caller); a trace reads the whole stream and compares with json::minify",
        assumptions: &["the source honours the contract of Read: 0 means the end"],
        judge: json::judge_j02,
        explore: json::explore_j02,
    },
    Prop {
        id: "J03",
        level: "fault_enumeration",
        rule: "every placement of up to three errors (8 kinds, temporary or definitive) in every chunking of short texts, and every short byte sequence; a case is non-trivial when it contains a fault or invalid UTF-8",
        assumptions: &["the source honours the contract of Read", "an implementation may also retry by itself on Interrupted"],
        judge: json::judge_j03,
        explore: json::explore_j03,
    },
    Prop {
        id: "O01",
        level: "fault_enumeration",
        rule: "every sequence of answers of the writer (bytes accepted, Interrupted, error, 0) up to the bound; all the cases run a real write() on a scripted writer",
        assumptions: &["the writer honours the contract of Write"],
        judge: wr::judge,
        explore: wr::explore,
    },
    Prop {
        id: "C01",
        level: "model_checking",
        rule: "a state is a prefix of a style sheet (selector parts and combinators, value components and separators, prelude words, statements and gap deviations); a trace is a complete style sheet run through css::minify, whose output is compared with the input, token by token and gap by gap, by a CSS Syntax tokenizer",
        assumptions: &["the style sheets are well formed", "which white space matters is decided by the reference canonical form (csslex.rs)"],
        judge: css::judge_c01,
        explore: css::explore_c01,
    },
    Prop {
        id: "C02",
        level: "model_checking",
        rule: "a state is a prefix of the body of a literal in a context; a trace minifies the style sheet with the literal and with a neutral one: the outputs may only differ by the literal, which must be verbatim",
        assumptions: &["literals are well formed (no line break in a string, no quote or parenthesis in an unquoted url)"],
        judge: css::judge_c02,
        explore: css::explore_c02,
    },
    Prop {
        id: "C03",
        level: "model_checking",
        rule: "a state is a style sheet with some comments placed (bodies, places, kinds); a trace minifies it, compares it with the input token by token, its licenses one by one, and the whole with the minified text without the ordinary comments",
        assumptions: &["license comments inside of a selector are out of the domain (known finding)"],
        judge: css::judge_c03,
        explore: css::explore_c03,
    },
    Prop {
        id: "C04",
        level: "model_checking",
        rule: "a state is a prefix of a sequence of fragments (quotes, comment marks, brackets, braces, escapes...), or a mutant of a style sheet; a trace compares is_err() with the reference tokenizer",
        assumptions: &["line breaks inside of strings, malformed unquoted urls are out of the domain"],
        judge: css::judge_c04,
        explore: css::explore_c04,
    },
    Prop {
        id: "C05",
        level: "model_checking",
        rule: "a state is a prefix of a style sheet with its gaps (the spaces of C01 and C03, and names and functions written at pairs of places with white space everywhere); a trace minifies it, tokenizes the output with the reference tokenizer and refuses any white space which has no effect on the meaning",
        assumptions: &["what may stay without an effect: white space after an at-keyword, beside square brackets, around * and <, before !, in calc(), before the colons directly in the block of an at-rule"],
        judge: css::judge_c05,
        explore: css::explore_c05,
    },
    Prop {
        id: "S01",
        level: "model_checking",
        rule: "a state is a prefix of a sequence of tokens (operand/operator automaton with a stack of brackets, statements of the whole grammar) with its gaps; a trace is a complete script run through js::minify, whose output must lex, token by token, as the tokens of the input",
        assumptions: &["the scripts end their statements explicitly", "a regular expression does not directly follow the body of a class, a block with a label, or a function which is exported by default"],
        judge: js::judge_s01,
        explore: js::explore_s01,
    },
    Prop {
        id: "S02",
        level: "model_checking",
        rule: "a state is a prefix of the body of a literal in a context; a trace minifies the script with the literal and with a neutral one of the same kind: the outputs may only differ by the literal, which must be verbatim (numbers: the output must lex as the same tokens)",
        assumptions: &["a regular expression does not directly follow the body of a class, a block with a label, or a function which is exported by default", "in the substitutions of a template, nothing separates a dot from the name of a property, and a regular expression does not directly follow a `)` or a `}`"],
        judge: js::judge_s02,
        explore: js::explore_s02,
    },
    Prop {
        id: "S03",
        level: "model_checking",
        rule: "a state is a script with some comments placed (kinds, bodies, places); in the output, the gap between two tokens must hold exactly the licenses of the input at that place, and no other comment",
        assumptions: &["the scripts end their statements explicitly", "a regular expression does not directly follow the body of a class, a block with a label, or a function which is exported by default"],
        judge: js::judge_s03,
        explore: js::explore_s03,
    },
    Prop {
        id: "S04",
        level: "model_checking",
        rule: "a state is a prefix of a script with its gaps; a trace checks each gap of the output, and that separators other than a space give the same output",
        assumptions: &["the scripts end their statements explicitly", "a regular expression does not directly follow the body of a class, a block with a label, or a function which is exported by default"],
        judge: js::judge_s04,
        explore: js::explore_s04,
    },
    Prop {
        id: "S05",
        level: "model_checking",
        rule: "a state is a prefix of a script with strings (statements, strings, taken names, existing variables); a trace runs five combinations of simple_minify, clean_tokens, aggregate_strings and separators on it, and reads the output back: declarations, then the tokens of the input, with some strings replaced",
        assumptions: &["variables of the script which hold a string are matched without their scopes", "the script does not contain escaped identifiers which start with r_"],
        judge: agg::judge_s05,
        explore: agg::explore_s05,
    },
    Prop {
        id: "S06",
        level: "model_checking",
        rule: "a state is a prefix of a script with strings (statements, strings, existing arrays), and the name of the array; a trace runs nine combinations of clean_tokens, the four functions and three filters, and reads the output back: the array, then the tokens of the input, with some strings replaced",
        assumptions: &["the name of the array is only used by the script for an array it declares itself, once, in the scope of all the code"],
        judge: agg::judge_s06,
        explore: agg::explore_s06,
    },
    Prop {
        id: "S07",
        level: "model_checking",
        rule: "a state is a prefix of a sequence of fragments (well formed or not), of statements or of declarations; a trace runs the helpers on the tokens of a source, with 12 callbacks and 10 replacements, and compares the resulting lists with those of a reference, token by token",
        assumptions: &["declarations have a simple value (name, string, number, regex) or none, and end with a comma or a semicolon"],
        judge: helpers::judge_s07,
        explore: helpers::explore_s07,
    },
    Prop {
        id: "G01",
        level: "model_checking",
        rule: "a state is a prefix of a sequence of fragments (all of them, and those of each language), a cut or mutated source, or a repeated pattern; a trace runs every entry point on it: it must return, without a panic, within the time limit, on a 2 MB stack",
        assumptions: &["the time limit is 25 s for a case", "release build with overflow checks and debug assertions"],
        judge: general::judge_g01,
        explore: general::explore_g01,
    },
    Prop {
        id: "G02",
        level: "model_checking",
        rule: "the spaces of J01, C01-C03, S03 and S04 (S01 in the thorough tier), H01 and H02, and every sequence of fragments for JSON; a trace minifies, then minifies the output, and compares",
        assumptions: &["the domains of C01, S01, J01, H01 and H02"],
        judge: general::judge_g02,
        explore: general::explore_g02,
    },
    Prop {
        id: "G03",
        level: "model_checking",
        rule: "a state is a prefix of a sequence of units, or a number of repetitions, a depth, a length; a trace compares the minified whole with the assembly of the minified units",
        assumptions: &["the units are independent: they end explicitly, and the next one does not start with white space or a regular expression"],
        judge: general::judge_g03,
        explore: general::explore_g03,
    },
    Prop {
        id: "H01",
        level: "model_checking",
        rule: "a state is a prefix of a tag (name, attributes, separators), of a value or of a page; pages are run packed, many in a source; the input and the output are tokenized and their canonical events compared",
        assumptions: &["no markup inside of texts and of the values of attributes", "no inline script or style"],
        judge: html::judge,
        explore: html::explore_h01,
    },
    Prop {
        id: "H02",
        level: "model_checking",
        rule: "a state is a prefix of a comment, of a page with comments, or of a preformatted text; pages are run packed, many in a source; the input and the output are tokenized and their canonical events compared, preformatted text byte for byte",
        assumptions: &["comments are closed", "no markup inside of textarea"],
        judge: html::judge,
        explore: html::explore_h02,
    },
    Prop {
        id: "H03",
        level: "model_checking",
        rule: "a state is a prefix of a tag, of a value, of a comment or of a page (the spaces of H01 and H02); pages are run packed, many in a source; in the output: no removable white space, optional tag, comment, default type or quotes",
        assumptions: &["no markup inside of texts and of the values of attributes", "comments are closed", "no inline script or style"],
        judge: html::judge_h03,
        explore: html::explore_h03,
    },
    Prop {
        id: "L01",
        level: "model_checking",
        rule: "a state is a configuration: arguments, names of the inputs, what exists before; a trace runs the command line in a scratch directory, as an unprivileged user, and compares all the files with those computed by the model",
        assumptions: &["what the library gives for the content of an input is right (the other properties)"],
        judge: cli::judge,
        explore: cli::explore_l01,
    },
    Prop {
        id: "L02",
        level: "fault_enumeration",
        rule: "a state is a list of inputs, each good or bad in one of 14 ways, with places, outputs and previous outputs; a trace runs the command line in a scratch directory, as an unprivileged user, and compares all the files with those computed by the model; a case is non-trivial when an input is bad",
        assumptions: &["the write of an output itself does not fail halfway"],
        judge: cli::judge,
        explore: cli::explore_l02,
    },
];

fn main() -> ExitCode {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    match arg(1) {
        "check" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            check(PROPS, arg(2), tier(arg(3)), seed, args.get(4).cloned())
        }
        "worker" => {
            let code = worker(PROPS, arg(2), tier(arg(3)), arg(4).parse().unwrap_or(1), arg(5), args.get(6).cloned());
            ExitCode::from(code as u8)
        }
        "one" => ExitCode::from(one(PROPS, arg(2)) as u8),
        "replay" => replay(PROPS, arg(2)),
        "list" => {
            for p in PROPS {
                println!("{}", p.id);
            }
            ExitCode::from(0)
        }
        _ => engine_error("usage: mc check ID quick|thorough [family] | mc replay FILE | mc list"),
    }
}
