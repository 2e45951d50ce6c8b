//! G01-G03: what holds for every minifier. The first word of the name of a family is the minifier.

use crate::css;
use crate::engine::*;
use crate::html;
use crate::js;
use crate::json;
use crate::sizes::*;
use crate::tmpl::*;
use minifier::js::{ReservedChar, Token, Tokens};
use std::io::Read;

fn lang(family: &str) -> &str {
    family.split('-').next().unwrap_or("")
}

pub fn minify(lang: &str, src: &str) -> Result<String, String> {
    match lang {
        "css" => css::minify(src),
        "js" => js::minify(src),
        "json" => Ok(minifier::json::minify(src).to_string()),
        "stream" => {
            let mut out = String::new();
            match minifier::json::minify_from_read(src.as_bytes()).read_to_string(&mut out) {
                Ok(_) => Ok(out),
                Err(e) => Err(e.to_string()),
            }
        }
        "html" => Ok(minifier::html::minify(src)),
        _ => unreachable!("language of {lang}"),
    }
}

// --------------------------------------------------------------------------------------- G01

fn total_css(s: &str) {
    if let Ok(m) = minifier::css::minify(s) {
        let a = m.to_string();
        let mut v = Vec::new();
        m.write(&mut v).expect("writing to a vector");
        assert!(a.as_bytes() == v, "the two ways to write disagree");
    }
}

fn total_json(s: &str) {
    let want = minifier::json::minify(s).to_string();
    let mut v = Vec::new();
    minifier::json::minify(s).write(&mut v).expect("writing to a vector");
    assert!(want.as_bytes() == v, "the two ways to write disagree");
    for size in [0, 1, 3, 64] {
        let mut r = minifier::json::minify_from_read(s.as_bytes());
        let mut buf = [0u8; 64];
        // An output is never longer than its input.
        for _ in 0..s.len() + 2 {
            match r.read(&mut buf[..size]) {
                Ok(0) => break,
                Ok(n) => assert!(n <= size, "more bytes than asked"),
                Err(e) => panic!("unexpected error {e}"),
            }
        }
    }
}

fn keep_most(t: &Token<'_>) -> bool {
    !matches!(t, Token::Char(ReservedChar::Backline | ReservedChar::SemiColon) | Token::Comment(_))
}

fn total_js(s: &str) {
    use minifier::js;
    let Ok(m) = js::minify(s) else { return };
    let a = m.to_string();
    let mut v = Vec::new();
    m.write(&mut v).expect("writing to a vector");
    assert!(a.as_bytes() == v, "the two ways to write disagree");
    let tokens = || js::simple_minify(s).expect("minify succeeded");
    let print = |t: Tokens<'_>| {
        let a = t.to_string();
        drop(a);
    };
    print(tokens());
    print(js::clean_tokens_except(tokens(), keep_most));
    print(js::replace_tokens_with(tokens(), |t| t.is_keyword().then_some(Token::Other("k"))));
    print(js::aggregate_strings(tokens()));
    print(js::clean_tokens(js::aggregate_strings(tokens())));
    print(js::aggregate_strings(js::clean_tokens(tokens())));
    print(js::aggregate_strings_with_separation(tokens(), Token::Char(ReservedChar::Backline)));
    print(js::aggregate_strings_into_array(tokens(), "R"));
    print(js::clean_tokens(js::aggregate_strings_into_array(tokens(), "R")));
    print(js::aggregate_strings_into_array_filter(js::clean_tokens(tokens()), "R", |t, _| t.len() > 2));
    print(js::aggregate_strings_into_array_with_separation(tokens(), "R", Token::Char(ReservedChar::Backline)));
    let t = js::clean_tokens(tokens());
    // A list of tokens is as long as its source, and each position costs as much as the declaration
    // which follows: only the first ones, and the last ones.
    for pos in (0..t.0.len().min(64)).chain(t.0.len().saturating_sub(8)..t.0.len() + 2) {
        js::get_variable_name_and_value_positions(&t, pos);
    }
}

pub fn judge_g01(family: &str, parts: &[&str]) -> Result<(), String> {
    // Large texts are described: `*`, a count and a piece, several times.
    let src: String = if family.ends_with("-sizes") || family.ends_with("-large") {
        parts.chunks(3).map(|c| c[2].repeat(c[1].parse().expect("count"))).collect()
    } else {
        parts.concat()
    };
    if family.ends_with("-large") {
        // Whether it is refused doesn't matter here: only the time it takes.
        drop(minify(lang(family), &src));
        if family.starts_with("js") {
            use minifier::js;
            if let Ok(t) = js::simple_minify(&src) {
                drop(js::aggregate_strings(t).to_string());
            }
            if let Ok(t) = js::simple_minify(&src) {
                drop(js::aggregate_strings_into_array(js::clean_tokens(t), "R").to_string());
            }
        }
        return Ok(());
    }
    match lang(family) {
        "css" => total_css(&src),
        "js" => total_js(&src),
        "json" => total_json(&src),
        "html" => drop(minifier::html::minify(&src)),
        _ => {
            total_css(&src);
            total_js(&src);
            total_json(&src);
        }
    }
    Ok(())
}

const ALL: &[&str] = &[
    "a", "1", " ", "\n", "\r", "\t", "\"", "'", "`", "\\", "/", "*", "/*", "*/", "//", "/*!", "!", "?", ".", ",", ";", ":", "(", ")", "[", "]", "{", "}", "<", ">", "=", "+", "-", "&", "|", "^", "%", "~", "$", "@", "#", "_",
    "\u{e9}", "\u{20ac}", "\u{1f600}", "\u{2028}", "\u{feff}", "\0", "\u{7f}", "${",
];
const CSS: &[&str] = &[
    "a", "1", " ", "\n", "\"", "'", "\\", "/*", "*/", "/*!", "/**", ".", ",", ";", ":", "(", ")", "[", "]", "{", "}", "@media ", "@a", "calc(", "url(", "and", ">", "+", "-", "*", "#", "!", "\u{e9}", "<!--", "-->", "&", "%",
];
const JS: &[&str] = &[
    "a", "1", " ", "\n", "\"", "'", "`", "${", "}", "{", "\\", "/", "/*", "*/", "//", "/*!", "#!", ".", ",", ";", "(", ")", "[", "]", "var ", "=", "R", "r_aa", "return", "if", "!", "+", "=>", "<", "1.", "0x", "e", "\u{e9}", "function", "in", "?", ":", "const ",
];
/// Strings long enough to be aggregated, with the names which would be generated for them.
const STRINGS: &[&str] = &[
    "\"some long enough string\",", "'another one, which is as long',", "\"some long enough string\"", "r_aa", "r_ba ", " r_ca,", "R", "var ", "=", "[", "]", ";", "`r_aa`", ".", "(", "'',", "\"r_ba\" ", "\n", "/*! l */", "#!r_aa\n", "const R=",
];
const JSON: &[&str] = &["\"", "\\", "a", " ", "\n", "{", "}", ":", ",", "[", "1", "\\u", "\u{7f}", "\u{e9}", "\u{1f600}", "\u{a0}", "/*", "'"];
const HTML: &[&str] = &[
    "<", ">", "</", "<!--", "-->", "[", "a", " ", "\n", "\"", "'", "=", "/", "<a ", "</li>", "<script", "<style ", "type=\"text/css\"", "<pre", "</pre>", " width=\"1\"", "  x  =  ", "\u{e9}", "\u{130}", "\u{a0}", "1 >", "<!", "\u{1e9e}",
];

fn pick<'a>(alphabet: &[&'a str], d: &[usize]) -> Vec<&'a str> {
    d.iter().map(|i| alphabet[*i]).collect()
}

/// Sources which are cut, doubled and mutated.
fn corpora(t: bool) -> Vec<(&'static str, Vec<String>)> {
    let css: Vec<String> = css::STATEMENTS
        .iter()
        .flat_map(|s| {
            let p = parse(s);
            let with = |o: &'static str, r: &'static str| {
                fill(&p, |g| match g {
                    G::Opt => o,
                    _ => r,
                })
            };
            [with("", " "), with(" ", "\n")]
        })
        .collect();
    let js: Vec<String> = js::all_statements().iter().flat_map(|s| [s.join(" "), s.join("\n")]).collect();
    let js = js.into_iter().step_by(if t { 1 } else { 2 }).collect();
    let html = vec![
        "<!DOCTYPE html>\n<html lang=\"en\">\n<head><title>a  b</title>\n<meta charset=\"utf-8\"><link rel=\"stylesheet\"   href='x.css' ></head>".to_owned(),
        "<body><p class=\"a  b\"  id=c >t <b>u</b>\n v</p><!-- c --><img src=\"i.png\" width=\"10\" height='20'/><br></body></html>".to_owned(),
        "<ul>\n <li>a</li>\n <li \n  x=\"1\"\n >b</li></ul><!--[if IE]> <p>x</p> <![endif]--><script type=\"text/javascript\">a < b;</script>".to_owned(),
        "<pre>\n a\n  b </pre><textarea rows=3 >  x\n\n</textarea> <table><tbody><tr><td width=\"5\">1</td></tr></tbody></table>".to_owned(),
    ];
    let json = vec!["{ \"a\" : [ 1 , -2.5e+3 , true , null , \"b \\\" \\u00e9 \u{e9}\" ] ,\n\t\"c\\\\\" : { } }".to_owned()];
    vec![("css-corpus", css), ("js-corpus", js), ("html-corpus", html), ("json-corpus", json)]
}

/// The boundaries of the characters.
fn cuts(s: &str) -> Vec<usize> {
    (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect()
}

pub fn explore_g01(ctx: &Ctx) {
    let t = ctx.thorough();
    // 1. Every short sequence of fragments.
    for len in 0..=3 {
        ctx.sequences("all-fragments", ALL.len(), len, |d, e| e.case(&pick(ALL, d)));
    }
    let langs: &[(&'static str, &[&str], usize)] = &[
        ("css-fragments", CSS, if t { 6 } else { 5 }),
        ("js-fragments", JS, if t { 5 } else { 4 }),
        ("js-strings-fragments", STRINGS, if t { 5 } else { 4 }),
        ("json-fragments", JSON, if t { 7 } else { 6 }),
        ("html-fragments", HTML, if t { 4 } else { 3 }),
    ];
    for (family, alphabet, max) in langs {
        for len in 1..=*max {
            ctx.sequences(family, alphabet.len(), len, |d, e| e.case(&pick(alphabet, d)));
        }
    }
    // Any number of names taken in a row.
    let taken = crate::sizes::sizes(130, if t { 8000 } else { 300 });
    ctx.product("js-taken-names", &[taken.len(), 4, 3], |d, e| {
        let names: String = (d[1]..d[1] + taken[d[0]]).map(|i| crate::agg::name(i) + [";", "=1,", "`"][d[2]]).collect();
        let strings: String = (0..5).map(|i| format!("'a rather long string {}',", i % 3)).collect();
        e.case(&["f(", &strings, "1);", &names]);
        e.case(&[&names, "f(", &strings, &strings, "1)"]);
    });
    // 2. Every character, alone, in the middle of a token and at the end.
    ctx.run("all-characters", 0x110000, |i, e| {
        let Some(c) = char::from_u32(i as u32) else { return };
        e.state();
        let mut b = [0; 4];
        let c: &str = c.encode_utf8(&mut b);
        e.case(&[c]);
        e.case(&["a", c]);
        e.case(&["\"", c, "\"", c, "'", c, "' /*", c, "*/", c, "1", c, "`", c, "${", c, "}`", c]);
        if t {
            for x in ["\"", "\\", "/*", "//", "/*!", "`", "/", "1.", "#!", "url(", "@", "<"] {
                e.case(&[x, c]);
                e.case(&[x, c, c]);
            }
        }
    });
    ctx.run("html-characters", 0x110000 / 64, |i, e| {
        let chars: Vec<char> = (i as u32 * 64..(i as u32 + 1) * 64).filter_map(char::from_u32).collect();
        if chars.is_empty() || !t && i % 8 != 0 && i > 0x3000 / 64 {
            return;
        }
        e.states(chars.len() as u64);
        let s: String = chars.iter().map(|c| format!("{c}<a{c} b{c}=\"{c}\" {c}>{c} {c}\n<{c}></{c}><!--{c}--><script{c}>{c}</script{c}><!--[{c}-->")).collect();
        e.case(&[&s]);
    });
    // All the sequences of three ASCII characters.
    let ascii: Vec<String> = (0..128u8).map(|c| (c as char).to_string()).collect();
    let ascii: Vec<&str> = ascii.iter().map(|s| s.as_str()).collect();
    ctx.sequences("css-ascii", 128, 3, |d, e| e.case(&pick(&ascii, d)));
    ctx.sequences("js-ascii", 128, 3, |d, e| e.case(&pick(&ascii, d)));
    // 3. Cut and mutated sources.
    for (family, sources) in corpora(t) {
        let html = family.starts_with("html");
        let alphabet: &[&str] = match lang(family) {
            "css" => CSS,
            "js" => JS,
            "json" => JSON,
            _ => HTML,
        };
        ctx.list(family, &sources, |s, e| {
            let cuts = cuts(s);
            for (i, at) in cuts.iter().enumerate() {
                e.state();
                // What comes before and after.
                e.case(&[&s[..*at]]);
                e.case(&[&s[*at..]]);
                if html && (!t && at % 4 != 0) {
                    continue;
                }
                // A fragment inserted, a fragment which replaces the next character, or the rest.
                for f in alphabet.iter().step_by(if html && !t { 3 } else { 1 }) {
                    e.state();
                    e.case(&[&s[..*at], f, &s[*at..]]);
                    e.case(&[&s[..*at], f]);
                    if let Some(next) = cuts.get(i + 1) {
                        e.case(&[&s[..*at], f, &s[*next..]]);
                    }
                }
                // A character removed, or everything between two places.
                if let Some(next) = cuts.get(i + 1) {
                    e.case(&[&s[..*at], &s[*next..]]);
                }
                if !html {
                    for to in cuts[i..].iter().skip(2).step_by(if t { 1 } else { 3 }) {
                        e.state();
                        e.case(&[&s[..*at], &s[*to..]]);
                    }
                }
            }
        });
    }
    large(ctx);
    // 4. Sizes: the same fragment, two fragments, and nested ones, many times.
    let big: &[usize] = if t { &[2, 7, 40, 64, 65, 127, 128, 129, 256, 1000, 1025, 4096, 8193, 20_000] } else { &[2, 7, 64, 65, 128, 129, 256, 1025, 4096] };
    for (family, alphabet) in [("css-sizes", CSS), ("js-sizes", JS), ("json-sizes", JSON), ("html-sizes", HTML)] {
        let html = family.starts_with("html");
        let big = if html && !t { &[300, 2000][..] } else { big };
        ctx.product(family, &[alphabet.len(), alphabet.len(), big.len(), 4], |d, e| {
            let (a, b, n) = (alphabet[d[0]], alphabet[d[1]], big[d[2]].to_string());
            match d[3] {
                0 if d[0] == d[1] => e.case(&["*", &n, a]),
                1 if d[0] != d[1] => {
                    if !html || d[0] < d[1] || t {
                        e.case(&["*", &n, &format!("{a}{b}")])
                    }
                }
                2 if d[0] != d[1] && (!html || t || (d[0] + d[1]) % 3 == 0) => e.case(&["*", &n, a, "*", &n, b]),
                // Something after.
                3 if d[0] == d[1] => {
                    for tail in if html { &["x\"' >"][..] } else { &["x", "\"", "\n", ";", "}"] } {
                        e.case(&["*", &n, a, "*", "1", tail]);
                    }
                }
                _ => {}
            }
        });
    }
}

/// What takes a time which grows as the square of the length doesn't end in time for those ones.
fn large(ctx: &Ctx) {
    let t = ctx.thorough();
    let bytes = if t { 600_000 } else { 400_000 };
    let describe = |d: &[&str], n: usize| -> Vec<String> { d.iter().flat_map(|p| ["*".to_owned(), n.to_string(), p.to_string()]).collect() };
    for (family, alphabet) in [("css-large", CSS), ("js-large", JS), ("js-large", STRINGS), ("json-large", JSON), ("stream-large", JSON), ("html-large", HTML)] {
        let html = family.starts_with("html");
        let bytes = if html { bytes / 8 } else { bytes };
        let emit = |e: &mut Emit<'_>, pieces: &[&str]| {
            let n = bytes / pieces.iter().map(|p| p.len()).sum::<usize>();
            let d = describe(pieces, n);
            e.case(&d.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        };
        let k = alphabet.len();
        ctx.sequences(family, k, 1, |d, e| emit(e, &[alphabet[d[0]]]));
        ctx.sequences(family, k, 2, |d, e| {
            let (a, b) = (alphabet[d[0]], alphabet[d[1]]);
            if d[0] < d[1] {
                emit(e, &[&format!("{a}{b}")]);
            }
            if d[0] != d[1] {
                emit(e, &[a, b]);
            }
        });
        // Inside of something which is not closed.
        let openings: &[&str] = match family {
            "css-large" => &["@media ", "a{", "(", "a{b:calc("],
            "js-large" if alphabet.len() == JS.len() && t => &["`${", "for(", "x={", "while(", "function f(){"],
            "js-large" if alphabet.len() == JS.len() => &["`${", "for("],
            "json-large" | "stream-large" => &["[", "{\"a\":"],
            "html-large" => &["<a ", "<script>"],
            _ => &[],
        };
        for opening in openings {
            let inside = |e: &mut Emit<'_>, piece: &str| {
                let n = (bytes / piece.len()).to_string();
                e.case(&["*", "1", opening, "*", &n, piece]);
            };
            ctx.sequences(family, k, 1, |d, e| inside(e, alphabet[d[0]]));
            ctx.sequences(family, k, 2, |d, e| {
                if d[0] != d[1] {
                    inside(e, &format!("{}{}", alphabet[d[0]], alphabet[d[1]]));
                }
            });
        }
        // What makes the state of a lexer change; everything with more time.
        let core: &[&str] = match family {
            _ if t => alphabet,
            "css-large" => &["a", " ", "\"", "\\", "/*", "*/", ":", "(", ")", "[", "{", "}", "@media ", ","],
            "js-large" if alphabet.len() == JS.len() => &["a", "=", "/", "[", "]", "\\", "`", "\"", "(", "\n", "/*", "${", "}", " of ", "for("],
            "js-large" => &["\"some long enough string\",", "r_aa", "[", "]", "var ", "=", ";", "R"],
            "html-large" => &["<", ">", "a ", "\"", "<!--", "=", "<script", "/"],
            _ => &["\"", "\\", "a", " ", "{"],
        };
        ctx.sequences(family, core.len(), 3, |d, e| {
            // Each cycle once.
            if d[0] <= d[1].min(d[2]) && d[1] != d[2] {
                emit(e, &[&format!("{}{}{}", core[d[0]], core[d[1]], core[d[2]])]);
            }
        });
    }
}

// --------------------------------------------------------------------------------------- G02

pub fn judge_g02(family: &str, parts: &[&str]) -> Result<(), String> {
    let lang = lang(family);
    let src = match family {
        // before, literal, what is expected of it, a neutral literal, after.
        f if f.starts_with("css-literals") && !f.contains("plain") && parts.len() == 5 => [parts[0], parts[1], parts[4]].concat(),
        f if f.starts_with("html") => parts.join("<hr class=\"next\">"),
        _ => parts.concat(),
    };
    let once = minify(lang, &src)?;
    let twice = minify(lang, &once).map_err(|e| format!("the output {once:?} is refused: {e}"))?;
    if once != twice {
        return Err(format!("{once:?} became {twice:?}"));
    }
    if lang == "json" && minify("stream", &once)? != once {
        return Err(format!("{once:?} is changed by the streaming minifier"));
    }
    Ok(())
}

pub fn explore_g02(ctx: &Ctx) {
    let t = ctx.thorough();
    for len in 0..=if t { 6 } else { 5 } {
        ctx.sequences("json-fragments", JSON.len(), len, |d, e| e.case(&pick(JSON, d)));
    }
    ctx.prefixed("json", json::explore_j01);
    ctx.prefixed("css", css::explore_c01);
    ctx.prefixed("css-literals", css::explore_c02);
    ctx.prefixed("css-comments", css::explore_c03);
    ctx.prefixed("js", if t { js::explore_s01 } else { js::explore_common });
    ctx.prefixed("js-comments", js::explore_s03);
    ctx.prefixed("html", |c| html::explore_pages(c, !t));
    ctx.prefixed("html-comments", html::explore_h02);
}

// --------------------------------------------------------------------------------------- G03

/// What surrounds the units of a sequence: neutral code, whose minified form is known.
fn frame(family: &str) -> (&'static str, &'static str, &'static str, &'static str) {
    match (lang(family), family.contains("-inner")) {
        ("css", false) => ("q{r:s}", "q{r:s}", "q{r:s}", "q{r:s}"),
        ("css", _) => ("@media (a) and (b) { c d { e : f } ", "@media (a) and (b){c d{e:f}", "q{r:s} } c d { e : f }", "q{r:s}}c d{e:f}"),
        ("js", false) => ("q;", "q;", "\nq;", "q;"),
        ("js", _) => ("x = { y : function ( ) { q ; ", "x={y:function(){q;", "\nq ; } } ;", "q;}};"),
        ("html", false) => ("<hr>", "<hr>", "<hr>", "<hr>"),
        ("html", _) => ("<div  class=\"a\" ><p>", "<div class=\"a\"><p>", "<hr></p></div><i>", "<hr></p></div><i>"),
        (_, false) => ("[0,", "[0,", "0]", "0]"),
        _ => ("{ \"a \" : [ 0 ,", "{\"a \":[0,", "0 ] }", "0]}"),
    }
}

fn framed(family: &str, body: &str) -> Result<String, String> {
    let (open, open_min, close, close_min) = frame(family);
    let out = minify(lang(family), &format!("{open}{body}{close}"))?;
    out.strip_prefix(open_min)
        .and_then(|o| o.strip_suffix(close_min))
        .map(String::from)
        .ok_or_else(|| format!("the code around {body:?} is not the same in {out:?}"))
}

/// In a page, two units can end and start with white space, which is the one of the whole.
fn collapse(lang: &str, s: String) -> String {
    if lang != "html" {
        return s;
    }
    s.split(' ').enumerate().filter(|(i, w)| *i == 0 || !w.is_empty()).map(|(_, w)| w).collect::<Vec<_>>().join(" ")
}

pub fn judge_g03(family: &str, parts: &[&str]) -> Result<(), String> {
    let lang = lang(family);
    let short = |s: &str| -> String {
        if s.len() > 300 {
            let a: String = s.chars().take(120).collect();
            let b: String = s.chars().skip(s.chars().count() - 120).collect();
            format!("{a}[... {} bytes]{b}", s.len())
        } else {
            s.to_owned()
        }
    };
    let differs = |want: &str, got: &str| {
        let at = want.bytes().zip(got.bytes()).take_while(|(a, b)| a == b).count();
        Err(format!("different from byte {at}: {:?} instead of {:?}", short(got), short(want)))
    };
    let count = |s: &str| s.parse::<usize>().expect("count");
    if family.contains("-units") {
        // The units one by one, then together.
        let mut want = String::new();
        for p in parts {
            want.push_str(&framed(family, p)?);
        }
        let got = collapse(lang, framed(family, &parts.concat())?);
        let want = collapse(lang, want);
        return if got == want { Ok(()) } else { differs(&want, &got) };
    }
    if family.contains("-count") {
        let n = count(parts[0]);
        let unit = parts[1..].concat();
        let want = collapse(lang, framed(family, &unit)?.repeat(n));
        let got = collapse(lang, framed(family, &unit.repeat(n))?);
        return if got == want { Ok(()) } else { differs(&want, &got) };
    }
    if family.contains("-deep") {
        // before, n, opening, inner, closing, after: nothing to remove in it.
        let n = count(parts[1]);
        let make = |n: usize| [parts[0], &parts[2].repeat(n), parts[3], &parts[4].repeat(n), parts[5]].concat();
        let (want, got) = (make(n), minify(lang, &make(n))?);
        return if got == want { Ok(()) } else { differs(&want, &got) };
    }
    if family.contains("-nested") {
        // n, opening, inner, closing.
        let n = count(parts[0]);
        let make = |n: usize| minify(lang, &format!("{}{}{}", parts[1].repeat(n), parts[2], parts[3].repeat(n)));
        let (zero, one, got) = (make(0)?, make(1)?, make(n)?);
        // The inner code, alone, may be printed another way (the last semicolon): use two depths then.
        let mut last = String::new();
        for (base, depth) in [(zero, 0), (one.clone(), 1)] {
            let outer = if depth == 0 { one.clone() } else { make(2)? };
            for (at, _) in outer.match_indices(&base) {
                let (open, close) = (&outer[..at], &outer[at + base.len()..]);
                last = format!("{}{base}{}", open.repeat(n - depth), close.repeat(n - depth));
                if last == got {
                    return Ok(());
                }
            }
        }
        return differs(&last, &got);
    }
    if family.contains("-removed") {
        // before, n, what is removed, after.
        let n = count(parts[1]);
        let want = minify(lang, &[parts[0], parts[2], parts[3]].concat())?;
        let got = minify(lang, &[parts[0], &parts[2].repeat(n), parts[3]].concat())?;
        return if got == want { Ok(()) } else { differs(&want, &got) };
    }
    // before, n, what is kept, after.
    let n = count(parts[1]);
    let one = minify(lang, &[parts[0], parts[2], parts[3]].concat())?;
    let got = minify(lang, &[parts[0], &parts[2].repeat(n), parts[3]].concat())?;
    let mut last = String::from("(the repeated text is not in the output)");
    for (at, _) in one.match_indices(parts[2]) {
        last = format!("{}{}{}", &one[..at], parts[2].repeat(n), &one[at + parts[2].len()..]);
        if last == got {
            return Ok(());
        }
    }
    differs(&last, &got)
}

struct Lang {
    units: Vec<String>,
    nests: &'static [(&'static str, &'static str, &'static str)],
    removed: &'static [(&'static str, &'static str, &'static str)],
    kept: &'static [(&'static str, &'static str, &'static str)],
    /// Nothing has to be removed from those ones: before, opening, inner, closing, after.
    deep: &'static [(&'static str, &'static str, &'static str, &'static str, &'static str)],
}

fn css_lang() -> Lang {
    let units = css::STATEMENTS
        .iter()
        .flat_map(|s| {
            let p = parse(s);
            let with = |o: &'static str, r: &'static str| {
                fill(&p, |g| match g {
                    G::Opt => o,
                    _ => r,
                })
            };
            [with("", " "), with("\n ", " /*c*/\n")]
        })
        .collect();
    Lang {
        units,
        nests: &[
            ("@media print { ", "a b { c : d }", "}\n"),
            ("@media (a) and (b) {", "a b { c : d } @x y;", "}"),
            ("a &{ b : c d ; ", "@media (a) and ( b ){ c{ d : e } }", " }"),
            ("@supports (a : b) { ", "a b , c { d : url( e ) f ; g : \"h } i\" }", "}"),
            ("@layer x { q r { s : t u } ", ".a .b { c : calc( 1px + 2px ) d }", "} /* e */ "),
            (".p{", "", "}"),
        ],
        removed: &[
            ("a", " ", "b { c : d }"),
            ("a {", "\n", "c : d }"),
            ("a { c : d", "\t", ";}"),
            ("a > ", "/* x */", " b { c : d }"),
            ("", "/*}*/", "@media (a) and (b) { c d { e : f } }"),
            ("@media print", "\r\n", "{ a b { c : d } }"),
            ("a { b : c", "/*\u{e9}*/ ", "d }"),
            ("a { b : calc( 1px", " ", "+ 2px ) d }"),
            ("@media (a)", " ", "and (b) { c { d : e } }"),
            ("a { b : c }", " \n", "/*! l */ d e { f : g h }"),
            ("a { b : url(x)", " ", "c }"),
            ("a { b : \"x\"", "\n", "\"y\" }"),
        ],
        kept: &[
            (".", "a", " .y { c : d }"),
            ("a b { ", "c", " : d e }"),
            ("a b { c : ", "d", " e }"),
            ("a b { c : \"", "x ", "\" d ; }"),
            ("a b { c : '", "\\'", "' d ; }"),
            ("a b { c : url( ", "x/", " ) d ; }"),
            ("/*!", " x", "*/ a b { c : d }"),
            ("a b { c : 1", "0", "px + 2 }"),
            ("@media (", "w", ") and (b) { c d { e : f } }"),
            ("a b { c : #", "f", " d }"),
            ("a b { --", "\u{e9}", " : d e }"),
            ("a .", "\\e9 ", " b { d : e }"),
            ("a:", "v", " b[x='y']{ d : e }"),
        ],
        deep: &[
            ("a{b:calc(", "(", "1px + 2px", ")", " - 2px);c:d e}"),
            ("a{b:calc(", "calc(", "1px + 2px", ")", ");c:d e}"),
            ("a{b:calc(", "min(", "1px + 2px", ",3px)", " + 2px);c:d e}"),
            ("a{b:", "f(", "1px,g(2px) h", ")", " i}"),
            ("a{b:", "(", "c d", ")", " e}"),
            ("", "a:not(", "b c,.d", ")", " e{f:g h}"),
            ("@media ", "(not ", "(a)", ")", "{b c{d:e f}}"),
            ("a{--b:", "{", "c d", "}", ";f:g h}"),
            ("@media (a){", "b c{", "d:e f", "}", "}"),
        ],
    }
}

fn js_lang() -> Lang {
    let skip = |s: &[String]| {
        let f = s[0].as_str();
        // A regular expression after a brace; statements whose beginning depends on what is before.
        f.starts_with('/') || !js::ends_explicitly(s)
    };
    let units = js::all_statements()
        .into_iter()
        .filter(|s| !skip(s))
        .flat_map(|s| {
            let mut spread = String::new();
            for (i, t) in s.iter().enumerate() {
                spread.push_str(t);
                spread.push_str(match s.get(i + 1) {
                    Some(n) if crate::jslex::restricted(t, n) => " /*c*/ ",
                    _ => "\n//c\n ",
                });
            }
            [s.join(" ") + "\n", spread + "\n"]
        })
        .collect();
    Lang {
        units,
        nests: &[
            ("if ( a ) { ", "b ( ) ;", " }"),
            ("function f ( ) { x ; ", "return / / . a ;", "}\n"),
            ("{ ", "a = \" { \" ;", "}"),
            ("a ( ", "b / c / d", " )"),
            ("[ 1 , ", "/ / / b", " ]"),
            ("( ", "\" \" in b", " ) in c"),
            ("x = { y : ", "function ( ) { }", "}"),
            ("a ? ", "b - - c", " : d / 2"),
            ("for ( ; ; ) { ", "const a = ` ${ b } ` ;", " }"),
            ("while ( a / b ) { ", "/* c */", "}"),
            ("! ", "typeof a", ""),
            ("- ", "- a", ""),
        ],
        removed: &[
            ("a =", " ", "b / c / d ;"),
            ("a = b /", "\n", "c / d ;"),
            ("var", "\t", "a = / / ;"),
            ("return", " ", "a ;"),
            ("typeof", "/*c*/", " a ;"),
            ("x ( ) ; ", "/* ' */", "y ( ) ;"),
            ("x ( ) ;\n", "// \"\n", "y ( ) ;"),
            ("a -", " ", "- b ;"),
            ("a", "\r\n", ";b = / ' /;"),
            ("x = function ( ) {", " /*}*/", "a ; } ;"),
            ("a = \"x\"", " ", "in b ;"),
            ("a = `x`", " \n", "/ b / c ;"),
            ("", "// c\n", "'use strict' ;"),
            ("a = 1", " ", "in b ;"),
        ],
        kept: &[
            ("x", "a", " = b / c / d ;"),
            ("y = \"", "e ", "\" in b / c / d ;"),
            ("y = '", "\\'", "' in b / c / d ;"),
            ("y = `", " x", "` / b / c ;"),
            ("y = `", "${ a }", "` / b / c ;"),
            ("y = /", "[/] ", "/ / b / c ;"),
            ("y = /", "\\/", "/ / b / c ;"),
            ("y = 1", "0", " / b / c ;"),
            ("y = 1.", "5", " / b / c ;"),
            ("y = 0x", "F", " / b / c ;"),
            ("/*!", " l", "*/ a / b / c ;"),
            ("y = $", "\u{e9}", " / b / c ;"),
            ("y = [", ",", "] / b / c ;"),
            ("y =", "!", "a / b / c ;"),
            ("y = a", "[0]", "/ b / c ;"),
            ("y = a", ".in", " / b / c ;"),
            ("y = a", "()", " / b / c ;"),
        ],
        deep: &[
            ("x=`${", "{ a : ", "1", " }", "  ` + `  }`;y;"),
            ("x=`${", "( ", "1", " )", "  }`;y;"),
            ("x=`a ${", "f({ }, { ", "b  c", " })", "}  `;y;"),
            ("x=`", "a ${ `", "  b  c  ", "` } ", "`;y;"),
            ("x=/", "(", "a  b", ")", "/g;y;"),
            ("x=", "(", "a/b", ")", "/c/d;y;"),
            ("x=", "[", "a", "]", "/c/d;y;"),
            ("x=", "{y:", "a", "}", ";z=/ /;"),
            ("", "(function(){", "return/ /", "})();", "y=/ /;"),
            ("x=", "a[", "b", "]", "/c/d;y;"),
        ],
    }
}

fn json_lang() -> Lang {
    let units = [
        "1 , ", "\"a b\" , ", "\n\"\\\"\" ,", "\"\\\\\" , ", "{ \"k \" : \" v\" } ,\n", "[ ] , ", "[ 1 , [ \" \" ] ] , ", "true ,\t", "null,", "-1.5e+3 , ", "\"\u{e9}\u{1f600} \\u00e9\" , ", "{ } , ", "\"{ : \" , ", "\"\\u005c\" , ", "\"\u{7f} \u{a0}\" ,\r\n",
        "\"\\\\\\\" \" , ",
    ];
    Lang {
        units: units.iter().map(|s| s.to_string()).collect(),
        nests: &[("[ ", "\" \"", " ]"), ("{ \"a \" : ", "[ \"\\\\\" , 1 ]", "} "), ("[ 1 , { \"\\\" \" :\n", "0", "} , \" \" ]"), ("[", "", "]")],
        removed: &[("[ 1 ,", " ", "\" \" ]"), ("", "\n", "[ \" \" ]"), ("{ \"a\"", "\r\n\t", ": \" \" }"), ("[ \" \" ]", " ", "")],
        kept: &[("[ \"", "a ", "\" , 1 ]"), ("[ \"", "\\\"", "\" , \" \" ]"), ("[ \"", "\\\\", "\" , \" \" ]"), ("[ 1", "0", " , \" \" ]"), ("[ \"", "\u{e9}", " \" , 1 ]"), ("[ \"", "\u{1f600} ", "\" , 1 ]"), ("[ \"", "\\u00e9", "\" , \" \" ]")],
        deep: &[("", "[", "\" \"", "]", ""), ("[\" \",", "{\"\\\\\":", "\" \"", "}", ",\" \"]")],
    }
}

fn html_lang() -> Lang {
    let units = [
        "<p>a b</p>", "<p>\n a  b\n</p>\n", "<br>", "<br/> ", "text ", "<b>x</b> ", "<!-- c -->", "<!--\n<p>\n-->\n", "<!--[if IE]> <p> x </p> <![endif]-->", "<img src=\"a b.png\" width=\"10\" height=\"20\">", "<a  href=\"x\"\n class=\"y\" >z</a>\n", "<ul>\n<li>a</li>\n<li>b</li>\n</ul>",
        "<script type=\"text/javascript\" src=\"a.js\"></script>", "<style type=\"text/css\">a { b : c }</style> ", "<table><tbody><tr><td>1</td></tr></tbody></table>", "<input disabled value='x'>", "&amp; ", "<h1 title=\"a 'b' c\">\u{e9}\u{1f600} \u{130}</h1>\n", "<div\n  id=a\n>\n</div>", "<svg:x y-z=\"1\"/>",
    ];
    Lang {
        units: units.iter().map(|s| s.to_string()).collect(),
        nests: &[("<div>", "a  b", "</div>"), ("<p class=\"a\" >\n", "<b>x</b>", "\n</p>"), ("<ul><li>a <!-- c -->", "<br>", "</li></ul>"), ("<div  id=\"x\">", "", "</div>\n")],
        removed: &[("<p>", "  ", "a</p>"), ("<p>a</p>", "\n\n", "<p>b</p>"), ("<p>", "<!-- c -->", "a</p>"), ("<p ", " \n", "class=\"x\">a</p>"), ("<p class=\"x\"", " \t", ">a</p>"), ("<p>", "</li>", "a</p>"), ("<p>a", " \n", "b</p>"), ("<p>a</p>", "</td></tr>", "<b>c</b>")],
        kept: &[("<", "x", ">a</p>"), ("<p a=\"", "b", "\">c</p>"), ("<p>", "w", "<b>x</b></p>"), ("<p>", "<br>", "x</p>"), ("<p>", "w ", "x</p>"), ("<p", " a=\"b\"", ">x</p>"), ("<p>", "<!--[a]-->", "x</p>"), ("<p>", "\u{e9}", "x</p>")],
        deep: &[("<p>", "<b>", "a <i>b</i>", "</b>", " c</p>"), ("", "<div class=\"a b\">", "<br>", "</div>", "<p>a</p>")],
    }
}

pub fn explore_g03(ctx: &Ctx) {
    let t = ctx.thorough();
    type F = [&'static str; 8];
    let langs: [(&str, Lang, F); 5] = [
        ("css", css_lang(), ["css-units", "css-count", "css-nested", "css-removed", "css-kept", "css-units-inner", "css-count-inner", "css-deep"]),
        ("js", js_lang(), ["js-units", "js-count", "js-nested", "js-removed", "js-kept", "js-units-inner", "js-count-inner", "js-deep"]),
        ("json", json_lang(), ["json-units", "json-count", "json-nested", "json-removed", "json-kept", "json-units-inner", "json-count-inner", "json-deep"]),
        ("stream", json_lang(), ["stream-units", "stream-count", "stream-nested", "stream-removed", "stream-kept", "stream-units-inner", "stream-count-inner", "stream-deep"]),
        ("html", html_lang(), ["html-units", "html-count", "html-nested", "html-removed", "html-kept", "html-units-inner", "html-count-inner", "html-deep"]),
    ];
    for (name, l, f) in &langs {
        let html = *name == "html";
        let small = matches!(*name, "json" | "stream");
        let u: Vec<&str> = l.units.iter().map(|s| s.as_str()).collect();
        let max = match (small, html, t) {
            (true, _, true) => 5,
            (true, _, false) => 4,
            (_, true, false) => 2,
            _ if *name == "css" => 3,
            (_, _, true) => 3,
            _ => 2,
        };
        for family in [f[0], f[5]] {
            for len in 1..=max {
                ctx.sequences(family, u.len(), len, |d, e| e.case(&pick(&u, d)));
            }
        }
        if max < 4 {
            // More of them, and less units.
            let few: Vec<&str> = u.iter().copied().step_by(if html { 3 } else { 2 }).collect();
            ctx.sequences(f[0], few.len(), 3, |d, e| e.case(&pick(&few, d)));
            let few: Vec<&str> = u.iter().copied().step_by(if html && t { 2 } else { 5 }).collect();
            ctx.sequences(f[5], few.len(), 4, |d, e| e.case(&pick(&few, d)));
        }
        let n = if html { sizes(if t { 70 } else { 40 }, if t { 2050 } else { 260 }) } else { sizes(if t { 600 } else { 260 }, if t { 9000 } else { 2050 }) };
        for family in [f[1], f[6]] {
            ctx.product(family, &[n.len(), u.len()], |d, e| e.case(&[&n[d[0]].to_string(), u[d[1]]]));
        }
        // Two units many times.
        let counts: &[usize] = &[3, 10, 64, 257];
        let step = if html { 5 } else if small { 1 } else { 9 };
        ctx.product(f[1], &[counts.len(), u.len(), u.len()], |d, e| {
            if (d[1] + d[2] * 3) % step == 0 {
                e.case(&[&counts[d[0]].to_string(), u[d[1]], u[d[2]]]);
            }
        });
        let depth: Vec<usize> = n.iter().copied().filter(|x| *x >= 2).collect();
        ctx.product(f[2], &[depth.len(), l.nests.len()], |d, e| {
            let (a, b, c) = l.nests[d[1]];
            e.case(&[&depth[d[0]].to_string(), a, b, c]);
        });
        ctx.product(f[7], &[depth.len() + 2, l.deep.len()], |d, e| {
            let (a, b, i, c, z) = l.deep[d[1]];
            let n = d[0].checked_sub(2).map_or(d[0], |i| depth[i]);
            // The documented limit of nested templates.
            if n < 1000 || !b.contains('`') {
                e.case(&[a, &n.to_string(), b, i, c, z]);
            }
        });
        let n = if html { n } else { sizes(if t { 5000 } else { 1100 }, if t { 300_000 } else { 70_000 }) };
        let n: Vec<usize> = n.into_iter().filter(|x| *x >= 1).collect();
        for (family, list) in [(f[3], l.removed), (f[4], l.kept)] {
            ctx.product(family, &[n.len(), list.len()], |d, e| {
                let (a, b, c) = list[d[1]];
                e.case(&[a, &n[d[0]].to_string(), b, c]);
            });
        }
    }
}
