//! S07: the helpers which work on lists of tokens. The parts of a case alternate gaps and tokens
//! for the families "decl*" and "script*"; they are just the source for the other ones.

use crate::engine::*;
use crate::js::*;
use crate::jslex::*;
use minifier::js::{self, Condition, Keyword, Operation, ReservedChar, Token, Tokens};

type F = fn(&Token<'_>) -> bool;

fn is_char(t: &Token<'_>, c: ReservedChar) -> bool {
    matches!(t, Token::Char(x) if *x == c)
}
fn is_white(t: &Token<'_>) -> bool {
    matches!(t, Token::Char(ReservedChar::Space | ReservedChar::Tab | ReservedChar::Backline))
}
fn is_comment(t: &Token<'_>) -> bool {
    matches!(t, Token::Comment(_))
}

const CALLBACKS: &[(&str, F)] = &[
    ("drop everything", |_| true),
    ("drop nothing", |_| false),
    ("keep backlines", |t| !is_char(t, ReservedChar::Backline)),
    ("keep semicolons", |t| !is_char(t, ReservedChar::SemiColon)),
    ("keep backlines and semicolons", |t| !is_char(t, ReservedChar::Backline) && !is_char(t, ReservedChar::SemiColon)),
    ("keep spaces", |t| !is_char(t, ReservedChar::Space)),
    ("keep tabs", |t| !is_char(t, ReservedChar::Tab)),
    ("keep comments", |t| !is_comment(t)),
    ("drop comments", is_comment),
    ("drop white characters", is_white),
    ("drop semicolons", |t| is_char(t, ReservedChar::SemiColon)),
    ("keep some comments", |t| !matches!(t, Token::Comment(s) if s.contains('k'))),
];

const REPLACE: &[fn(&Token<'_>) -> Option<Token<'static>>] = &[
    |_| None,
    |_| Some(Token::Other("x")),
    |t| matches!(t, Token::Keyword(Keyword::Null | Keyword::Return)).then_some(Token::Other("N")),
    |t| matches!(t, Token::String(_)).then_some(Token::String("\"S\"")),
    |t| matches!(t, Token::Other("a" | "b")).then_some(Token::CreatedVar("zz".into())),
    |t| is_char(t, ReservedChar::SemiColon).then_some(Token::Char(ReservedChar::Backline)),
    |t| is_comment(t).then_some(Token::License("l")),
    |t| matches!(t, Token::Operation(Operation::Equal)).then_some(Token::Condition(Condition::EqualTo)),
    |t| is_white(t).then_some(Token::Comment("c")),
    |t| matches!(t, Token::Number(_)).then_some(Token::Number(7)),
];

/// `out` is `input` without some of the comments, white characters and semicolons accepted by `f`.
fn check_except(input: &[Token<'_>], out: &[Token<'_>], what: &str, f: F) -> Result<(), String> {
    let bad = |i: usize, o: usize| Err(format!("{what}: {:?} of the input, {:?} of the output: {input:?} became {out:?}", input.get(i), out.get(o)));
    let (mut i, mut o) = (0, 0);
    let mut dropped = false;
    loop {
        let kept = |t: &Token<'_>| !((is_comment(t) || is_white(t)) && f(t));
        match (input.get(i), out.get(o)) {
            (None, None) => return Ok(()),
            // What is always dropped.
            (Some(t), _) if !kept(t) => {
                dropped = true;
                i += 1;
            }
            (Some(t), Some(u)) if t == u => {
                // A semicolon which isn't needed may have been dropped, and the next one kept: it is the same.
                dropped = false;
                i += 1;
                o += 1;
            }
            (Some(t), u) if is_char(t, ReservedChar::SemiColon) && f(t) => {
                let last = input[i + 1..].iter().find(|t| kept(t)).is_none_or(|n| is_char(n, ReservedChar::CloseCurlyBrace));
                // Only where it is useless.
                if o != 0 && !last {
                    return bad(i, o);
                }
                let _ = u;
                dropped = true;
                i += 1;
            }
            // A space which separates two tokens.
            (Some(_), Some(u)) if dropped && o > 0 && is_char(u, ReservedChar::Space) => {
                dropped = false;
                o += 1;
            }
            _ => return bad(i, o),
        }
    }
}

/// A word, a number or a punctuator needs the same separation as before.
fn check_print(parts: &[&str], tokens: &Tokens<'_>, lines: bool) -> Result<(), String> {
    let toks = tokens_of(parts);
    let out = tokens.to_string();
    let src = parts.concat();
    let before = gaps(&src, toks.iter().copied())?;
    let after = gaps(&out, toks.iter().copied()).map_err(|e| format!("{e}: {out:?}"))?;
    for (i, (b, a)) in before.iter().zip(&after).enumerate() {
        if a.comments != 0 {
            return Err(format!("a comment was kept: {out:?}"));
        }
        if b.licenses != a.licenses {
            return Err(format!("licenses {:?} became {:?}: {out:?}", b.licenses, a.licenses));
        }
        let breaks = |s: &str| s.contains(['\n', '\r', '\u{2028}', '\u{2029}']);
        if lines && breaks(&b.white) && !breaks(&a.white) && !a.newline {
            return Err(format!("the line break {i} was lost: {out:?}"));
        }
    }
    Ok(())
}

fn source(s: &str) -> Result<(), String> {
    let tokens = match (js::simple_minify(s), js::minify(s), js::tokenize(s)) {
        (Err(a), Err(b), Err(c)) if a == b && b == c => return Ok(()),
        (Ok(t), Ok(m), Ok(t2)) => {
            if t != t2 {
                return Err("tokenize and simple_minify disagree".into());
            }
            let (a, b) = (m.to_string(), js::clean_tokens(t).to_string());
            if a != b {
                return Err(format!("minify gives {a:?}, clean_tokens {b:?}"));
            }
            t2
        }
        _ => return Err("tokenize, simple_minify and minify disagree about the validity".into()),
    };
    let list = || Tokens(tokens.0.clone());
    for (what, f) in CALLBACKS {
        let out = js::clean_tokens_except(list(), f);
        check_except(&tokens.0, &out.0, what, *f)?;
        for (i, t) in tokens.iter().enumerate() {
            let next = tokens.get(i + 1);
            let useless = is_comment(t) || is_white(t) || is_char(t, ReservedChar::SemiColon) && next.is_some_and(|n| is_char(n, ReservedChar::CloseCurlyBrace));
            if js::clean_token(t, &next) == useless {
                return Err(format!("clean_token is wrong for {t:?} before {next:?}"));
            }
            if js::clean_token_except(t, &next, f) == (useless && f(t)) {
                return Err(format!("{what}: clean_token_except is wrong for {t:?} before {next:?}"));
            }
        }
    }
    for (n, f) in REPLACE.iter().enumerate() {
        let want: Vec<Token<'_>> = tokens.iter().map(|t| f(t).unwrap_or_else(|| t.clone())).collect();
        let got = js::replace_tokens_with(list(), f);
        if got.0 != want {
            return Err(format!("replace_tokens_with, callback {n}: {:?} instead of {want:?}", got.0));
        }
        for (t, w) in tokens.iter().zip(&want) {
            if js::replace_token_with(t.clone(), f) != *w {
                return Err(format!("replace_token_with, callback {n}, on {t:?}"));
            }
        }
    }
    Ok(())
}

/// `var NAME = VALUE , NAME , ... ;` statements whose names and values are all different.
fn declarations(parts: &[&str]) -> Result<(), String> {
    let src = parts.concat();
    let toks = tokens_of(parts);
    let all = js::simple_minify(&src)?;
    let cleaned = js::clean_tokens(js::simple_minify(&src)?);
    for list in [&all, &cleaned] {
        let position = |s: &str| {
            let mut it = list.iter().enumerate().filter(|(_, t)| t.to_string() == s);
            match (it.next(), it.next()) {
                (Some((p, _)), None) => Ok(p),
                _ => Err(format!("{s:?} should be exactly one token: {list:?}")),
            }
        };
        let mut i = 0;
        let mut keyword = 0;
        while i < toks.len() {
            let first = matches!(toks[i], "var" | "let");
            if !first && toks[i] != "," {
                i += 1;
                continue;
            }
            let (name, value) = (toks[i + 1], (toks[i + 2] == "=").then(|| toks[i + 3]));
            let want = Some((position(name)?, value.map(position).transpose()?));
            let mut ask = vec![want.unwrap().0];
            if first {
                let mut it = list.iter().enumerate().filter(|(_, t)| matches!(t, Token::Keyword(Keyword::Var | Keyword::Let)));
                ask.push(it.nth(keyword).ok_or("a keyword is missing")?.0);
                keyword += 1;
            }
            for pos in ask {
                let got = js::get_variable_name_and_value_positions(list, pos);
                if got != want {
                    return Err(format!("get_variable_name_and_value_positions({pos}) is {got:?} instead of {want:?}: {list:?}"));
                }
            }
            i += 2;
        }
        for pos in [list.len(), list.len() + 1, usize::MAX] {
            if js::get_variable_name_and_value_positions(list, pos).is_some() {
                return Err("a position after the end has a variable".into());
            }
        }
    }
    Ok(())
}

pub fn judge_s07(family: &str, parts: &[&str]) -> Result<(), String> {
    source(&parts.concat())?;
    if family.starts_with("decl") {
        declarations(parts)?;
    }
    if family.starts_with("script") || family.starts_with("decl") {
        let src = parts.concat();
        let keep = js::clean_tokens_except(js::simple_minify(&src)?, CALLBACKS[4].1);
        check_print(parts, &keep, true)?;
        let keep = js::clean_tokens_except(js::simple_minify(&src)?, CALLBACKS[3].1);
        if tokens_of(parts).first() != Some(&";") {
            check_print(parts, &keep, false)?;
        }
        let keep = js::clean_tokens_except(js::simple_minify(&src)?, CALLBACKS[8].1);
        check_print(parts, &keep, true)?;
    }
    Ok(())
}

pub fn explore_s07(ctx: &Ctx) {
    let t = ctx.thorough();
    // 1. Every sequence of fragments, well formed or not.
    let frags: &[&str] = &[";", "}", "{", "\n", " ", "\t", "/*k*/", "//c\n", "/*!l*/", "a", "1", ".", "+", "var ", "\"s\"", "=", "/", "null", ",", "1.5", "'", "(", ")", "`", "*/", "\r", "-", "if", "<", "!", "#!", "\u{e9}", "^"];
    for len in 1..=if t { 5 } else { 4 } {
        ctx.sequences("fragments", frags.len(), len, |d, e| {
            let p: Vec<&str> = d.iter().map(|i| frags[*i]).collect();
            e.case(&p);
        });
    }
    let few: &[&str] = &[";", "}", "\n", " ", "/*k*/", "a", "1", ".", "+", "/*!l*/"];
    for len in 5..=if t { 7 } else { 6 } {
        ctx.sequences("few-fragments", few.len(), len, |d, e| {
            let p: Vec<&str> = d.iter().map(|i| few[*i]).collect();
            e.case(&p);
        });
    }
    // 2. Every statement, every pair of statements.
    const A: Alts = Alts {
        any: &[" ", "\n", "\t", "/*k*/", "//c\n", "/*!L*/", "\r\n", " /*\n*/ ", "\u{2028}"],
        line: &[" ", "/*k*/"],
        all: &[" ", "\n", "/*c*/", "//c\n"],
    };
    let all = all_statements();
    let n = all.len();
    ctx.list("script-statements", &all, |s, e| emit(e, &refs(s), if t { 2 } else { 1 }, &A));
    ctx.product("script-pairs", &[n, n], |d, e| {
        let mut v = refs(&all[d[0]]);
        v.extend(refs(&all[d[1]]));
        emit(e, &v, usize::from(t), &A);
    });
    // 3. Declarations.
    let values: &[&str] = &["", "1", "2.5", "\"s\"", "'t'", "v", "/r·e/g", "`u`", ".5", "1e9", "\u{e9}w"];
    let names = ["a", "$b", "\u{e9}", "_d", "r_aa"];
    let other: &[&str] = &["", "f ( ) ;", "x . y ;", "z = { } ;", "return ;", "if ( w ) { }"];
    for len in 1..=if t { 4 } else { 3 } {
        let mut dims = vec![2, other.len(), if len > 1 { other.len() } else { 1 }, if len > 1 { 2 } else { 1 }];
        dims.extend(vec![values.len(); len]);
        ctx.product("declarations", &dims, |d, e| {
            if len > 2 && !t && (d[1] + d[2]) % 5 != 0 {
                return;
            }
            let mut v: Vec<String> = Vec::new();
            let words = |s: &str| s.split(' ').filter(|w| !w.is_empty()).map(|w| w.replace('·', " ")).collect::<Vec<_>>();
            v.extend(words(other[d[1]]).into_iter().filter(|w| w != ","));
            v.push(["var", "let"][d[0]].into());
            for (i, x) in d[4..].iter().enumerate() {
                if i > 0 {
                    // The same declaration, or another one.
                    if d[3] == 1 {
                        v.extend([";", ["let", "var"][d[0]]].map(String::from));
                    } else {
                        v.push(",".into());
                    }
                }
                v.push(names[i].into());
                if !values[*x].is_empty() {
                    v.push("=".into());
                    // All different.
                    let val = values[*x].replace('·', " ");
                    v.push(match (i, *x) {
                        (0, _) => val,
                        (_, 1) => format!("1{i}"),
                        (_, 2) => format!("{i}2.5"),
                        (_, 8) => format!(".5{i}"),
                        (_, 9) => format!("{i}1e9"),
                        (_, 3 | 4 | 7) => format!("{}{i}{}", &val[..2], &val[2..]),
                        (_, 6) => format!("/r{i}/g"),
                        _ => format!("{val}{i}"),
                    });
                }
            }
            v.push(";".into());
            v.extend(words(other[d[2]]));
            let r: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
            emit(e, &r, [2, 1, 0, 0][len - 1], &A);
        });
    }
    // 4. Every character.
    ctx.run("every-character", 0x110000, |i, e| {
        let Some(c) = char::from_u32(i as u32) else { return };
        e.state();
        e.case(&[&format!("a{c}b; }} {c} /*k{c}*/ \"{c}\" ;{c}}}")]);
    });
}
