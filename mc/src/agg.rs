//! S05, S06: aggregation of the strings of a script. The parts of a case alternate gaps and tokens,
//! like those of S01. For S06, the first part also holds the name of the array: `NAME\n` + gap.

use crate::engine::*;
use crate::js::*;
use crate::jslex::*;
use crate::sizes::*;
use minifier::js::{self, ReservedChar, Token, Tokens};
use std::cell::Cell;

fn is_string(t: &str) -> bool {
    t.starts_with(['"', '\''])
}

/// The length of the string literal which starts `s`.
fn string_len(s: &str) -> Option<usize> {
    let q = s.chars().next().filter(|c| matches!(c, '"' | '\''))?;
    let mut it = s.char_indices().skip(1);
    while let Some((i, c)) = it.next() {
        match c {
            '\\' => {
                if let Some((i, '\r')) = it.next() {
                    if s[i + 1..].starts_with('\n') {
                        it.next();
                    }
                }
            }
            '\n' | '\r' => return None,
            c if c == q => return Some(i + 1),
            _ => {}
        }
    }
    None
}

fn name_len(s: &str) -> usize {
    if !s.starts_with(ident_start) {
        return 0;
    }
    s.find(|c| !ident_part(c)).unwrap_or(s.len())
}

/// Is the name an identifier of the script?
fn used(toks: &[&str], name: &str) -> bool {
    toks.iter().any(|t| {
        *t == name
            || t.starts_with('`')
                && t.find("${").is_some_and(|from| {
                    let to = t.rfind('}').unwrap_or(t.len());
                    from < to && t[from..to].split(|c| !ident_part(c)).any(|w| w == name)
                })
    })
}

/// Reads the tokens `toks` of `out` from `at`; `sub` tells what can stand for a string.
fn walk(out: &str, mut at: usize, toks: &[&str], sub: &mut dyn FnMut(usize, &str, &str) -> Option<usize>) -> Result<usize, String> {
    for (i, t) in toks.iter().enumerate() {
        let p = if kind(t) == K::Hashbang { at } else { gap_at(out, at)?.1 };
        at = p + match token_at(&out[p..], t) {
            Ok(n) => n,
            Err(e) => match if is_string(t) { sub(i, t, &out[p..]) } else { None } {
                Some(n) => n,
                None => return Err(format!("{e}: {out:?}")),
            },
        };
    }
    Ok(at)
}

fn end(out: &str, at: usize) -> Result<(), String> {
    match gap_at(out, at)? {
        (_, n) if n == out.len() => Ok(()),
        (_, n) => Err(format!("end of the source expected at {:?}: {out:?}", out[n..].chars().take(20).collect::<String>())),
    }
}

fn decls<'a>(out: &'a str, toks: &[&str], mut at: usize) -> Result<(Vec<(&'a str, &'a str)>, usize), String> {
    let start = at;
    let mut v: Vec<(&str, &str)> = Vec::new();
    let bad = |at: usize| Err(format!("bad declaration at {:?}: {out:?}", out[at..].chars().take(20).collect::<String>()));
    at = gap_at(out, at)?.1;
    if token_at(&out[at..], "var").is_err() {
        return Ok((v, start));
    }
    at += 3;
    loop {
        at = gap_at(out, at)?.1;
        let n = name_len(&out[at..]);
        let name = &out[at..at + n];
        if v.is_empty() && (n == 0 || used(toks, name)) {
            // Not ours.
            return Ok((v, start));
        }
        if n == 0 {
            return bad(at);
        }
        if used(toks, name) {
            return Err(format!("the name {name:?} is used by the script: {out:?}"));
        }
        at = gap_at(out, at + n)?.1;
        if token_at(&out[at..], "=").is_err() {
            return bad(at);
        }
        at = gap_at(out, at + 1)?.1;
        let Some(n) = string_len(&out[at..]) else { return bad(at) };
        let lit = &out[at..at + n];
        v.push((name, lit));
        at = gap_at(out, at + n)?.1;
        match out[at..].chars().next() {
            Some(',') => at += 1,
            Some(';') => break,
            _ => return bad(at),
        }
    }
    let mut names: Vec<_> = v.iter().map(|d| d.0).collect();
    let mut lits: Vec<_> = v.iter().map(|d| d.1).collect();
    names.sort_unstable();
    lits.sort_unstable();
    if names.windows(2).any(|w| w[0] == w[1]) {
        return Err(format!("a name is declared twice: {out:?}"));
    }
    if lits.windows(2).any(|w| w[0] == w[1]) {
        return Err(format!("a string is declared twice: {out:?}"));
    }
    Ok((v, at + 1))
}

fn split_hashbang<'p, 't>(toks: &'p [&'t str]) -> (&'p [&'t str], &'p [&'t str]) {
    let n = usize::from(toks.first().is_some_and(|t| kind(t) == K::Hashbang));
    toks.split_at(n)
}

/// Tries all the numbers of leading `;` which can be set aside.
fn rest(toks: &[&str], mut f: impl FnMut(&[&str]) -> Result<(), String>) -> Result<(), String> {
    let lead = toks.iter().take_while(|t| **t == ";").count();
    let mut last = Ok(());
    for skip in (0..=lead).rev() {
        last = f(&toks[skip..]);
        if last.is_ok() {
            break;
        }
    }
    last
}

/// A variable of the script which was given this string by a declaration.
fn declared_before(toks: &[&str], i: usize, name: &str, lit: &str) -> bool {
    (1..i.saturating_sub(2)).any(|j| {
        toks[j] == name
            && matches!(toks[j - 1], "var" | "let" | "const" | ",")
            && toks[j + 1] == "="
            && toks[j + 2] == lit
            && toks.get(j + 3).is_none_or(|t| matches!(*t, "," | ";"))
    })
}

fn check_s05(toks: &[&str], out: &str, sep: &str) -> Result<(), String> {
    let (bang, toks) = split_hashbang(toks);
    let at = walk(out, 0, bang, &mut |_, _, _| None)?;
    let (v, at) = decls(out, toks, at)?;
    if !v.is_empty() && !out[at..].starts_with(sep) {
        return Err(format!("no separator after the declarations: {out:?}"));
    }
    let map: std::collections::HashMap<&str, &str> = v.iter().copied().collect();
    rest(toks, |toks| {
        let at = walk(out, at, toks, &mut |i, t, s| {
            let n = name_len(s);
            let name = &s[..n];
            (map.get(name) == Some(&t) || n > 0 && declared_before(toks, i, name, t)).then_some(n)
        })?;
        end(out, at)
    })
}

pub fn judge_s05(_family: &str, parts: &[&str]) -> Result<(), String> {
    let src = parts.concat();
    let toks = tokens_of(parts);
    let tok = || js::simple_minify(&src).map_err(|e| e.to_string());
    let line = Token::Char(ReservedChar::Backline);
    check_s05(&toks, &js::clean_tokens(js::aggregate_strings(tok()?)).to_string(), "")?;
    check_s05(&toks, &js::aggregate_strings(js::clean_tokens(tok()?)).to_string(), "")?;
    check_s05(&toks, &js::clean_tokens(js::aggregate_strings_with_separation(tok()?, line.clone())).to_string(), "")?;
    check_s05(&toks, &js::aggregate_strings_with_separation(js::clean_tokens(tok()?), line).to_string(), "\n")?;
    check_s05(&toks, &js::aggregate_strings_with_separation(js::clean_tokens(tok()?), Token::License("-")).to_string(), "/*!-*/")
}

// --------------------------------------------------------------------------------------- S06

#[derive(Clone, Copy, PartialEq)]
enum Filter {
    All,
    /// Refuses the strings which contain this word.
    Content,
    /// Refuses the strings which follow an opening bracket.
    Position,
    Nothing,
}

fn accepts(f: Filter, toks: &[&str], i: usize) -> bool {
    match f {
        Filter::All => true,
        Filter::Content => !toks[i].contains("keep"),
        Filter::Position => i == 0 || toks[i - 1] != "[",
        Filter::Nothing => false,
    }
}

fn slots<'a>(v: &[&'a str]) -> Vec<Option<&'a str>> {
    let mut r = Vec::new();
    let mut cur = None;
    for t in v {
        if *t == "," {
            r.push(cur.take());
        } else {
            cur = Some(*t);
        }
    }
    if cur.is_some() {
        r.push(cur);
    }
    r
}

/// The content of the array whose bracket has just been read, and where it ends.
fn elements(out: &str, mut at: usize) -> Result<(Vec<&str>, usize), String> {
    let mut v: Vec<&str> = Vec::new();
    loop {
        at = gap_at(out, at)?.1;
        let s = &out[at..];
        let n = match s.chars().next() {
            Some(']') => return Ok((v, at + 1)),
            Some(',') => 1,
            Some('`') if !v.last().is_some_and(|l| *l != ",") => 1 + s[1..].find('`').ok_or("unclosed template")? + 1,
            Some('"' | '\'') if !v.last().is_some_and(|l| *l != ",") => string_len(s).ok_or_else(|| format!("bad string in the array: {out:?}"))?,
            _ => return Err(format!("bad array at {:?}: {out:?}", s.chars().take(20).collect::<String>())),
        };
        v.push(&s[..n]);
        at += n;
    }
}

fn check_s06(name: &str, toks: &[&str], out: &str, sep: &str, filter: Filter) -> Result<(), String> {
    // An existing array.
    let decl = toks.windows(4).position(|w| matches!(w[0], "var" | "let" | "const") && w[1] == name && w[2] == "=" && w[3] == "[");
    let (array, first, mut at): (Vec<Option<&str>>, usize, usize);
    if let Some(d) = decl {
        let close = d + 4 + toks[d + 4..].iter().position(|t| *t == "]").expect("a closed array");
        let inner = &toks[d + 4..close];
        if inner.iter().all(|t| *t == "," || kind(t) == K::Str) {
            return rest(toks, |rest| {
                let skip = toks.len() - rest.len();
                if skip > d {
                    return Err("the declaration cannot be dropped".into());
                }
                let at = walk(out, 0, &toks[skip..d + 4], &mut |_, _, _| None)?;
                let (got, at) = elements(out, at)?;
                let (before, after) = (slots(inner), slots(&got));
                if !after.starts_with(&before) || after[before.len()..].iter().any(|s| s.is_none()) {
                    return Err(format!("the array {before:?} became {after:?}: {out:?}"));
                }
                finish(name, toks, close + 1, out, at, &after, filter)
            });
        }
        // It cannot be extended: nothing changes.
        return rest(toks, |toks| {
            let at = walk(out, 0, toks, &mut |_, _, _| None)?;
            end(out, at)
        });
    }
    let (bang, _) = split_hashbang(toks);
    first = bang.len();
    at = walk(out, 0, bang, &mut |_, _, _| None)?;
    let prefix = ["var", name, "=", "["];
    if let Ok(p) = walk(out, at, &prefix, &mut |_, _, _| None) {
        let (got, p) = elements(out, p)?;
        array = slots(&got);
        at = walk(out, p, &[";"], &mut |_, _, _| None)?;
        if !out[at..].starts_with(sep) {
            return Err(format!("no separator after the declaration: {out:?}"));
        }
    } else {
        array = Vec::new();
    }
    let lead = toks[first..].iter().take_while(|t| **t == ";").count();
    let mut last = Ok(());
    for skip in (0..=lead).rev() {
        last = finish(name, toks, first + skip, out, at, &array, filter);
        if last.is_ok() {
            break;
        }
    }
    last
}

fn inner(s: &str) -> &str {
    &s[1..s.len() - 1]
}

fn finish(name: &str, toks: &[&str], from: usize, out: &str, at: usize, array: &[Option<&str>], filter: Filter) -> Result<(), String> {
    let at = walk(out, at, &toks[from..], &mut |i, t, s| {
        if !accepts(filter, toks, from + i) {
            return None;
        }
        let r = s.strip_prefix(name)?.strip_prefix('[')?;
        let n = r.find(|c: char| !c.is_ascii_digit())?;
        if n == 0 || n > 9 || (n > 1 && r.starts_with('0')) || !r[n..].starts_with(']') {
            return None;
        }
        let slot = array.get(r[..n].parse::<usize>().ok()?)?.filter(|s| is_string(s))?;
        (inner(slot) == inner(t)).then_some(s.len() - r.len() + n + 1)
    })?;
    end(out, at)
}

pub fn judge_s06(_family: &str, parts: &[&str]) -> Result<(), String> {
    let (name, first) = parts[0].split_once('\n').expect("NAME, then the gap");
    let src = format!("{first}{}", parts[1..].concat());
    let toks = tokens_of(parts);
    let tok = || js::simple_minify(&src).map_err(|e| e.to_string());
    let line = || Token::Char(ReservedChar::Backline);
    let wrong = Cell::new(false);
    let seen = |t: &Tokens<'_>, pos: usize, f: Filter| -> bool {
        let Some(s) = t.get(pos).and_then(|t| t.get_string()) else {
            wrong.set(true);
            return true;
        };
        match f {
            Filter::All => true,
            Filter::Nothing => false,
            Filter::Content => !s.contains("keep"),
            Filter::Position => !t[..pos].iter().rev().find(|t| !t.is_comment() && !matches!(t, Token::License(_)) && !t.is_white_character()).is_some_and(|t| t.eq_char(ReservedChar::OpenBracket)),
        }
    };
    let ck = |out: String, sep: &str, f: Filter| check_s06(name, &toks, &out, sep, f);
    ck(js::clean_tokens(js::aggregate_strings_into_array(tok()?, name)).to_string(), "", Filter::All)?;
    ck(js::aggregate_strings_into_array(js::clean_tokens(tok()?), name).to_string(), "", Filter::All)?;
    ck(js::aggregate_strings_into_array_with_separation(js::clean_tokens(tok()?), name, line()).to_string(), "\n", Filter::All)?;
    for f in [Filter::Content, Filter::Position, Filter::Nothing] {
        ck(js::clean_tokens(js::aggregate_strings_into_array_filter(tok()?, name, |t, p| seen(t, p, f))).to_string(), "", f)?;
        ck(js::aggregate_strings_into_array_with_separation_filter(js::clean_tokens(tok()?), name, line(), |t, p| seen(t, p, f)).to_string(), "\n", f)?;
    }
    if wrong.get() {
        return Err("the filter was called with a position which isn't the one of a string".into());
    }
    Ok(())
}

// -------------------------------------------------------------------------------- exploration

const STRINGS: &[&str] = &[
    "\"aaaaaaaaaaaaaaaaaaaa\"",
    "'aaaaaaaaaaaaaaaaaaaa'",
    "'say·\"hello\"·to·everybody'",
    "\"say·\\\"hello\\\"·to·everybody\"",
    "'it\\'s·a·\"string\"·\\\\'",
    "`aaaaaaaaaaaaaaaaaaaa`",
    "\"x\"",
    "\"\"",
    "\"r_aa·r_ba·R[0]·r_ca\"",
    "'keep·this·long·string,·/*·please·*/'",
    "\"\u{e9}\u{1f600}\\\n\u{2028}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\"",
];

/// Statements with strings (`S`), in everything which can precede and follow one.
const USES: &[&str] = &[
    "f ( S ) ;",
    "x = [ S , S , a ] ;",
    "return S ;",
    "typeof S ;",
    "throw S ;",
    "case S : b ( ) ;",
    "S in o ;",
    "a in S ;",
    "S instanceof S ;",
    "x = S + S + 1 + S ;",
    "x = S . length ;",
    "x = S [ 0 ] / S / 2 ;",
    "x = a ? S : S ;",
    "x = { k : S , l : [ S ] } ;",
    "x = a => S ;",
    "x [ S ] = S ;",
    "if ( a === S ) b ( S ) ; else S ;",
    "x = ! S ; y = - S ; z = ~ S ; w = + S ^ S ;",
    "void S ; delete S ; await S ; new A ( S ) ;",
    "for ( a of S ) b ; for ( a in S ) b ;",
    "do S ; while ( S ) ;",
    "function f ( a = S , ... b ) { return S ; }",
    "var a = S , b = S , c ;",
    "let d = S ;",
    "const e = S ;",
    "function * g ( ) { yield S ; yield * S ; }",
    "x = S > S && S < S || S ?? S ;",
    "{ S }",
    "S ;",
    "( S ) ;",
    "f ( ... S , ...S2 ) ;",
    "x = S ? `t·${ S }·u` : /r·\"S\"/ ;",
    "x = y + S + ++ z - S - -- w ;",
    "x = 1 + S + 2.5 + S + .5 ;",
    "export default S ;",
    "class A { a = S ; b = S }",
    "x = S . concat ( S ) . b ;",
    "x ??= S ; y += S ; z == S ;",
    "a . r_aa ( S ) ;",
    "async function f ( ) { await S ; }",
];

fn fill(s: &str, strings: &[&str]) -> Vec<String> {
    let mut n = 0;
    s.split(' ')
        .map(|t| {
            if t == "S" {
                n += 1;
                strings[(n - 1) % strings.len()].replace('·', " ")
            } else if t == "...S2" {
                "...".to_owned()
            } else {
                t.replace('·', " ")
            }
        })
        .collect()
}

fn uses() -> Vec<&'static str> {
    USES.iter().copied().filter(|s| !s.contains("...S2")).collect()
}

/// Runs a list of tokens; for S06 the name goes first.
fn go(e: &mut Emit<'_>, name: Option<&str>, toks: &[&str], k: usize) {
    const A: Alts = Alts {
        any: &[" ", "/*c*/", "\n//c\n", "/*!L*/"],
        line: &[" ", "/*c*/"],
        all: &[" ", "\n", "/*c*/"],
    };
    match name {
        None => emit(e, toks, k, &A),
        Some(name) => {
            let first = format!("{name}\n");
            let mut parts: Vec<&str> = vec![&first];
            for (i, t) in toks.iter().enumerate() {
                parts.push(t);
                parts.push(match toks.get(i + 1) {
                    Some(_) if kind(t) == K::Hashbang => "\n",
                    Some(r) if !joinable(t, r) => " ",
                    _ => "",
                });
            }
            e.case(&parts);
            if k > 0 && kind(toks[0]) != K::Hashbang {
                for i in 1..=toks.len() {
                    let line = toks.get(i).is_some_and(|r| restricted(toks[i - 1], r));
                    for a in if line { A.line } else { A.any } {
                        let old = parts[2 * i];
                        if old != *a {
                            parts[2 * i] = a;
                            e.state();
                            if valid(&[&[""], &parts[1..]].concat()) {
                                e.case(&parts);
                            }
                            parts[2 * i] = old;
                        }
                    }
                }
            }
        }
    }
}

fn shared(ctx: &Ctx, name: Option<&'static str>) {
    let t = ctx.thorough();
    let all = uses();
    let n = all.len();
    let m = STRINGS.len();
    // 1. Every statement with every two strings, twice; then every pair of statements.
    ctx.product("contexts", &[n, m, m], |d, e| {
        let f = fill(all[d[0]], &[STRINGS[d[1]], STRINGS[d[2]]]);
        let mut v: Vec<&str> = f.iter().map(|s| s.as_str()).collect();
        go(e, name, &v, 1);
        v.extend(v.clone());
        go(e, name, &v, usize::from(t || d[1] == d[2]));
    });
    ctx.product("context-pairs", &[n, n, m], |d, e| {
        let s = [STRINGS[d[2]], STRINGS[0]];
        let mut f = fill(all[d[0]], &s);
        f.extend(fill(all[d[1]], &s));
        let v: Vec<&str> = f.iter().map(|s| s.as_str()).collect();
        go(e, name, &v, if t { 1 } else { 0 });
    });
    // 2. Every sequence of strings.
    for len in 1..=if t { 6 } else { 5 } {
        ctx.sequences("sequences", m, len, |d, e| {
            let mut f: Vec<String> = Vec::new();
            for (i, s) in d.iter().enumerate() {
                f.extend(fill(all[(i * 7 + s) % 3 * 5], &[STRINGS[*s]]));
            }
            let v: Vec<&str> = f.iter().map(|s| s.as_str()).collect();
            go(e, name, &v, 0);
        });
    }
    // 3. Lengths and counts, around the point where aggregating starts to pay.
    ctx.product("thresholds", &[40, 40, 3], |d, e| {
        let s = format!("\"{}\"", rep("b", d[0]));
        let other = format!("'{}'", rep("c", d[0] + d[2]));
        let mut v = vec!["f", "("];
        for _ in 0..d[1] {
            v.extend([s.as_str(), ",", other.as_str(), ","]);
        }
        v.extend(["1", ")", ";"]);
        go(e, name, &v, 0);
    });
    // 4. Hashbangs, licenses, empty statements at the start.
    let starts: &[&[&str]] = &[&["#!/bin/x"], &["#!"], &[";"], &[";", ";"], &["\"use strict\"", ";"], &["'use strict'", ";", "'use strict'", ";"], &["\"aaaaaaaaaaaaaaaaaaaa\"", ";"]];
    ctx.product("starts", &[starts.len(), n, m], |d, e| {
        let f = fill(all[d[1]], &[STRINGS[d[2]]]);
        let mut v = starts[d[0]].to_vec();
        v.extend(f.iter().chain(&f).map(|s| s.as_str()));
        go(e, name, &v, 0);
    });
    // 5. Every character in a string.
    ctx.run("every-character", 0x110000 / 16, |b, e| {
        for i in b * 16..b * 16 + 16 {
            let Some(c) = char::from_u32(i as u32) else { continue };
            e.state();
            if matches!(c, '\n' | '\r' | '\\') {
                continue;
            }
            let dq = if c == '"' { "\"bbbbbbbbbbbbb\\\"bb\"".to_owned() } else { format!("\"bbbbbbbbbbbbb{c}\\{c}b\"") };
            let sq = if c == '\'' { "'bbbbbbbbbbbbb'".to_owned() } else { format!("'{c}bbbbbbbbbbbbb{c}'") };
            go(e, name, &["f", "(", &dq, ",", &sq, ",", &dq, ",", &sq, ")", ";"], 0);
        }
    });
    // 6. Sizes.
    let sz = sizes(if t { 300 } else { 140 }, if t { 70000 } else { 17000 });
    ctx.product("lengths", &[sz.len(), 5], |d, e| {
        let n = sz[d[0]];
        let s = match d[1] {
            0 => format!("\"{}\"", rep("b", n)),
            1 => format!("'{}'", rep("\\\"", n)),
            2 => format!("'{}'", rep("\" ", n)),
            3 => format!("\"{}\"", rep("\u{20ac}", n)),
            _ => format!("\"{}\"", rep("\\\n", n)),
        };
        go(e, name, &["f", "(", &s, ",", &s, ")", ";", "g", "=", &s, "+", &s, ";"], 0);
    });
    let counts = sizes(if t { 300 } else { 140 }, if t { 20000 } else { 5000 });
    ctx.product("occurrences", &[counts.len()], |d, e| {
        let mut v = vec!["f", "("];
        for _ in 0..counts[d[0]] {
            v.extend(["\"aaaaaaaaaaaaaaaaaaaa\"", ","]);
        }
        v.extend(["1", ")", ";"]);
        go(e, name, &v, 0);
    });
    let counts = sizes(if t { 1100 } else { 130 }, if t { 20000 } else { 4200 });
    ctx.product("distinct", &[counts.len(), 3], |d, e| {
        let n = counts[d[0]];
        let all: Vec<String> = (0..n)
            .map(|i| match d[1] {
                0 => format!("\"a rather long string {i}\""),
                1 => format!("'{i} rather long string, \"quoted\"'"),
                _ if i % 3 == 0 => format!("\"keep {i}, a rather long string\""),
                _ => format!("'{}{i}, a rather long string'", rep("x", i % 17)),
            })
            .collect();
        let mut v = vec!["f", "("];
        for s in all.iter().chain(all.iter().rev()) {
            v.extend([s, ","]);
        }
        v.extend(["1", ")", ";"]);
        go(e, name, &v, 0);
    });
}

pub fn explore_s05(ctx: &Ctx) {
    let t = ctx.thorough();
    shared(ctx, None);
    let (a, b, c) = ("\"aaaaaaaaaaaaaaaaaaaa\"", "'bbbbbbbbbbbbbbbbbbbbbbb'", "\"cccccccccccccccc\"");
    // Names which are already taken, in every way.
    let takes: &[&str] = &[
        "var N = 1 ;", "var N ;", "let N = 2 ;", "const N = { } ;", "N = 1 ;", "N ( ) ;", "x . N ;", "function N ( ) { }", "function f ( N ) { }", "( N ) => 1 ;", "N : x ;", "x = `${N}` ;", "x = `${ a + N . b }` ;",
        "x = `${`${N}`}` ;", "class N { }", "x = { N : 1 } ;", "x = { N } ;", "var { N } = x ;", "var a , N ;", "let a = 1 , N = 2 ;", "import N from \"x\" ;", "export { N as y } ;", "try { } catch ( N ) { }", "a ?. N ;", "this . N = 1 ;",
        "async N => 1 ;", "x = a ? N : b ;", "for ( let N of x ) y ;", "typeof N ;", "N ++ ;", "x = - N ;", "x = a / N / b ;", "x ^ N ;", "~ N ;", "!N ;", "f ( ... N ) ;", "get N ;", "N `t` ;", "var N = \"z\" ;", "var N = 'x' + y ;",
    ];
    let names = ["r_aa", "r_ba", "r_ca", "r_da", "r_a", "r_", "R", "r_aaa"];
    ctx.product("taken-names", &[takes.len(), names.len(), takes.len(), 3, 2], |d, e| {
        if !t && d[2] % 4 != d[0] % 4 {
            return;
        }
        let mut f: Vec<String> = Vec::new();
        let take = |k: usize, n: &str| -> Vec<String> { takes[k].split(' ').map(|t| t.replace("!N", "N").replace('N', n)).collect::<Vec<_>>().join(" ").split(' ').map(String::from).collect() };
        let uses = fill("f ( S , S , S , S , S , S ) ;", &[a, b, c]);
        let parts = [take(d[0], names[d[1]]), take(d[2], names[(d[1] + 1) % names.len()])];
        for (i, p) in parts.iter().enumerate() {
            if i == d[3] {
                f.extend(uses.clone());
            }
            f.extend(p.clone());
        }
        if d[3] == 2 {
            f.extend(uses.clone());
        }
        // Templates are a single token, however they were split.
        let text = f.join(" ");
        let toks = retokenize(&text);
        let v: Vec<&str> = toks.iter().map(|s| s.as_str()).collect();
        go(e, None, &v, d[4].min(usize::from(d[0] == d[2])));
    });
    // Every number of taken names, with every number of new ones.
    let taken = sizes(130, if t { 8000 } else { 300 });
    let new = [1usize, 2, 3, 61, 62, 63, 64, 130];
    ctx.product("taken-counts", &[taken.len(), new.len(), 3], |d, e| {
        let n = taken[d[0]];
        let ids: Vec<String> = (0..n).map(|i| name(if d[2] == 1 { 2 * i } else { i })).collect();
        let mut v: Vec<&str> = Vec::new();
        for i in &ids {
            if d[2] == 2 {
                v.extend(["var", i, "=", "1", ";"]);
            } else {
                v.extend([i, ";"]);
            }
        }
        let all: Vec<String> = (0..new[d[1]]).map(|i| format!("\"a rather long string {i}\"")).collect();
        v.extend(["f", "("]);
        for s in all.iter().chain(&all) {
            v.extend([s, ","]);
        }
        v.extend(["1", ")", ";"]);
        go(e, None, &v, 0);
    });
    // Variables of the script which already hold the strings.
    let items: &[&str] = &[
        "var r_aa = S ;", "var r_zz = S ;", "let r_q = S ;", "const r_q = S ;", "var q = S ;", "var r_aa = S + x ;", "var r_aa = x + S ;", "var a = 1 , r_b = S , c = S ;", "f ( S , S ) ;", "g ( S ) ;", "x . r_aa = S ;", "var r_aa = 1 ;", "var r_aa = S . length ;", "var r_c = S ? S : 1 ;",
        "var r_d = S , r_e = S ;", "r_ba ;", "var r_ba = `u` ;", "var r_ba = T ;", "var r_1 ; r_1 = S ;", "var r_aa = ( S ) ;", "if ( a ) var r_ba = S ; else b ( S ) ;",
    ];
    for len in 1..=if t { 5 } else { 4 } {
        ctx.sequences("existing-variables", items.len(), len, |d, e| {
            let mut f: Vec<String> = Vec::new();
            for (i, k) in d.iter().enumerate() {
                f.extend(fill(&items[*k].replace("T", "'bbbbbbbbbbbbbbbbbbbbbbb'"), &[a, b][..1 + usize::from(i % 3 == 2)]));
            }
            let v: Vec<&str> = f.iter().map(|s| s.as_str()).collect();
            go(e, None, &v, usize::from(len < 3));
        });
    }
}

/// The i-th name, in the documented order: a-z A-Z 0-9, the first letter changing first.
pub fn name(mut i: usize) -> String {
    const L: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    let mut s = String::from("r_");
    for _ in 0..2 {
        s.push(L[i % 62] as char);
        i /= 62;
    }
    if i > 0 {
        s.push(L[(i - 1) % 62] as char);
    }
    s
}

/// Tokens separated by spaces, apart from the templates, which may hold some.
fn retokenize(s: &str) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    let mut open = false;
    for t in s.split(' ') {
        if open {
            let l = v.last_mut().unwrap();
            l.push(' ');
            l.push_str(t);
        } else {
            v.push(t.to_owned());
        }
        if t.matches('`').count() % 2 == 1 {
            open = !open;
        }
    }
    v
}

pub fn explore_s06(ctx: &Ctx) {
    let t = ctx.thorough();
    shared(ctx, Some("R"));
    let names = ["R", "$", "_", "r_aa", "aVeryLongNameForAnArray", "\u{e9}", "x1"];
    let all = uses();
    // Array names.
    ctx.product("names", &[names.len(), all.len(), STRINGS.len()], |d, e| {
        let f = fill(all[d[1]], &[STRINGS[d[2]]]);
        let v: Vec<&str> = f.iter().chain(&f).chain(&f).map(|s| s.as_str()).collect();
        if v.contains(&names[d[0]]) {
            return;
        }
        go(e, Some(names[d[0]]), &v, usize::from(t));
    });
    // Existing arrays.
    let slots: &[&str] = &["\"aaaaaaaaaaaaaaaaaaaa\"", "'aaaaaaaaaaaaaaaaaaaa'", "\"x\"", "", "`aaaaaaaaaaaaaaaaaaaa`", "'it\\'s·a·\"string\"·\\\\'", "\"keep·this·please·a·while\"", "1", "x", "\"\""];
    let before: &[&str] = &["", "/*!l*/", "y = 12 ;", "var y = 'aaaaaaaaaaaaaaaaaaaa' ;", "f ( 'aaaaaaaaaaaaaaaaaaaa' , \"aaaaaaaaaaaaaaaaaaaa\" ) ;", "#!/bin/x", ";", "\"use·strict\" ;"];
    let after: &[&str] = &["", "f ( S ) ;", "x = [ S , T , S , T , S , T ] ;", "x [ S ] = S ; g ( 'x' , 'x' , 'x' , U , U , U ) ;", "return S ;", "typeof T + T ;"];
    for len in 0..=if t { 4 } else { 3 } {
        let mut dims = vec![before.len(), after.len(), 3, 2];
        dims.extend(vec![slots.len(); len]);
        ctx.product("existing-arrays", &dims, |d, e| {
            if !t && len == 3 && (d[0] + d[1] + d[2]) % 4 != 0 {
                return;
            }
            let mut f: Vec<String> = before[d[0]].split(' ').filter(|t| !t.is_empty() && *t != "/*!l*/").map(|t| t.replace('·', " ")).collect();
            f.extend([["var", "let", "const"][d[2]], "R", "=", "["].map(String::from));
            for (i, s) in d[4..].iter().enumerate() {
                if i > 0 {
                    f.push(",".into());
                }
                if !slots[*s].is_empty() {
                    f.push(slots[*s].replace('·', " "));
                }
            }
            if d[3] == 1 {
                f.push(",".into());
            }
            f.extend(["]", ";"].map(String::from));
            let x = after[d[1]].replace('T', "'bbbbbbbbbbbbbbbbbbbbbbb'").replace('U', "\"it\\'s·a·\\\"string\\\"·\\\\\"");
            if !x.is_empty() {
                f.extend(fill(&x, &[slots[0], STRINGS[9], slots[5]]));
                f.extend(fill(&x, &[slots[1], STRINGS[9], slots[5]]));
            }
            let v: Vec<&str> = f.iter().map(|s| s.as_str()).collect();
            go(e, Some("R"), &v, usize::from(len < 2));
        });
    }
    // Sizes of existing arrays.
    let n = sizes(130, if t { 8000 } else { 1100 });
    let added = [0usize, 1, 2, 9, 10, 11, 100];
    ctx.product("existing-sizes", &[n.len(), added.len(), 3], |d, e| {
        let n = n[d[0]];
        let old: Vec<String> = (0..n).map(|i| format!("\"an old string {i}\"")).collect();
        let new: Vec<String> = (0..added[d[1]]).map(|i| format!("'a new string {i}'")).collect();
        let mut v = vec!["var", "R", "=", "["];
        for (i, s) in old.iter().enumerate() {
            if i > 0 {
                v.push(",");
            }
            if d[2] == 2 && i % 3 == 1 {
                continue;
            }
            v.push(s);
        }
        if d[2] == 1 && n > 0 {
            v.push(",");
        }
        v.extend(["]", ";", "f", "("]);
        for s in new.iter().chain(&old).chain(new.iter().rev()).chain(&old) {
            v.extend([s, ","]);
        }
        v.extend(["1", ")", ";"]);
        go(e, Some("R"), &v, 0);
    });
}
