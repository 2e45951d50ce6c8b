//! Templates: a text in which every gap between two tokens is marked, and the enumeration of all
//! the ways to fill the gaps with at most k deviations from the shortest filling.
//!
//! `¬` nothing is needed, `␣` white space is needed, `¦` something is needed (a comment will do),
//! `⎵` white space is needed and no line break is allowed, `⍽` nothing is needed and no line break
//! is allowed.

use crate::engine::Emit;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum G {
    Opt,
    Ws,
    Sep,
    WsLine,
    OptLine,
}

#[derive(Clone, Debug)]
pub enum Piece<'a> {
    Tok(&'a str),
    Gap(G),
}

pub fn parse(t: &str) -> Vec<Piece<'_>> {
    let mut v = Vec::new();
    let mut start = 0;
    for (i, c) in t.char_indices() {
        let g = match c {
            '¬' => G::Opt,
            '␣' => G::Ws,
            '¦' => G::Sep,
            '⎵' => G::WsLine,
            '⍽' => G::OptLine,
            _ => continue,
        };
        if start < i {
            v.push(Piece::Tok(&t[start..i]));
        }
        v.push(Piece::Gap(g));
        start = i + c.len_utf8();
    }
    if start < t.len() {
        v.push(Piece::Tok(&t[start..]));
    }
    v
}

/// What gaps can be filled with (besides their default).
pub struct Alts<'a> {
    pub opt: &'a [&'a str],
    pub ws: &'a [&'a str],
    pub sep: &'a [&'a str],
    pub ws_line: &'a [&'a str],
    pub opt_line: &'a [&'a str],
}

impl<'a> Alts<'a> {
    pub fn of(&self, g: G) -> &'a [&'a str] {
        match g {
            G::Opt => self.opt,
            G::Ws => self.ws,
            G::Sep => self.sep,
            G::WsLine => self.ws_line,
            G::OptLine => self.opt_line,
        }
    }
    pub fn default(&self, g: G) -> &'static str {
        match g {
            G::Opt | G::OptLine => "",
            G::Ws | G::Sep | G::WsLine => " ",
        }
    }
}

/// Runs every filling with at most `k` deviations.
pub fn deviate<'a>(e: &mut Emit<'_>, pieces: &[Piece<'a>], alts: &Alts<'a>, k: usize) {
    let mut parts: Vec<&str> = Vec::with_capacity(pieces.len());
    let mut gaps: Vec<(usize, G)> = Vec::new();
    for p in pieces {
        match p {
            Piece::Tok(t) => parts.push(t),
            Piece::Gap(g) => {
                gaps.push((parts.len(), *g));
                parts.push(alts.default(*g));
            }
        }
    }
    fn rec<'a>(e: &mut Emit<'_>, parts: &mut Vec<&'a str>, gaps: &[(usize, G)], alts: &Alts<'a>, k: usize) {
        e.case(parts);
        if k == 0 {
            return;
        }
        for (n, (at, g)) in gaps.iter().enumerate() {
            let before = parts[*at];
            for a in alts.of(*g) {
                parts[*at] = a;
                e.state();
                rec(e, parts, &gaps[n + 1..], alts, k - 1);
            }
            parts[*at] = before;
        }
    }
    rec(e, &mut parts, &gaps, alts, k);
}

/// Every gap filled the same way (used for the sizes and the comparisons).
#[allow(dead_code)]
pub fn fill<'a>(pieces: &[Piece<'a>], f: impl Fn(G) -> &'a str) -> String {
    pieces
        .iter()
        .map(|p| match p {
            Piece::Tok(t) => *t,
            Piece::Gap(g) => f(*g),
        })
        .collect()
}
