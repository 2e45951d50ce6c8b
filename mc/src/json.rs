//! J01, J02, J03: JSON, in memory and streaming.

use crate::engine::*;
use crate::sizes::*;
use minifier::json;
use std::io::{Error, ErrorKind, Read};

/// The reference: what is outside of the string literals loses its JSON whitespace, nothing else
/// changes.
pub fn reference(src: &str) -> String {
    let mut out = String::with_capacity(src.len());
    let mut in_string = false;
    let mut escaped = false;
    for c in src.chars() {
        if in_string {
            out.push(c);
            if escaped {
                escaped = false;
            } else if c == '\\' {
                escaped = true;
            } else if c == '"' {
                in_string = false;
            }
        } else if !matches!(c, ' ' | '\t' | '\n' | '\r') {
            out.push(c);
            in_string = c == '"';
        }
    }
    out
}

fn diff(got: &str, want: &str) -> String {
    let clip = |s: &str| {
        if s.len() > 300 {
            let mut n = 300;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            format!("{:?}... ({} bytes)", &s[..n], s.len())
        } else {
            format!("{s:?}")
        }
    };
    format!("got {} instead of {}", clip(got), clip(want))
}

// --------------------------------------------------------------------------------------- J01

pub fn judge_j01(_family: &str, parts: &[&str]) -> Result<(), String> {
    let src = parts.concat();
    let got = json::minify(&src).to_string();
    let want = reference(&src);
    if got != want {
        return Err(diff(&got, &want));
    }
    Ok(())
}

const GAPS: [&str; 5] = ["", " ", "\n", "\t", "\r\n"];

/// Depth-first search of the JSON grammar: `stack` holds the open brackets, `need` what may come
/// next.
#[derive(Clone, Copy, PartialEq)]
enum Need {
    Value,
    ValueOrClose,
    Key,
    KeyOrClose,
    Colon,
    CommaOrClose,
    End,
}

struct Dfs<'a, 'b, 'c> {
    e: &'a mut Emit<'b>,
    toks: Vec<&'static str>,
    stack: Vec<u8>,
    strings: &'c [&'static str],
    scalars: &'c [&'static str],
    gaps: &'c dyn Fn(&mut Emit<'_>, &[&'static str]),
    max: usize,
}

impl Dfs<'_, '_, '_> {
    fn push(&mut self, t: &'static str, next: Need) {
        self.toks.push(t);
        self.e.state();
        self.go(next);
        self.toks.pop();
    }
    fn after_value(&self) -> Need {
        if self.stack.is_empty() {
            Need::End
        } else {
            Need::CommaOrClose
        }
    }
    fn go(&mut self, need: Need) {
        if need == Need::End {
            (self.gaps)(self.e, &self.toks);
            return;
        }
        // Tokens still needed to close everything.
        let min_left = self.stack.len()
            + match need {
                Need::Value => 1,
                Need::ValueOrClose | Need::KeyOrClose | Need::CommaOrClose => 0,
                Need::Key => 3,
                Need::Colon => 2,
                Need::End => 0,
            };
        if self.toks.len() + min_left > self.max {
            return;
        }
        match need {
            Need::Value | Need::ValueOrClose => {
                let after = self.after_value();
                for s in self.strings.iter().chain(self.scalars) {
                    self.push(s, after);
                }
                self.stack.push(b'[');
                self.push("[", Need::ValueOrClose);
                self.stack.pop();
                self.stack.push(b'{');
                self.push("{", Need::KeyOrClose);
                self.stack.pop();
            }
            Need::Key | Need::KeyOrClose => {
                for s in self.strings {
                    self.push(s, Need::Colon);
                }
            }
            Need::Colon => self.push(":", Need::Value),
            Need::CommaOrClose => {
                let next = if *self.stack.last().unwrap() == b'[' {
                    Need::Value
                } else {
                    Need::Key
                };
                self.push(",", next);
            }
            Need::End => {}
        }
        let closer = match (need, self.stack.last()) {
            (Need::ValueOrClose, _) => Some("]"),
            (Need::KeyOrClose, _) => Some("}"),
            (Need::CommaOrClose, Some(b'[')) => Some("]"),
            (Need::CommaOrClose, Some(_)) => Some("}"),
            _ => None,
        };
        if let Some(c) = closer {
            let top = self.stack.pop().unwrap();
            let after = self.after_value();
            self.push(c, after);
            self.stack.push(top);
        }
    }
}

fn grammar(
    ctx: &Ctx,
    family: &'static str,
    strings: &'static [&'static str],
    scalars: &'static [&'static str],
    max: usize,
    gaps: &(dyn Fn(&mut Emit<'_>, &[&'static str]) + Sync),
) {
    // The subtrees are split on the first tokens for the sake of parallelism.
    let mut firsts: Vec<(Vec<&'static str>, Vec<u8>, Need)> = Vec::new();
    for s in strings.iter().chain(scalars) {
        firsts.push((vec![s], vec![], Need::End));
    }
    for s in strings.iter().chain(scalars) {
        firsts.push((vec!["[", s], vec![b'['], Need::CommaOrClose));
        for k in strings {
            firsts.push((vec!["{", k, ":", s], vec![b'{'], Need::CommaOrClose));
        }
    }
    firsts.push((vec!["[", "]"], vec![], Need::End));
    firsts.push((vec!["{", "}"], vec![], Need::End));
    firsts.push((vec!["[", "["], vec![b'[', b'['], Need::ValueOrClose));
    firsts.push((vec!["[", "{"], vec![b'[', b'{'], Need::KeyOrClose));
    for k in strings {
        firsts.push((vec!["{", k, ":", "["], vec![b'{', b'['], Need::ValueOrClose));
        firsts.push((vec!["{", k, ":", "{"], vec![b'{', b'{'], Need::KeyOrClose));
    }
    ctx.list(family, &firsts, |(toks, stack, need), e| {
        let mut d = Dfs {
            e,
            toks: toks.clone(),
            stack: stack.clone(),
            strings,
            scalars,
            gaps: &|e, t| gaps(e, t),
            max,
        };
        d.go(*need);
    });
}

/// Every gap minimal but `k` of them, which take every value.
pub fn with_gap_deviations<'a>(
    e: &mut Emit<'_>,
    toks: &[&'a str],
    gaps: &[&'a str],
    k: usize,
    parts: &mut Vec<&'a str>,
) {
    parts.clear();
    for t in toks {
        parts.push("");
        parts.push(t);
    }
    parts.push("");
    fn rec<'a>(e: &mut Emit<'_>, parts: &mut Vec<&'a str>, gaps: &[&'a str], from: usize, k: usize) {
        e.case(parts);
        if k == 0 {
            return;
        }
        let mut i = from;
        while i < parts.len() {
            for g in gaps {
                parts[i] = g;
                e.state();
                rec(e, parts, gaps, i + 2, k - 1);
            }
            parts[i] = "";
            i += 2;
        }
    }
    rec(e, parts, gaps, 0, k);
}

const STRINGS: &[&str] = &[r#""""#, r#""a b""#, r#""\"""#, r#""\\""#, "\"{: ,\""];
const SCALARS: &[&str] = &["0", "-1.5E+3", "true", "null"];
const BODY: &[&str] = &[
    " ", "a", "\\\"", "\\\\", "\\n", "\\/", "\\u0020", "\\u005c", "\\u0022", "{", ",", "\u{7f}", "\u{a0}",
    "\u{2028}", "\u{e9}", "\u{1f600}", "/*", "//", "'", "\\ud83d\\ude00",
];

pub fn explore_j01(ctx: &Ctx) {
    let t = ctx.thorough();
    grammar(ctx, "grammar-1-gap", STRINGS, SCALARS, if t { 7 } else { 6 }, &|e, toks| {
        with_gap_deviations(e, toks, &GAPS[1..], 1, &mut Vec::new())
    });
    grammar(ctx, "grammar-2-gaps", &[r#""a b""#, r#""\\""#], &["1"], if t { 10 } else { 8 }, &|e, toks| {
        with_gap_deviations(e, toks, &[" ", "\n", " \t\r\n "], 2, &mut Vec::new())
    });
    grammar(ctx, "grammar-all-gaps", &[r#""\"""#, r#"" ""#], &["1"], if t { 10 } else { 8 }, &|e, toks| {
        // Every subset of the gaps.
        let n = toks.len() + 1;
        for bits in 0u32..1 << n {
            let mut parts = Vec::with_capacity(2 * n);
            for i in 0..n {
                parts.push(if bits >> i & 1 == 1 { "\n  " } else { "" });
                if i < toks.len() {
                    parts.push(toks[i]);
                }
            }
            e.state();
            e.case(&parts);
        }
    });
    for len in 1..=if t { 6 } else { 5 } {
        ctx.sequences("string-bodies", BODY.len(), len, |d, e| {
            let mut parts = vec!["[ \""];
            parts.extend(d.iter().map(|i| BODY[*i]));
            parts.push("\" , \" \" ]");
            e.case(&parts);
        });
    }
    for len in 1..=if t { 5 } else { 4 } {
        ctx.sequences("keys-and-values", BODY.len(), len, |d, e| {
            let mut parts = vec!["{ \""];
            for (n, i) in d.iter().enumerate() {
                if n == d.len() / 2 {
                    parts.push("\" : \"");
                }
                parts.push(BODY[*i]);
            }
            parts.push("\" }");
            e.case(&parts);
        });
    }
    ctx.run("every-character", 0x110000, |i, e| {
        let Some(c) = char::from_u32(i as u32) else { return };
        if (c as u32) < 0x20 || c == '"' || c == '\\' {
            return;
        }
        let mut b = [0; 4];
        let c = &*c.encode_utf8(&mut b);
        e.state();
        e.case(&["[ \"", c, "\" , { \"", c, " ", c, c, "\" : \"\\\"", c, "\\\\\" , \"\\\\\\\"", c, "\" : 1 } ]"]);
    });
    ctx.run("every-unicode-escape", 0x10000, |i, e| {
        let lower = format!("\\u{i:04x}");
        let upper = format!("\\u{i:04X}");
        e.state();
        e.case(&["{ \"", &lower, " \" : \" ", &upper, "\" , \"\" : \"x", &upper, " ", &lower, " \" }"]);
    });
    size_cases(ctx, "sizes", if t { 4100 } else { 1100 }, if t { 1 << 20 } else { 1 << 17 }, &|e, s| e.case(&[s]));
}

/// Texts whose interest is a size: literals, whitespace, counts and depth.
pub fn size_cases(
    ctx: &Ctx,
    family: &'static str,
    dense: usize,
    max: usize,
    f: &(dyn Fn(&mut Emit<'_>, &str) + Sync),
) {
    let n = sizes(dense, max);
    ctx.product(family, &[n.len(), 14], |d, e| {
        let n = n[d[0]];
        let s = match d[1] {
            0 => format!("[ \"{}\" , 1 ]", rep("a", n)),
            1 => format!("[ \"{}\" , \" \" ]", rep("\\\\", n)),
            2 => format!("[ \"{}\" , \" \" ]", rep("\\\"", n)),
            3 => format!("[ \"{}\" , \" \" ]", rep("\u{20ac} ", n)),
            4 => format!("{}[ 1 , \" \" ]", rep(" ", n)),
            5 => format!("[ 1 ,{}\" \" ]", rep("\n\t", n)),
            6 => format!("[ 1 , \" \" ]{}", rep(" ", n)),
            7 => format!("{} \" \" {}", rep("[ ", n), rep(" ]", n)),
            8 => format!("[ {}\" \" ]", rep("\" a\" , ", n)),
            9 => format!("{{ {}\"z \" : 0 }}", rep("\"k \" : \"v \\\" \" ,\n", n)),
            10 => format!("{}1{}", rep("{ \"a \" : ", n), rep(" }", n)),
            11 => format!("[ 1{} , \" \" ]", rep("0", n)),
            12 => format!("[ \"{}\\\\\" , \"{} \" ]", rep(" ", n), rep("x", n)),
            _ => format!("[ \"\u{1f600}{}\u{e9} \" , 2 ]", rep("\\u0041", n)),
        };
        f(e, &s);
    });
}

// --------------------------------------------------------------------------------------- J02

/// Gives the bytes chunk by chunk: the sizes of `plan`, then always `last`.
struct Chunks<'a> {
    data: &'a [u8],
    plan: Vec<usize>,
    at: usize,
    last: usize,
    left: usize,
}

impl Read for Chunks<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, Error> {
        if self.left == 0 {
            self.left = self.plan.get(self.at).copied().unwrap_or(self.last);
            self.at += 1;
        }
        let n = self.left.min(buf.len()).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        self.left -= n;
        Ok(n)
    }
}

fn numbers(s: &str) -> Vec<usize> {
    s.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().expect("number")).collect()
}

/// parts: text, chunk sizes (the last one is repeated), buffer sizes (idem).
pub fn judge_j02(_family: &str, parts: &[&str]) -> Result<(), String> {
    let src = parts[0];
    let mut plan = numbers(parts[1]);
    let mut bufs = numbers(parts[2]);
    let last = plan.pop().unwrap_or(usize::MAX).max(1);
    let last_buf = bufs.pop().unwrap_or(4096).max(1);
    let want = json::minify(src).to_string();
    let mut reader = json::minify_from_read(Chunks {
        data: src.as_bytes(),
        plan,
        at: 0,
        last,
        left: 0,
    });
    let mut got = Vec::with_capacity(want.len());
    let mut buf = vec![0xaau8; last_buf.max(bufs.iter().copied().max().unwrap_or(0)) + 4];
    let mut i = 0;
    loop {
        let size = bufs.get(i).copied().unwrap_or(last_buf);
        i += 1;
        buf[size..].fill(0xaa);
        let n = reader
            .read(&mut buf[..size])
            .map_err(|e| format!("unexpected error {e:?} after {} bytes", got.len()))?;
        if n > size {
            return Err(format!("read returned {n} for a buffer of {size}"));
        }
        if size == 0 {
            continue;
        }
        if n == 0 {
            break;
        }
        got.extend_from_slice(&buf[..n]);
        if got.len() > want.len() {
            break;
        }
    }
    if got != want.as_bytes() {
        return Err(diff(&String::from_utf8_lossy(&got), &want));
    }
    for size in [1, 0, 7, 1] {
        match reader.read(&mut buf[..size.min(last_buf)]) {
            Ok(0) => {}
            r => return Err(format!("{r:?} after the end")),
        }
    }
    Ok(())
}

fn list(v: &[usize]) -> String {
    v.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(",")
}

/// All the ways to cut `n` bytes into chunks.
fn composition(n: usize, bits: u64) -> Vec<usize> {
    let mut v = vec![];
    let mut cur = 1;
    for i in 0..n.saturating_sub(1) {
        if bits >> i & 1 == 1 {
            v.push(cur);
            cur = 1;
        } else {
            cur += 1;
        }
    }
    if n > 0 {
        v.push(cur);
    }
    v
}

const SHORT: &[&str] = &[
    "", "1", " ", "[1]", "[ 1 ]", "\"a b\"", "\"\u{e9} \" ", " \"\u{20ac}\" 1", "\"\u{1f600}\" ", "\"\\\" \" ",
    "\"\\\\\" 1", "[\"a\", 2]", " \u{e9}\u{e9} ", "  1  ", "\n\n\n", "a\u{20ac}b \u{20ac}", "\"\\\\\\\" \" ",
    "{\"a\": \" \"}", "\u{feff}[ 1 ]", "\"\u{7f} \u{a0}\" ",
];

const TEXT_FRAGMENTS: &[&str] = &[
    "\"", "\\", " ", "\n", "a", "\u{e9}", "\u{20ac}", "\u{1f600}", "[", "\u{7f}", "\u{0}", "\u{85}",
];

pub fn explore_j02(ctx: &Ctx) {
    let t = ctx.thorough();
    // 1. Every chunking of short texts with every sequence of buffer sizes.
    let sizes_b: &[usize] = &[0, 1, 2, 3, 5];
    let lasts: &[usize] = &[1, 2, 4, 64];
    let nb = if t { 4 } else { 3 };
    let seqs = sizes_b.len().pow(nb as u32);
    for (ti, text) in SHORT.iter().enumerate() {
        let _ = ti;
        let n = text.len();
        let cuts = 1usize << n.saturating_sub(1).min(if t { 12 } else { 10 });
        ctx.product("all-chunkings-all-buffers", &[cuts, seqs, lasts.len()], |d, e| {
            let plan = list(&composition(n, d[0] as u64));
            let mut bufs = vec![];
            let mut x = d[1];
            for _ in 0..nb {
                bufs.push(sizes_b[x % sizes_b.len()]);
                x /= sizes_b.len();
            }
            bufs.push(lasts[d[2]]);
            e.case(&[text, &plan, &list(&bufs)]);
        });
    }
    // 2. Every short text with constant sizes, and with a first buffer of another size.
    for len in 0..=if t { 5 } else { 4 } {
        ctx.sequences("all-texts", TEXT_FRAGMENTS.len(), len, |d, e| {
            let text: String = d.iter().map(|i| TEXT_FRAGMENTS[*i]).collect();
            for c in ["1", "2", "3", "64"] {
                for b in ["1", "2", "3", "5", "1,64", "64,1", "2,1"] {
                    e.transition();
                    e.case(&[&text, c, b]);
                }
            }
        });
    }
    // 3. A longer text, all the pairs of sizes, and all the chunkings around each position.
    let long = "{ \"k\u{e9}y \\\" \" : [ 1, \"\u{20ac}\\\\\", true ],\r\n \"\u{1f600} \" : { } , \"\\\\\\\" \" : \" \u{a0}\" } ";
    let m = if t { 100 } else { 60 };
    ctx.product("size-pairs", &[m, m], |d, e| {
        e.case(&[long, &(d[0] + 1).to_string(), &(d[1] + 1).to_string()]);
    });
    let n = long.len();
    ctx.product("two-short-reads", &[n, 6, 6, 4], |d, e| {
        let plan = list(&[d[0] + 1, d[1] + 1, d[2] + 1, 4096]);
        e.case(&[long, &plan, ["1", "7", "16", "4096"][d[3]]]);
    });
    ctx.product("two-small-buffers", &[n, 6, 6, 4], |d, e| {
        let bufs = list(&[d[0] + 1, d[1], d[2], 4096]);
        e.case(&[long, ["1", "7", "16", "4096"][d[3]], &bufs]);
    });
    ctx.product("empty-buffers", &[6, 6, 6, 6, 5], |d, e| {
        let bufs = list(&[d[0], 0, d[1], 0, 0, d[2], d[3], 1 + d[4]]);
        e.case(&[long, "3", &bufs]);
    });
    // 4. Sizes of the text, of the chunks and of the buffers around the round numbers.
    size_cases(ctx, "sizes", if t { 1030 } else { 300 }, if t { 1 << 19 } else { 20_000 }, &|e, s| {
        let small = s.len() < 3000;
        for (c, b) in [("4096", "4096"), ("1000000", "1000000"), ("8192", "100"), ("100", "8192"), ("13", "17"), ("1,1000000", "32"), ("64", "64")] {
            e.transition();
            e.case(&[s, c, b]);
        }
        if small {
            e.transition();
            e.case(&[s, "1", "1"]);
        }
    });
    let bs = sizes(70, if t { 70_000 } else { 9_000 });
    let text = format!("[ {} \"z \" ]", "\" \u{20ac}\\\"x \" ,\n  12345 , ".repeat(1500));
    ctx.list("buffer-sizes", &bs, |b, e| {
        let b = (*b).max(1).to_string();
        for c in ["1", "7", "4096", "8192", "1000000"] {
            e.transition();
            e.case(&[&text, c, &b]);
        }
        e.transition();
        e.case(&[&text, &b, "8192"]);
        e.transition();
        e.case(&[&text, &b, &b]);
    });
}

// --------------------------------------------------------------------------------------- J03

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Bytes(usize),
    Fail(ErrorKind),
    FailForever(ErrorKind),
}

const KINDS: &[(&str, ErrorKind)] = &[
    ("interrupted", ErrorKind::Interrupted),
    ("wouldblock", ErrorKind::WouldBlock),
    ("timedout", ErrorKind::TimedOut),
    ("reset", ErrorKind::ConnectionReset),
    ("eof", ErrorKind::UnexpectedEof),
    ("data", ErrorKind::InvalidData),
    ("other", ErrorKind::Other),
    ("broken", ErrorKind::BrokenPipe),
];

fn events(s: &str) -> Vec<Ev> {
    s.split(',')
        .filter(|s| !s.is_empty())
        .map(|s| {
            let kind = |s: &str| KINDS.iter().find(|k| k.0 == s).expect("kind").1;
            if let Some(k) = s.strip_prefix('!') {
                Ev::FailForever(kind(k))
            } else if let Ok(n) = s.parse() {
                Ev::Bytes(n)
            } else {
                Ev::Fail(kind(s))
            }
        })
        .collect()
}

struct Script<'a> {
    data: &'a [u8],
    events: Vec<Ev>,
    at: usize,
    left: usize,
    raised: Vec<ErrorKind>,
}

struct Shared<'a, 'b>(&'b std::cell::RefCell<Script<'a>>);

impl Read for Shared<'_, '_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, Error> {
        let mut s = self.0.borrow_mut();
        if s.left == 0 {
            match s.events.get(s.at).copied() {
                Some(Ev::Bytes(n)) => {
                    s.left = n;
                    s.at += 1;
                }
                Some(Ev::Fail(k)) => {
                    s.at += 1;
                    s.raised.push(k);
                    return Err(k.into());
                }
                Some(Ev::FailForever(k)) => {
                    s.raised.push(k);
                    return Err(k.into());
                }
                None => s.left = usize::MAX,
            }
        }
        let n = s.left.min(buf.len()).min(s.data.len());
        buf[..n].copy_from_slice(&s.data[..n]);
        s.data = &s.data[n..];
        s.left -= n;
        Ok(n)
    }
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex"))
        .collect()
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

/// parts: bytes of the source in hexadecimal, events of the source, buffer sizes.
pub fn judge_j03(family: &str, parts: &[&str]) -> Result<(), String> {
    let bytes = unhex(parts[0]);
    let mut bufs = numbers(parts[2]);
    let last_buf = bufs.pop().unwrap_or(64).max(1);
    let (valid, is_valid) = match std::str::from_utf8(&bytes) {
        Ok(s) => (s, true),
        Err(e) => (std::str::from_utf8(&bytes[..e.valid_up_to()]).unwrap(), false),
    };
    // Everything which can be delivered: the minified valid prefix.
    let want = json::minify(valid).to_string();
    let script = std::cell::RefCell::new(Script {
        data: &bytes,
        events: events(parts[1]),
        at: 0,
        left: 0,
        raised: vec![],
    });
    let mut reader = json::minify_from_read(Shared(&script));
    let mut got: Vec<u8> = vec![];
    let mut reported: Vec<ErrorKind> = vec![];
    let mut utf8_error = false;

    if family.contains("read_to_end") {
        // Standard helpers retry on Interrupted by themselves and stop on any other error.
        loop {
            match reader.read_to_end(&mut got) {
                Ok(_) => break,
                Err(e) => {
                    if !is_valid && e.kind() == ErrorKind::InvalidData && script.borrow().raised.iter().all(|k| *k != ErrorKind::InvalidData) {
                        utf8_error = true;
                        break;
                    }
                    reported.push(e.kind());
                }
            }
            if !want.as_bytes().starts_with(&got) {
                break;
            }
            if reported.len() > 50 {
                return Err("endless errors".into());
            }
        }
        let raised: Vec<_> = script.borrow().raised.iter().copied().filter(|k| *k != ErrorKind::Interrupted).collect();
        let rep: Vec<_> = reported.iter().copied().filter(|k| *k != ErrorKind::Interrupted).collect();
        if raised != rep {
            return Err(format!("the source raised {raised:?}, {rep:?} was reported"));
        }
    } else {
        let mut buf = vec![0u8; last_buf.max(bufs.iter().copied().max().unwrap_or(0))];
        let mut i = 0;
        let mut forever = 0;
        loop {
            let size = bufs.get(i).copied().unwrap_or(last_buf);
            i += 1;
            match reader.read(&mut buf[..size]) {
                Ok(n) if n > size => return Err(format!("read returned {n} for a buffer of {size}")),
                Ok(0) if size == 0 => {}
                Ok(0) => break,
                Ok(n) => got.extend_from_slice(&buf[..n]),
                Err(e) => {
                    let k = e.kind();
                    let raised = script.borrow().raised.clone();
                    // The errors of the source are reported in order, once each; retrying on
                    // Interrupted would be fine too.
                    let mut expected = raised[reported.len().min(raised.len())..]
                        .iter()
                        .copied()
                        .filter(|x| *x != ErrorKind::Interrupted || k == ErrorKind::Interrupted);
                    if expected.next() == Some(k) {
                        while raised.get(reported.len()).is_some_and(|x| *x != k) {
                            reported.push(ErrorKind::Interrupted);
                        }
                        reported.push(k);
                        if script.borrow().events.get(script.borrow().at).is_some_and(|e| matches!(e, Ev::FailForever(_))) {
                            forever += 1;
                            if forever > 3 {
                                // A definitive failure: what was delivered is a prefix.
                                return if want.as_bytes().starts_with(&got) {
                                    Ok(())
                                } else {
                                    Err(diff(&String::from_utf8_lossy(&got), &want))
                                };
                            }
                        }
                    } else if !is_valid && k == ErrorKind::InvalidData {
                        utf8_error = true;
                        break;
                    } else {
                        return Err(format!("error {k:?} reported, the source raised {raised:?}"));
                    }
                }
            }
            if !want.as_bytes().starts_with(&got) {
                break;
            }
            if i > 100_000 {
                return Err("endless".into());
            }
        }
        let raised = script.borrow().raised.clone();
        let strip = |v: &[ErrorKind]| v.iter().copied().filter(|k| *k != ErrorKind::Interrupted).collect::<Vec<_>>();
        if !utf8_error && strip(&raised) != strip(&reported) {
            return Err(format!("the source raised {raised:?}, {reported:?} was reported"));
        }
    }
    if !want.as_bytes().starts_with(&got) {
        return Err(diff(&String::from_utf8_lossy(&got), &want));
    }
    if is_valid {
        if got != want.as_bytes() {
            return Err(format!("truncated: {}", diff(&String::from_utf8_lossy(&got), &want)));
        }
    } else if !utf8_error {
        return Err("invalid UTF-8 ended in success".into());
    }
    Ok(())
}

pub fn explore_j03(ctx: &Ctx) {
    let t = ctx.thorough();
    let bufs = ["1", "2", "3", "64", "1,64", "5,1"];
    // 1. Temporary errors at every read of every chunking: one error (all kinds), or two, or three.
    for text in SHORT.iter().filter(|s| s.len() <= if t { 9 } else { 8 }) {
        let n = text.len();
        let h = hex(text.as_bytes());
        let cuts = 1usize << n.saturating_sub(1);
        for (fam, errors) in [("one-error", 1usize), ("two-errors", 2), ("three-errors", 3)] {
            let kinds: &[&str] = match errors {
                1 => &["interrupted", "wouldblock", "timedout", "reset", "eof", "data", "other", "broken"],
                _ => &["interrupted", "wouldblock", "other"],
            };
            let combos = kinds.len().pow(errors as u32);
            let places = (n + 1).pow(errors as u32);
            ctx.product(fam, &[cuts, places, combos], |d, e| {
                let chunks = composition(n, d[0] as u64);
                // places must not decrease (each multiset of places is explored once)
                let mut at = vec![];
                let mut x = d[1];
                for _ in 0..errors {
                    at.push(x % (n + 1));
                    x /= n + 1;
                }
                if at.windows(2).any(|w| w[0] > w[1]) || at.iter().any(|a| *a > chunks.len()) {
                    return;
                }
                let mut ev: Vec<String> = vec![];
                for i in 0..=chunks.len() {
                    let mut x = d[2];
                    for a in &at {
                        let k = kinds[x % kinds.len()];
                        x /= kinds.len();
                        if *a == i {
                            ev.push(k.to_owned());
                        }
                    }
                    if let Some(c) = chunks.get(i) {
                        ev.push(c.to_string());
                    }
                }
                let ev = ev.join(",");
                e.nontrivial();
                for b in bufs {
                    if errors > 1 && !t && (b == "2" || b == "5,1") {
                        continue;
                    }
                    e.transition();
                    e.case(&[&h, &ev, b]);
                }
            });
        }
        ctx.product("error-forever", &[cuts, n + 1, 8], |d, e| {
            let chunks = composition(n, d[0] as u64);
            if d[1] > chunks.len() {
                return;
            }
            let mut ev: Vec<String> = chunks[..d[1]].iter().map(|c| c.to_string()).collect();
            ev.push(format!("!{}", KINDS[d[2]].0));
            let ev = ev.join(",");
            e.nontrivial();
            for b in bufs {
                e.transition();
                e.case(&[&h, &ev, b]);
            }
        });
        ctx.product("read_to_end", &[cuts, n + 1, n + 1, 9], |d, e| {
            let chunks = composition(n, d[0] as u64);
            if d[1] > d[2] || d[2] > chunks.len() {
                return;
            }
            let kinds = ["interrupted", "wouldblock", "other"];
            let mut ev: Vec<String> = vec![];
            for i in 0..=chunks.len() {
                if d[1] == i {
                    ev.push(kinds[d[3] % 3].to_owned());
                }
                if d[2] == i {
                    ev.push(kinds[d[3] / 3].to_owned());
                }
                if let Some(c) = chunks.get(i) {
                    ev.push(c.to_string());
                }
            }
            e.nontrivial();
            e.case(&[&h, &ev.join(","), ""]);
        });
    }
    // 2. Every sequence of interesting bytes (most of them aren't UTF-8).
    let bytes: &[u8] = &[
        b'a', b'"', b' ', 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff,
    ];
    for len in 1..=if t { 5 } else { 4 } {
        ctx.sequences("bytes", bytes.len(), len, |d, e| {
            let b: Vec<u8> = d.iter().map(|i| bytes[*i]).collect();
            let h = hex(&b);
            if std::str::from_utf8(&b).is_err() {
                e.nontrivial();
            }
            for (ev, bu) in [("", "64"), ("1,1,1,1,1,1", "64"), ("", "1"), ("2,2,2", "2"), ("1,interrupted,1,wouldblock,1,other,1", "3")] {
                e.transition();
                e.case(&[&h, ev, bu]);
            }
        });
    }
    // All the pairs of bytes, alone, after a character and before one.
    ctx.product("byte-pairs", &[256, 256, 4], |d, e| {
        let mut b = vec![d[0] as u8, d[1] as u8];
        match d[2] {
            1 => b.insert(0, b'['),
            2 => b.extend_from_slice(b"\" ]"),
            3 => b.splice(0..0, *b"\"\xe2\x82\xac ").for_each(drop),
            _ => {}
        }
        let h = hex(&b);
        if std::str::from_utf8(&b).is_err() {
            e.nontrivial();
        }
        for (ev, bu) in [("", "64"), ("1", "1"), ("2", "3")] {
            e.transition();
            e.case(&[&h, ev, bu]);
        }
    });
    // Every lead byte pair with all the third bytes (3- and 4-byte characters).
    ctx.product("byte-triples", &[0x30, 256, 8], |d, e| {
        let third = [0x00u8, 0x22, 0x7f, 0x80, 0xa0, 0xbf, 0xc2, 0xff][d[2]];
        for tail in ["", "80", "bf", "20", "8022", "c2"] {
            let h = format!("22{:02x}{:02x}{:02x}{}", 0xd0 + d[0].min(0x2f), d[1], third, tail);
            e.nontrivial();
            e.transition();
            e.case(&[&h, "", "64"]);
            e.case(&[&h, "2,1", "1"]);
        }
    });
    // A longer text with one or two faults at any byte, whatever the sizes.
    let long = "{ \"k\u{e9}y \\\" \" : [ 1, \"\u{20ac}\\\\\", true ],\r\n \"\u{1f600} \" : { } }";
    let h = hex(long.as_bytes());
    let n = long.len();
    ctx.product("fault-positions", &[n + 1, KINDS.len(), 2, 6, 4], |d, e| {
        let ev = match d[4] {
            0 => format!("{},{}{}", d[0], if d[2] == 1 { "!" } else { "" }, KINDS[d[1]].0),
            // after one-byte reads
            1 => format!("{}{}{}", "1,".repeat(d[0]), if d[2] == 1 { "!" } else { "" }, KINDS[d[1]].0),
            2 => format!("{},{},1,wouldblock,1,interrupted", d[0], KINDS[d[1]].0),
            _ => format!("{},{},{},{}", d[0], KINDS[d[1]].0, KINDS[d[1]].0, KINDS[(d[1] + 1) % 8].0),
        };
        let ev = ev.trim_start_matches("0,");
        e.nontrivial();
        e.case(&[&h, ev, ["1", "3", "4", "16", "4096", "4,1,64"][d[3]]]);
    });
    // The source stops, or is cut by a bad byte, at any byte of a longer text.
    ctx.product("truncated", &[n, 9, 3, 4], |d, e| {
        let mut b = long.as_bytes()[..d[0]].to_vec();
        match d[1] {
            0 => {}
            1 => b.push(0xff),
            2 => b.push(0xe2),
            3 => b.extend_from_slice(&[0xe2, 0x82]),
            4 => b.extend_from_slice(&[0xf0, 0x9f, 0x98]),
            5 => b.extend_from_slice(&[0xe2, 0x82, b'"', b' ']),
            6 => b.extend_from_slice(&[0xed, 0xa0, 0x80]),
            7 => b.push(0x80),
            _ => b.extend_from_slice(&[0xc3]),
        }
        e.nontrivial();
        e.case(&[&hex(&b), ["", "1", "3,other,1"][d[2]], ["1", "3", "64", "4096"][d[3]]]);
    });
    // Faults around the round sizes.
    let text = format!("[ {} \"z \" ]", "\" \u{20ac}\\\"x \" ,\n  12345 , ".repeat(if t { 600 } else { 300 }));
    let th = hex(text.as_bytes());
    let at: Vec<usize> = sizes(200, text.len() + 3);
    ctx.product("fault-sizes", &[at.len(), 3, 4], |d, e| {
        let k = ["wouldblock", "interrupted", "!other"][d[1]];
        e.nontrivial();
        e.case(&[&th, &format!("{},{}", at[d[0]].max(1), k), ["64", "1000", "4096", "100000"][d[2]]]);
    });
}
