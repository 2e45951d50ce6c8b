//! Lexical grammar of JavaScript (ECMAScript 2024), guided by the tokens which are expected: at
//! each position, the longest lexical element must be the expected token. Written from the
//! specification, independently of the code under test.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Word,
    Num,
    /// Strings and templates.
    Str,
    Regex,
    Punct,
    Hashbang,
}

pub const PUNCTUATORS: &[&str] = &[
    ">>>=", "...", "===", "!==", "**=", "<<=", ">>=", ">>>", "&&=", "||=", "??=", "=>", "==", "!=", "<=", ">=", "&&", "||", "??", "?.", "++", "--", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=",
    "<<", ">>", "**", "{", "}", "(", ")", "[", "]", ";", ",", "<", ">", "+", "-", "*", "/", "%", "&", "|", "^", "!", "~", "?", ":", "=", ".", "@",
];

pub fn is_newline(c: char) -> bool {
    matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}')
}
pub fn is_space(c: char) -> bool {
    matches!(c, '\t' | '\u{b}' | '\u{c}' | ' ' | '\u{a0}' | '\u{feff}' | '\u{1680}' | '\u{2000}'..='\u{200a}' | '\u{202f}' | '\u{205f}' | '\u{3000}')
}
pub fn ident_start(c: char) -> bool {
    c == '$' || c == '_' || c == '\\' || c.is_alphabetic()
}
pub fn ident_part(c: char) -> bool {
    ident_start(c) || c.is_numeric() || c == '\u{200c}' || c == '\u{200d}'
}

pub fn kind(t: &str) -> K {
    let mut it = t.chars();
    let c = it.next().expect("a token");
    match c {
        '"' | '\'' | '`' => K::Str,
        '/' if t.len() > 2 => K::Regex,
        '#' if t.starts_with("#!") => K::Hashbang,
        '#' => K::Word,
        c if c.is_ascii_digit() => K::Num,
        '.' if it.next().is_some_and(|c| c.is_ascii_digit()) => K::Num,
        c if ident_start(c) => K::Word,
        _ => K::Punct,
    }
}

fn number_len(s: &str) -> usize {
    let b = s.as_bytes();
    let digits = |mut i: usize, f: fn(&u8) -> bool| {
        while i < b.len() && (f(&b[i]) || b[i] == b'_') {
            i += 1;
        }
        i
    };
    if b[0] == b'0' && b.len() > 1 && matches!(b[1], b'x' | b'X' | b'o' | b'O' | b'b' | b'B') {
        let i = digits(2, u8::is_ascii_hexdigit);
        return if b.get(i) == Some(&b'n') { i + 1 } else { i };
    }
    let mut i = digits(0, u8::is_ascii_digit);
    if b.get(i) == Some(&b'n') {
        return i + 1;
    }
    // Legacy octal numbers have no fraction.
    if i > 1 && b[0] == b'0' && b[1..i].iter().all(|c| (b'0'..=b'7').contains(c)) {
        return i;
    }
    if b.get(i) == Some(&b'.') {
        i = digits(i + 1, u8::is_ascii_digit);
    }
    if matches!(b.get(i), Some(b'e' | b'E')) {
        let j = if matches!(b.get(i + 1), Some(b'+' | b'-')) { i + 2 } else { i + 1 };
        if b.get(j).is_some_and(u8::is_ascii_digit) {
            i = digits(j, u8::is_ascii_digit);
        }
    }
    i
}

/// The length of the regex (flags not included) which starts `s`.
fn regex_len(s: &str) -> Option<usize> {
    let mut class = false;
    let mut it = s.char_indices().skip(1);
    while let Some((i, c)) = it.next() {
        match c {
            '\\' => {
                it.next();
            }
            '[' => class = true,
            ']' => class = false,
            '/' if !class => return Some(i + 1),
            c if is_newline(c) => return None,
            _ => {}
        }
    }
    None
}

/// Checks that the lexical element at the start of `s` is `want`, and returns its length.
pub fn token_at(s: &str, want: &str) -> Result<usize, String> {
    let wrong = || Err(format!("{:?} expected at {:?}", want, s.chars().take(20).collect::<String>()));
    let k = kind(want);
    if k == K::Regex {
        let Some(n) = regex_len(want) else { return Err(format!("bad regex {want:?}")) };
        if !s.starts_with(&want[..n]) {
            return wrong();
        }
        let flags: String = s[n..].chars().take_while(|c| ident_part(*c)).collect();
        let norm = |f: &str| {
            let mut v: Vec<char> = f.chars().collect();
            v.sort_unstable();
            v.dedup();
            v
        };
        if norm(&flags) != norm(&want[n..]) {
            return wrong();
        }
        return Ok(n + flags.len());
    }
    if !s.starts_with(want) {
        return wrong();
    }
    let n = want.len();
    let after = s[n..].chars().next();
    let ok = match k {
        K::Str | K::Regex => true,
        K::Hashbang => after.is_none_or(is_newline),
        K::Word => !after.is_some_and(ident_part),
        K::Num => number_len(s) == n && !after.is_some_and(|c| ident_start(c) || c.is_ascii_digit()),
        K::Punct => {
            let longer = PUNCTUATORS
                .iter()
                .take_while(|p| p.len() >= n)
                .any(|p| p.len() > n && p.as_bytes()[0] == s.as_bytes()[0] && s.starts_with(*p) && !(*p == "?." && s[2..].starts_with(|c: char| c.is_ascii_digit())));
            // `?.` before a digit isn't a punctuator.
            let whole = want != "?." || !after.is_some_and(|c| c.is_ascii_digit());
            !longer && whole && !(want == "." && after.is_some_and(|c| c.is_ascii_digit()))
        }
    };
    if ok {
        Ok(n)
    } else {
        wrong()
    }
}

#[derive(Default, Debug)]
pub struct Gap<'a> {
    pub licenses: Vec<&'a str>,
    /// Ordinary comments.
    pub comments: usize,
    pub newline: bool,
    /// White characters, all of them.
    pub white: String,
}

/// Skips the white space and comments at `s[i..]`.
pub fn gap_at<'a>(s: &'a str, mut i: usize) -> Result<(Gap<'a>, usize), String> {
    let mut g = Gap::default();
    loop {
        let rest = &s[i..];
        let Some(c) = rest.chars().next() else { return Ok((g, i)) };
        if is_newline(c) {
            g.newline = true;
            g.white.push(c);
            i += c.len_utf8();
        } else if is_space(c) {
            g.white.push(c);
            i += c.len_utf8();
        } else if rest.starts_with("//") {
            g.comments += 1;
            i += rest.find(is_newline).unwrap_or(rest.len());
        } else if rest.starts_with("/*") {
            let Some(e) = rest[2..].find("*/") else { return Err("unclosed comment".into()) };
            let text = &rest[..e + 4];
            if text.starts_with("/*!") {
                g.licenses.push(text);
            } else {
                g.comments += 1;
            }
            if text.contains(is_newline) {
                g.newline = true;
            }
            i += text.len();
        } else if rest.starts_with("<!--") || (rest.starts_with("-->") && (g.newline || i == 0)) {
            return Err("HTML-like comment".into());
        } else {
            return Ok((g, i));
        }
    }
}

/// Lexes `s`, whose tokens are supposed to be `want`. Returns the gaps: before each token, and at
/// the end.
pub fn gaps<'a, 't>(s: &'a str, want: impl Iterator<Item = &'t str>) -> Result<Vec<Gap<'a>>, String> {
    let mut i = 0;
    let mut v = Vec::new();
    for t in want {
        let (g, at) = if kind(t) == K::Hashbang { (Gap::default(), i) } else { gap_at(s, i)? };
        i = at + token_at(&s[at..], t)?;
        v.push(g);
    }
    let (g, at) = gap_at(s, i)?;
    if at != s.len() {
        return Err(format!("end of the source expected at {:?}", &s[at..].chars().take(20).collect::<String>()));
    }
    v.push(g);
    Ok(v)
}

/// No line break between those two tokens.
pub fn restricted(l: &str, r: &str) -> bool {
    matches!(l, "return" | "break" | "continue" | "throw" | "yield" | "async")
        || r == "=>"
        || (matches!(r, "++" | "--") && (matches!(l, ")" | "]" | "}") || kind(l) != K::Punct))
}
