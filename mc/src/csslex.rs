//! A tokenizer for CSS (CSS Syntax Level 3) and a canonical form which tells which white space
//! matters. Written from the specification, independently of the code under test.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Ident,
    Function,
    At,
    Hash,
    Str,
    BadStr,
    Url,
    BadUrl,
    Num,
    Ws,
    Comment,
    License,
    Cdo,
    Cdc,
    Delim,
    Colon,
    Semi,
    Comma,
    LBracket,
    RBracket,
    LParen,
    RParen,
    LBrace,
    RBrace,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Tok<'a> {
    pub k: K,
    pub text: &'a str,
    /// The end of the source was reached inside of the token.
    pub unclosed: bool,
}

fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{c}')
}
fn name_start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || c as u32 >= 0x80
}
fn name_char(c: char) -> bool {
    name_start(c) || c.is_ascii_digit() || c == '-'
}

struct Lex<'a> {
    s: &'a str,
    i: usize,
}

impl<'a> Lex<'a> {
    fn at(&self, n: usize) -> Option<char> {
        self.s[self.i..].chars().nth(n)
    }
    fn peek(&self) -> Option<char> {
        self.s[self.i..].chars().next()
    }
    fn bump(&mut self) -> Option<char> {
        let c = self.peek()?;
        self.i += c.len_utf8();
        Some(c)
    }
    fn valid_escape(&self, n: usize) -> bool {
        self.at(n) == Some('\\') && !matches!(self.at(n + 1), Some('\n' | '\r' | '\u{c}'))
    }
    fn starts_ident(&self) -> bool {
        match self.peek() {
            Some('-') => {
                self.at(1).is_some_and(|c| name_start(c) || c == '-') || self.valid_escape(1)
            }
            Some(c) if name_start(c) => true,
            Some('\\') => self.valid_escape(0),
            _ => false,
        }
    }
    fn starts_number(&self) -> bool {
        let digit = |n| self.at(n).is_some_and(|c: char| c.is_ascii_digit());
        match self.peek() {
            Some('+' | '-') => digit(1) || (self.at(1) == Some('.') && digit(2)),
            Some('.') => digit(1),
            Some(c) => c.is_ascii_digit(),
            None => false,
        }
    }
    fn escape(&mut self) {
        self.bump(); // the backslash
        let mut n = 0;
        while n < 6 && self.peek().is_some_and(|c| c.is_ascii_hexdigit()) {
            self.bump();
            n += 1;
        }
        if n > 0 {
            if self.peek() == Some('\r') && self.at(1) == Some('\n') {
                self.bump();
                self.bump();
            } else if self.peek().is_some_and(is_ws) {
                self.bump();
            }
        } else {
            self.bump();
        }
    }
    fn name(&mut self) {
        loop {
            if self.peek().is_some_and(name_char) {
                self.bump();
            } else if self.valid_escape(0) {
                self.escape();
            } else {
                break;
            }
        }
    }
    fn digits(&mut self) {
        while self.peek().is_some_and(|c| c.is_ascii_digit()) {
            self.bump();
        }
    }
    fn number(&mut self) {
        if matches!(self.peek(), Some('+' | '-')) {
            self.bump();
        }
        self.digits();
        if self.peek() == Some('.') && self.at(1).is_some_and(|c| c.is_ascii_digit()) {
            self.bump();
            self.digits();
        }
        if matches!(self.peek(), Some('e' | 'E')) {
            let d = |n| self.at(n).is_some_and(|c: char| c.is_ascii_digit());
            if d(1) {
                self.bump();
                self.digits();
            } else if matches!(self.at(1), Some('+' | '-')) && d(2) {
                self.bump();
                self.bump();
                self.digits();
            }
        }
        if self.starts_ident() {
            self.name();
        } else if self.peek() == Some('%') {
            self.bump();
        }
    }

    fn next(&mut self) -> Option<Tok<'a>> {
        let start = self.i;
        let c = self.peek()?;
        let mut unclosed = false;
        let k = if self.s[self.i..].starts_with("/*") {
            let body = &self.s[self.i + 2..];
            let license = body.starts_with('!') || (body.starts_with('*') && !body.starts_with("*/"));
            match body.find("*/") {
                // In `/*!` and `/**`, the third character belongs to the opening.
                Some(_) if license => {
                    match body[1..].find("*/") {
                        Some(e) => self.i += 2 + 1 + e + 2,
                        None => {
                            self.i = self.s.len();
                            unclosed = true;
                        }
                    }
                }
                Some(e) => self.i += 2 + e + 2,
                None => {
                    self.i = self.s.len();
                    unclosed = true;
                }
            }
            if license {
                K::License
            } else {
                K::Comment
            }
        } else if is_ws(c) {
            while self.peek().is_some_and(is_ws) {
                self.bump();
            }
            K::Ws
        } else if c == '"' || c == '\'' {
            self.bump();
            loop {
                match self.bump() {
                    None => {
                        unclosed = true;
                        break K::Str;
                    }
                    Some(x) if x == c => break K::Str,
                    Some('\n' | '\r' | '\u{c}') => {
                        self.i -= 1;
                        break K::BadStr;
                    }
                    Some('\\') => {
                        self.i -= 1;
                        if self.s[self.i..].starts_with("\\\r\n") {
                            self.i += 3;
                        } else if self.at(1).is_none() {
                            self.bump();
                        } else {
                            self.escape();
                        }
                    }
                    _ => {}
                }
            }
        } else if c == '#' {
            self.bump();
            if self.peek().is_some_and(name_char) || self.valid_escape(0) {
                self.name();
                K::Hash
            } else {
                K::Delim
            }
        } else if self.starts_number() {
            self.number();
            K::Num
        } else if self.s[self.i..].starts_with("-->") {
            self.i += 3;
            K::Cdc
        } else if self.s[self.i..].starts_with("<!--") {
            self.i += 4;
            K::Cdo
        } else if self.starts_ident() {
            self.name();
            if self.peek() == Some('(') {
                let is_url = self.s[start..self.i].eq_ignore_ascii_case("url");
                self.bump();
                let after_ws = self.s[self.i..].trim_start_matches(is_ws);
                if is_url && !after_ws.starts_with(['"', '\'']) {
                    let (k, u) = self.url();
                    unclosed = u;
                    k
                } else {
                    K::Function
                }
            } else {
                K::Ident
            }
        } else if c == '@' {
            self.bump();
            if self.starts_ident() {
                self.name();
                K::At
            } else {
                K::Delim
            }
        } else {
            self.bump();
            match c {
                ':' => K::Colon,
                ';' => K::Semi,
                ',' => K::Comma,
                '[' => K::LBracket,
                ']' => K::RBracket,
                '(' => K::LParen,
                ')' => K::RParen,
                '{' => K::LBrace,
                '}' => K::RBrace,
                _ => K::Delim,
            }
        };
        Some(Tok {
            k,
            text: &self.s[start..self.i],
            unclosed,
        })
    }

    fn url(&mut self) -> (K, bool) {
        while self.peek().is_some_and(is_ws) {
            self.bump();
        }
        loop {
            match self.peek() {
                None => return (K::Url, true),
                Some(')') => {
                    self.bump();
                    return (K::Url, false);
                }
                Some(c) if is_ws(c) => {
                    while self.peek().is_some_and(is_ws) {
                        self.bump();
                    }
                    if self.peek() == Some(')') {
                        self.bump();
                        return (K::Url, false);
                    }
                    if self.peek().is_none() {
                        return (K::Url, true);
                    }
                    break;
                }
                Some('"' | '\'' | '(') => break,
                Some('\\') => {
                    if self.valid_escape(0) {
                        self.escape();
                    } else {
                        break;
                    }
                }
                Some(c) if (c as u32) < 9 || c == '\u{b}' || c == '\u{7f}' || ('\u{e}'..='\u{1f}').contains(&c) => break,
                _ => {
                    self.bump();
                }
            }
        }
        // bad url
        loop {
            match self.peek() {
                None => return (K::BadUrl, true),
                Some(')') => {
                    self.bump();
                    return (K::BadUrl, false);
                }
                _ if self.valid_escape(0) => self.escape(),
                _ => {
                    self.bump();
                }
            }
        }
    }
}

pub fn lex(s: &str) -> Vec<Tok<'_>> {
    let mut l = Lex { s, i: 0 };
    let mut v = Vec::new();
    while let Some(t) = l.next() {
        v.push(t);
    }
    v
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Gap {
    None,
    Comment,
    Ws,
}

/// What a gap means.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sig {
    /// Nothing: it can be there or not.
    Free,
    /// White space or not: two meanings (a comment is no white space).
    Exact,
    /// Between two words: what is there stays, a comment can become a space.
    Word,
}

#[derive(Clone, Debug)]
pub struct Item<'a> {
    pub k: K,
    pub text: &'a str,
    /// Joined with the previous one (An+B).
    pub glued: bool,
    pub gap: Gap,
    pub sig: Sig,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum C {
    Selector,
    Prelude,
    Value,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum P {
    Attr,
    Nth,
    Paren,
}

fn sig(c: C, stack: &[P], l: Option<&Tok<'_>>, r: &Tok<'_>) -> Sig {
    let Some(l) = l else { return Sig::Free };
    let delim = |t: &Tok<'_>, c: &str| t.k == K::Delim && t.text == c;
    let always = |k: K| matches!(k, K::Semi | K::LBrace | K::RBrace | K::Comma | K::Cdo | K::Cdc);
    if always(l.k) || always(r.k) {
        return Sig::Free;
    }
    let opens = matches!(l.k, K::LParen | K::Function | K::LBracket);
    let closes = matches!(r.k, K::RParen | K::RBracket);
    if opens || closes {
        return Sig::Free;
    }
    if c == C::Selector {
        return match stack.last() {
            Some(P::Attr) => {
                let word = |k| matches!(k, K::Ident | K::Str | K::Num);
                if word(l.k) && word(r.k) {
                    Sig::Word
                } else {
                    Sig::Free
                }
            }
            Some(P::Nth) => {
                if l.text.ends_with(['+', '-']) || r.text.starts_with(['+', '-']) {
                    Sig::Free
                } else if l.k == K::Num || l.k == K::Ident {
                    Sig::Exact
                } else {
                    selector_gap(l, r)
                }
            }
            _ => selector_gap(l, r),
        };
    }
    if l.k == K::Colon || r.k == K::Colon || l.k == K::At {
        return Sig::Free;
    }
    for d in ["!", "/", "*", "=", ">", "<"] {
        if delim(l, d) || delim(r, d) {
            return Sig::Free;
        }
    }
    if delim(l, "+") || r.text.starts_with('+') {
        return if stack.is_empty() { Sig::Free } else { Sig::Exact };
    }
    if delim(l, "-") || delim(r, "-") {
        return Sig::Exact;
    }
    if matches!(l.k, K::RParen | K::RBracket | K::Str | K::Url) && matches!(r.k, K::LParen | K::LBracket) {
        return Sig::Free;
    }
    Sig::Word
}

fn selector_gap(l: &Tok<'_>, r: &Tok<'_>) -> Sig {
    let ends = matches!(l.k, K::Ident | K::Hash | K::RParen | K::RBracket | K::Num)
        || (l.k == K::Delim && matches!(l.text, "*" | "&"));
    let starts = matches!(r.k, K::Ident | K::Hash | K::Colon | K::LBracket | K::Num)
        || (r.k == K::Delim && matches!(r.text, "." | "*" | "&" | "|"));
    if ends && starts {
        Sig::Exact
    } else {
        Sig::Free
    }
}

/// The tokens without the comments, each with the meaning of the gap before it.
pub fn canonical(s: &str) -> Vec<Item<'_>> {
    let toks = lex(s);
    let mut out: Vec<Item<'_>> = Vec::with_capacity(toks.len());
    // 1. The context of each token: what kind of statement it belongs to.
    let mut ctx = vec![C::Value; toks.len()];
    let mut start = 0;
    let mut depth = 0usize;
    let mut at = false;
    let mut first = true;
    for (i, t) in toks.iter().enumerate() {
        match t.k {
            K::Ws | K::Comment | K::License => continue,
            K::At if first => at = true,
            K::LParen | K::Function | K::LBracket => depth += 1,
            K::RParen | K::RBracket => depth = depth.saturating_sub(1),
            K::Semi | K::LBrace | K::RBrace if depth == 0 || t.k != K::Semi => {
                let c = if at {
                    C::Prelude
                } else if t.k == K::LBrace {
                    C::Selector
                } else {
                    C::Value
                };
                ctx[start..=i].fill(c);
                start = i + 1;
                depth = 0;
                at = false;
                first = true;
                continue;
            }
            _ => {}
        }
        first = false;
    }
    let c = if at { C::Prelude } else { C::Value };
    ctx[start..].fill(c);
    // 2. The gaps.
    let mut gap = Gap::None;
    let mut last: Option<Tok<'_>> = None;
    let mut stack: Vec<P> = Vec::new();
    for (t, c) in toks.iter().zip(ctx) {
        match t.k {
            K::Ws => {
                gap = Gap::Ws;
                continue;
            }
            K::Comment => {
                if gap == Gap::None {
                    gap = Gap::Comment;
                }
                continue;
            }
            // A license is an item of its own, and what is around it is still a gap.
            K::License => {
                out.push(Item {
                    k: t.k,
                    text: t.text,
                    glued: false,
                    gap: Gap::None,
                    sig: Sig::Free,
                });
                if gap == Gap::None {
                    gap = Gap::Comment;
                }
                continue;
            }
            _ => {}
        }
        let g = sig(c, &stack, last.as_ref(), t);
        let glued = c == C::Selector
            && stack.last() == Some(&P::Nth)
            && g == Sig::Free
            && !matches!(t.k, K::RParen)
            && !last.as_ref().is_some_and(|l| l.k == K::Function);
        match t.k {
            K::LParen => stack.push(P::Paren),
            K::Function => stack.push(if c == C::Selector && t.text.to_ascii_lowercase().starts_with("nth-") {
                P::Nth
            } else {
                P::Paren
            }),
            K::LBracket => stack.push(P::Attr),
            K::RParen | K::RBracket => {
                stack.pop();
            }
            K::LBrace | K::RBrace => stack.clear(),
            _ => {}
        }
        out.push(Item {
            k: t.k,
            text: t.text,
            glued,
            gap,
            sig: g,
        });
        gap = Gap::None;
        last = Some(*t);
    }
    out
}

fn url_body(t: &str) -> &str {
    let b = &t[t.find('(').map_or(0, |p| p + 1)..];
    b.strip_suffix(')').unwrap_or(b).trim_matches(is_ws)
}

fn license_body(t: &str) -> &str {
    t[3..].strip_suffix("*/").unwrap_or(&t[3..])
}

fn same(a: &Item<'_>, b: &Item<'_>) -> bool {
    if a.k != b.k {
        return false;
    }
    match a.k {
        // The white space which ends an escape can't be seen as a part of the url.
        K::Url => url_body(a.text) == url_body(b.text) || a.text == b.text,
        K::License => license_body(a.text) == license_body(b.text),
        _ => a.text == b.text || (a.text.contains('\\') && decode(a.text) == decode(b.text)),
    }
}

/// The characters of an identifier, escapes decoded (invalid ones as they are).
fn decode(text: &str) -> Vec<u32> {
    let mut l = Lex { s: text, i: 0 };
    let mut v = Vec::new();
    while let Some(c) = l.peek() {
        if c != '\\' || !l.valid_escape(0) {
            v.push(c as u32);
            l.bump();
            continue;
        }
        let start = l.i + 1;
        l.escape();
        let body = &text[start..l.i];
        match u32::from_str_radix(body.trim_end_matches(is_ws), 16) {
            // Far from the real characters: an escaped `+` is no `+`.
            Ok(n) => v.push(0x8000_0000 | n),
            Err(_) => v.extend(body.chars().map(|c| 0x8000_0000 | c as u32)),
        }
    }
    v
}

/// Compares what was given with what came out.
pub fn equivalent(input: &str, output: &str) -> Result<(), String> {
    let a = canonical(input);
    let b = canonical(output);
    if lex(output).iter().any(|t| t.k == K::Comment) {
        return Err(format!("a comment was kept: {output:?}"));
    }
    let mut i = 0;
    let mut j = 0;
    loop {
        let (Some(x), Some(y)) = (a.get(i), b.get(j)) else {
            return match (a.get(i), b.get(j)) {
                (None, None) => Ok(()),
                (Some(x), _) => Err(format!("token {:?} was lost: {output:?}", x.text)),
                (_, Some(y)) => Err(format!("token {:?} appeared: {output:?}", y.text)),
            };
        };
        // An+B: only the text matters.
        let (mut ni, mut nj) = (i + 1, j + 1);
        while a.get(ni).is_some_and(|t| t.glued) {
            ni += 1;
        }
        while b.get(nj).is_some_and(|t| t.glued) {
            nj += 1;
        }
        let same_text = if ni - i > 1 || nj - j > 1 {
            a[i..ni].iter().flat_map(|t| t.text.chars()).eq(b[j..nj].iter().flat_map(|t| t.text.chars()))
        } else {
            same(x, y)
        };
        if !same_text {
            return Err(format!("token {:?} became {:?}: {output:?}", x.text, y.text));
        }
        let ok = match x.sig {
            Sig::Free => true,
            Sig::Exact => (x.gap == Gap::Ws) == (y.gap == Gap::Ws),
            Sig::Word => x.gap == Gap::Comment || (x.gap == Gap::Ws) == (y.gap == Gap::Ws),
        };
        if !ok {
            return Err(format!(
                "the white space before {:?} {}: {output:?}",
                x.text,
                if x.gap == Gap::Ws { "was lost" } else { "wasn't there" }
            ));
        }
        i = ni;
        j = nj;
    }
}

/// Refuses an output with white space which means nothing. Where some can stay: after an at-keyword,
/// beside square brackets, around `*` and `<`, before `!`, in `calc()`, before the colons
/// directly in the block of an at-rule.
pub fn wasted(output: &str) -> Result<(), String> {
    let toks = lex(output);
    for (i, t) in toks.iter().enumerate() {
        if t.k != K::Ws {
            continue;
        }
        let license = i > 0 && toks[i - 1].k == K::License;
        let want = if license { "\n" } else { " " };
        if t.text != want {
            return Err(format!("white space {:?} instead of {want:?}: {output:?}", t.text));
        }
        if i == 0 || (i + 1 == toks.len() && !license) {
            return Err(format!("white space around the whole: {output:?}"));
        }
    }
    let items = canonical(output);
    let mut stack: Vec<bool> = Vec::new();
    let mut blocks: Vec<bool> = Vec::new();
    let mut at = false;
    let mut first = true;
    for (i, r) in items.iter().enumerate() {
        let delim = |t: &Item<'_>, d: &str| t.k == K::Delim && t.text == d;
        if r.gap == Gap::Ws && r.sig == Sig::Free && i > 0 && !stack.contains(&true) {
            let l = &items[i - 1];
            // `@0x` isn't an at-keyword, but looks like one.
            let at = i > 1 && l.gap == Gap::None && delim(&items[i - 2], "@");
            if !at && !matches!(l.k, K::License | K::At | K::RBracket) && r.k != K::LBracket && !delim(l, "*") && !delim(r, "*") && !delim(r, "!") && !delim(l, "<") && !delim(r, "<") && !(r.k == K::Colon && blocks == [true]) {
                return Err(format!("useless white space between {:?} and {:?}: {output:?}", l.text, r.text));
            }
        }
        match r.k {
            K::LParen => stack.push(false),
            K::Function => stack.push(r.text == "calc(" || (r.text.contains('\\') && r.text.ends_with("calc("))),
            K::RParen => {
                stack.pop();
            }
            K::LBrace | K::RBrace => stack.clear(),
            _ => {}
        }
        match r.k {
            K::License => continue,
            K::At if first => at = true,
            K::LBrace => blocks.push(at),
            K::RBrace => {
                blocks.pop();
            }
            _ => {}
        }
        first = matches!(r.k, K::LBrace | K::RBrace | K::Semi);
        at &= !first;
    }
    Ok(())
}

/// What makes `css::minify` fail.
pub fn expected_error(s: &str) -> bool {
    let mut braces = 0i64;
    let mut bracket = false;
    for t in lex(s) {
        match t.k {
            K::Str | K::Comment | K::License if t.unclosed => return true,
            K::LBrace => braces += 1,
            K::RBrace => {
                braces -= 1;
                if braces < 0 {
                    return true;
                }
            }
            K::LBracket => {
                if bracket {
                    return true;
                }
                bracket = true;
            }
            K::RBracket => {
                if !bracket {
                    return true;
                }
                bracket = false;
            }
            _ => {}
        }
    }
    false
}
