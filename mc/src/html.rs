//! H01, H02: pages. The input and the output are read by the same small tokenizer, and reduced to a
//! canonical list of events. Pages are packed, many in a source: each part is a page, and parts are
//! separated by an element which is not used elsewhere.

use crate::engine::*;

fn white(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\x0c' | '\r')
}

#[derive(Debug, Clone, PartialEq)]
pub struct Attr {
    name: String,
    value: Option<String>,
    quote: Option<char>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Ev {
    Start(String, Vec<Attr>, bool),
    End(String),
    Text(String),
    Comment,
    /// `<!--[`
    Cond,
    /// its `-->`
    CondEnd,
    /// `<!--<![endif]-->`
    Revealed(String),
    Decl(String),
}

/// The end of the comment which starts `s`: of its text, and of itself.
fn comment_end(s: &str) -> Option<(usize, usize)> {
    for abrupt in ["<!-->", "<!--->"] {
        if s.starts_with(abrupt) {
            return Some((4, abrupt.len()));
        }
    }
    let end = s[4..].find("-->").map(|i| (i + 4, i + 7));
    let bang = s[4..].find("--!>").map(|i| (i + 4, i + 8));
    match (end, bang) {
        (Some(a), Some(b)) => Some(a.min(b)),
        (a, b) => a.or(b),
    }
}

/// A start tag: its events and its length.
fn start_tag(s: &str) -> Option<(Ev, usize)> {
    start_tag_within(s, 200).or_else(|| start_tag_within(s, usize::MAX))
}

fn start_tag_within(s: &str, max: usize) -> Option<(Ev, usize)> {
    let b: Vec<(usize, char)> = s.char_indices().take(max).collect();
    let at = |i: usize| b.get(i).map(|x| x.1);
    let mut i = 1;
    let mut name = String::new();
    while let Some(c) = at(i).filter(|c| !white(*c) && !matches!(c, '/' | '>')) {
        name.push(c);
        i += 1;
    }
    let mut attrs = Vec::new();
    loop {
        let mut slash = false;
        while let Some(c) = at(i).filter(|c| white(*c) || *c == '/') {
            slash = c == '/';
            i += 1;
        }
        if at(i)? == '>' {
            return Some((Ev::Start(name, attrs, slash), b[i].0 + 1));
        }
        let mut attr = String::new();
        while let Some(c) = at(i).filter(|c| !white(*c) && !matches!(c, '/' | '>')) {
            if c == '=' && !attr.is_empty() {
                break;
            }
            attr.push(c);
            i += 1;
        }
        let mut j = i;
        while at(j).is_some_and(white) {
            j += 1;
        }
        if at(j) != Some('=') {
            attrs.push(Attr {
                name: attr,
                value: None,
                quote: None,
            });
            continue;
        }
        i = j + 1;
        while at(i).is_some_and(white) {
            i += 1;
        }
        let mut value = String::new();
        let quote = at(i).filter(|c| matches!(c, '"' | '\''));
        match quote {
            Some(q) => {
                i += 1;
                loop {
                    let c = at(i)?;
                    i += 1;
                    if c == q {
                        break;
                    }
                    value.push(c);
                }
            }
            None => {
                while let Some(c) = at(i).filter(|c| !white(*c) && *c != '>') {
                    value.push(c);
                    i += 1;
                }
            }
        }
        attrs.push(Attr {
            name: attr,
            value: Some(value),
            quote,
        });
    }
}

/// The elements whose content is text.
fn is_raw(name: &str) -> bool {
    ["textarea", "title", "script", "style"].contains(&name.to_ascii_lowercase().as_str())
}

fn tokenize(s: &str, out: &mut Vec<Ev>) {
    let mut at = 0;
    let mut text = 0;
    let push_text = |out: &mut Vec<Ev>, from: usize, to: usize| {
        if from < to {
            out.push(Ev::Text(s[from..to].to_owned()));
        }
    };
    while let Some(n) = s[at..].find('<') {
        at += n;
        let rest = &s[at..];
        let next = rest[1..].chars().next();
        let mut raw = None;
        let (events, len) = if rest.starts_with("<!--") {
            let Some((body, end)) = comment_end(rest) else { break };
            let body = &rest[4..body];
            if body.trim_start_matches(white).starts_with('[') {
                let mut v = vec![Ev::Cond];
                tokenize(body, &mut v);
                v.push(Ev::CondEnd);
                (v, end)
            } else if body.trim_start_matches(white).starts_with("<![endif]") {
                (vec![Ev::Revealed(collapse(body))], end)
            } else {
                (vec![Ev::Comment], end)
            }
        } else if rest.starts_with("<!") {
            let Some(end) = rest.find('>') else { break };
            (vec![Ev::Decl(collapse(&rest[..end]))], end + 1)
        } else if next.is_some_and(|c| c.is_ascii_alphabetic()) {
            let Some((ev, len)) = start_tag(rest) else { break };
            if let Ev::Start(name, _, _) = &ev {
                if is_raw(name) {
                    raw = Some(name.to_ascii_lowercase());
                }
            }
            (vec![ev], len)
        } else if next == Some('/') && rest[2..].starts_with(|c: char| c.is_ascii_alphabetic()) {
            let Some((Ev::Start(name, _, _), len)) = start_tag(&rest[1..]) else { break };
            (vec![Ev::End(name)], len + 1)
        } else {
            at += 1;
            continue;
        };
        push_text(out, text, at);
        out.extend(events);
        at += len;
        text = at;
        if let Some(name) = raw {
            // Up to its end tag.
            let low = s[at..].to_ascii_lowercase();
            match low.find(&format!("</{name}")) {
                Some(n) => at += n,
                None => break,
            }
        }
    }
    push_text(out, text, s.len());
}

fn collapse(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    for c in s.chars() {
        let c = if white(c) { ' ' } else { c };
        if c != ' ' || !o.ends_with(' ') {
            o.push(c);
        }
    }
    o
}

/// Those which can be omitted.
const OPTIONAL_START: &[&str] = &["body", "head", "html", "tbody"];
const OPTIONAL_END: &[&str] = &[
    "area", "base", "body", "br", "col", "colgroup", "dd", "dt", "head", "hr", "html", "img", "input", "li", "link", "meta", "option", "param", "tbody", "td", "tfoot", "th", "thead", "tr", "basefont", "isindex",
];

fn is_default(element: &str, value: &str) -> bool {
    match (element, value.to_ascii_lowercase().as_str()) {
        ("style", "text/css") | ("script", "text/javascript" | "application/javascript") => true,
        _ => false,
    }
}

/// The events which must be kept, without those which can go. The texts between two of them are merged.
fn canonical(s: &str) -> Vec<Ev> {
    let mut all = Vec::new();
    tokenize(s, &mut all);
    let mut v: Vec<Ev> = Vec::new();
    let mut exact = 0usize;
    for mut ev in all {
        match &mut ev {
            Ev::Comment => continue,
            Ev::End(name) if OPTIONAL_END.contains(&name.to_ascii_lowercase().as_str()) => continue,
            Ev::Start(name, attrs, slash) => {
                let low = name.to_ascii_lowercase();
                if attrs.is_empty() && !*slash && OPTIONAL_START.contains(&low.as_str()) {
                    continue;
                }
                attrs.retain(|a| !(a.name == "type" && a.value.as_ref().is_some_and(|v| is_default(&low, v))));
                for a in attrs {
                    a.value = a.value.as_ref().map(|v| collapse(v));
                }
                if low == "pre" || low == "textarea" {
                    exact += 1;
                }
            }
            Ev::End(name) if ["pre", "textarea"].contains(&name.to_ascii_lowercase().as_str()) => exact = exact.saturating_sub(1),
            Ev::Text(t) => {
                if exact == 0 {
                    *t = collapse(t);
                }
                if let Some(Ev::Text(before)) = v.last_mut() {
                    if exact == 0 && before.ends_with(' ') && t.starts_with(' ') {
                        t.remove(0);
                    }
                    before.push_str(t);
                    continue;
                }
            }
            _ => {}
        }
        v.push(ev);
    }
    // The ends of the page.
    if let Some(Ev::Text(t)) = v.first_mut() {
        *t = t.trim_start_matches(white).to_owned();
    }
    if let Some(Ev::Text(t)) = v.last_mut() {
        if exact == 0 {
            *t = t.trim_end_matches(white).to_owned();
        }
    }
    v.retain(|e| !matches!(e, Ev::Text(t) if t.is_empty()));
    v
}

/// Markup in a text or in the value of an attribute is not in the domain.
pub fn in_domain(s: &str) -> bool {
    let mut v = Vec::new();
    tokenize(s, &mut v);
    let closed = v.iter().enumerate().all(|(i, e)| match e {
        Ev::Start(name, ..) if name.eq_ignore_ascii_case("pre") => v[i + 1..].iter().any(|e| matches!(e, Ev::End(n) if n.eq_ignore_ascii_case(name))),
        Ev::Start(name, ..) if is_raw(name) => v[i + 1..].iter().take(2).any(|e| matches!(e, Ev::End(n) if n.eq_ignore_ascii_case(name))),
        _ => true,
    });
    // The end of a conditional comment must not be made of what is around a removed tag.
    let mut cond = 0;
    let closed = closed
        && v.iter().all(|e| {
            match e {
                Ev::Cond => cond += 1,
                Ev::CondEnd => cond -= 1,
                Ev::Text(t) => return cond == 0 || !(t.starts_with(['-', '>']) || t.ends_with('-')),
                _ => {}
            }
            true
        });
    closed && v.iter().all(|e| match e {
        Ev::Text(t) => !t.char_indices().any(|(i, c)| c == '<' && !t[i + 1..].starts_with(white)),
        Ev::Decl(d) => !d[1..].contains('<'),
        Ev::Revealed(s) => s.trim() == "<![endif]",
        Ev::Start(name, ..) | Ev::End(name) if name.contains(['<', '"', '\'']) => false,
        // Raw text elements cannot be self-closed.
        Ev::Start(name, _, true) if is_raw(name) => false,
        Ev::Start(_, attrs, _) => attrs.iter().all(|a| {
            let v = a.value.as_deref().unwrap_or("");
            !v.contains(['<', '>']) && !a.name.contains(['<', '"', '\'']) && !(a.quote == Some('\'') && v.contains('"') && v.contains('='))
        }),
        _ => true,
    })
}

/// Can this value do without quotes?
fn unquotable(v: &str) -> bool {
    !v.is_empty() && !v.contains(|c: char| white(c) || matches!(c, '"' | '\'' | '`' | '=' | '<' | '>'))
}

fn compare(src: &str, out: &str) -> Result<(), String> {
    let (want, got) = (canonical(src), canonical(out));
    let mut all = Vec::new();
    tokenize(out, &mut all);
    if all.contains(&Ev::Comment) {
        return Err(format!("a comment was kept: {out:?}"));
    }
    if out.starts_with(white) || out.ends_with(white) {
        return Err(format!("white space at an end of {out:?}"));
    }
    for i in 0..want.len().max(got.len()) {
        let bad = || Err(format!("{:?} became {:?}: {out:?}", want.get(i), got.get(i)));
        match (want.get(i), got.get(i)) {
            (Some(Ev::Start(a, x, s)), Some(Ev::Start(b, y, t))) => {
                if a != b || s != t || x.len() != y.len() {
                    return bad();
                }
                for (x, y) in x.iter().zip(y) {
                    if x.name != y.name || x.value != y.value {
                        return bad();
                    }
                    let low = x.name.to_ascii_lowercase();
                    let can_go = (low.ends_with("width") || low.ends_with("height")) && unquotable(x.value.as_deref().unwrap_or(""));
                    if x.quote != y.quote && !(y.quote.is_none() && can_go) {
                        return Err(format!("the quotes of {x:?} became {y:?}: {out:?}"));
                    }
                }
            }
            (a, b) if a == b => {}
            _ => return bad(),
        }
    }
    Ok(())
}

pub fn judge(_family: &str, parts: &[&str]) -> Result<(), String> {
    let src = if parts.len() == 1 {
        parts[0].to_owned()
    } else {
        parts.join("<hr class=\"next\">")
    };
    compare(&src, &minifier::html::minify(&src))
}

/// What is left must be needed.
pub fn judge_h03(_family: &str, parts: &[&str]) -> Result<(), String> {
    let src = if parts.len() == 1 {
        parts[0].to_owned()
    } else {
        parts.join("<hr class=\"next\">")
    };
    let out = minifier::html::minify(&src);
    let around = |i: usize| {
        let (mut a, mut b) = (i.saturating_sub(30), (i + 30).min(out.len()));
        while !out.is_char_boundary(a) {
            a -= 1;
        }
        while !out.is_char_boundary(b) {
            b += 1;
        }
        out[a..b].to_owned()
    };
    let low = src.to_ascii_lowercase();
    if !low.contains("<pre") && !low.contains("<textarea") {
        let b = out.as_bytes();
        for i in 0..b.len() {
            if matches!(b[i], b'\n' | b'\r') {
                return Err(format!("a line break was kept: {:?}", around(i)));
            }
            if white(b[i] as char) && i > 0 && white(b[i - 1] as char) {
                return Err(format!("two white characters: {:?}", around(i)));
            }
        }
    }
    if out.starts_with(white) || out.ends_with(white) {
        return Err("white space at an end".to_owned());
    }
    for (tags, slash) in [(OPTIONAL_START, ""), (OPTIONAL_END, "/")] {
        for name in tags {
            if let Some(i) = out.find(&format!("<{slash}{name}>")) {
                return Err(format!("a tag was kept: {:?}", around(i)));
            }
        }
    }
    for (i, _) in out.match_indices('<') {
        if !out[i + 1..].starts_with(|c: char| c.is_ascii_alphabetic()) {
            continue;
        }
        let Some((_, len)) = start_tag(&out[i..]) else { continue };
        let tag = &out[i..i + len];
        if tag.ends_with("\" >") || tag.ends_with("' >") {
            return Err(format!("white space at the end of {tag:?}"));
        }
    }
    let mut all = Vec::new();
    tokenize(&out, &mut all);
    for ev in all {
        match ev {
            Ev::Comment => return Err("a comment was kept".to_owned()),
            Ev::Start(name, attrs, slash) => {
                for (i, a) in attrs.iter().enumerate() {
                    let Some(v) = &a.value else { continue };
                    if a.name == "type" && a.quote == Some('"') && is_default(&name, v) {
                        return Err(format!("the type of {name} was kept"));
                    }
                    if (a.name == "width" || a.name == "height") && a.quote == Some('"') && !(slash && i + 1 == attrs.len()) && !v.is_empty() && v.chars().all(|c| c.is_ascii_alphanumeric() || matches!(c, '-' | '_' | '.')) && out.contains(&format!("{}=\"{v}\"", a.name)) {
                        return Err(format!("the quotes of {a:?} were kept"));
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

/// Pages are judged together: if something is wrong, one by one.
struct Pack<'a, 'b> {
    e: &'a mut Emit<'b>,
    pages: Vec<String>,
    size: usize,
    max: usize,
}

impl<'a, 'b> Pack<'a, 'b> {
    fn new(e: &'a mut Emit<'b>) -> Self {
        Pack {
            e,
            pages: Vec::new(),
            size: 0,
            max: 1 << 15,
        }
    }
    fn page(&mut self, s: String) {
        if !in_domain(&s) {
            return;
        }
        self.e.state();
        self.size += s.len() + 20;
        self.pages.push(s);
        if self.size > self.max {
            self.flush();
        }
    }
    fn flush(&mut self) {
        let v: Vec<&str> = self.pages.iter().map(|s| s.as_str()).collect();
        if !v.is_empty() {
            self.e.batch(&v);
        }
        self.pages.clear();
        self.size = 0;
    }
}

/// All the sequences of `len` fragments, in packs which start with the same ones.
fn packed(ctx: &Ctx, family: &'static str, alphabet: &[&str], len: usize, wrap: &[(&str, &str)]) {
    let n = alphabet.len() as u64;
    let total = n.pow(len as u32);
    // About a thousand pages for each pack.
    let pack = 1000u64.min(total / 8 + 1);
    ctx.run(family, total.div_ceil(pack) * wrap.len() as u64, |i, e| {
        let (open, close) = wrap[(i % wrap.len() as u64) as usize];
        let i = i / wrap.len() as u64;
        let mut p = Pack::new(e);
        for mut k in i * pack..((i + 1) * pack).min(total) {
            let mut f = [""; 12];
            for j in (0..len).rev() {
                f[j] = alphabet[(k % n) as usize];
                k /= n;
            }
            p.page(format!("{open}{}{close}", f[..len].concat()));
        }
        p.flush();
    });
}

const NAMES: &[&str] = &["p", "img", "h1", "x-y", "svg:a", "LI", "li", "script", "style", "body", "html", "tbody", "a", "styled"];
const ATTRS: &[&str] = &[
    "a", "a=b", "a=\"b\"", "a='b'", "a=\"\"", "a=\"b c\"", "a=\"b  c\"", "width=\"1\"", "height='2'", "width=\"1 2\"", "data-width=\"3\"", "type=\"text/css\"", "type=\"text/javascript\"", "type='text/css'", "type=\"application/javascript\"", "type=\"module\"",
    "type=\"text/JavaScript\"", "a = \"b\"", "a=\"it's\"", "a='say \"x\"'", "\u{e9}=\"\u{fc}\"", "a=\"b\nc\"", "a=\"&quot;\"", "width=\"100%\"", "HEIGHT=\"4\"", "a=\"1\"", "width=5", "a=\"/\"", "href=\"x/y?z=1&w\"", "width=\"a/\"", "a=\" b \"", "width = \"6\"", "a='b' ",
    "height=\"auto\"", "a=\"\u{a0} \u{a0}b\"", "w1=\"2 3\"", "a=\"x='y'\"", "data-type=\"text/css\"", "min-height=\"7px\"", "height=\"8\"", "a=\"b\tc\"", "style=\"width: 1px;  height:2px\"",
];
const SEPS: &[&str] = &[" ", "\n", "  ", "\t", "\n  ", "\r\n", " \t"];
const ENDS: &[&str] = &[">", " >", "/>", " />", "\n>", "  >", "\t/>"];

/// What follows the start tag: these elements must be closed.
fn tail(name: &str) -> &'static str {
    match name {
        "script" => "</script>x",
        "style" => "</style>x",
        _ => "x",
    }
}

pub fn explore_h01(ctx: &Ctx) {
    explore_pages(ctx, false);
}

/// The same pages, or less of them.
pub fn explore_pages(ctx: &Ctx, light: bool) {
    let t = ctx.thorough();
    // 1. Tags: every name, attributes, separators and ends.
    ctx.product("tags-1", &[NAMES.len(), ATTRS.len()], |d, e| {
        let mut p = Pack::new(e);
        for sep in SEPS {
            for end in ENDS {
                p.page(format!("<{}{sep}{}{end}{}", NAMES[d[0]], ATTRS[d[1]], tail(NAMES[d[0]])));
                p.page(format!("<{}{sep}{}{end}</{}{end}", NAMES[d[0]], ATTRS[d[1]], NAMES[d[0]]));
            }
        }
        p.flush();
    });
    if !light {
        ctx.product("tags-2", &[NAMES.len(), ATTRS.len(), ATTRS.len()], |d, e| {
            let mut p = Pack::new(e);
            for (i, sep) in SEPS.iter().enumerate() {
                for (j, sep2) in SEPS.iter().enumerate() {
                    for (k, end) in ENDS.iter().enumerate() {
                        if t || (i == 0) as u8 + (j == 0) as u8 + (k == 0) as u8 >= 2 || (i == j && k == 0) {
                            p.page(format!("<{}{sep}{}{sep2}{}{end}{}", NAMES[d[0]], ATTRS[d[1]], ATTRS[d[2]], tail(NAMES[d[0]])));
                        }
                    }
                }
            }
            p.flush();
        });
    }
    let few: Vec<&str> = ATTRS.iter().copied().step_by(if t { 1 } else { 2 }).collect();
    ctx.product("tags-3", &[few.len(), few.len(), few.len()], |d, e| {
        let mut p = Pack::new(e);
        for sep in [" ", "\n  ", "  "] {
            for end in [">", " >", "/>"] {
                p.page(format!("<a{sep}{}{sep}{}{sep}{}{end}x", few[d[0]], few[d[1]], few[d[2]]));
            }
        }
        p.flush();
    });
    // 2. Values: every sequence of fragments.
    let value: &[&str] = &["a", "1", " ", "  ", "\n", "\t", "'", "=", "/", "\u{a0}", "\u{e9}", ".", "-", "_", "&amp;", ";", "width=", "#", "%", ":", "--", "a\u{300}", "`", "[", "\\"];
    for len in 0..=if t { 5 } else { 4 } {
        let wrap = &[("<p x=\"", "\" >y"), ("<p x=1 y=\"", "\"\nz=\"2\"/>"), ("<p width=\"", "\">"), ("<p  height  =  \"", "\"  x >")];
        packed(ctx, "values", value, len, wrap);
    }
    for len in 0..=3 {
        let value: Vec<&str> = value.iter().map(|v| if *v == "'" { "\"" } else { v }).collect();
        packed(ctx, "single-quoted-values", &value, len, &[("<p x='", "' >y"), ("<p width='", "'>"), ("<p x=1 y='", "'\nz='2'/>")]);
    }
    // 3. Documents: tags, texts and white space.
    let doc: &[&str] = &[
        "<p>", "</p>", "a", " ", "\n", "  ", "<b x=\"y\">", "</b >", "<br/>", "<br >", "</li>", "<body>", "</td>", "<!-- c -->", "b c", "\u{a0}", "1", "\"", "'", ">", " < ", "&lt;", "<img width=\"1\" >", "=", "<!DOCTYPE html>", "\t", "<html lang=\"en\">", "\u{e9}", "</LI>", "/",
    ];
    for len in 0..=if t { 5 } else { 4 } {
        packed(ctx, "documents", doc, len, &[("", "")]);
    }
    let small: &[&str] = &["<p>", "</i>", "a", " ", "\n", "</li>", "<!--\n-->", "\u{a0}", "1 "];
    let medium: &[&str] = &["<p>", "</p>", "a", " ", "\n", "</li>", "<!-- c -->", "<b x=\"y\">", "<br/>", "\u{a0}", "\"", "b c", "<img width=\"1\" >", "<body>", ">", " < "];
    for len in 5..=if t { 6 } else { 5 } {
        packed(ctx, "medium-documents", medium, len, &[("", "")]);
    }
    for len in 5..=if t { 8 } else { 7 - light as usize } {
        packed(ctx, "small-documents", small, len, &[("", "")]);
    }
    // Alone, for what concerns the ends.
    ctx.product("whole-documents", &[doc.len(), doc.len(), if t { doc.len() } else { 8 }], |d, e| {
        let s = [doc[d[0]], doc[d[1]], doc[d[2]]].concat();
        if in_domain(&s) {
            e.case(&[&s]);
        }
    });
    // 4. The optional tags, and those which look like them, at every place.
    let mut tags: Vec<String> = Vec::new();
    for name in OPTIONAL_END.iter().chain(&["p", "ul", "div", "table", "span", "a", "dl", "select", "object", "title", "h1", "lis", "bodyx", "header", "tt"]) {
        for s in [format!("</{name}>"), format!("<{name}>"), format!("<{name} >"), format!("</{name} >"), format!("<{name} a=\"b\">"), format!("<{name}/>"), format!("</{}>", name.to_uppercase()), format!("<{}>", name.to_uppercase())] {
            tags.push(s);
        }
    }
    let around: &[&str] = &["", "a", " ", "\n", "<p>", "</p>", "a ", " b", "<!-- -->", "</li>"];
    ctx.product("optional-tags", &[tags.len(), around.len()], |d, e| {
        let mut p = Pack::new(e);
        for after in around {
            for second in ["", "</td>", "</tr>\n", " <tbody>"] {
                p.page(format!("x{}{}{second}{after}y", around[d[1]], tags[d[0]]));
            }
        }
        p.flush();
    });
    // The names of the elements and attributes which matter, elsewhere: alone, as these words decide
    // for the whole page.
    let words: &[&str] = &["textarea", "pre", "PRE", "TextArea", "script", "style", "body", "li", "width", "height", "type", "text/css", "text/javascript", "[if IE]", "<![endif]", "<!--", "-->", "/li>", "textarea>", "pre>", "/pre>"];
    let places: &[(&str, &str)] = &[
        ("<p> a ", " b </p>"),
        ("<p class=\"", "\" >"),
        ("<p  ", "=\"a\" >"),
        ("<p class=", " >"),
        ("<p title='a  ", "' >"),
        ("<!-- ", " -->"),
        ("<i>", "</i>"),
        ("<a href=\"#", "\"  >"),
        ("&", ";"),
        ("< ", ">"),
        ("<x-", ">  <p>"),
        ("<h", ">  <p>"),
        ("<!DOCTYPE ", ">"),
        ("<title>", "</title>"),
        ("</", "  >"),
        ("<a.", "  x>"),
    ];
    let rest: &[(&str, &str)] = &[("", ""), ("<div>\n  <p  id=\"x\"  >a  b</p>\n", "\n\n<style type=\"text/css\"></style></li>\n <p  width=\"1\" >\n"), ("a\n", "\n\tb  <b\nx >")];
    ctx.product("names", &[places.len(), words.len(), rest.len()], |d, e| {
        let (p, r) = (places[d[0]], rest[d[2]]);
        let s = [r.0, p.0, words[d[1]], p.1, r.1].concat();
        if in_domain(&s) {
            e.case(&[&s]);
        }
    });
    // 5. Every character.
    ctx.run("every-character", 0x110000 / 256, |i, e| {
        let mut p = Pack::new(e);
        for c in (i as u32 * 256..(i as u32 + 1) * 256).filter_map(char::from_u32) {
            if !matches!(c, '<' | '>' | '"' | '\'' | '=' | '\0') {
                p.page(format!("a{c}b {c} {c}{c}<p x=\"{c}\" y=\"1{c} {c}2\">{c}</p>{c}<i>"));
            }
        }
        p.flush();
    });
}

pub fn explore_h02(ctx: &Ctx) {
    let t = ctx.thorough();
    // 1. The text of a comment.
    let body: &[&str] = &["-", ">", "[", "]", "<", "!", "<p>", "\n", " ", "a", "\"", "'", "</li>", "<!--", "\u{e9}", "[if IE]>", "<![endif]", "--", "/", "\r", "<pre>", "\u{a0}", "=\"1\" "];
    let wrap: &[(&str, &str)] = &[("<p>a<!--", "-->b</p>"), ("x <!--", "--> y"), ("<!--", "-->\n<p>"), ("<!-- a --><!--", "--><!-- b -->"), ("<i>\n<!--[", "]> <b>c</b> <![endif]-->\n")];
    for len in 0..=if t { 5 } else { 4 } {
        packed(ctx, "bodies", body, len, wrap);
    }
    // 2. Comments, conditional comments, tags and texts.
    let doc: &[&str] = &[
        "<!-- c -->", "<!---->", "<!--[if IE]>x<![endif]-->", "<!--[if lt IE 9]>\n <p  class=\"a\" >\n<![endif]-->", "<!--[if !IE]><!-->", "<!--<![endif]-->", "a", " ", "\n", "<p>", "</p>", "<!--\n[x]\n", "-->", "<!--[a]-->", "</li>", "<!-- [ -->", "<!--<!--[a]-->", "<br/>",
    ];
    for len in 0..=if t { 6 } else { 5 } {
        packed(ctx, "documents", doc, len, &[("", "")]);
    }
    ctx.product("whole-documents", &[doc.len(), doc.len(), if t { doc.len() } else { 6 }], |d, e| {
        let s = [doc[d[0]], doc[d[1]], doc[d[2]]].concat();
        if in_domain(&s) {
            e.case(&[&s]);
        }
    });
    // 3. Preformatted text.
    let pre: &[&str] = &[" ", "\n", "a", "  ", "\t", "\r\n", "<b>", "</b>", "<!-- c -->", "\u{a0}", "1", "\"", "'", " < ", ">", "<i class=\"x\">", "</li>", "\u{e9}", "=", "&lt;"];
    let wrap: &[(&str, &str)] = &[("<pre>", "</pre>"), ("<p>  a</p>\n<pre class=\"x\" >", "</pre> <p>\n\nb"), ("<PRE>", "</PRE>"), ("<div>\n <pre\n id=x>\n", "\n</pre>\n</div>")];
    let area: &[&str] = &[" ", "\n", "a", "  ", "\t", "\r\n", "\u{a0}", "1", "\"", "'", " < ", ">", "\u{e9}", "=", "&lt;", "-->"];
    let wrap2: &[(&str, &str)] = &[("<textarea>", "</textarea>"), ("<p>  a</p>\n<textarea rows=\"3\"  cols='4' >", "</textarea> <p>\n\nb"), ("<TextArea>", "</TextArea>\n")];
    for len in 0..=if t { 5 } else { 4 } {
        packed(ctx, "pre", pre, len, if t || len < 4 { wrap } else { &wrap[..2] });
        packed(ctx, "pre-textarea", area, len, wrap2);
    }
    ctx.product("pre-alone", &[wrap.len(), pre.len(), pre.len()], |d, e| {
        let s = format!("{}{}{}{}", wrap[d[0]].0, pre[d[1]], pre[d[2]], wrap[d[0]].1);
        if in_domain(&s) {
            e.case(&[&s]);
        }
    });
    ctx.product("pre-textarea-alone", &[wrap2.len(), area.len(), area.len()], |d, e| {
        let s = format!("{}{}{}{}", wrap2[d[0]].0, area[d[1]], area[d[2]], wrap2[d[0]].1);
        if in_domain(&s) {
            e.case(&[&s]);
        }
    });
    // 4. Every character.
    ctx.run("every-character", 0x110000 / 256, |i, e| {
        let mut p = Pack::new(e);
        for c in (i as u32 * 256..(i as u32 + 1) * 256).filter_map(char::from_u32) {
            if !matches!(c, '<' | '\0') {
                p.page(format!("<!--{c}-->a<!--[{c}-->b<!-- {c} -->c<!-{c}- -->d<!--{c}{c} -{c}--> e"));
            }
        }
        p.flush();
    });
    ctx.run("pre-every-character", 0x110000 / 256, |i, e| {
        let mut p = Pack::new(e);
        for c in (i as u32 * 256..(i as u32 + 1) * 256).filter_map(char::from_u32) {
            if !matches!(c, '<' | '\0') {
                p.page(format!("<pre>{c} {c}\n  {c}{c}\n</pre><textarea>{c}  {c}\n\n{c}</textarea>"));
            }
        }
        p.flush();
    });
}

pub fn explore_h03(ctx: &Ctx) {
    explore_pages(ctx, !ctx.thorough());
    ctx.prefixed("comments", explore_h02);
}
