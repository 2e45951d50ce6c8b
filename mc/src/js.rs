//! S01-S04: scripts. The parts of a case alternate gaps and tokens: gap, token, gap, ..., gap.

use crate::engine::*;
use crate::jslex::*;
use crate::sizes::*;
use minifier::js;

pub fn minify(src: &str) -> Result<String, String> {
    js::minify(src).map(|m| m.to_string()).map_err(|e| format!("minification failed: {e}"))
}

pub fn tokens_of<'a>(parts: &[&'a str]) -> Vec<&'a str> {
    parts.iter().skip(1).step_by(2).copied().collect()
}

/// How many of the leading `;` the output can do without: any number of them.
fn leading(toks: &[&str]) -> usize {
    toks.iter().take_while(|t| **t == ";").count()
}

/// Finds a number of leading `;` set aside with which the output satisfies `f`.
fn with_leading<'a>(toks: &[&'a str], mut f: impl FnMut(usize, &[&'a str]) -> Result<(), String>) -> Result<(), String> {
    let mut last = Ok(());
    for skip in (0..=leading(toks)).rev() {
        last = f(skip, &toks[skip..]);
        if last.is_ok() {
            break;
        }
    }
    last
}

/// The input lexes as the tokens it is made of.
pub fn valid(parts: &[&str]) -> bool {
    gaps(&parts.concat(), parts.iter().skip(1).step_by(2).copied()).is_ok()
}

pub fn judge_s01(_family: &str, parts: &[&str]) -> Result<(), String> {
    let src = parts.concat();
    let out = minify(&src)?;
    same_tokens(&tokens_of(parts), &out)
}

fn same_tokens(toks: &[&str], out: &str) -> Result<(), String> {
    with_leading(toks, |_, want| gaps(out, want.iter().copied()).map(|_| ()).map_err(|e| format!("{e}: {out:?}")))
}

pub const ANY: &[&str] = &[" ", "\n", "\t", "\r\n", "/*c*/", "//c\n", " /*c*/ ", "/*\n*/", "\n//c\r\n\t", "/**/", "  ", "\r", "/*'*/", "//\"\n"];
pub const LINE: &[&str] = &[" ", "\t", "/*c*/", "  ", " /*c*/ ", "/**/", "/*`*/"];

pub struct Alts {
    pub any: &'static [&'static str],
    pub line: &'static [&'static str],
    /// The same everywhere.
    pub all: &'static [&'static str],
}
pub const ALTS: Alts = Alts {
    any: ANY,
    line: LINE,
    all: &[" ", "\n", "/*c*/", "//c\n", "\t/*\n*/ ", " /*a*//*b*/ ", "\r\n//}\n"],
};
const FEW: Alts = Alts {
    any: &[" ", "\n", "/*c*/", "//c\n"],
    line: &[" ", "/*c*/"],
    all: &[" ", "\n", "/*c*/"],
};
const NONE: Alts = Alts {
    any: &[],
    line: &[],
    all: &[" ", "/*c*/"],
};
const TIGHT: Alts = Alts {
    any: &[],
    line: &[],
    all: &[],
};

pub fn joinable(l: &str, r: &str) -> bool {
    if kind(l) == K::Hashbang {
        return false;
    }
    // Names and punctuators which cannot be confused: the common case, without an allocation.
    gaps(&[l, r].concat(), [l, r].into_iter()).is_ok()
}

/// Every gap assignment with at most `k` deviations from the tightest one, and the uniform ones.
pub fn emit(e: &mut Emit<'_>, toks: &[&str], k: usize, alts: &Alts) {
    let n = toks.len();
    let mut parts: Vec<&str> = Vec::with_capacity(2 * n + 1);
    // For each gap: is a line break allowed?
    let mut line: Vec<bool> = Vec::with_capacity(n + 1);
    parts.push("");
    line.push(false);
    for (i, t) in toks.iter().enumerate() {
        parts.push(t);
        let (gap, l) = match toks.get(i + 1) {
            Some(_) if kind(t) == K::Hashbang => ("\n", false),
            Some(r) => (if joinable(t, r) { "" } else { " " }, restricted(t, r)),
            None => ("", false),
        };
        parts.push(gap);
        line.push(l);
    }
    if kind(toks[0]) == K::Hashbang {
        // Nothing before it, a line break after it.
        if valid(&parts) {
            e.case(&parts);
        }
        return;
    }
    for a in alts.all {
        let mut p = parts.clone();
        for i in 0..=n {
            p[2 * i] = if line[i] { alts.line.first().unwrap_or(&" ") } else { a };
        }
        e.transition();
        if valid(&p) {
            e.case(&p);
        }
    }
    fn rec<'a>(e: &mut Emit<'_>, parts: &mut Vec<&'a str>, line: &[bool], from: usize, k: usize, alts: &Alts) {
        if valid(parts) {
            e.case(parts);
        }
        if k == 0 {
            return;
        }
        for i in from..line.len() {
            let before = parts[2 * i];
            for a in if line[i] { alts.line } else { alts.any } {
                if *a == before {
                    continue;
                }
                parts[2 * i] = a;
                e.state();
                rec(e, parts, line, i + 1, k - 1, alts);
            }
            parts[2 * i] = before;
        }
    }
    rec(e, &mut parts, &line, 0, k, alts);
}

// ------------------------------------------------------------------------------- expressions

const UNARY: &[&str] = &["!", "~", "+", "-", "++", "--", "typeof", "void", "delete", "await", "new", "yield"];
const OPERANDS: &[&str] = &[
    "a", "$b_1", "\u{e9}t\u{e9}", "\\u0061b", "this", "null", "true", "0", "1", "1.5", ".5", "5.", "0xFe", "1e3", "1e-3", "0b1n", "1_000", "\"s t\"", "'u \"'", "`v ${ w } x`", "/r e/", "/[/]/gi", "/\\//g", "of", "get",
    "async", "let", "Infinity", "nan", "private", "01", "/=x/", "/a'/m",
];
const BINARY: &[&str] = &[
    "+", "-", "*", "/", "%", "**", "==", "!=", "===", "!==", "<", ">", "<=", ">=", "<<", ">>", ">>>", "&", "|", "^", "&&", "||", "??", "=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "&&=",
    "||=", "??=", ",", "in", "instanceof", "=>",
];
const POSTFIX: &[&str] = &["++", "--", ".m", ".return", "?.m", ".#p", "[", "(", "?.[", "?.(", "`t u`", "?"];

/// Where an expression can be.
const EXPR_CTX: &[(&[&str], &[&str])] = &[
    (&["x", "="], &[";"]),
    (&[], &[";"]),
    (&["return"], &[";"]),
    (&["f", "("], &[")", ";"]),
    (&["var", "y", "=", "[", "1", ",", ], &["]", ";"]),
    (&["if", "("], &[")", "{", "}"]),
    (&["z", "=", "{", "k", ":"], &["}", ";"]),
    (&["throw"], &[";", "x", ";"]),
    (&["case"], &[":", "x", ";"]),
    (&["for", "(", ";"], &[";", ")", "x", ";"]),
    (&["{"], &["}"]),
    (&["a", "?"], &[":", "b", ";"]),
    (&["f", "(", "..."], &[")", ";"]),
    (&["else"], &[";"]),
    (&["do"], &[";", "while", "(", "b", ")", ";"]),
    (&["x", "=>"], &[";"]),
    (&["export", "default"], &[";"]),
    (&["x", "=", "y", "/"], &[";"]),
    (&[";"], &[";", "}"]),
    (&["if", "(", "a", ")"], &[";"]),
    (&["for", "(", "const", "[", "a", "]", "of"], &[")", ";"]),
    (&["for", "await", "(", "const", "of", "of"], &[")", ";"]),
    (&["while", "(", "a", "[", "0", "]", ")"], &[",", "x", ";"]),
    (&["with", "(", "f", "(", "a", ")", ")"], &[";"]),
];

struct Vocab {
    unary: &'static [&'static str],
    operands: &'static [&'static str],
    binary: &'static [&'static str],
    postfix: &'static [&'static str],
}

struct Walk<'v> {
    vocab: &'v Vocab,
    toks: Vec<&'static str>,
    stack: Vec<&'static str>,
    suffix: &'static [&'static str],
    k: usize,
    alts: &'v Alts,
    /// In a substitution of a template literal: where this literal is.
    template: Option<(&'static str, &'static str)>,
}

impl Walk<'_> {
    fn finish(&mut self, e: &mut Emit<'_>) {
        let n = self.toks.len();
        for c in self.stack.iter().rev() {
            self.toks.push(c);
            if *c == ":" {
                self.toks.push("q");
            }
        }
        self.toks.extend(self.suffix);
        match self.template {
            Some(around) => in_template(e, around, &self.toks),
            None => emit(e, &self.toks, self.k, self.alts),
        }
        self.toks.truncate(n);
    }

    /// An operand is expected.
    fn operand(&mut self, e: &mut Emit<'_>, left: usize) {
        if left == 0 {
            return;
        }
        let v = self.vocab;
        for u in v.unary {
            if matches!(self.toks.last(), Some(&("++" | "--"))) {
                break;
            }
            self.toks.push(u);
            e.state();
            self.operand(e, left - 1);
            self.toks.pop();
        }
        let incremented = matches!(self.toks.last(), Some(&("++" | "--")));
        for o in v.operands {
            // Only what can be assigned.
            if incremented && kind(o) != K::Word {
                continue;
            }
            // The right side of `in` is an object.
            if matches!(self.toks.last(), Some(&("in" | "instanceof"))) && kind(o) == K::Num {
                continue;
            }
            self.toks.push(o);
            e.state();
            self.after(e, left - 1);
            self.toks.pop();
        }
        for (open, close) in [("(", ")"), ("[", "]")] {
            if left > 1 {
                self.toks.push(open);
                self.stack.push(close);
                e.state();
                self.operand(e, left - 1);
                self.stack.pop();
                self.toks.pop();
            }
        }
    }

    /// A value has just ended.
    fn after(&mut self, e: &mut Emit<'_>, left: usize) {
        self.finish(e);
        if left == 0 {
            return;
        }
        let v = self.vocab;
        for b in v.binary {
            if left > 1 {
                self.toks.push(b);
                e.state();
                self.operand(e, left - 1);
                self.toks.pop();
            }
        }
        for p in v.postfix {
            let n = self.toks.len();
            e.state();
            match *p {
                "[" | "(" | "?.[" | "?.(" | "?" => {
                    if left < 2 {
                        continue;
                    }
                    let close = match *p {
                        "?" => ":",
                        _ if p.ends_with('[') => "]",
                        _ => ")",
                    };
                    if p.len() == 3 {
                        self.toks.push("?.");
                        self.toks.push(&p[2..]);
                    } else {
                        self.toks.push(p);
                    }
                    self.stack.push(close);
                    self.operand(e, left - 1);
                    self.stack.pop();
                }
                _ if p.starts_with(['.', '?']) => {
                    let dot = if p.starts_with('?') { 2 } else { 1 };
                    self.toks.push(&p[..dot]);
                    self.toks.push(&p[dot..]);
                    self.after(e, left - 1);
                }
                // `a++ ++` isn't valid.
                "++" | "--" if matches!(self.toks.last(), Some(&("++" | "--"))) => {}
                _ => {
                    self.toks.push(p);
                    self.after(e, left - 1);
                }
            }
            self.toks.truncate(n);
        }
        if let Some(c) = self.stack.pop() {
            self.toks.push(c);
            e.state();
            if c == ":" {
                self.operand(e, left - 1);
            } else {
                self.after(e, left - 1);
            }
            self.toks.pop();
            self.stack.push(c);
        }
    }
}

fn in_template(e: &mut Emit<'_>, around: (&str, &str), toks: &[&str]) {
    for gap in ["", " ", "/*'*/", "\n", " //`}\n"] {
        let mut code = String::from("`  ${");
        for (i, t) in toks.iter().enumerate() {
            if i > 0 && gap.is_empty() && !joinable(toks[i - 1], t) {
                code.push(' ');
            }
            if gap.contains('\n') && i > 0 && restricted(toks[i - 1], t) {
                code.push(' ');
            } else if i > 0 && matches!(toks[i - 1], "." | "?.") {
                // Nothing before the name of a property.
            } else {
                code.push_str(gap);
            }
            code.push_str(t);
        }
        code.push_str(gap);
        e.transition();
        // `/` then `/*` is a line comment.
        if gaps(&code[5..], toks.iter().copied()).is_err() {
            continue;
        }
        code.push_str("}  `");
        e.case(&[around.0, &code, "`QQ`", around.1]);
    }
}

/// Where an expression can be in a substitution.
const SUB_CTX: &[(&[&str], &[&str])] = &[
    (&[], &[]),
    (&["f", "("], &[")"]),
    (&["x", "=>"], &[]),
    (&["{", "k", ":"], &["}"]),
    (&["(", ")", "=>", "{", "return"], &[";", "}"]),
    (&["[", "...",], &["]"]),
    (&["a", "?"], &[":", "b"]),
    (&["a", "?", "b", ":"], &[]),
    (&["(", "{", "}", ")", "/", "b", "+"], &[]),
    (&["function", "(", ")", "{", "a", ";"], &["}"]),
    (&["/[/'\"`}]/", "/"], &[]),
    (&["`}${ /'/ }`", "+"], &["/", "b"]),
];
const SUB_VOCAB: Vocab = Vocab {
    unary: &["!", "~", "-", "++", "typeof", "void", "await", "yield", "delete"],
    operands: &["a", "$", "1", "5.", "'}'", "\"`\"", "`}`", "`\"${ /`/ }`", "/'/", "/\"/g", "/`/m", "/[/}']/", "/{\\//", "this", "of", "\u{e9}"],
    binary: &["/", "+", "-", "*", "=", "/=", ",", "&&", "|", "^", "%", "<", ">", "=>", "in", "instanceof", "??"],
    postfix: &["++", "--", ".m", ".in", "?.m", "[", "(", "?", "`'`"],
};

const FULL: Vocab = Vocab {
    unary: UNARY,
    operands: OPERANDS,
    binary: BINARY,
    postfix: POSTFIX,
};
/// One of each kind for the lexer.
const MEDIUM: Vocab = Vocab {
    unary: &["!", "~", "+", "-", "++", "--", "typeof", "new"],
    operands: &["a", "this", "1", "1.5", "0xF", "\"s t\"", "`t ${ u }`", "/r e/", "/[/\"]/g"],
    binary: &["+", "-", "*", "/", "%", "==", "!==", "<", ">", ">>", "&", "&&", "|", "^", "=", "/=", "-=", ",", "in", "instanceof", "=>", "??"],
    postfix: &["++", "--", ".m", ".in", "?.m", "[", "(", "?"],
};
const SMALL: Vocab = Vocab {
    unary: &["!", "-", "+", "--", "typeof"],
    operands: &["a", "1", "/r e/", "\"s\""],
    binary: &["+", "-", "/", "<", "=", "in"],
    postfix: &["++", "--", ".m", "("],
};
const TINY: Vocab = Vocab {
    unary: &["-", "--"],
    operands: &["a", "1", "/r '/"],
    binary: &["/", "-"],
    postfix: &["--", ".m", "["],
};

fn expressions(ctx: &Ctx, family: &'static str, vocab: &Vocab, depth: usize, contexts: usize, k: usize, alts: &Alts) {
    walk(ctx, family, vocab, depth, &EXPR_CTX[..contexts], k, alts, None)
}

#[allow(clippy::too_many_arguments)]
fn walk(
    ctx: &Ctx,
    family: &'static str,
    vocab: &Vocab,
    depth: usize,
    contexts: &'static [(&'static [&'static str], &'static [&'static str])],
    k: usize,
    alts: &Alts,
    template: Option<(&'static str, &'static str)>,
) {
    // Split on the context and the first two steps.
    let mut firsts: Vec<(usize, &'static str)> = Vec::new();
    for c in 0..contexts.len() {
        for f in vocab.unary.iter().chain(vocab.operands).chain(&["(", "["]) {
            firsts.push((c, f));
        }
    }
    ctx.list(family, &firsts, |(c, f), e| {
        let (before, suffix) = contexts[*c];
        // Numbers cannot be spread.
        if before.last() == Some(&"...") && kind(f) == K::Num {
            return;
        }
        let mut w = Walk {
            vocab,
            toks: before.to_vec(),
            stack: Vec::new(),
            suffix,
            k,
            alts,
            template,
        };
        w.toks.push(f);
        match *f {
            "(" => w.stack.push(")"),
            "[" => w.stack.push("]"),
            _ => {}
        }
        if vocab.operands.contains(f) {
            w.after(e, depth - 1);
        } else {
            w.operand(e, depth - 1);
        }
    });
}

// -------------------------------------------------------------------------------- statements

/// Tokens separated by spaces; `·` is a space inside of a token.
pub const STATEMENTS: &[&str] = &[
    "var a = 1 , b ;",
    "let c = \"s·t\" , d = 's' ;",
    "const e = `t·${·u·}` ;",
    "function f ( a , b = 1 , ... c ) { return a ; }",
    "function g ( ) { return ; }",
    "async function h ( ) { await a ; for await ( const b of c ) { } }",
    "function * i ( ) { const a = yield ; yield /r·e/ ; yield * b ; return yield c ; }",
    "if ( a ) b ( ) ; else if ( c ) { d ; } else e ;",
    "if ( a ) ; else return /r·e/ . test ( b ) ;",
    "for ( var i = 0 ; i < a . length ; ++ i ) { b ( i ) ; }",
    "for ( const k in o ) if ( o [ k ] ) continue ;",
    "for ( const v of w ) { break ; }",
    "for ( ; ; ) ;",
    "for ( let i = 0 , n = 1 ; i < n ; i ++ ) a += i -- / n ;",
    "while ( a -- ) ;",
    "while ( a ) { b ++ ; }",
    "do a ++ ; while ( b ) ;",
    "do { a ( ) ; } while ( b > 0 ) ;",
    "switch ( a ) { case 1 : case \"s\" : b ( ) ; break ; case /r·e/ : default : c ( ) ; }",
    "try { a ; } catch ( e ) { throw e ; } finally { b ; }",
    "try { } catch { }",
    "l : for ( ; ; ) { break l ; continue l ; }",
    "class A extends B { constructor ( ) { super ( ) ; } static # ; } ;",
    "class A { static #p = 1 ; q = /r·e/ ; get x ( ) { return this . #p ; } set x ( v ) { } static async * g ( ) { yield 1 ; } [ k ] ( ) { } static { a ; } \"s\" ( ) { } 1 ( ) { } } ;",
    "import a from \"b\" ;",
    "import { c as d , e } from 'f' ;",
    "import * as g from \"h\" ;",
    "import \"i\" ;",
    "import j , { default as k } from \"l\" ;",
    "export default function ( ) { } ;",
    "export default /r·e/ ;",
    "export { a as b , c } ;",
    "export * from \"d\" ;",
    "export * as e from \"f\" ;",
    "export const a = 1 ;",
    "const f = async ( a ) => { await a ; } ;",
    "x = ( a , b ) => c , y = d => ( { } ) ;",
    "x = async a => a ;",
    "new . target ; import . meta . url ; import ( \"a\" ) ;",
    "a ?. b ?. [ 0 ] ?. ( c ) ;",
    "a ?? b ; c ??= d ; e ||= f ; g &&= h ;",
    "a **= b ** c ; d >>>= e >>> f ; g <<= h << i ; j >>= k >> l ;",
    "a &= b & c ; d |= e | f ; g ^= h ^ i ; j %= k % l ;",
    "a = b / c / d ; e /= f ; g = h / /r·e/ . i ;",
    "delete a . b ; void 0 ; typeof a === \"b\" ; typeof ( c ) ;",
    "a instanceof B ; \"a\" in b ; ! ( c in d ) ; #e in f ; 1 in g ; [ ] in h ; `i` in j ;",
    "a ? b : c ; a ? .5 : 1 ; a ? /r/ : \"s\" ; a ? b ? c : d : e ;",
    "debugger ;",
    "with ( a ) { b ; }",
    "x = { a : 1 , \"b\" : 2 , [ c ] : 3 , get d ( ) { return 1 ; } , async e ( ) { } , * f ( ) { } , ... g , h , 1 : /r·e/ , if : i } ;",
    "x = [ a , , b , ... c , ] ;",
    "var { a , b : c = 1 , ... d } = e , [ f , , g ] = h ;",
    "a = /r·e/ g ;",
    "a = /r\\/e\"·/gi . test ( b ) , c = /[/'·]/ ;",
    "a ( /r·e/ , /'/ ) ; b [ /\"/ ] ; c && /`/ . d ; e || /{·/ ; f = ! /}·/ ;",
    "`a·${·b·+·`c·${·d·}`·}·e` ; tag `x·y` ; f ( ) `z` ;",
    "1. . a ; 1 . a ; 1.5 . b ; 0xFF . c ; 1n . d ; 1e3 . e ; .5 + .5 ; 5. + 5 ; 1 / .5 ;",
    "a + + b ; a - - b ; a + ++ b ; a - -- b ; a ++ + b ; a -- - b ; - - a ; + + a ; - + a ;",
    "! -- a ; ! ! b ; ~ ~ c ; - ( - d ) ; typeof - e ; typeof typeof f ;",
    "a < ! -- b ; c -- > d ; e < -- f ; g < ! h ;",
    "\\u0061b = c\\u{64} ; \u{e9} = \u{3b1}\u{3b2} ;",
    "\"use·strict\" ; 'x' ;",
    "return function ( ) { } ;",
    "return \"a\" ; return [ a ] ; return { } ; return ! a ; return - 1 ; return `b` ; return .5 ;",
    "of = get + set ; static_ = async ; let_ ( ) ; private = public ;",
    "( function ( ) { a ; } ) ( ) ;",
    "! function ( ) { } ( ) ;",
    "( ( ) => { } ) ( ) ;",
    "throw new Error ( \"a·b\" ) ;",
    "a . return / 2 / b . in ; c . typeof ( d ) ; e = f . if / 1 ;",
    "a = b ++ / c ; d = e -- / f / g ; h [ 0 ] / 1 / i ; j ( ) / 2 / k ;",
    "a = 10 / 2 / b , c = 1.5 / d / e , f = \"s\" / g / h , i = this / j / k ;",
    "a = 'it\\'s·//·no' + \"/*·no·*/\" + '\\\\' ; b ;",
    "a = 010 + 0o17 + 0B11 + 1_000.5 + 00 + 1e+5 + 18446744073709551616 + 0.10 ;",
    "a = b ? ( c , d ) : [ e ] ; f = g , h ; ; ;",
    "var a ; var b = a , c = function ( ) { } , d = class { } ;",
    "if ( a ) { if ( b ) { c ; } else { d ; } }",
    "x . y . z ( a ) [ b ] . c = d ;",
    "new Date ; new A ( ) ; new ( b ( ) ) ; new new C ( ) ( ) ;",
    "await a ; await /r·e/ ; await ( b ) ; await [ c ] ;",
    "function default_ ( ) { } ; { } ;",
    "enum_ = { in : /r·e/ , of : 1 } . in ;",
    "a = ... b ; f ( ... /r·e/ ) ; g = [ ... h , ... \"i\" ] ;",
    "a ^ /r·e/ ; ~ /r·e/ ; b = c ** /r·e/ ; d % /r·e/ ; e > /r·e/ ; f = > /r·e/ ;",
    "x = a => /r·e/ ; y = ( ) => /'/ ;",
    "a = b in c ? d instanceof e : f ; for ( var g in { } ) ;",
    "label_ : { break label_ ; } ;",
    "var var_ = vara , leta = lett , iff = ifx , ins = inx ;",
    "a = 1 in b ; c = .5 in d ; e = /r·e/ in f ; g = /r·e/g instanceof h ;",
    "case_ : a ; default_ : b ; $ = _ ; $$ = __ ; $1 = _2 ;",
    "if ( a ) /r·e/ . test ( b ) ; else if ( a ( b ) / c / d ) /'/ . test ( e ) ;",
    "while ( ( a ) / b / c ) /\"/ . exec ( d ) ( e ) / f / g ;",
    "for ( ; ; ) /r·e/g . test ( a ) ;",
    "for ( const k of /r·e'/ . exec ( b ) ) /\"·/ . test ( c ) ;",
    "for await ( const k of a ) /[/·]/ . test ( c ) ; await ( a ) / b / c ;",
    "with ( a ) /{·/ . test ( b ) ; a . with ( b ) / c / d ; e ?. if ( f ) / g / h ;",
    "do a ( ) ; while ( b ) /}·'/ . test ( c ) ;",
    "of / b / c ; f ( of / 2 / a , a . of / 2 / b ) ; for_ ( of / b / c ) / d / e ;",
    "for ( of = of / 2 / 3 ; of / 2 / a ; of / b / c ) of / d / e ;",
    "for ( const of of of / 2 / a ) b ( ) / c / d ; for ( a of b . of / c / d ) of / e / f ;",
    "for ( const of of /r·e/ ) ; for ( [ a ] of /'·/ . b ) ; for ( { a } of /'·/ . b ) ; for ( a . of of /·`/ ) ;",
    "for ( const f of ( a ) / b / c ) ( d ) / e / f ; if ( a ) ( b ) / c / d ;",
    "{ } /'·/ . a ; { { } } /\"/ ; { } { /`/ . b ; }",
    "if ( a ) { } /'·/ . a ; if ( a ) { b ; } else { } /`/ . c ; while ( a ) { } /\"/ . b ;",
    "for ( ; ; ) { } /'·/ . a ; for ( a of b ) { } /`/ . c ; do { } while ( a ) /\"/ . b ; switch ( a ) { } /'/ ;",
    "try { } catch ( e ) { } /'·/ . a ; try { } finally { } /`/ . c ; try { } catch { } /\"/ . b ;",
    "function f ( ) { } /'·/ . a ; async function * g ( a = { } / 2 / b ) { } /`/ . c ; function * h ( ) { /\"/ . b ; } /'/ ;",
    "export function f ( ) { } /'·/ . a ; export { a } ; with ( a ) { } /`/ . c ;",
    "x = { } / 2 / y ; ( { } ) / 2 / y ; ( { } / 2 / y ) ; [ { } / 2 / y ] ; a ? { } / 2 / y : { } / 2 / z ;",
    "return { } / 2 / y ; f ( { } / 2 / y , { } / 3 / z ) ; x = [ ... { } / 2 / y ] ; typeof { } / 2 / a ; a in { } / b / c ;",
    "x = function ( ) { } / 2 / y ; x = function f ( ) { } / 2 / y ; ( function * f ( ) { } / 2 / y ) ; x = async function f ( ) { } / 2 / y ; ! function f ( ) { } / 2 / y ;",
    "x = class { } / 2 / y ; x = class A extends B { } / 2 / y ; x = { if ( a ) { } , catch ( ) { } } / 2 / y ; x = { a : { } , b : { } } / 2 / y ;",
    "a . catch ( b ) / 2 / c ; x = { do : { } / 2 / y , else : { } / 2 / z , try : { } / 2 / t } ; a . else / 2 / c ; f . switch ( ) / 2 / d ; a . export / 2 / b ;",
    "/'·/ . test ( a ) ;",
    "for ( ; { } / 2 / y ; { } / 2 / z ) ; for ( a of { } / 2 / y ) ; while ( { } / 2 / y ) ; switch ( { } / 2 / y ) { case { } / 2 / y : }",
    "for ( let a = function ( ) { ; { } /'·/ . b ; } / 2 / c ; ( { } ) / 2 / y ; ) { ; } /`/ . c ;",
    "a = ( ) => { { } /'/ . b ; } ; a = { b ( ) { { } /'/ . c ; } , d : { } } / 2 / y ; class A { b ( ) { { } /`/ . d ; } } ;",
    "for ( a = void of / 2 / b , ~ of / c / d ; typeof of / e / f ; ( of / g / h ) ) ;",
];

pub fn statement(s: &str) -> Vec<String> {
    s.split(' ').map(|t| t.replace('·', " ")).collect()
}

pub fn all_statements() -> Vec<Vec<String>> {
    STATEMENTS
        .iter()
        .filter(|s| !s.contains("static # ;") && !s.contains("f = > /") && !s.contains("a = /r·e/ g ;") && !s.starts_with("a = ... b"))
        .map(|s| statement(s))
        .collect()
}

pub fn refs(v: &[String]) -> Vec<&str> {
    v.iter().map(|s| s.as_str()).collect()
}

pub fn explore_s01(ctx: &Ctx) {
    let t = ctx.thorough();
    let all = all_statements();
    for s in &all {
        let r = refs(s);
        assert!(valid(&r.iter().flat_map(|t| [" ", t]).chain([" "]).collect::<Vec<_>>()), "{r:?}");
    }
    let n = all.len();
    ctx.list("statements", &all, |s, e| emit(e, &refs(s), if t { 3 } else { 2 }, if t { &FEW } else { &ALTS }));
    if t {
        ctx.list("statements-2", &all, |s, e| emit(e, &refs(s), 2, &ALTS));
    }
    ctx.product("statement-pairs", &[n, n], |d, e| {
        let mut v = refs(&all[d[0]]);
        v.extend(refs(&all[d[1]]));
        emit(e, &v, 1, &ALTS);
    });
    ctx.product("statement-triples", &[n, n, n], |d, e| {
        let v: Vec<&str> = d.iter().flat_map(|i| all[*i].iter().map(|s| s.as_str())).collect();
        emit(e, &v, 0, &NONE);
    });
    expressions(ctx, "expressions-tiny", &TINY, if t { 9 } else { 8 }, if t { 4 } else { 1 }, 0, &TIGHT);
    expressions(ctx, "expressions-small", &SMALL, if t { 6 } else { 5 }, 3, 1, &FEW);
    expressions(ctx, "expressions-medium", &MEDIUM, if t { 5 } else { 4 }, if t { 3 } else { 1 }, if t { 1 } else { 0 }, if t { &FEW } else { &NONE });
    expressions(ctx, "expressions-medium", &MEDIUM, 3, EXPR_CTX.len(), 1, &ALTS);
    expressions(ctx, "expressions-full", &FULL, 3, EXPR_CTX.len(), if t { 1 } else { 0 }, if t { &FEW } else { &NONE });
    expressions(ctx, "expressions-full", &FULL, 2, EXPR_CTX.len(), 2, &ALTS);
    // Every pair of tokens, whatever it means, around every separator (nothing included).
    pairs(ctx);
    exotic_white_space(ctx, &all);
    characters(ctx);
    hashbangs(ctx, &all);
    size_cases(ctx, if t { 1050 } else { 300 }, if t { 200_000 } else { 20_000 });
}

const PAIR_TOKENS: &[&str] = &[
    "a", "in", "of", "if", "return", "typeof", "instanceof", "new", "function", "this", "null", "var", "let", "static", "private", "else", "case", "do", "void", "yield", "await", "async", "get", "1", "1.5", ".5", "5.",
    "0x1", "1e3", "01", "1n", "\"s\"", "'t'", "`u`", "/r e/", "/r/g", "#p", "\u{e9}", "\\u0061", "$", "_",
];

/// Sequences of three tokens between parentheses: kept when the grammar has no doubt about `/`.
fn pairs(ctx: &Ctx) {
    let toks: Vec<&'static str> = PAIR_TOKENS.iter().chain(PUNCTUATORS).filter(|t| !matches!(**t, "@")).copied().collect();
    let n = toks.len();
    let seps: &[&str] = &["", " ", "\n", "/*c*/", "//c\n", "\t/**/", " /*a*/\r\n", "\r"];
    let starts: &[&[&str]] = &[&["x", "="], &["("], &["x", "."], &[";"], &["x"]];
    ctx.product("token-pairs", &[starts.len(), n, n, seps.len(), seps.len()], |d, e| {
        let (l, r) = (toks[d[1]], toks[d[2]]);
        let st = starts[d[0]];
        // Regexes only where they are regexes for sure, and slashes where they are divisions.
        let mut seq: Vec<&str> = st.to_vec();
        seq.extend([l, r, ",", "b", ";"]);
        for i in 0..seq.len() {
            let regex = kind(seq[i]) == K::Regex;
            let slash = seq[i].starts_with('/');
            if !slash {
                continue;
            }
            let prev = if i == 0 { ";" } else { seq[i - 1] };
            let prev2 = if i < 2 { "" } else { seq[i - 2] };
            let operand_expected = match kind(prev) {
                K::Punct => match prev {
                    ")" | "]" | "}" | "@" | "." | "?." => None,
                    "++" | "--" => None,
                    _ => Some(true),
                },
                K::Word => match prev {
                    _ if prev2 == "." || prev2 == "?." => Some(false),
                    "in" | "return" | "typeof" | "instanceof" | "new" | "else" | "case" | "do" | "void" | "await" | "yield" => Some(true),
                    "a" | "b" | "x" | "this" | "null" | "#p" | "\u{e9}" | "$" | "_" | "\\u0061" => Some(false),
                    _ => None,
                },
                _ => Some(false),
            };
            if operand_expected != Some(regex) {
                return;
            }
        }
        // Two tokens which can follow each other.
        let takes = |l: &str| matches!(l, "in" | "return" | "typeof" | "instanceof" | "new" | "else" | "case" | "do" | "void" | "await" | "yield" | "of");
        for w in seq.windows(2) {
            let ok = match (kind(w[0]), kind(w[1])) {
                _ if w[0] == "." => w[1] != "(" && kind(w[1]) == K::Word,
                _ if w[0] == "?." => matches!(w[1], "(" | "[") || kind(w[1]) == K::Word,
                _ if w[0] == "..." => !matches!(kind(w[1]), K::Num | K::Punct),
                _ if w[1] == "..." => matches!(w[0], "(" | "[" | "," | "{"),
                (K::Punct, K::Punct) => matches!(w[0], ")" | "]" | "}" | "(" | "[" | "," | ";") || matches!(w[1], "(" | ")" | "[" | "]" | "," | ";" | "{" | "}"),
                (K::Punct, _) | (_, K::Punct) => true,
                (K::Word, K::Word) => true,
                (K::Word, _) => takes(w[0]),
                (_, K::Word) => matches!(w[1], "in" | "instanceof"),
                _ => false,
            };
            if !ok {
                return;
            }
        }
        let mut parts = vec![""];
        for (i, t) in seq.iter().enumerate() {
            parts.push(t);
            parts.push(match i {
                _ if i + 1 == st.len() => seps[d[4]],
                _ if i == st.len() => seps[d[3]],
                _ => "",
            });
        }
        // What the restricted productions would change.
        for (i, w) in seq.windows(2).enumerate() {
            if restricted(w[0], w[1]) && parts[2 * i + 2].contains(is_newline) {
                return;
            }
        }
        if valid(&parts) {
            e.case(&parts);
        }
    });
}

fn exotic_white_space(ctx: &Ctx, all: &[Vec<String>]) {
    const A: Alts = Alts {
        any: &["\u{c}", "\u{b}", "\u{a0}", " \u{a0} ", "\u{2028}", "\n\u{2003}\n", "//c\u{2028}", "//c\u{2029}", "\u{3000}", "\t\u{feff}", "/*\u{2028}*/"],
        line: &[" ", "\u{a0} ", "\t\u{c}"],
        all: &[" \u{a0}", "//\u{2028}", " \u{b} "],
    };
    ctx.list("exotic-white-space", all, |s, e| emit(e, &refs(s), 1, &A));
}

fn characters(ctx: &Ctx) {
    ctx.run("every-character", 0x110000, |i, e| {
        let Some(c) = char::from_u32(i as u32) else { return };
        if (c as u32) < 0x80 {
            return;
        }
        let mut b = [0; 4];
        let c = &*c.encode_utf8(&mut b);
        e.state();
        let ch = c.chars().next().unwrap();
        let (s, r, q, tp) = (format!("\" {c} \\{c}\""), format!("/ {c} [{c}/] \\{c}/"), format!("'{c}{c} '"), format!("`{c} ${{ {c} }}`"));
        let (c1, c2, c3) = (format!("/*{c}*/"), format!("// {c}\n"), format!("/*{c} *{c}/ */ "));
        if is_newline(ch) {
            // Not in a regex, allowed in the others.
            e.case(&[&c1, "x", " ", "=", " ", &s, "/**/", "+", "\n", &q, " ", "+", " ", &tp, "", ";", &c3, "y", " ", "=", " ", "z", " ", ";", " "]);
            return;
        }
        e.case(&[&c1, "x", &c2, "=", " ", &s, &c1, "+", &c2, &q, " ", "+", " ", &tp, " ", "/", " ", &r, " ", ";", &c3, "y", " ", "=", " ", &r, &c2, ";", " "]);
        if ident_start(ch) {
            let (w, w2) = (format!("{c}{c}a"), format!("a{c}"));
            e.case(&["", "var", " ", c, " ", "=", " ", &w, " ", "/", " ", &w2, " ", "/", " ", c, " ", "in", " ", c, c2.as_str(), ";", " ", "typeof", " ", c, " ", ".", " ", c, " ", ";", ""]);
        }
    });
    // Every pair of ASCII characters in a word, a number, a string, a regex.
    ctx.product("ascii", &[128, 128, 6], |d, e| {
        let (a, b) = (d[0] as u8 as char, d[1] as u8 as char);
        let word = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '$';
        let p: [String; 4];
        match d[2] {
            0 if word(a) && word(b) => {
                p = [format!("x{a}{b}"), format!("_{b}{a}"), format!("i{a}"), format!("{}n{b}", "i")];
                if p.iter().any(|w| matches!(w.as_str(), "in" | "if")) {
                    return;
                }
                emit(e, &["var", &p[0], "=", &p[1], "/", &p[2], "/", &p[3], "in", &p[0], ";"], 1, &NONE);
            }
            1 if word(a) && !a.is_ascii_digit() && word(b) => {
                p = [format!("{a}{b}"), format!("{a}{b}{b}"), format!("{a}"), format!("{a}{b}z")];
                if p.iter().any(|w| KEYWORDS.contains(&w.as_str())) {
                    return;
                }
                emit(e, &["if", "(", &p[0], "===", &p[1], ")", "return", &p[2], "instanceof", &p[3], ";"], 1, &NONE);
            }
            2 if a.is_ascii_digit() && b.is_ascii_digit() => {
                p = [format!("{a}{b}"), format!("{a}.{b}"), format!(".{a}{b}"), format!("{a}e{b}")];
                if number_like(&p[0]) {
                    emit(e, &["x", "=", &p[0], "-", &p[1], "*", &p[2], "/", &p[3], "in", &p[0], "instanceof", "y", ";"], 1, &FEW);
                }
            }
            3 if !matches!(a, '\n' | '\r' | '\\' | '"') && !matches!(b, '\n' | '\r') => {
                p = [format!("\"{a}\\{b}{a}\""), "x".into(), format!("\"\\{b}\""), format!("\"{a}{a}\"")];
                emit(e, &["f", "(", &p[0], "+", &p[2], ",", &p[3], ")", "in", "y", ";"], 0, &NONE);
            }
            4 if !matches!(a, '\n' | '\r' | '\\' | '/' | '[' | '*' | ']') && !matches!(b, '\n' | '\r') => {
                p = [format!("/{a}\\{b}[{a}/]/"), "x".into(), format!("/\\{b}{a}/g"), format!("/[^{a}\\{b}]/i")];
                emit(e, &["f", "(", &p[0], "/", &p[2], ",", &p[3], ")", "/", "y", ";"], 0, &NONE);
            }
            5 if !matches!(a, '\\' | '`' | '$') => {
                p = [format!("`{a}\\{b}{a}`"), "x".into(), format!("`\\{b}`"), format!("`{a}{a}`")];
                emit(e, &["f", "(", &p[0], "+", &p[2], ",", &p[3], ")", "in", "y", ";"], 0, &NONE);
            }
            _ => {}
        }
    });
}

fn number_like(s: &str) -> bool {
    // `08` and `010.5` mean different things: only the plain ones.
    !(s.starts_with('0') && s.len() > 1)
}

const KEYWORDS: &[&str] = &["do", "if", "in", "for", "let", "new", "try", "var"];

fn size_cases(ctx: &Ctx, dense: usize, max: usize) {
    let n = sizes(dense, max);
    ctx.product("sizes", &[n.len(), 20], |d, e| {
        let n = n[d[0]];
        let big = n > 4000;
        match d[1] {
            0 => e.case(&["", "a", &rep(" ", n + 1), "in", &rep("\n", n + 1), "b", &rep("\t", n), ";", &rep(" \n", n)]),
            1 => e.case(&["", "a", &format!("/*{}*/", rep("x ", n)), "+", &format!("//{}\n", rep("y ", n)), "+", "", "b", "", ";", &format!("//{}", rep("*/", n))]),
            2 => e.case(&["", "x", " ", "=", " ", &format!("\"{}\"", rep("\\\" '", n)), " ", "in", " ", &format!("'{}'", rep("//", n)), " ", ";", " "]),
            3 => e.case(&["", "x", " ", "=", " ", &format!("/{}a/g", rep("[/] \\/", n)), " ", "/", " ", &format!("/a{}/", rep("'\"` ", n)), " ", ";", " "]),
            4 => e.case(&["", "x", " ", "=", " ", &format!("`{}`", rep("a ${ b } \\` ", n)), " ", "/", " ", "c", " ", "/", " ", "d", " ", ";", " "]),
            5 => e.case(&["", &format!("a{}", rep("b", n)), " ", "/", " ", &format!("$_{}", rep("\u{e9}", n)), " ", "/", " ", &format!("c{}", rep("\u{20ac}1", n).replace('\u{20ac}', "z")), " ", ";", " "]),
            6 => e.case(&["", "x", " ", "=", " ", &format!("1{}", rep("0", n)), " ", "/", " ", &format!("1{}.5", rep("2", n)), " ", "/", " ", "/ /", " ", ";", " "]),
            7 => many(e, n, &["a", "=", "b", "/", "c", "/", "d", ";"], "\n"),
            8 => many(e, n, &["if", "(", "a", ")", "{", "b", "(", "/ '/", ")", ";", "}", "else", "c", ";"], " "),
            9 if !big => nest(e, n, &["function", "f", "(", ")", "{"], &["return", "/ /", ";"], &["}"]),
            10 if !big => nest(e, n, &["("], &["a", "/", "b", "/", "c"], &[")"]),
            11 if !big => nest(e, n, &["["], &["/ /", "/", "b"], &["]"]),
            12 => many(e, n, &["-", "-", "a", ";"], ""),
            13 => nest(e, n, &["!"], &["a", ";"], &[]),
            14 => nest(e, n, &["typeof"], &["/ '/", ";"], &[]),
            15 => many(e, n, &["\" \"", "in", "' '", ",", "1", "in", "`  `", ",", "/ /", "in", "a", ";"], " "),
            16 => nest(e, n, &["-", "+"], &["a", ";"], &[]),
            17 => nest(e, n, &["a", ".", "in", "/"], &["b", "/", "c", ";"], &[]),
            18 => many(e, n, &["var", "a", "=", "1", ",", "b", ";"], "/**/"),
            19 => many(e, n, &["x", "=>", "{", "y", ";", "}", ";"], "//c\n"),
            _ => {}
        }
    });
}

/// `n` times the same tokens.
fn many(e: &mut Emit<'_>, n: usize, toks: &[&str], gap: &str) {
    let gap_of = |l: &str, r: &str| -> String {
        if restricted(l, r) {
            " ".into()
        } else if gap.is_empty() && !joinable(l, r) {
            " ".into()
        } else {
            gap.to_owned()
        }
    };
    let mut g: Vec<String> = toks.windows(2).map(|w| gap_of(w[0], w[1])).collect();
    g.push(gap_of(toks[toks.len() - 1], toks[0]));
    let mut parts = vec![""];
    for _ in 0..=n {
        for (t, g) in toks.iter().zip(&g) {
            parts.push(t);
            parts.push(g);
        }
    }
    e.case(&parts);
}

fn nest(e: &mut Emit<'_>, n: usize, open: &[&str], inner: &[&str], close: &[&str]) {
    let mut seq: Vec<&str> = Vec::new();
    for _ in 0..n {
        seq.extend(open);
    }
    seq.extend(inner);
    for _ in 0..n {
        seq.extend(close);
    }
    let mut parts = vec![""];
    for (i, t) in seq.iter().enumerate() {
        parts.push(t);
        parts.push(match seq.get(i + 1) {
            Some(_) => " ",
            _ => "",
        });
    }
    e.case(&parts);
}

/// The families shared by the properties about scripts as a whole.
pub fn explore_common(ctx: &Ctx) {
    common(ctx, &FEW);
}

/// The code which follows is not a part of it.
pub fn ends_explicitly(s: &[String]) -> bool {
    matches!(s.last().map(|t| t.as_str()), Some(";" | "}"))
}

fn common(ctx: &Ctx, alts: &Alts) {
    let t = ctx.thorough();
    let all = all_statements();
    let n = all.len();
    ctx.list("statements", &all, |s, e| emit(e, &refs(s), if t { 3 } else { 2 }, if t { &FEW } else { alts }));
    ctx.product("statement-pairs", &[n, n], |d, e| {
        let mut v = refs(&all[d[0]]);
        v.extend(refs(&all[d[1]]));
        emit(e, &v, 1, if t { alts } else { &FEW });
    });
    expressions(ctx, "expressions-small", &SMALL, 5, if t { 6 } else { 2 }, 1, &FEW);
    expressions(ctx, "expressions-medium", &MEDIUM, 3, EXPR_CTX.len(), 1, alts);
    expressions(ctx, "expressions-full", &FULL, if t { 3 } else { 2 }, EXPR_CTX.len(), if t { 1 } else { 2 }, if t { &FEW } else { alts });
    exotic_white_space(ctx, &all);
    hashbangs(ctx, &all);
    size_cases(ctx, if t { 1050 } else { 300 }, if t { 200_000 } else { 20_000 });
}

fn hashbangs(ctx: &Ctx, all: &[Vec<String>]) {
    let bangs = ["#!/usr/bin/env node", "#! ", "#!", "#!/bin/x  'y' \"/* \\", "#!\t`${", "#!//\u{e9}\u{1f600}"];
    let ends = ["\n", "\r", "\n\n", "\n  ", "\n/*c*/", "\n//c\n"];
    ctx.product("hashbangs", &[bangs.len(), ends.len(), all.len()], |d, e| {
        let r = refs(&all[d[2]]);
        let mut parts = vec!["", bangs[d[0]], ends[d[1]]];
        for t in &r {
            parts.push(t);
            parts.push(" ");
        }
        e.case(&parts);
    });
}

// --------------------------------------------------------------------------------------- S02

/// parts: before, literal, neutral literal, after - or gaps and tokens for the numbers.
pub fn judge_s02(family: &str, parts: &[&str]) -> Result<(), String> {
    if family.starts_with("numbers") {
        return judge_s01(family, parts);
    }
    let [before, lit, neutral, after] = parts else { return Err("bad case".into()) };
    let out = minify(&[*before, lit, after].concat())?;
    let neutral_out = minify(&[*before, neutral, after].concat())?;
    let mut it = neutral_out.split(neutral);
    let (Some(l), Some(r), None) = (it.next(), it.next(), it.next()) else {
        return Err(format!("the literal {neutral:?} isn't found once in {neutral_out:?}"));
    };
    let got = out.strip_prefix(l).and_then(|o| o.strip_suffix(r));
    let ok = got.is_some_and(|g| token_at(g, lit) == Ok(g.len()));
    if ok {
        Ok(())
    } else {
        Err(format!("{out:?} instead of {:?}", [l, lit, r].concat()))
    }
}

const LIT_CTX: &[(&str, &str)] = &[
    ("x = ", " ;"),
    ("f ( ", " , b ) ; g ( ) ;"),
    ("function f ( ) { return ", " ; } a ( 'b' ) ;"),
    ("x=", ";y = z ;"),
    ("[ a , ", " ] ; /* ' */ b ( \"c\" ) ;"),
    ("x = { a : ", " , b : / c / } ;"),
    ("x = { // '\n a : ", " } ;"),
    ("case ", " : b ( ) ;"),
    ("x = ", " / y / z ;"),
    ("x = ", "/y/z;"),
    ("x = ( ", " ) / y ;"),
    ("throw ", " ; /* c */ b ( `d` ) ;"),
    ("var a = 'b' , c = ", ""),
    ("a = b + ", " + c ; // d"),
    ("if ( ", " . test ( c ) ) d ( ) ;"),
    ("x = ", " in y ;"),
    ("typeof ", " ;"),
    ("a = [ / b' / , ", " ] ;"),
    ("x => ", " ;"),
    ("a ? ", " : c ;"),
    ("`a${ b }` + ", " + `c` ;"),
    ("if ( a / b / c ) ", " . d ;"),
    ("for ( const [ a ] of ", " ) b / c / d ;"),
];
const STR_BODY: &[&str] = &[
    " ", "  ", "a", "\\\"", "\\'", "\\\\", "/*", "*/", "//", "{", "}", "[", "]", "(", ")", ";", "\t", "\\\n", "\\\r\n", "\\u0061", "\\x41", "\u{e9}", "\u{20ac}", "\u{1f600}", "`", "${", "<!--", "</script>",
    "\\\u{e9}", "=", "\u{2028}", "-->", "\\0", ":", "?", "#!",
];
const TPL_BODY: &[&str] = &[
    " ", "  ", "a", "\\`", "\\\\", "\\$", "$", "{", "}", "'", "\"", "/*", "*/", "//", "\n", "\t", "${ b }", "${ {} }", "${ \"}\" }", "${ '`' }", "${ `c` }", "${ `${ d }` }", "${ /* } ` */ e }", "${ f // } `\n }",
    "${ { g : { } } }", "\u{e9}", "\u{20ac}", "\u{1f600}", "$$", "/", "\\u{61}", "\r\n", "${ `}` }", "${ \"\\\"}\" }", "${ h / 2 / i }", "${ '//' }", "${ `//` }", "${j}", "${ `\\`` }", "\\${", "${ k ( ) { } }", "${ '\\\\' }", "\\{",
];
/// The code of a substitution.
const SUB: &[&str] = &[
    "a", " ", "{", "}", "(", ")", ", ", "'}'", "\" \\\"  \"", "'`  '", "`t  u`", "`}  `", "`  ${ v }  `", "`  ${ { } }`", "/* `'}\" */", "// `'}\"\n", "(/\\\"  /)", "(/\\'  /g)", "(/\\`  /)", "(/\\}  \\//)", "(/\\\\  /)", "+", " / ", "= 1", "\n", "`\\`  `", ".b", "[0]", "'\\\\'",
];
const RE_BODY: &[&str] = &[
    "a", " ", "\\/", "[/]", "[']", "[\"]", "'", "\"", "`", "\\\\", "[\\]/]", "(b)", "{2}", "[^/]", "*", "+", "?", "|", "^", "$", "\u{e9}", "\u{1f600}", "\\[", "\\/*", "[/*]", "[//]", ".", "#", "<!--", "${", "\\u{61}", ";", "[[]", "[`{]",
    "  ", "\\ ", "\\'", "\\]", ",", "=",
];
const FLAGS: &[&str] = &["", "g", "i", "gi", "ig", "m", "gm", "mg", "gimsuy", "dv", "yig"];

pub fn explore_s02(ctx: &Ctx) {
    let t = ctx.thorough();
    for len in 0..=if t { 4 } else { 3 } {
        let mut dims = vec![if len == 4 { 4 } else { LIT_CTX.len() }, 2];
        dims.extend(vec![STR_BODY.len(); len]);
        ctx.product("strings", &dims, |d, e| {
            let c = LIT_CTX[d[0]];
            let q = ["\"", "'"][d[1]];
            let body: String = d[2..].iter().map(|i| STR_BODY[*i]).collect();
            e.case(&[c.0, &format!("{q}{body}{q}"), &format!("{q}QQ{q}"), c.1]);
        });
        dims.remove(1);
        dims[1..].fill(TPL_BODY.len());
        ctx.product("templates", &dims, |d, e| {
            let c = LIT_CTX[d[0]];
            let body: String = d[1..].iter().map(|i| TPL_BODY[*i]).collect();
            // `$` followed by `{`.
            if d[1..].windows(2).any(|w| matches!(TPL_BODY[w[0]], "$" | "$$") && TPL_BODY[w[1]] == "{") {
                return;
            }
            e.case(&[c.0, &format!("`{body}`"), "`QQ`", c.1]);
        });
        if len > 0 {
            dims[1..].fill(RE_BODY.len());
            dims.push(FLAGS.len());
            let last = dims.len() - 1;
            ctx.product("regexes", &dims, |d, e| {
                let c = LIT_CTX[d[0]];
                if d[last] > 2 && len > 2 {
                    return;
                }
                let flags = FLAGS[d[last]];
                let body: String = d[1..last].iter().map(|i| RE_BODY[*i]).collect();
                if body.starts_with('*') || flags.contains(|c| !matches!(c, 'g' | 'i')) && c.1.starts_with(" in") {
                    return;
                }
                e.case(&[c.0, &format!("/{body}/{flags}"), "/QQ/", c.1]);
            });
        }
    }
    // A quote of the other kind, three literals in a row.
    let some: Vec<String> = ["'", "\"", "`", "//", "/*", "\\\\", "\\n", "${", "}"]
        .iter()
        .flat_map(|b| {
            let mut v = vec![];
            for q in ["'", "\"", "`"] {
                if *b != q && !(q == "`" && *b == "${") {
                    v.push(format!("{q}{b}{q}"));
                }
            }
            if !matches!(*b, "//" | "/*") {
                v.push(format!("/{b}/"));
            }
            v.push(format!("/[{b}]/"));
            v
        })
        .collect();
    let n = some.len();
    ctx.product("literal-triples", &[n, n, n, 4], |d, e| {
        let sep = [" , ", "+", " /* ' */ , // \"\n", " ? a : "][d[3]];
        let before = format!("x = {}{sep}", some[d[0]]);
        let after = format!("{sep}{} ; y ( ' ' ) ;", some[d[2]]);
        let lit = &some[d[1]];
        let neutral = match &lit[..1] {
            "'" => "'QQ'",
            "\"" => "\"QQ\"",
            "`" => "`QQ`",
            _ => "/QQ/",
        };
        e.case(&[&before, lit, neutral, &after]);
    });
    // Nested templates.
    for depth in 1..=if t { 7 } else { 6 } {
        let inner = ["${ `", "${`", "a${ b + `", "${ { c : `", "${ '}' + `", "${ d ( `"];
        ctx.sequences("nested-templates", inner.len(), depth, |d, e| {
            let mut s = String::from("`");
            for i in d {
                s.push_str(inner[*i]);
            }
            s.push_str(" x  y ");
            for i in d.iter().rev() {
                s.push_str(["` }", "`}", "` }z", "` } }", "` }", "` ) }"][*i]);
            }
            s.push('`');
            let c = LIT_CTX[d[0] % 4];
            e.case(&[c.0, &s, "`QQ`", c.1]);
        });
    }
    // The code of a substitution: braces and parentheses are balanced in it.
    for len in 1..=5 {
        ctx.sequences("substitutions", SUB.len(), len, |d, e| {
            let mut depth = 0i32;
            // A division comes after a value.
            let mut value = false;
            for i in d {
                match SUB[*i] {
                    " / " if !value => return,
                    "{" | "(" | ", " | " / " | "+" => value = false,
                    " " | "\n" => {}
                    c if c.starts_with("/*") || c.starts_with("//") => {}
                    _ => value = true,
                }
                depth += match SUB[*i] {
                    "{" => 1,
                    "}" => -1,
                    _ => 0,
                };
                if depth < 0 {
                    return;
                }
            }
            if depth > 0 {
                return;
            }
            let code: String = d.iter().map(|i| SUB[*i]).collect();
            let c = LIT_CTX[(d[0] + d[len - 1]) % 4];
            e.case(&[c.0, &format!("`  ${{{code}}}  `"), "`QQ`", c.1]);
        });
    }
    walk(ctx, "substituted-expressions", &SUB_VOCAB, 4, SUB_CTX, 0, &NONE, Some(("x = ", " ; y ( ' ' ) ;")));
    walk(ctx, "substituted-expressions", &SUB_VOCAB, if t { 5 } else { 3 }, &SUB_CTX[..3], 0, &NONE, Some(("x = ", " ; y ( ' ' ) ;")));
    numbers(ctx);
    ctx.run("every-character", 0x110000, |i, e| {
        let Some(ch) = char::from_u32(i as u32) else { return };
        e.state();
        let nl = matches!(ch, '\n' | '\r');
        let c = LIT_CTX[i as usize % LIT_CTX.len()];
        if !nl && !matches!(ch, '"' | '\\') {
            e.case(&[c.0, &format!("\"{ch} {ch}{ch}\\{ch}\""), "\"QQ\"", c.1]);
        }
        if !nl && !matches!(ch, '\'' | '\\') {
            e.case(&[c.0, &format!("'\\{ch}{ch}'"), "'QQ'", c.1]);
        }
        if !matches!(ch, '`' | '\\') {
            e.case(&[c.0, &format!("`{ch} \\{ch}  {ch}`"), "`QQ`", c.1]);
        }
        if !is_newline(ch) && !matches!(ch, '/' | '\\' | '[' | '*' | ']') {
            e.case(&[c.0, &format!("/{ch} [/{ch}]\\{ch}{ch}/"), "/QQ/", c.1]);
        }
    });
    let n = sizes(if t { 1050 } else { 400 }, if t { 1 << 18 } else { 1 << 15 });
    ctx.product("sizes", &[n.len(), 17], |d, e| {
        let n = n[d[0]];
        let c = LIT_CTX[1];
        let (lit, neutral) = match d[1] {
            0 => (format!("\"{}\"", rep("a ", n)), "\"QQ\""),
            1 => (format!("'{}'", rep("\\'", n)), "'QQ'"),
            2 => (format!("\"{}\"", rep("\\\\", n)), "\"QQ\""),
            3 => (format!("\"{}\"", rep("\u{e9}//", n)), "\"QQ\""),
            4 => (format!("`{}`", rep("a \n", n)), "`QQ`"),
            5 => (format!("`{}`", rep("${ a }", n)), "`QQ`"),
            6 => (format!("`{}`", rep("\\`", n)), "`QQ`"),
            7 => (format!("`${{ {} }}`", rep("{ } ", n)), "`QQ`"),
            8 => (format!("/{}/", rep("a ", n + 1)), "/QQ/"),
            9 => (format!("/{}/g", rep("\\/", n + 1)), "/QQ/"),
            10 => (format!("/{}/i", rep("[/'] ", n + 1)), "/QQ/"),
            11 => (format!("/[{}]/i", rep("/\u{20ac}", n)), "/QQ/"),
            12 => (format!("\"{}\"", rep("\\\n", n)), "\"QQ\""),
            13 => (format!("`${{{}a{}  `  `}}`", rep("{ b : ", n), rep(" }", n)), "`QQ`"),
            14 => (format!("`${{ '{}' `  `}}`", rep("  \\'", n)), "`QQ`"),
            15 => (format!("/{}a{}/", rep("( ", n), rep(")", n)), "/QQ/"),
            _ if n <= 900 => (format!("{}x{}", rep("`${", n + 1), rep("}`", n + 1)), "`QQ`"),
            _ => return,
        };
        e.case(&[c.0, &lit, neutral, c.1]);
    });
}

/// A numeric literal, whole.
fn is_number(s: &str) -> bool {
    let run = |s: &str, f: fn(char) -> bool| !s.is_empty() && s.split('_').all(|p| !p.is_empty() && p.chars().all(f));
    let dec = |s: &str| run(s, |c| c.is_ascii_digit());
    let b = s.as_bytes();
    if b.len() > 2 && b[0] == b'0' && !b[1].is_ascii_digit() && !matches!(b[1], b'.' | b'e' | b'E' | b'n' | b'_') {
        let body = s[2..].strip_suffix('n').unwrap_or(&s[2..]);
        return match b[1] {
            b'x' | b'X' => run(body, |c| c.is_ascii_hexdigit()),
            b'o' | b'O' => run(body, |c| ('0'..='7').contains(&c)),
            b'b' | b'B' => run(body, |c| c == '0' || c == '1'),
            _ => false,
        };
    }
    if b.len() > 1 && b[0] == b'0' && b[1].is_ascii_digit() {
        // Legacy octal.
        return s.bytes().all(|c| (b'0'..=b'7').contains(&c));
    }
    if let Some(i) = s.strip_suffix('n') {
        return dec(i);
    }
    let (m, e) = match s.find(['e', 'E']) {
        Some(p) => (&s[..p], Some(&s[p + 1..])),
        None => (s, None),
    };
    if let Some(e) = e {
        if !dec(e.strip_prefix(['+', '-']).unwrap_or(e)) {
            return false;
        }
    }
    match m.split_once('.') {
        None => dec(m) && !m.starts_with("0_"),
        Some((i, f)) => (i.is_empty() || dec(i) && !i.starts_with("0_")) && (f.is_empty() || dec(f)) && !(i.is_empty() && f.is_empty()) && (i.len() < 2 || !i.starts_with('0')),
    }
}

fn numbers(ctx: &Ctx) {
    let frags: &[&str] = &["0", "1", "9", "5", "00", "07", "_", "e", "E", "+", "-", ".", "x", "X", "o", "b", "n", "f", "A", "18446744073709551615", "99999999999999999999"];
    let after: &[&[&str]] = &[&[";"], &["+", "a", ";"], &[".", "a", ";"], &["in", "b", ";"], &["-", "-", "1", ";"], &["/", "a", "/", "b", ";"], &["?", ".5", ":", "1", ";"], &["]", ";"], &[",", "1", ";"], &["*", "1.5", ";"], &["<", "2", ";"]];
    let before: &[&[&str]] = &[&["x", "="], &["return"], &["x", "+"], &["f", "("], &["-"], &["case"], &["a", "?"], &["typeof"], &["!"], &["x", "/"], &["x", "<"], &["~"], &["x", "^"]];
    const A: Alts = Alts {
        any: &[" ", "\n", "/**/", "//c\n", "\r\n"],
        line: &[" ", "/**/"],
        all: &[" ", "/**/"],
    };
    for len in 1..=if ctx.thorough() { 6 } else { 5 } {
        ctx.sequences("numbers", frags.len(), len, |d, e| {
            let lit: String = d.iter().map(|i| frags[*i]).collect();
            if !is_number(&lit) {
                return;
            }
            for (i, b) in before.iter().enumerate() {
                for (j, a) in after.iter().enumerate() {
                    if len > 4 && (i + j) % 5 != 0 {
                        continue;
                    }
                    let mut v = b.to_vec();
                    v.push(&lit);
                    v.extend(*a);
                    emit(e, &v, if len > 3 { 0 } else { 1 }, &A);
                }
            }
        });
    }
}

// --------------------------------------------------------------------------------------- S03

pub fn judge_s03(_family: &str, parts: &[&str]) -> Result<(), String> {
    let src = parts.concat();
    let out = minify(&src)?;
    let toks = tokens_of(parts);
    let before = gaps(&src, toks.iter().copied())?;
    with_leading(&toks, |skip, want| {
        let after = gaps(&out, want.iter().copied()).map_err(|e| format!("{e}: {out:?}"))?;
        for (i, g) in after.iter().enumerate() {
            if g.comments != 0 {
                return Err(format!("a comment was kept: {out:?}"));
            }
            let wanted: Vec<&str> = if i == 0 {
                before[..=skip].iter().flat_map(|g| g.licenses.iter().copied()).collect()
            } else {
                before[i + skip].licenses.clone()
            };
            if wanted != g.licenses {
                return Err(format!("licenses {wanted:?} became {:?}: {out:?}", g.licenses));
            }
        }
        Ok(())
    })
}

const C_BODY: &[&str] = &[
    "", "*", "/", " ", "a", "!", "**", "//", "/*", "{", "}", "\"", "'", "\\", "`", ";", "\n", "\u{e9}", "${", "(", "* /", "\r", "@", "\u{1f600}", "\r\n", "*!", "<!--", "-->", "\u{2028}", "/ x /",
];

pub fn explore_s03(ctx: &Ctx) {
    let t = ctx.thorough();
    // 1. Every body, as a block comment, a license, a line comment with each line terminator.
    let hosts: &[&[&str]] = &[
        &["a", "=", "b", "/", "c", ";", "d", "(", "\"e\"", ")", ";"],
        &["x", "=", "/r '/", "/", "y", "+", "+", "z", "in", "`w`", ";"],
        &["if", "(", "a", ")", "{", "b", ";", "}", "else", "c", ";"],
    ];
    let places: Vec<(usize, usize)> = hosts.iter().enumerate().flat_map(|(h, v)| (0..=v.len()).map(move |p| (h, p))).collect();
    let kinds: &[(&str, &str)] = &[("/*", "*/"), ("/*!", "*/"), ("//", "\n"), ("//", "\r\n"), ("//", ""), (" /* ", "*/ "), ("//!", "\n"), (" /*!", " */\n"), ("/**", "*/")];
    for len in 0..=if t { 3 } else { 2 } {
        let mut dims = vec![places.len(), kinds.len()];
        dims.extend(vec![C_BODY.len(); len]);
        ctx.product("bodies", &dims, |d, e| {
            let (h, p) = places[d[0]];
            let (l, r) = kinds[d[1]];
            let body: String = d[2..].iter().map(|i| C_BODY[*i]).collect();
            let c = format!("{l}{body}{r}");
            // One comment and only that, as the reference sees it.
            let ok = matches!(gap_at(&c, 0), Ok((g, n)) if n == c.len() && g.comments + g.licenses.len() == 1);
            if !ok || (r.is_empty() && p != hosts[h].len()) {
                return;
            }
            let mut parts = vec![""];
            for (i, t) in hosts[h].iter().enumerate() {
                parts.push(t);
                parts.push(if hosts[h].get(i + 1).is_none_or(|r| joinable(t, r)) { "" } else { " " });
            }
            if !parts[2 * p].is_empty() && d[1] != 5 {
                // Next to the white space too.
                let s = format!("{c} ");
                let mut q = parts.clone();
                q[2 * p] = &s;
                if valid(&q) {
                    e.case(&q);
                }
            }
            parts[2 * p] = &c;
            if valid(&parts) {
                e.case(&parts);
            }
        });
    }
    // 2. Comments and licenses in the gaps of every statement, of two statements, of expressions.
    const A: Alts = Alts {
        any: &[
            "/*c*/", "/*!L*/", " /*! L\n */ ", "//c\n", "/*a*//*!b*/", "/*!a*//*!b*/", "/*!a*/ /*b*/ /*!c*/", "//!\n", "/*!*/", "/***/", "\n//a\n//b\n", "/**!*/", "/*!//*/", "//*/\n", "/*!'*/", " /*!\"*/\n", "//\\\n",
        ],
        line: &["/*c*/", "/*!L*/", " /*! L */ ", "/*a*//*!b*/", "/*!a*//*!b*/", "/***/"],
        all: &["/*!L*/", "//c\n", " /*c*//*!d*/ "],
    };
    const B: Alts = Alts {
        any: &["/*c*/", "/*!L*/", "//c\n"],
        line: &["/*c*/", "/*!L*/"],
        all: &["/*!L*/", "//c\n"],
    };
    let all = all_statements();
    let n = all.len();
    ctx.list("statements", &all, |s, e| emit(e, &refs(s), if t { 3 } else { 2 }, if t { &B } else { &A }));
    ctx.product("statement-pairs", &[n, n], |d, e| {
        let mut v = refs(&all[d[0]]);
        v.extend(refs(&all[d[1]]));
        emit(e, &v, 1, if t { &A } else { &B });
    });
    expressions(ctx, "expressions-small", &SMALL, 5, if t { 6 } else { 1 }, 1, &B);
    expressions(ctx, "expressions-medium", &MEDIUM, 3, EXPR_CTX.len(), 1, &A);
    expressions(ctx, "expressions-full", &FULL, 2, EXPR_CTX.len(), 2, &B);
    hashbangs(ctx, &all);
    // 3. Every sequence of comments and statements, from the start to the end of the source.
    let items: &[&str] = &["/*! a */", "/*!*/", "/*c*/", "/**/", "//d\n", "//e", "\n", " ", ";", "x", "f ( ) ;", "/*! \n */", "//!\r"];
    for len in 1..=if t { 7 } else { 6 } {
        ctx.sequences("arrangements", items.len(), len, |d, e| {
            let mut parts: Vec<String> = vec![String::new()];
            for (n, i) in d.iter().enumerate() {
                match *i {
                    5 if n + 1 < d.len() => return,
                    8 => parts.extend([";".to_owned(), String::new()]),
                    // A name followed by its own semicolon.
                    9 => parts.extend(["x".to_owned(), String::new(), ";".to_owned(), String::new()]),
                    10 => parts.extend(["f", " ", "(", " ", ")", " ", ";", ""].map(String::from)),
                    _ => parts.last_mut().unwrap().push_str(items[*i]),
                }
            }
            let p: Vec<&str> = parts.iter().map(|s| s.as_str()).collect();
            if p.len() == 1 || valid(&p) {
                e.case(&p);
            }
        });
    }
    let n = sizes(if t { 1050 } else { 500 }, if t { 1 << 18 } else { 1 << 15 });
    ctx.product("sizes", &[n.len(), 10], |d, e| {
        let n = n[d[0]];
        let c = match d[1] {
            0 => format!("/*{}*/", rep("x", n)),
            1 => format!("/*!{}*/", rep("x ", n)),
            2 => format!("/*!{}*/", rep("/* ", n)),
            3 => format!("//{}\n", rep("*/ ", n)),
            4 => rep("/*!l*/", n),
            5 => rep("/*!l*/ /*c*/\n", n),
            6 => rep("//c\n", n),
            7 => format!("/*{}*/", rep("\u{e9}* ", n)),
            8 => format!("/*!{}*/", rep("\u{20ac}\n", n)),
            _ => format!("/*{}*/", rep("*", n)),
        };
        e.case(&[&c, "a", &c, "=", " ", "b", &c, "/", " ", "d", " ", ";", &c]);
    });
}

// --------------------------------------------------------------------------------------- S04

pub fn judge_s04(_family: &str, parts: &[&str]) -> Result<(), String> {
    let src = parts.concat();
    let out = minify(&src)?;
    let toks = tokens_of(parts);
    let tight = |t: &str| matches!(t, "(" | ")" | "[" | "]" | "{" | "}" | "," | ";" | ":" | "=") || kind(t) == K::Str;
    with_leading(&toks, |_, want| {
        let v = gaps(&out, want.iter().copied()).map_err(|e| format!("{e}: {out:?}"))?;
        for (i, g) in v.iter().enumerate() {
            let l = if i == 0 { None } else { Some(want[i - 1]) };
            let r = want.get(i).copied();
            if l.is_some_and(|l| kind(l) == K::Hashbang) && matches!(g.white.as_str(), "\n" | "\r") {
                continue;
            }
            let ok = match g.white.as_str() {
                "" => true,
                // Where a license was kept, it is what the space is next to.
                " " if !g.licenses.is_empty() => l.is_some() && r.is_some(),
                " " => l.is_some_and(|l| !tight(l)) && r.is_some_and(|r| !tight(r)),
                _ => false,
            };
            if !ok {
                return Err(format!("{:?} between {l:?} and {r:?}: {out:?}", g.white));
            }
        }
        Ok(())
    })?;
    // One space instead of each separator.
    let mut plain = String::new();
    for (i, p) in parts.iter().enumerate() {
        if i % 2 == 1 {
            plain.push_str(p);
            continue;
        }
        if i == 2 && kind(toks[0]) == K::Hashbang {
            plain.push('\n');
            continue;
        }
        let (g, _) = gap_at(p, 0)?;
        let sep = if g.white.is_empty() && g.comments == 0 { "" } else { " " };
        plain.push_str(sep);
        plain.push_str(&g.licenses.concat());
        if !g.licenses.is_empty() {
            plain.push_str(sep);
        }
    }
    let again = minify(&plain)?;
    // The line break which ends a hashbang is a part of it.
    if again.replace('\r', "\n") != out.replace('\r', "\n") {
        return Err(format!("{out:?}, but {again:?} when the tokens are separated by spaces"));
    }
    Ok(())
}

pub fn explore_s04(ctx: &Ctx) {
    const A: Alts = Alts {
        any: &[" ", "\n", "\t", "\r\n", "/*c*/", "//c\n", "/*\n*/", "   ", "\u{c}", "\u{a0}", "\u{2028}", "\r", " \n\t ", "/*!L*/", "\n/*!L*/\n"],
        line: &[" ", "\t", "/*c*/", "  ", " /*c*/ "],
        all: &[" ", "\n", "/*c*/", "//c\n", "\t/*\n*/ ", " /*a*//*b*/ ", "\u{a0}\n"],
    };
    common(ctx, &A);
    if ctx.thorough() {
        let all = all_statements();
        ctx.list("statements-2", &all, |s, e| emit(e, &refs(s), 2, &A));
    }
}
