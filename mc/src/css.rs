//! C01-C04: style sheets.

use crate::csslex::*;
use crate::engine::*;
use crate::sizes::*;
use crate::tmpl::*;
use minifier::css;

pub fn minify(src: &str) -> Result<String, String> {
    css::minify(src).map(|m| m.to_string()).map_err(|e| format!("minification failed: {e}"))
}

pub const ALTS: Alts<'static> = Alts {
    opt: &[" ", "\n", "\t", "/**/", " /*c*/", "/*{*/ ", "/* a */\n"],
    ws: &["\n", "\t", "  ", "\r\n", "/*c*/ ", " /*c*/", "\n/* } */\n", " /*c*//**/ "],
    sep: &["\n", "\t", "  ", "/**/", "/*c*/ ", " /*c*/", "\n/*c*/\n", "/*a*//*b*/"],
    ws_line: &[],
    opt_line: &[],
};

pub fn judge_c01(_family: &str, parts: &[&str]) -> Result<(), String> {
    let src = parts.concat();
    let out = minify(&src)?;
    equivalent(&src, &out)
}

/// Where a selector can be.
pub const SEL_CTX: &[(&str, &str)] = &[
    ("", "{a:b}"),
    ("x{y:z}", "¬{¬a¬:¬b¬;¬}"),
    ("@media print{", "{a:b}}"),
    ("@media (a:b) and (c:d){@supports (e:f){", "{a:b}}}"),
    (".p{q:r;", "{a:b}}"),
    (".p{q:r;s{t:u}", "{a:b}v:w}"),
    ("@import \"i\";", "{a:b}"),
    ("/*! l */", "{}"),
    ("@layer m{.p{", "{a:b}}}z{}"),
    ("@charset \"utf-8\";\n\n", "{a:b}"),
    ("@font-face{a:b}", "{a:b}"),
    ("@namespace n url(u);", "{a:b}"),
];

const SUBCLASSES: &[&str] = &[
    ".b", "#c", "[d]", "[e=\"f\"]", "[g~='h']", "[i^=j]", "[k|=l]", "[m$=n]", "[o*=p]", "[q=r i]", ":s", "::t", ":not(.u)",
    ":is(.v w,x>y)", ":nth-child(2n + 1)", ":nth-last-of-type( -n+3 )", ":lang(z)", ".\\31 a", ".a\\:b", "#\\e9 z", ".-a", ".--b", "._c",
    ".\u{e9}", ":not([a=\"b c\"] d)", ":has(> e)", ":where(f + g , h ~ i)", ":nth-child(2n+1 of .j k)", "::part(l m)", ":not(:n :o)",
];
const TYPES: &[&str] = &["a", "*", "h1", "svg|a", "\\31 a", "\u{e9}t\u{e9}", "my-el", "&", "_x", "-moz-x"];
const COMBINATORS: &[&str] = &[
    " ", ">", "+", "~", ",", " > ", " + ", " ~ ", " , ", "\n", "\t", "  ", "\r\n", "/*c*/ ", " /*c*/", "\n/**/\n", ">\n", "\n>", "+/**/",
    "/**/~", ",\n", "/**/,/**/",
];
const SMALL_SUB: &[&str] = &[".b", "#c", "[d]", ":e", "::f", ":not(.g h)", ".\\31 "];
const SMALL_TYPE: &[&str] = &["a", "*"];
const SMALL_COMB: &[&str] = &[" ", ">", " + ", ",", "/**/ ", "\n~"];

/// Depth-first search over selectors: `in_compound` tells if something is already in the current
/// compound selector.
fn selectors(
    e: &mut Emit<'_>,
    parts: &mut Vec<&'static str>,
    types: &'static [&'static str],
    subs: &'static [&'static str],
    combs: &'static [&'static str],
    in_compound: bool,
    last_star: bool,
    left: usize,
    ctx: (&'static str, &'static str),
) {
    let _ = last_star;
    if in_compound {
        parts.push(ctx.1);
        e.case(parts);
        parts.pop();
    }
    if left == 0 {
        return;
    }
    let mut go = |parts: &mut Vec<&'static str>, f: &'static str, inc: bool| {
        parts.push(f);
        e.state();
        selectors(e, parts, types, subs, combs, inc, false, left - 1, ctx);
        parts.pop();
    };
    if !in_compound {
        for f in types {
            go(parts, f, true);
        }
        for f in subs {
            go(parts, f, true);
        }
    } else {
        for f in subs {
            go(parts, f, true);
            // A comment between two simple selectors is no combinator.
            if left > 1 {
                parts.push("/*c*/");
                go(parts, f, true);
                parts.pop();
            }
        }
        for f in combs {
            go(parts, f, false);
        }
    }
}

fn explore_selectors(ctx: &Ctx, family: &'static str, types: &'static [&'static str], subs: &'static [&'static str], combs: &'static [&'static str], depth: usize, contexts: usize) {
    let firsts: Vec<(usize, &'static str)> = (0..contexts)
        .flat_map(|c| types.iter().chain(subs).map(move |f| (c, *f)))
        .collect();
    ctx.list(family, &firsts, |(c, f), e| {
        let sc = SEL_CTX[*c];
        let mut parts = vec![sc.0, f];
        let end: &'static str = if sc.1.contains('¬') { "{a:b}" } else { sc.1 };
        selectors(e, &mut parts, types, subs, combs, true, false, depth - 1, (sc.0, end));
    });
}

const VALUES: &[&str] = &[
    "red", "1px", "-1px", "+2px", ".5em", "50%", "#fff", "\"s t\"", "'u'", "url(v)", "url(\"w\")", "f(a)", "f(a,b)", "f(a b)",
    "calc(1px + 2px)", "calc((1px - 2px) * 3)", "var(--x)", "!important", "a\\20 b", "U+0-7F", "--y", "\u{e9}", "-webkit-z", "1e3", "1.5e-3s", "0",
    "[l m]", "min(1px , 2px)", "rgb(1 2 3 / 4%)", "url( x )", "(a b)", "_u", "f()", "calc(1px*2)", "f(g(a) b)", "translate(-50%,-50%)"
];
const VALUE_SEPS: &[&str] = &[" ", "\n", "\t", "  ", "/**/", "/*c*/ ", " /*c*/", "\n/*c*/\n", ",", " , ", ",\n", "/", " / ", "/**/,", ", /*c*/"];
const VALUE_CTX: &[(&str, &str)] = &[
    ("a{b:", "}"),
    ("a{b:", ";c:d}"),
    ("a{b : ", " ; }"),
    ("@media print{a{b:", ";c:d}}"),
    ("@media (x:y) and (z:t){a{b:", "}}"),
    ("@font-face{b:", "}"),
    ("a{b:c;&:hover{d:", "}}"),
    ("a{--p:", "}"),
    ("a{b:c;d:", ";e{f:g}}"),
    ("@page{margin:", ";@top-left{a:b}}"),
    ("@keyframes k{from{a:", "}50%,to{b:c}}"),
];

fn explore_values(ctx: &Ctx) {
    let t = ctx.thorough();
    // one and two components in every context, three in the first ones
    let nc = VALUE_CTX.len();
    ctx.product("values-1", &[nc, VALUES.len(), 8], |d, e| {
        let c = VALUE_CTX[d[0]];
        let gaps = ["", " ", "\n", "/**/", "\t", " /*c*/ ", "  ", "/*a*//*b*/"];
        for g in gaps {
            e.transition();
            e.case(&[c.0, gaps[d[2]], VALUES[d[1]], g, c.1]);
        }
    });
    ctx.product("values-2", &[nc, VALUES.len(), VALUE_SEPS.len(), VALUES.len()], |d, e| {
        let c = VALUE_CTX[d[0]];
        e.case(&[c.0, VALUES[d[1]], VALUE_SEPS[d[2]], VALUES[d[3]], c.1]);
    });
    let (v, s) = (VALUES.len(), VALUE_SEPS.len());
    ctx.product("values-3", &[if t { nc } else { 1 }, v, s, v, s, v], |d, e| {
        let c = VALUE_CTX[d[0]];
        e.case(&[c.0, VALUES[d[1]], VALUE_SEPS[d[2]], VALUES[d[3]], VALUE_SEPS[d[4]], VALUES[d[5]], c.1]);
    });
    // math: operands and operators
    let ops: &[&str] = &[" + ", " - ", "*", " * ", "/", " / ", "\n+\n", "  -  ", "/**/ + /**/", " -/*c*/ ", " + -", ","];
    let operands: &[&str] = &["1px", "100%", ".5em", "var(--a)", "(2px + 3px)", "(4px)", "max(5px,6px)", "-7px", "1", "e", "( 8px - 9px )"];
    let fns: &[(&str, &str)] = &[
        ("calc(", ")"),
        ("calc( ", " )"),
        ("min(1px,", ")"),
        ("clamp(1px,", ",2px)"),
        ("-webkit-calc(", ")"),
        ("translate(calc(", "),1px)"),
        ("rgb(from red calc(r + ", ") 1 2)"),
        ("1px calc(", ") 2px"),
        ("calc(1px + (", "))"),
        ("f(calc(2px*3),", ")"),
        ("CALC(", ")"),
        ("hypot(", ")"),
    ];
    let ctxs: &[(&str, &str)] = &[("a{b:", "}"), ("@media print{a{b:", "}c{d:e}}"), ("@media (min-width:", "){a{b:c}}"), ("a{b:calc(1px);c:", ";d:e f}"), ("@supports (a:", ") and (b:c){d{e:f}}")];
    for n in 1..=if t { 4 } else { 3 } {
        let mut dims = vec![ctxs.len(), fns.len(), operands.len()];
        for _ in 1..n {
            dims.push(ops.len());
            dims.push(operands.len());
        }
        if n == 4 {
            dims[0] = 1;
            dims[1] = 4;
        }
        ctx.product("math", &dims, |d, e| {
            let (c, f) = (ctxs[d[0]], fns[d[1]]);
            let mut parts = vec![c.0, f.0, operands[d[2]]];
            for p in d[3..].chunks(2) {
                parts.push(ops[p[0]]);
                parts.push(operands[p[1]]);
            }
            parts.push(f.1);
            parts.push(c.1);
            e.case(&parts);
        });
    }
}

/// `¬` and friends mark the gaps.
pub const STATEMENTS: &[&str] = &[
    "a¬{¬b¬:¬c¬}¬",
    "a¬{¬b¬:¬c¬;¬d¬:¬e␣f¬;¬}¬",
    "a¬,¬.b␣#c¬>¬d¬{¬}¬",
    "@media¦print¬{¬a¬{¬b¬:¬c¬}¬}¬",
    "@media¦screen␣and¦(¬min-width¬:¬1px¬)¬,¬print␣and¦(¬a¬)¬{¬.b␣.c¬{¬d¬:¬e¬;¬}¬}¬",
    "@media␣(¬400px¬<=¬width¬<=¬700px¬)¬{¬a¬{¬b¬:¬c¬}¬}¬",
    "@supports␣(¬a¬:¬b¬)␣and¦(¬not¦(¬c¬:¬d¬)¬)¬{¬e¬{¬f¬:¬g¬}¬}¬",
    "@import␣\"u\"␣screen¬;¬",
    "@import␣url(u)␣layer(a)␣print¬;¬",
    "@charset \"utf-8\"¬;¬",
    "@namespace␣n␣\"u\"¬;¬",
    "@font-face¬{¬a¬:¬\"b\"¬;¬src¬:¬url(c)␣format(¬\"d\"¬)¬,¬url(e)¬}¬",
    "@keyframes␣k¬{¬from¬{¬a¬:¬b¬}¬50%¬,¬60%¬{¬a¬:¬c¬}¬to¬{¬a¬:¬d¬}¬}¬",
    "@page␣:first¬{¬margin¬:¬1px␣2px¬;¬}¬",
    "@layer␣a¬,¬b¬;¬",
    "@layer␣a.b¬{¬c¬{¬d¬:¬e¬}¬}¬",
    "@container␣n␣(¬width¬>¬1px¬)¬{¬a¬{¬b¬:¬c¬}¬}¬",
    "@property␣--p¬{¬syntax¬:¬'<length>'¬;¬inherits¬:¬false¬}¬",
    "@media¦print¬{¬@media¦(¬a¬)␣and¦(¬b¬)¬{¬c␣d¬{¬e¬:¬f¬}¬}¬g␣.h¬{¬i¬:¬j¬}¬}¬",
    "a¬{¬b¬:¬c¬;¬&:hover␣.d¬{¬e¬:¬f¬}¬.g␣.h¬{¬i¬:¬j¬}¬>¬k¬{¬l¬:¬m¬}¬n¬:¬o¬}¬",
    "a¬{¬@media¦(¬b¬)␣and¦(¬c¬)¬{¬d¬:¬e¬}¬f¬:¬g¬}¬",
    "a[b=\"c\"]␣[d]␣e:f␣:g¬{¬h¬:¬url(i)␣no-repeat¬,¬#fff␣50%¬/¬1px¬!important¬}¬",
    "a¬{¬width¬:¬calc(¬100%␣-␣(¬2␣*␣3px¬)␣+␣1px¬)␣2px¬;¬}¬",
    "a::before¬{¬content¬:¬\"\\201C x\"␣counter(¬a¬)␣'y'¬;¬}¬",
    "/*! lic */¬a¬{¬b¬:¬c¬}¬",
    "a:nth-child(¬2n␣+␣1¬)␣b:not(¬.c␣.d¬,¬e¬)¬{¬f¬:¬g¬}¬",
    "a¬{¬;¬b¬:¬c¬;¬;¬}¬",
    "@media¦not¦all␣and¦(¬a¬)¬{¬}¬",
    "a¬{¬--b¬:¬c␣d¬;¬--e¬:¬\"f\"¬}¬",
    "a¬{¬grid-area¬:¬1¬/¬2¬/¬3¬;¬grid¬:¬[¬a␣b¬]␣1fr␣[¬c¬]␣/␣auto¬}¬",
    "a¬{¬filter¬:¬alpha(¬opacity¬=¬50¬)␣drop-shadow(¬1px␣2px␣red¬)¬}¬",
    "@starting-style¬{¬a¬{¬b¬:¬c¬}¬}¬",
    "@-webkit-keyframes␣k¬{¬0%¬{¬a¬:¬b¬}¬}¬",
    "a¬{¬transform¬:¬translate(¬-1px¬,¬+2px¬)␣rotate(¬1deg¬)¬;¬margin¬:¬-1px␣+2px␣-.5em␣auto¬}¬",
    "a.b#c[d]:e::f¬{¬g¬:¬h¬}¬",
    "*␣a¬,¬a␣*¬,¬*¬>¬*¬,¬.b␣*␣.c¬,¬*.d¬{¬e¬:¬f¬}¬",
    "@counter-style␣c¬{¬system¬:¬cyclic¬;¬suffix¬:¬\" \"¬}¬",
    "@scope␣(¬.a¬)␣to¦(¬.b¬)¬{¬c¬{¬d¬:¬e¬}¬}¬",
    "@media¦screen␣and¦(¬a¬:¬1¬/¬2¬)␣or¦(¬b¬)¬{¬c¬{¬d¬:¬e¬}¬}¬",
    "a¬{¬unicode-range¬:¬U+26¬,¬U+0-7F¬;¬b¬:¬url(data:image/png;base64,iVBOR/+=)␣c¬}¬",
];

pub fn explore_c01(ctx: &Ctx) {
    let t = ctx.thorough();
    explore_selectors(ctx, "selectors-small", SMALL_TYPE, SMALL_SUB, SMALL_COMB, if t { 6 } else { 5 }, if t { 4 } else { 2 });
    explore_selectors(ctx, "selectors", TYPES, SUBCLASSES, COMBINATORS, if t { 4 } else { 3 }, SEL_CTX.len());
    explore_values(ctx);
    let all: Vec<Vec<Piece<'_>>> = STATEMENTS.iter().map(|s| parse(s)).collect();
    ctx.list("statements-3-gaps", &all, |p, e| deviate(e, p, &ALTS, if t { 3 } else { 2 }));
    // Pairs of statements: the gap deviations of both, one at a time.
    let n = all.len();
    ctx.product("statement-pairs", &[n, n], |d, e| {
        let mut p = all[d[0]].clone();
        p.extend(all[d[1]].iter().cloned());
        deviate(e, &p, &ALTS, 1);
    });
    ctx.product("statement-triples", &[n, n, n], |d, e| {
        let mut p = all[d[0]].clone();
        p.extend(all[d[1]].iter().cloned());
        p.extend(all[d[2]].iter().cloned());
        deviate(e, &p, &ALTS, 0);
        let all_ws: String = fill(&p, |g| match g {
            G::Opt => "\n ",
            _ => " /*c*/\t",
        });
        e.state();
        e.case(&[&all_ws]);
    });
    // Statements inside of blocks, at several depths.
    let open = ["@media print{", "@media (a) and (b){", "@supports not (a:b){", "@layer x{", "a{b:c;", "a b{", "@container (a){"];
    ctx.product("nested", &[open.len(), open.len(), n], |d, e| {
        let mut p = vec![Piece::Tok(open[d[0]]), Piece::Gap(G::Opt), Piece::Tok(open[d[1]]), Piece::Gap(G::Opt)];
        p.extend(all[d[2]].iter().cloned());
        p.push(Piece::Tok("}x .y{z:t u}"));
        p.push(Piece::Gap(G::Opt));
        p.push(Piece::Tok("}x .y{z:t u}"));
        deviate(e, &p, &ALTS, 1);
    });
    explore_preludes(ctx);
    characters(ctx);
    size_cases(ctx, "sizes", if t { 1050 } else { 300 }, if t { 200_000 } else { 20_000 }, &|e, s| e.case(&[s]));
}

fn explore_preludes(ctx: &Ctx) {
    let t = ctx.thorough();
    let words: &[&str] = &["screen", "and", "not", "only", "or", "(a)", "(a:b)", "(a : b)", "(1px<=w)", "( w > 1px )", ",", "((a)or (b))", "f(x)", "\"s\"", "url(u)", "a.b", "1px"];
    let seps: &[&str] = &[" ", "\n", "  ", "/*c*/ ", " /**/"];
    let names: &[&str] = &["@media ", "@supports ", "@container ", "@import ", "@-moz-document ", "@media\n", "@custom-media "];
    let wrap: &[(&str, &str)] = &[("", "{a b{c:d e}}"), ("", ";a b{c:d e}"), ("@media print{", "{a b{c:d e}}f g{h:i}}"), ("a{b:c;", "{d:e f}}"), ("x y{z:t}", "{a b{c:d}}"), ("@layer a{@media (b){", "{a b{c:d}}}}")];
    for n in 1..=if t { 4 } else { 3 } {
        let mut dims = vec![names.len(), wrap.len()];
        for i in 0..n {
            if i > 0 {
                dims.push(seps.len());
            }
            dims.push(words.len());
        }
        if n == 4 {
            dims[0] = 2;
            dims[1] = 3;
        }
        ctx.product("preludes", &dims, |d, e| {
            let w = wrap[d[1]];
            let mut parts = vec![w.0, names[d[0]]];
            for (i, x) in d[2..].iter().enumerate() {
                parts.push(if i % 2 == 0 { words[*x] } else { seps[*x] });
            }
            parts.push(w.1);
            e.case(&parts);
        });
    }
}

fn characters(ctx: &Ctx) {
    ctx.run("every-character", 0x110000, |i, e| {
        let Some(c) = char::from_u32(i as u32) else { return };
        if (c as u32) < 0x80 {
            return;
        }
        let mut b = [0; 4];
        let c = &*c.encode_utf8(&mut b);
        e.state();
        e.case(&[
            ".", c, " .", c, "x > ", c, " ", c, "-y , a", c, "b :", c, " { ", c, " : ", c, " ", c, "z \"", c, " ", c, "\" \\", c, " url( ", c, "/", c, " ) /* ", c, " */ ; } @media ",
            c, " and (", c, " : ", c, ") { d ", c, " { e : f } }",
        ]);
    });
    // Every ASCII character in an identifier escape, and every identifier character.
    ctx.product("ascii", &[128, 128, 8], |d, e| {
        let (a, b) = (d[0] as u8 as char, d[1] as u8 as char);
        let word = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-';
        let esc = |c: char| !matches!(c, '\n' | '\r' | '\u{c}' | '\0') && !c.is_ascii_hexdigit() && (c as u32) >= 0x20;
        match d[2] {
            0 if word(a) && word(b) => e.case(&[&format!(".x{a}{b} .y{b}{a} > z{{p{a}{b}: q{b}{a} r{a} ; }}")]),
            1 if a.is_ascii_alphabetic() && word(b) => e.case(&[&format!("{a}{b} {a}{b}x , #{b}{a} {a} {{ {a}{b} : {a}{b} {a} }}")]),
            2 if esc(a) && esc(b) => e.case(&[&format!(".\\{a} .x\\{b}y > \\{a}\\{b} {{ p : q\\{a} \\{b}r }}")]),
            3 if b.is_ascii_hexdigit() && a.is_ascii_hexdigit() => e.case(&[&format!(".\\{a}{b} z .\\{b} y > \\{a}\\{b} x {{ p : q\\{a}  \\{b}r \\{a}{b}{a}{b}{a}{b}7 s}}")]),
            4 if word(a) && word(b) => e.case(&[&format!("@media {a} and (x{b}: {b}) {{ .{a}a .b{b} {{ c : d{a} {b}px }} }}")]),
            5 if a.is_ascii_digit() && word(b) => e.case(&[&format!("a {{ b : {a}{b} -{a}.{a}{b} y +{a} .{a} #{a}{b} ; c : f( {a}{b} , {a} ) {b}{a} }}")]),
            6 if word(a) && b.is_ascii_alphabetic() => e.case(&[&format!("a:{b}{a} ::{b}{a}({b}) [{b}{a}] [{b}{a}={b}] {{ --{a}{b} : {b}{a} }}")]),
            7 if word(a) && word(b) => e.case(&[&format!("@x{a}{b} y{b} {{ z{a} x {{ p : q }} }} @{b}k{a} {{ r{b} : s }} t u {{ v : w }}")]),
            _ => {}
        }
    });
}

pub fn size_cases(ctx: &Ctx, family: &'static str, dense: usize, max: usize, f: &(dyn Fn(&mut Emit<'_>, &str) + Sync)) {
    let n = sizes(dense, max);
    ctx.product(family, &[n.len(), 22], |d, e| {
        let n = n[d[0]];
        let big = n > 5000;
        let s = match d[1] {
            0 => format!("a b {{{}c : d }}", rep(" ", n)),
            1 => format!("a{}b {{ c : d }}", rep(" ", n + 1)),
            2 => format!("/*{}*/ a b {{ c : d }}", rep("x ", n)),
            3 => format!("a /*{}*/ b {{ c : d /*{}*/ e }}", rep("*", n), rep("/", n)),
            4 => format!("/*!{}*/ a b {{ c : d }}", rep("x ", n)),
            5 => format!(".x{} .y {{ c{} : d{} e ; }}", rep("a", n), rep("b", n), rep("-", n)),
            6 => format!("a b {{ c : \"{}\" d ; }}", rep("e ", n)),
            7 => format!("a b {{ c : \"{}\" d ; }}", rep("\\\"", n)),
            8 => format!("a b {{ c : url( {} ) d ; }}", rep("e/", n)),
            9 => rep("a b { c : d e ; }\n", n),
            10 => format!("a b {{ {} }}", rep("c : d e ;\n", n)),
            11 => format!("a b {{ c : {} ; }}", rep("d e , ", n) + "f"),
            12 => format!("{} b {{ c : d }}", rep("a > .x y , ", n)),
            13 => format!("{} b c {{ d : e f }} {}", rep("@media (a) and (b) { ", n), rep("}", n)),
            14 => format!("{} b c {{ d : e f }} {}", rep(".a & { ", n), rep("}", n)),
            15 if !big => format!("a b {{ c : {} 1px + 2px {} d }}", rep("calc( ", n + 1), rep(")", n + 1)),
            16 => format!("{}{}", rep("@import \"u\" screen ;\n", n), "a b { c : d }"),
            17 => format!("{} a b {{ c : d e }}", rep("/* c */ \n", n)),
            18 => format!("a{} {{ c : d e }}", rep(" [x] :y", n)),
            19 if !big => format!("a:not({} .b {}) c {{ d : e }}", rep(":not( ", n), rep(")", n)),
            20 => format!("a b {{ c : {}\\31 x d ; e : 1{}px 2 }}", rep("\\a", n), rep("0", n)),
            21 => format!("a b {{ c : #{} \u{e9}{} +1{}% }}", rep("f", n + 3), rep("\u{e9}", n), rep("1", n)),
            _ => return,
        };
        f(e, &s);
    });
}

// --------------------------------------------------------------------------------------- C02

/// parts: before, literal, what is expected of it, a neutral literal of the same kind, after.
pub fn judge_c02(family: &str, parts: &[&str]) -> Result<(), String> {
    if family.starts_with("plain") {
        return judge_c01(family, parts);
    }
    let [before, lit, expected, neutral, after] = parts else { return Err("bad case".into()) };
    let src = [*before, lit, after].concat();
    let out = minify(&src)?;
    equivalent(&src, &out)?;
    let neutral_out = minify(&[*before, neutral, after].concat())?;
    let mut it = neutral_out.split(neutral);
    let (Some(l), Some(r), None) = (it.next(), it.next(), it.next()) else {
        return Err(format!("the literal {neutral:?} isn't found once in {neutral_out:?}"));
    };
    if out != [l, expected, r].concat() {
        return Err(format!("{lit:?}: {out:?} instead of {:?}", [l, expected, r].concat()));
    }
    Ok(())
}

const STR_CTX: &[(&str, &str)] = &[
    ("a b { c : ", " ; d : e f }"),
    ("a b { c : ", " }"),
    ("a b { c : g ", " h , i }"),
    ("a b{c:", "}"),
    ("@import ", " screen ; a b { c : d e }"),
    ("a [ b = ", " ] c { d : e f }"),
    ("[b=", " i] c { d : e f }"),
    ("a:not([b=", "]) .c { d : e f }"),
    ("@media print { a b { c : ", " d ; e : f g } }"),
    ("a { b : url(", ") c ; d : e f }"),
    ("@charset ", "; a b { c : d e }"),
    ("a { font : 1px / 2 ", " , g ; }"),
    ("a { c : f( ", " , b ) d }"),
    ("@font-face { src : url(x) format(", ") , y ; }"),
];
const STR_BODY: &[&str] = &[
    " ", "  ", "a", "\\\"", "\\'", "\\\\", "/*", "*/", "//", "{", "}", "[", "]", "(", ")", ";", ":", ",", "\t", "\\\n", "\\\r\n", "\\31 ",
    "\\e9", "\u{e9}", "\u{20ac}", "\u{1f600}", "\\\u{e9}", ">", "+", "~", "=", "*", "!", "@media ", "url(", "\u{a0}", "<!--", "\\/", "\\*", "#", "%",
];
const URL_BODY: &[&str] = &[
    "a", "/", "//", "/*", "*/", ":", ";", ",", ".", "{", "}", "[", "]", "+", "=", "~", "*", "!", "@", "#", "%20", "?", "&", "\\(", "\\)", "\\ ", "\\'", "\\\"",
    "\\31 ", "\\000031 ", "\u{e9}", "\u{1f600}", "$", "|", "^", ">", "<", "-", "data:image/png;base64,", "\\\\", "`",
];
const ESC: &[&str] = &[
    "\\31 ", "\\31", "\\e9 ", "\\000031", "\\000031 ", "\\00031\t", "\\:", "\\.", "\\ ", "\\{", "\\}", "\\[", "\\]", "\\(", "\\)", "\\;", "\\\"", "\\'", "\\/", "\\*", "\\\\",
    "\\\u{e9}", "\\\u{1f600}", "\\+", "\\>", "\\~", "\\,", "\\#", "\\@", "\\!", "\\g", "\\z", "\\1f600 ", "\\A\r\n", "\\a\n", "a", "-", "_", "1", "\u{e9}", "\\-", "\\=", "\\$", "\\|", "\\%", "\\&",
];
const ESC_CTX: &[(&str, &str)] = &[
    (".", "{a:b c}"),
    (".x > .", " { a : b c }"),
    ("#", " , .y z { a : b c }"),
    ("a ", " .y { a : b c }"),
    (".", ".y z { a : b c }"),
    (".", ":hover z { a : b c }"),
    ("[", "] z { a : b c }"),
    ("[a=", "] z { a : b c }"),
    ("a{b:", "}"),
    ("a { b : ", " ; c : d e }"),
    ("a { b : c ", " , d e }"),
    ("a { ", ": c d }"),
    ("@media ", " and (a:b) { c d { e : f g } }"),
    ("@media print { .", " .y { a : b c } }"),
    ("@keyframes ", " { from { a : b } }"),
    ("a { b : f(", ") c }"),
];

pub fn explore_c02(ctx: &Ctx) {
    let t = ctx.thorough();
    for len in 0..=if t { 4 } else { 3 } {
        let mut dims = vec![STR_CTX.len(), 2];
        dims.extend(vec![STR_BODY.len(); len]);
        ctx.product("strings", &dims, |d, e| {
            let c = STR_CTX[d[0]];
            let q = ["\"", "'"][d[1]];
            let body: String = d[2..].iter().map(|i| STR_BODY[*i]).collect();
            let lit = format!("{q}{body}{q}");
            e.case(&[c.0, &lit, &lit, &format!("{q}QQ{q}"), c.1]);
        });
    }
    // Quotes of the other kind, and two literals in a row.
    let lits: Vec<String> = STR_BODY.iter().flat_map(|b| [format!("\"{b}\""), format!("'{b}'")]).chain(STR_BODY.iter().map(|b| format!("'\"{b}\"'"))).chain(STR_BODY.iter().map(|b| format!("\"'{b}'\""))).collect();
    ctx.product("string-pairs", &[STR_CTX.len(), lits.len(), lits.len(), 3], |d, e| {
        let c = STR_CTX[d[0]];
        let (a, b) = (&lits[d[1]], &lits[d[2]]);
        let sep = [" ", " , ", "\n/* ' */\n"][d[3]];
        let before = format!("x y {{ z : {a}{sep}t }} {}", c.0);
        e.case(&[&before, b, b, "'QQ'", c.1]);
    });
    for len in 1..=if t { 4 } else { 3 } {
        let mut dims = vec![4, 3];
        dims.extend(vec![URL_BODY.len(); len]);
        ctx.product("urls", &dims, |d, e| {
            let (b, a) = [("a b { c : ", " d ; e : f g }"), ("a b{c:", "}"), ("@import ", " screen ; a b { c : d e }"), ("a { b : x , ", " , c d } e f { g : h i }")][d[0]];
            let (l, r) = [("url(", ")"), ("url( ", "\n)"), ("URL(\t", " )")][d[1]];
            let body: String = d[2..].iter().map(|i| URL_BODY[*i]).collect();
            let lit = format!("{l}{body}{r}");
            let head = &l[..4];
            e.case(&[b, &lit, &format!("{head}{body})"), &format!("{head}QQ)"), a]);
        });
    }
    for len in 1..=if t { 4 } else { 3 } {
        let mut dims = vec![ESC_CTX.len()];
        dims.extend(vec![ESC.len(); len]);
        ctx.product("plain-escapes", &dims, |d, e| {
            let c = ESC_CTX[d[0]];
            let body: String = d[1..].iter().map(|i| ESC[*i]).collect();
            if !well_formed_ident(&body) || (c.0.ends_with(' ') && !body.contains('\\')) {
                return;
            }
            // The end of an hexadecimal escape would take the white space of what follows.
            if ends_in_hex(&body) && c.1.starts_with([' ', '\n']) {
                return;
            }
            e.case(&[c.0, &body, c.1]);
        });
    }
    // Every character escaped, in strings, identifiers and urls, and every character in them.
    ctx.run("every-character", 0x110000, |i, e| {
        let Some(ch) = char::from_u32(i as u32) else { return };
        if matches!(ch, '\n' | '\r' | '\u{c}' | '\0') {
            return;
        }
        e.state();
        let lit = format!("\"\\{ch} \\{ch}{}\"", if matches!(ch, '"' | '\\') { 'x' } else { ch });
        e.case(&["a b { c : ", &lit, &lit, "\"QQ\"", " d ; e : f g }"]);
        let lit = format!("'{} \\{ch}\\{ch}'", if matches!(ch, '\'' | '\\') { 'x' } else { ch });
        e.case(&["a [ b = ", &lit, &lit, "'QQ'", " ] c { d : e f }"]);
        if (ch as u32) >= 0x80 || ch.is_ascii_graphic() && !matches!(ch, '"' | '\'' | '(' | ')' | '\\') {
            let lit = format!("url({ch}x\\{ch}{ch})");
            e.case(&["a b { c : ", &lit, &lit, "url(QQ)", " d ; e : f g }"]);
        }
    });
    ctx.run("plain-hex-escapes", 0x110000, |i, e| {
        e.state();
        let s = match i % 4 {
            0 => format!(".\\{i:x} a .b\\{i:x} {{c:\"\\{i:x} d\" e\\{i:06x}f}}"),
            1 => format!("a \\{i:x} .b {{c:d \\{i:06X} e}}"),
            2 => format!("#\\{i:x}\tz y,.x\\{i:06x}-w{{c:url(\\{i:x} d) e}}"),
            _ => format!("@media \\{i:x}  and (a){{.b\\{i:x}  c{{d:e}}}}"),
        };
        e.case(&[&s]);
    });
    let n = sizes(if t { 1050 } else { 400 }, if t { 1 << 18 } else { 1 << 15 });
    ctx.product("sizes", &[n.len(), 10], |d, e| {
        let n = n[d[0]];
        let (lit, neutral) = match d[1] {
            0 => (format!("\"{}\"", rep("a", n)), "\"QQ\""),
            1 => (format!("'{}'", rep(" ", n)), "'QQ'"),
            2 => (format!("\"{}\"", rep("\\\\", n)), "\"QQ\""),
            3 => (format!("\"{}\"", rep("\\\"", n)), "\"QQ\""),
            4 => (format!("'{}'", rep("/* ", n)), "'QQ'"),
            5 => (format!("url({})", rep("a", n + 1)), "url(QQ)"),
            6 => (format!("url({})", rep("\\) ", n).trim_end().replace("\\) ", "\\)") + "b"), "url(QQ)"),
            7 => (format!("'{}'", rep("\u{20ac}", n)), "'QQ'"),
            8 => (format!("\"{}\\\n\"", rep("}", n)), "\"QQ\""),
            _ => (format!("url({}\\ )", rep("\u{e9}/*", n)), "url(QQ)"),
        };
        e.case(&["a b { c : x ", &lit, &lit, neutral, " d , e ; } f g { h : i j }"]);
    });
}

fn ends_in_hex(s: &str) -> bool {
    match s.rfind('\\') {
        Some(p) => {
            let t = &s[p + 1..];
            t.len() <= 6 && !t.is_empty() && t.chars().all(|c| c.is_ascii_hexdigit())
        }
        None => false,
    }
}

/// The text is one identifier for the reference tokenizer.
pub fn well_formed_ident(s: &str) -> bool {
    let v = lex(s);
    v.len() == 1 && v[0].k == K::Ident
}

// --------------------------------------------------------------------------------------- C03

pub fn judge_c03(_family: &str, parts: &[&str]) -> Result<(), String> {
    let src = parts.concat();
    let out = minify(&src)?;
    equivalent(&src, &out)?;
    // The licenses, as texts.
    let bodies = |s: &str| -> Vec<String> {
        lex(s).iter().filter(|t| t.k == K::License).map(|t| t.text[3..t.text.len() - 2].to_owned()).collect()
    };
    if bodies(&src) != bodies(&out) {
        return Err(format!("the license comments changed: {out:?}"));
    }
    // Without its ordinary comments (a space each time one is needed), same result.
    let mut plain = String::new();
    let toks = lex(&src);
    for (i, t) in toks.iter().enumerate() {
        if t.k != K::Comment {
            plain.push_str(t.text);
        } else if i > 0 && i + 1 < toks.len() {
            // Between two tokens which would be joined.
            let (l, r) = (toks[i - 1], toks[i + 1]);
            let joined = format!("{}{}", l.text, r.text);
            let again = lex(&joined);
            if l.k != K::Comment && r.k != K::Comment && (again.len() != 2 || again[0].text != l.text || again[0].k != l.k) && again.first().map(|t| t.k) != Some(K::Ws) {
                return Ok(());
            }
        }
    }
    let plain_out = minify(&plain)?;
    if plain_out != out {
        // Adjacent words: a comment may become a space.
        let word = |o: &str| o.replace(' ', "");
        if word(&plain_out) != word(&out) {
            return Err(format!("with comments: {out:?}, without: {plain_out:?}"));
        }
    }
    Ok(())
}

const C_BODY: &[&str] = &[
    "", "*", "/", " ", "a", "!", "**", "//", "/*", "{", "}", "\"", "'", "\\", "\\*", ";", "\n", "\u{e9}", "[", "(", "* /", "url(", "@", "\u{1f600}", "\r\n", "*!",
];

pub fn explore_c03(ctx: &Ctx) {
    let t = ctx.thorough();
    // 1. Every body, in comments and licenses, at each kind of place.
    let places: &[(&str, &str)] = &[
        ("", "a b { c : d e }"),
        ("a b { c : d e } ", ""),
        ("a b { ", " c : d e }"),
        ("a b { c : d e ; ", " f : g }"),
        ("a b { c : ", " d e }"),
        ("a b { c : d ; } ", " f g { h : i }"),
        ("@media print { ", " a b { c : d } }"),
        ("@media print { a b { c : d } ", " }"),
        ("@import \"u\" ; ", " a b { c : d e }"),
        ("a , ", " b c { d : e }"),
        ("a b { c ", " : d e }"),
        ("a b { c : d e ", " ; f : g }"),
        ("a b { c : d , ", " e f }"),
        ("a b ", " { c : d }"),
        ("a ", " > b { c : d }"),
        ("a b { c : f( ", " d , e ) g }"),
    ];
    for len in 1..=if t { 4 } else { 3 } {
        let mut dims = vec![places.len(), 3];
        dims.extend(vec![C_BODY.len(); len]);
        ctx.product("bodies", &dims, |d, e| {
            let p = places[d[0]];
            let body: String = d[2..].iter().map(|i| C_BODY[*i]).collect();
            let open = ["/*", "/*!", "/**"][d[1]];
            let c = format!("{open}{body}*/");
            // A single comment, as the reference sees it.
            let v = lex(&c);
            if v.len() != 1 || v[0].unclosed {
                return;
            }
            e.case(&[p.0, &c, p.1]);
        });
    }
    // 2. Comments and licenses in every gap of every statement: one, two, three.
    const A: Alts<'static> = Alts {
        opt: &["/**/", "/*c*/", " /*c*/ ", "/*/**/", "/***/ /*!l*/", "/*a*//*b*/", "/*! L */", "/** L */ ", "/*c*//*!l*//*d*/"],
        ws: &["/*c*/ ", " /*c*/", " /*c*/ ", "/*c*/\n/*d*/", "\n/*;*/ "],
        sep: &["/**/", "/*c*/", " /*c*/", "/*c*/ ", "/*a*//*b*/"],
        ws_line: &[],
        opt_line: &[],
    };
    // In selectors, licenses are out of the domain (see DESIGN.md).
    const B: Alts<'static> = Alts {
        opt: &["/**/", "/*c*/", " /*c*/ ", "/*/**/", "/*a*//*b*/", "/*{*/", "/*\"*/", "/*}*/\n"],
        ws: &["/*c*/ ", " /*c*/", " /*c*/ ", "/*c*/\n/*d*/", "\n/*;*/ "],
        sep: &["/**/", "/*c*/", " /*c*/", "/*c*/ ", "/*a*//*b*/"],
        ws_line: &[],
        opt_line: &[],
    };
    let all: Vec<Vec<Piece<'_>>> = STATEMENTS.iter().map(|s| parse(s)).collect();
    ctx.list("comments-in-gaps", &all, |p, e| deviate(e, p, &B, if t { 3 } else { 2 }));
    ctx.list("licenses-in-gaps", &all, |p, e| deviate(e, p, &A, if t { 2 } else { 1 }));
    // 3. Between the simple selectors and around the combinators.
    let cs: &[&str] = &["/**/", "/*c*/", " /*c*/", "/*c*/ ", " /*c*/ ", "/*a*//*b*/", "/*a*/ /*b*/", "\n/*c*/"];
    let left: &[&str] = &["a", "*", ".b", "#c", "[d]", "[e=\"f\"]", ":g", "::h", ":not(.i)", ".\\31 ", ".\\31", "&", ".j\\:", "\\6b ", "a:l", "m.n"];
    let right: &[&str] = &[".b", "#c", "[d]", ":g", "::h", ":not(.i)", ".\\31 x", ":is(a b)"];
    ctx.product("selector-comments", &[SEL_CTX.len(), left.len(), cs.len(), right.len(), cs.len() + 1, right.len()], |d, e| {
        let c = SEL_CTX[d[0]];
        if d[0] >= 4 && d[4] > 3 {
            return;
        }
        let end = if c.1.contains('¬') { "{a:b}" } else { c.1 };
        if d[4] == cs.len() {
            e.case(&[c.0, left[d[1]], cs[d[2]], right[d[3]], end]);
        } else {
            e.case(&[c.0, left[d[1]], cs[d[2]], right[d[3]], cs[d[4]], right[d[5]], end]);
        }
    });
    // 4. Licenses between statements, in every arrangement.
    let items: &[&str] = &["/*! a */", "/** b */", "/*c*/", "/**/", "a b{c:d}", "\n", "@import \"u\";", "@media x{", "}", "e f{g:h;", "i:j;"];
    for len in 1..=if t { 7 } else { 6 } {
        ctx.sequences("arrangements", items.len(), len, |d, e| {
            // Declarations only in rules, rules everywhere, blocks are closed at the end.
            let mut depth: Vec<usize> = vec![];
            for i in d {
                match i {
                    7 | 9 => depth.push(*i),
                    8 => {
                        if depth.pop().is_none() {
                            return;
                        }
                    }
                    10 if depth.last() != Some(&9) => return,
                    6 if !depth.is_empty() => return,
                    _ => {}
                }
            }
            let mut parts: Vec<&str> = d.iter().map(|i| items[*i]).collect();
            parts.resize(parts.len() + depth.len(), "}");
            e.case(&parts);
        });
    }
    let n = sizes(if t { 1050 } else { 500 }, if t { 1 << 18 } else { 1 << 15 });
    ctx.product("sizes", &[n.len(), 9], |d, e| {
        let n = n[d[0]];
        let s = match d[1] {
            0 => format!("a /*{}*/ b {{ c : d }}", rep("x", n)),
            1 => format!("/*!{}*/ a b {{ c : d }}", rep("x ", n)),
            2 => format!("/**{}*/ a b {{ c : d }}", rep(" *", n)),
            3 => format!("a b {{ {} c : d e }}", rep("/* ; */", n)),
            4 => format!("{} a b {{ c : d e }}", rep("/*! l */\n", n)),
            5 => format!("{}", rep("/*! l */ a b { c : d }\n", n)),
            6 => format!("a{}b {{ c : d{}e }}", rep("/*c*/ ", n + 1), rep(" /*c*/", n + 1)),
            7 => format!(".a{}.b {{ c : d }}", rep("/*c*/", n + 1)),
            _ => format!("a /*{}*/ b {{ c : d }} /*!{}*/", rep("\u{e9}*", n), rep("\u{20ac}/", n)),
        };
        e.case(&[&s]);
    });
}

// --------------------------------------------------------------------------------------- C05

pub fn judge_c05(_family: &str, parts: &[&str]) -> Result<(), String> {
    let src = parts.concat();
    let out = minify(&src)?;
    wasted(&out)
}

pub fn explore_c05(ctx: &Ctx) {
    // 1. Blocks and declarations written with white space everywhere, after each kind of name.
    let names: &[&str] = &["calc", "a", "min", "url", "var", "from", "media", "\\63 alc", "Calc", "-calc", "calc-x", "calc(1px)", "calc(1px + (2px))", "calc(calc(1px) - 2px)", "url(calc)", "\"calc(\"", "f(calc)", "(calc)", "[calc]", "/*calc(*/"];
    let places: &[(&str, &str)] = &[
        ("a { b : ", " c ; d : e ; }"),
        ("a { b : c ", " ; }"),
        ("a { ", " : b ; }"),
        (".", " > b { c : d ; }"),
        ("@keyframes ", " { from { a : b ; } }"),
        ("@media ( a : ", " ) { b { c : d ; } }"),
        (".a [ ", " = \"b\" ] > c { d : e ; }"),
        ("a :", " > b { c : d ; }"),
        ("@layer ", " ; a { b : c ; }"),
        ("a { b : f( ", " , c ) d ; }"),
        ("@media print { a { b : ", " ; c : d } }"),
        ("a { b : g( c ) ", " ( d ) ; e : f }"),
    ];
    let after: &[&str] = &[" a > b , c { d : e ; }", "\n@media x { a > b { c : d ( e ) f , g ; } }\n", " a { b : calc( 1px + 2px ) c ; d : e } ", "\na { b : ) ; c : d ; }\n"];
    ctx.product("names", &[places.len(), names.len(), places.len(), names.len(), after.len()], |d, e| {
        let (p, q) = (places[d[0]], places[d[2]]);
        let parts = [p.0, names[d[1]], p.1, " ", q.0, names[d[3]], q.1, after[d[4]]];
        if !expected_error(&parts.concat()) {
            e.case(&parts);
        }
    });
    explore_c01(ctx);
    ctx.prefixed("comments", explore_c03);
}

// --------------------------------------------------------------------------------------- C04

pub fn judge_c04(family: &str, parts: &[&str]) -> Result<(), String> {
    let src = parts.concat();
    let got = css::minify(&src).is_err();
    if family.starts_with("well-formed") {
        return if got { Err("a well-formed style sheet was rejected".into()) } else { Ok(()) };
    }
    let want = expected_error(&src);
    if got != want {
        return Err(format!("{} instead of {}", if got { "Err" } else { "Ok" }, if want { "Err" } else { "Ok" }));
    }
    Ok(())
}

/// What isn't part of the statement: line breaks in strings, bad or unclosed urls, escaped line
/// breaks out of strings.
fn out_of_c04(src: &str) -> bool {
    if lex(src).iter().any(|t| matches!(t.k, K::BadStr | K::BadUrl) || (t.k == K::Url && t.unclosed)) {
        return true;
    }
    // `.url(`, `!url(`, `\31url(`: not an url for everybody.
    src.match_indices("url(").any(|(i, _)| src[..i].ends_with(['!', '#', '.', '@', '%', '&', '<', '?', '`']))
        || lex(src).iter().any(|t| t.k == K::Function && t.text.contains('\\') && t.text.ends_with("url("))
}

pub fn explore_c04(ctx: &Ctx) {
    let t = ctx.thorough();
    let frags: &[&str] = &[
        "{", "}", "[", "]", "\"", "'", "\\", "/*", "*/", "/", "*", " ", "a", "(", ")", "url(", ";", ":", "@m ", "!", "\\31", "\u{e9}", "/**", "/*!", "=",
    ];
    for len in 0..=if t { 6 } else { 5 } {
        ctx.sequences("fragments", frags.len(), len, |d, e| {
            let src: String = d.iter().map(|i| frags[*i]).collect();
            if out_of_c04(&src) {
                return;
            }
            e.case(&[&src]);
        });
    }
    // Line breaks too, with fewer fragments.
    let frags: &[&str] = &["{", "}", "[", "]", "\"", "'", "/*", "*/", "\n", "a", "\\\"", "\\'", "\\\\", "\r\n", "\\]", "\\}", "\u{1f600}"];
    for len in 0..=if t { 6 } else { 5 } {
        ctx.sequences("line-breaks", frags.len(), len, |d, e| {
            let src: String = d.iter().map(|i| frags[*i]).collect();
            if out_of_c04(&src) {
                return;
            }
            e.case(&[&src]);
        });
    }
    // Braces and brackets: every sequence up to 12.
    for len in 1..=if t { 11 } else { 9 } {
        ctx.sequences("brackets", 4, len, |d, e| {
            let src: String = d.iter().map(|i| ["{", "}", "[", "]"][*i]).collect();
            e.case(&[&src]);
        });
    }
    // A well-formed statement in which one fragment is inserted or one byte is removed anywhere.
    let mutants: &[&str] = &["{", "}", "[", "]", "\"", "'", "/*", "*/", "\\", "[[", "]]", "}}", "\"\"", "/**/", "''", "[]", "{}"];
    let all: Vec<String> = STATEMENTS.iter().map(|s| fill(&parse(s), |g| if g == G::Opt { "" } else { " " })).collect();
    ctx.product("mutants", &[all.len(), all.len(), mutants.len() + 1], |d, e| {
        let s = format!("{}{}", all[d[0]], all[d[1]]);
        for (i, c) in s.char_indices().chain([(s.len(), ' ')]) {
            let m = match mutants.get(d[2]) {
                Some(f) => format!("{}{}{}", &s[..i], f, &s[i..]),
                None if i < s.len() => format!("{}{}", &s[..i], &s[i + c.len_utf8()..]),
                None => s[..s.len() - 1].to_owned(),
            };
            if out_of_c04(&m) {
                continue;
            }
            e.transition();
            e.case(&[&m]);
        }
    });
    // Truncations.
    ctx.product("truncated", &[all.len(), all.len()], |d, e| {
        let s = format!("{}{}", all[d[0]], all[d[1]]);
        for (i, _) in s.char_indices() {
            if !out_of_c04(&s[..i]) {
                e.transition();
                e.case(&[&s[..i]]);
            }
        }
    });
    // Well-formed style sheets.
    let tm: Vec<Vec<Piece<'_>>> = STATEMENTS.iter().map(|s| parse(s)).collect();
    let n = tm.len();
    ctx.product("well-formed-pairs", &[n, n], |d, e| {
        let mut p = tm[d[0]].clone();
        p.extend(tm[d[1]].iter().cloned());
        deviate(e, &p, &ALTS, 1);
    });
    size_cases(ctx, "well-formed-sizes", if t { 600 } else { 200 }, if t { 200_000 } else { 20_000 }, &|e, s| e.case(&[s]));
    let n = sizes(if t { 1050 } else { 300 }, if t { 200_000 } else { 20_000 });
    ctx.product("sizes", &[n.len(), 14], |d, e| {
        let n = n[d[0]];
        let s = match d[1] {
            0 => format!("{}{}", rep("{", n), rep("}", n)),
            1 => format!("{}{}", rep("{", n), rep("}", n + 1)),
            2 => format!("{}{}", rep("a{", n), rep("b:c}", n)),
            3 => format!("{}]", rep("[a]", n)),
            4 => format!("{}[a[", rep("[a]", n)),
            5 => format!("a{{b:\"{}", rep("c", n)),
            6 => format!("a{{b:\"{}\\\"", rep("\\\\", n)),
            7 => format!("/*{}", rep("* /", n)),
            8 => format!("a{{b:c}}{}}}", rep("a{b:c}", n)),
            9 => format!("{}a{{b:'c}}", rep("a{b:'c'}", n)),
            10 => format!("a{{b:'{}'}}]", rep("]", n)),
            11 => format!("/*{}*/}}", rep("}", n)),
            12 => format!("{}'", rep("\\'", n)),
            _ => format!("{}}}", rep("\\}", n)),
        };
        e.case(&[&s]);
    });
}
