//! O01: `write` against `to_string`, over every behaviour of the writer.

use crate::engine::*;
use std::io::{Error, ErrorKind, Write};

struct Script<'a> {
    got: &'a mut Vec<u8>,
    plan: Vec<Ans>,
    last: Ans,
    at: usize,
    failed: Option<Ans>,
}

#[derive(Clone, Copy, Debug)]
enum Ans {
    Take(usize),
    Zero,
    Fail(ErrorKind),
}

impl Write for &mut Script<'_> {
    fn write(&mut self, buf: &[u8]) -> Result<usize, Error> {
        let a = self.plan.get(self.at).copied().unwrap_or(self.last);
        self.at += 1;
        match a {
            Ans::Take(n) => {
                let n = n.min(buf.len());
                self.got.extend_from_slice(&buf[..n]);
                Ok(n)
            }
            Ans::Zero => {
                if !buf.is_empty() && self.failed.is_none() {
                    self.failed = Some(a);
                }
                Ok(0)
            }
            Ans::Fail(k) => {
                if k != ErrorKind::Interrupted && self.failed.is_none() {
                    self.failed = Some(a);
                }
                Err(k.into())
            }
        }
    }
    fn flush(&mut self) -> Result<(), Error> {
        Ok(())
    }
}

fn answers(s: &str) -> Vec<Ans> {
    s.split(',')
        .filter(|s| !s.is_empty())
        .map(|s| match s {
            "zero" => Ans::Zero,
            "intr" => Ans::Fail(ErrorKind::Interrupted),
            "other" => Ans::Fail(ErrorKind::Other),
            "block" => Ans::Fail(ErrorKind::WouldBlock),
            "broken" => Ans::Fail(ErrorKind::BrokenPipe),
            "full" => Ans::Fail(ErrorKind::StorageFull),
            n => Ans::Take(n.parse().expect("answer")),
        })
        .collect()
}

/// parts: language, source, answers of the writer (the last one is repeated).
pub fn judge(_family: &str, parts: &[&str]) -> Result<(), String> {
    let (lang, src) = (parts[0], parts[1]);
    let mut plan = answers(parts[2]);
    let last = plan.pop().unwrap_or(Ans::Take(usize::MAX));
    let mut got = Vec::new();
    let mut w = Script {
        got: &mut got,
        plan,
        last,
        at: 0,
        failed: None,
    };
    let (want, r) = match lang {
        "css" => {
            let Ok(m) = minifier::css::minify(src) else { return Err("css: minification failed".into()) };
            (m.to_string(), m.write(&mut w))
        }
        "js" => {
            let Ok(m) = minifier::js::minify(src) else { return Err("js: minification failed".into()) };
            (m.to_string(), m.write(&mut w))
        }
        _ => {
            let m = minifier::json::minify(src);
            (m.to_string(), m.write(&mut w))
        }
    };
    // What happened, as seen by the writer.
    let first_failure = w.failed;
    let failed = first_failure.is_some();
    if !want.as_bytes().starts_with(&got) {
        return Err(format!(
            "the writer received {:?}, to_string is {:?}",
            String::from_utf8_lossy(&got),
            want
        ));
    }
    match r {
        Ok(()) if failed => Err("the writer failed but write returned Ok".into()),
        Ok(()) if got.len() != want.len() => Err(format!(
            "write returned Ok but only {} bytes out of {} were written",
            got.len(),
            want.len()
        )),
        Ok(()) => Ok(()),
        Err(e) if !failed => Err(format!("write failed with {e:?} but the writer did not")),
        Err(e) => match first_failure {
            Some(Ans::Fail(k)) if k != e.kind() => Err(format!("error {k:?} became {:?}", e.kind())),
            Some(Ans::Zero) if e.kind() != ErrorKind::WriteZero => Err(format!("accepting 0 bytes became {:?}", e.kind())),
            _ => Ok(()),
        },
    }
}

const CSS: &[&str] = &[
    "",
    ".a > b { c : d }",
    "/*! l\u{e9} */ a::before { content : \"\u{20ac} \" }",
    "@media (a) and (b) { .x , #y z * { w : calc(1px + 2%) ; } }",
    "a[b~=\"c\"] , d[e|=f] [g$='h'] i[j^=k] l[m*=n] { o : url( p ) !important }",
    ".\\31 \\e9 x{a:b/c;d:e*f}",
    "a:not(.b) ~ c + d { e : f } /** g */ @import \"h\" ;",
];
const JS: &[&str] = &[
    "",
    "var a = 1 , b = \"\u{e9}\" ;",
    "/*! l */ for ( let i = 0 ; i <= 1.5 ; ++ i ) { x = `a${ b }c` ; }",
    "return /re[/]/gi . test ( a ) ; a = b / c ; a += + + b ; typeof x in y ;",
    "#!/bin/node\nfunction f ( ) { return a instanceof b ; } a < ! -- b ; x = a / /r/ ;",
    "x = a ? b : c || d && e !== f == g ; y = 010 + 1 .a ; z -= - - 1 % 2 * 3",
    "a = \u{e9}\u{20ac} ; 'x\\'y' ; a = [ 1 , 2 ] ; b = { c : d } ; case \"x\" : /* gone */ // gone",
];
const JSON: &[&str] = &[
    "",
    "[ 1 , 2 ]",
    "{ \"a \\\" b\" : \"\u{e9}\u{20ac}\u{1f600}\" , \"c\" : [ true , null ] }",
    "\" \"",
];

pub fn explore(ctx: &Ctx) {
    let t = ctx.thorough();
    let mut inputs: Vec<(&str, String)> = vec![];
    for (l, s) in [("css", CSS), ("js", JS), ("json", JSON)] {
        inputs.extend(s.iter().map(|s| (l, s.to_string())));
    }
    // 1. Every sequence of answers among full, 1, 2, 3 bytes and Interrupted, then a constant one.
    let ans = ["1000000", "1", "2", "3", "intr"];
    let len = if t { 7 } else { 5 };
    ctx.product("answer-sequences", &[inputs.len(), ans.len().pow(len as u32), 4], |d, e| {
        let (l, s) = &inputs[d[0]];
        let mut plan = vec![];
        let mut x = d[1];
        for _ in 0..len {
            plan.push(ans[x % ans.len()]);
            x /= ans.len();
        }
        plan.push(["1000000", "1", "2", "5"][d[2]]);
        e.nontrivial();
        e.case(&[l, s, &plan.join(",")]);
    });
    // 2. A failure (error, or nothing accepted) at every call, for each size accepted before.
    let fails = ["zero", "other", "block", "broken", "full"];
    let max = if t { 160 } else { 120 };
    ctx.product("failure-at-every-call", &[inputs.len(), max, 4, fails.len()], |d, e| {
        let (l, s) = &inputs[d[0]];
        let take = ["1000000", "1", "2", "3"][d[2]];
        let mut plan = vec![take; d[1]];
        plan.push(fails[d[3]]);
        // The writer works again afterwards: nothing more must reach it.
        plan.push(["1000000", "1"][d[1] % 2]);
        e.nontrivial();
        e.case(&[l, s, &plan.join(",")]);
    });
    // 3. Two interruptions at any calls, then a failure or not.
    let m = if t { 60 } else { 30 };
    ctx.product("interruptions", &[inputs.len(), m, m, 3, 3], |d, e| {
        let (l, s) = &inputs[d[0]];
        let take = ["1000000", "1", "4"][d[3]];
        let mut plan = vec![take; d[1]];
        plan.push("intr");
        plan.extend(vec![take; d[2]]);
        plan.push("intr");
        plan.push("intr");
        plan.push([take, "other", "zero"][d[4]]);
        if d[4] > 0 {
            plan.push(take);
        }
        e.nontrivial();
        e.case(&[l, s, &plan.join(",")]);
    });
    // 4. Long outputs and every accepted size.
    let long: Vec<(&str, String)> = vec![
        ("css", CSS.join("\n").repeat(if t { 200 } else { 60 })),
        ("js", JS[1..4].join("\n").repeat(if t { 200 } else { 60 })),
        ("json", format!("[ {} 1 ]", "{ \"a \u{20ac}\" : [ \" \\\" \" ] } , ".repeat(if t { 600 } else { 200 }))),
    ];
    let sizes = crate::sizes::sizes(300, 9000);
    ctx.product("accepted-sizes", &[long.len(), sizes.len(), 3], |d, e| {
        let (l, s) = &long[d[0]];
        let n = sizes[d[1]].max(1).to_string();
        let plan = match d[2] {
            0 => n,
            1 => format!("{n},intr,{n}"),
            _ => format!("1,{n},1000000"),
        };
        e.nontrivial();
        e.case(&[l, s, &plan]);
    });
    // ... and a failure at every call of a long output.
    let n = if t { 4000 } else { 1500 };
    ctx.product("late-failure", &[long.len(), n, 2], |d, e| {
        let (l, s) = &long[d[0]];
        let mut plan = "1000000,".repeat(d[1]);
        plan.push_str(["zero", "other"][d[2]]);
        plan.push_str(",1000000");
        e.nontrivial();
        e.case(&[l, s, &plan]);
    });
}
