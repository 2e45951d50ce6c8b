//! L01, L02: the command line. A case is a configuration: options first (`t=`, `o=`, `prev=`,
//! `args=`), then the inputs, `kind:name`. `@` stands for the absolute path of the scratch directory.
//! The model computes, from the configuration alone, the files which must exist afterwards.

use crate::engine::*;
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::OnceLock;

const NOBODY: u32 = 65534;

/// What the command line runs as, and a copy of it that anybody can run.
struct Bin {
    path: PathBuf,
    user: Option<u32>,
}

fn bin() -> &'static Bin {
    static BIN: OnceLock<Bin> = OnceLock::new();
    BIN.get_or_init(|| {
        let dir = tmp_root().join("bin");
        fs::create_dir_all(&dir).expect("scratch directory");
        let path = dir.join(format!("minifier-{}", std::process::id()));
        let from = Path::new(VERIF).join("target/cli/debug/minifier");
        if fs::copy(&from, &path).is_err() {
            engine_error("the command line was not built");
        }
        fs::set_permissions(&path, fs::Permissions::from_mode(0o755)).expect("permissions");
        // Anything which escapes from the scratch directory must not be able to harm.
        let works = |user: Option<u32>| {
            let mut c = Command::new(&path);
            c.arg("--version").stdout(Stdio::null()).stderr(Stdio::null()).stdin(Stdio::null()).current_dir("/");
            if let Some(u) = user {
                c.uid(u).gid(u);
            }
            c.status().is_ok_and(|s| s.success())
        };
        let user = if works(Some(NOBODY)) { Some(NOBODY) } else { None };
        if user.is_none() && !works(None) {
            engine_error("the command line does not run");
        }
        Bin { path, user }
    })
}

const CSS: &str = "a b {\n  c : d ;\n}\n/* e */ .f > g { h : \"\u{e9}  i\" }\n";
const JS: &str = "// c\nvar a = \"b  c\" ;\nif ( a ) { d ( / e / ) ; }\n";
const JSON: &str = "{ \"a \" : [ 1 , \"\u{20ac} \" ] }\n";

fn minified(ty: &str, content: &str) -> Option<String> {
    match ty {
        "css" => minifier::css::minify(content).ok().map(|m| m.to_string()),
        "js" => minifier::js::minify(content).ok().map(|m| m.to_string()),
        _ => Some(minifier::json::minify(content).to_string()),
    }
}

/// The name of a file: without its last extension, and this extension.
fn split_ext(name: &str) -> (&str, &str) {
    match name.rfind('.') {
        Some(i) if i > 0 => (&name[..i], &name[i + 1..]),
        _ => (name, ""),
    }
}

#[derive(Clone, PartialEq, Debug)]
enum Node {
    File(Vec<u8>),
    Dir,
    Link(PathBuf),
}

type Tree = BTreeMap<String, Node>;

fn read_tree(root: &Path, at: &Path, out: &mut Tree) {
    let entries = match fs::read_dir(at) {
        Ok(e) => e,
        Err(e) => engine_error(&format!("{at:?}: {e}")),
    };
    for e in entries.flatten() {
        let path = e.path();
        let rel = path.strip_prefix(root).expect("inside").to_string_lossy().into_owned();
        let t = e.file_type().expect("type");
        if t.is_symlink() {
            out.insert(rel, Node::Link(fs::read_link(&path).unwrap_or_default()));
        } else if t.is_dir() {
            out.insert(rel, Node::Dir);
            read_tree(root, &path, out);
        } else {
            out.insert(rel, Node::File(fs::read(&path).unwrap_or_default()));
        }
    }
}

/// `a/./b/../c` is `a/c`.
fn normal(path: &str) -> String {
    let mut v: Vec<&str> = Vec::new();
    for c in path.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    v.join("/")
}

fn add_file(tree: &mut Tree, path: &str, content: &[u8]) {
    add_parents(tree, path);
    tree.insert(path.to_owned(), Node::File(content.to_vec()));
}

fn add_parents(tree: &mut Tree, path: &str) {
    for (i, _) in path.match_indices('/') {
        tree.entry(path[..i].to_owned()).or_insert(Node::Dir);
    }
}

struct Input<'a> {
    kind: &'a str,
    /// As given to the command line, with `@`.
    name: &'a str,
}

impl Input<'_> {
    /// Where it is, relatively to the scratch directory.
    fn at(&self) -> String {
        normal(self.name.strip_prefix("@/").unwrap_or(self.name))
    }
    fn content(&self) -> Vec<u8> {
        let (_, ext) = split_ext(self.name.rsplit('/').next().unwrap_or(""));
        let good = match ext.to_ascii_lowercase().as_str() {
            "js" => JS,
            "json" => JSON,
            _ => CSS,
        };
        match self.kind {
            "empty" => Vec::new(),
            "not-utf8" => b"a { b : c }\xff\xfe".to_vec(),
            "cut-utf8" => b"\"a \xc3".to_vec(),
            "bad-css" => b"a { b : c } }".to_vec(),
            "bad-css2" => b"a { b : \"c }".to_vec(),
            "bad-js" => b"var a = 1 ; /* b".to_vec(),
            "big" => good.repeat(3000).into_bytes(),
            _ => good.as_bytes().to_vec(),
        }
    }
}

const PREVIOUS: &str = "previous";

fn expected(tree: &mut Tree, inputs: &[Input<'_>], ty: Option<&str>, out: Option<&str>, user: bool) -> bool {
    let mut all_good = true;
    for i in inputs {
        let at = i.at();
        let file = at.rsplit('/').next().unwrap_or("");
        let (stem, ext) = split_ext(file);
        let low = ext.to_ascii_lowercase();
        let ty = match ty {
            Some(t) => t,
            None if ["css", "js", "json"].contains(&low.as_str()) => &low,
            None => {
                all_good = false;
                continue;
            }
        };
        // The content.
        let text = match tree.get(&at) {
            Some(Node::File(c)) if !(i.kind == "unreadable" && user) => String::from_utf8(c.clone()).ok(),
            _ => None,
        };
        let Some(result) = text.and_then(|t| minified(ty, &t)) else {
            all_good = false;
            continue;
        };
        // The place.
        let name = format!("{stem}.min.{ty}");
        let target = match out {
            None => at.strip_suffix(file).unwrap_or("").to_owned() + &name,
            Some(o) => {
                let o_at = normal(o.strip_prefix("@/").unwrap_or(o));
                if matches!(tree.get(&o_at), Some(Node::Dir)) || o_at.is_empty() {
                    let outside = i.name.starts_with('@') || i.name.split('/').any(|c| c == "..");
                    let dir = if outside { "" } else { at.strip_suffix(file).unwrap_or("") };
                    normal(&format!("{o_at}/{dir}{name}"))
                } else {
                    o_at
                }
            }
        };
        // A file where a directory is needed, a directory where the file is needed, no permission.
        let blocked = target.match_indices('/').any(|(k, _)| matches!(tree.get(&target[..k]), Some(Node::File(_))))
            || matches!(tree.get(&target), Some(Node::Dir))
            || (user && (target == "locked/o.css" || target.starts_with("locked/") || i.kind == "read-only-output" && out.is_none()))
            || out.is_some_and(|o| o.ends_with('/') && o != "/" && !matches!(tree.get(&normal(o.strip_prefix("@/").unwrap_or(o))), Some(Node::Dir)));
        if blocked {
            all_good = false;
            continue;
        }
        add_file(tree, &target, result.as_bytes());
    }
    all_good
}

fn diff(want: &Tree, got: &Tree) -> Result<(), String> {
    let show = |n: Option<&Node>| match n {
        None => "missing".to_owned(),
        Some(Node::Dir) => "a directory".to_owned(),
        Some(Node::Link(p)) => format!("a link to {p:?}"),
        Some(Node::File(c)) => {
            let s = String::from_utf8_lossy(c);
            format!("a file {:?} ({} bytes)", s.chars().take(100).collect::<String>(), c.len())
        }
    };
    for k in want.keys().chain(got.keys()) {
        let (a, b) = (want.get(k), got.get(k));
        if a != b {
            return Err(format!("{k:?} is {}, should be {}", show(b), show(a)));
        }
    }
    Ok(())
}

pub fn judge(family: &str, parts: &[&str]) -> Result<(), String> {
    static NEXT: AtomicU64 = AtomicU64::new(0);
    let root = tmp_root().join(format!("cli-{}-{}", std::process::id(), NEXT.fetch_add(1, Relaxed)));
    fs::create_dir_all(&root).expect("scratch directory");
    let root = root.canonicalize().expect("scratch directory");
    let r = run(family, parts, &root);
    // Nothing else than what is under this directory.
    assert!(root.components().count() > 2 && root.is_absolute());
    let _ = fs::set_permissions(root.join("locked"), fs::Permissions::from_mode(0o755));
    if let Err(e) = fs::remove_dir_all(&root) {
        engine_error(&format!("{root:?}: {e}"));
    }
    r
}

fn run(_family: &str, parts: &[&str], root: &Path) -> Result<(), String> {
    let bin = bin();
    let opt = |name: &str| parts.iter().find_map(|p| p.strip_prefix(name).and_then(|p| p.strip_prefix('=')));
    let inputs: Vec<Input<'_>> = parts
        .iter()
        .filter_map(|p| p.split_once(':'))
        .map(|(kind, name)| Input { kind, name })
        .collect();
    let (ty, out, prev) = (opt("t"), opt("o"), opt("prev").unwrap_or("none"));

    // What is there before.
    let mut tree = Tree::new();
    for d in ["out", "dir", "dir.css", "locked"] {
        tree.insert(d.into(), Node::Dir);
    }
    for f in ["keep.css", "dir/keep.js", "out/keep.json", "o.css"] {
        add_file(&mut tree, f, b"untouched { }");
    }
    for i in &inputs {
        let at = i.at();
        match i.kind {
            "missing" => add_parents(&mut tree, &at),
            "directory" => {
                add_parents(&mut tree, &at);
                tree.insert(at, Node::Dir);
            }
            "broken-link" => {
                add_parents(&mut tree, &at);
                tree.insert(at, Node::Link("nowhere".into()));
            }
            _ => add_file(&mut tree, &at, &i.content()),
        }
    }
    // Outputs of a previous run, or things which have their names.
    let mut outputs = Tree::new();
    let before = tree.clone();
    let mut only_good: Tree = tree.clone();
    for i in &inputs {
        if !matches!(i.kind, "missing" | "directory" | "broken-link") {
            add_file(&mut only_good, &i.at(), b"");
        }
    }
    for i in &inputs {
        let mut one = only_good.clone();
        // Also the outputs of the bad inputs.
        add_file(&mut one, &i.at(), b"");
        expected(&mut one, &[Input { kind: "good", name: i.name }], ty, out, false);
        for (k, n) in one {
            if matches!(n, Node::File(_)) && !before.contains_key(&k) && !inputs.iter().any(|i| i.at() == k) {
                if i.kind == "output-is-directory" {
                    outputs.insert(k, Node::Dir);
                } else {
                    outputs.entry(k).or_insert(Node::File(PREVIOUS.into()));
                }
            }
        }
    }
    for (k, n) in outputs {
        match (prev, n) {
            (_, Node::Dir) => {
                add_parents(&mut tree, &k);
                tree.insert(k, Node::Dir);
            }
            ("none", _) => {}
            ("short", _) => add_file(&mut tree, &k, PREVIOUS.as_bytes()),
            _ => add_file(&mut tree, &k, PREVIOUS.repeat(200).as_bytes()),
        }
    }

    // Build it.
    let mut lock = Vec::new();
    for (k, n) in &tree {
        let p = root.join(k);
        match n {
            Node::Dir => fs::create_dir_all(&p).expect("directory"),
            Node::File(c) => {
                fs::create_dir_all(p.parent().expect("parent")).expect("directory");
                fs::write(&p, c).expect("file");
            }
            Node::Link(to) => {
                fs::create_dir_all(p.parent().expect("parent")).expect("directory");
                std::os::unix::fs::symlink(to, &p).expect("link");
            }
        }
        if let (Some(u), false) = (bin.user, k.starts_with("locked")) {
            std::os::unix::fs::lchown(&p, Some(u), Some(u)).expect("owner");
        }
    }
    if let Some(u) = bin.user {
        std::os::unix::fs::lchown(root, Some(u), Some(u)).expect("owner");
        for i in &inputs {
            if i.kind == "unreadable" {
                lock.push((root.join(i.at()), 0o000));
            }
            if i.kind == "read-only-output" {
                let at = i.at();
                let file = at.rsplit('/').next().unwrap_or("");
                let (stem, ext) = split_ext(file);
                let name = format!("{stem}.min.{}", ty.unwrap_or(&ext.to_ascii_lowercase()));
                let p = root.join(at.strip_suffix(file).unwrap_or("")).join(name);
                if !p.exists() {
                    fs::write(&p, PREVIOUS).expect("file");
                    tree.insert(p.strip_prefix(root).expect("inside").to_string_lossy().into_owned(), Node::File(PREVIOUS.into()));
                    std::os::unix::fs::chown(&p, Some(u), Some(u)).expect("owner");
                }
                lock.push((p, 0o444));
            }
        }
        for (p, mode) in &lock {
            fs::set_permissions(p, fs::Permissions::from_mode(*mode)).expect("permissions");
        }
    }

    // Run it.
    let abs = |s: &str| -> String {
        match s.strip_prefix('@') {
            Some(rest) => format!("{}{rest}", root.display()),
            None => s.to_owned(),
        }
    };
    let mut opts: Vec<String> = Vec::new();
    let style = opt("args").unwrap_or("short");
    match (ty, style) {
        (Some(t), "long") => opts.extend(["--type".into(), t.into()]),
        (Some(t), "equal") => opts.push(format!("--type={t}")),
        (Some(t), "glued") => opts.push(format!("-t{t}")),
        (Some(t), _) => opts.extend(["-t".into(), t.into()]),
        _ => {}
    }
    match (out, style) {
        (Some(o), "long") => opts.extend(["--out".into(), abs(o)]),
        (Some(o), "equal") => opts.push(format!("--out={}", abs(o))),
        (Some(o), "glued") => opts.push(format!("-o{}", abs(o))),
        (Some(o), _) => opts.extend(["-o".into(), abs(o)]),
        _ => {}
    }
    let names: Vec<String> = inputs.iter().map(|i| abs(i.name)).collect();
    let mut args: Vec<String> = Vec::new();
    match style {
        "after" => {
            args.extend(names);
            args.extend(opts);
        }
        "between" if names.len() > 1 => {
            args.extend(names[..1].iter().cloned());
            args.extend(opts);
            args.extend(names[1..].iter().cloned());
        }
        "dashes" => {
            args.extend(opts);
            args.push("--".into());
            args.extend(names);
        }
        _ => {
            args.extend(opts);
            args.extend(names);
        }
    }
    let mut c = Command::new(&bin.path);
    c.args(&args).current_dir(root).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).env_clear();
    if let Some(u) = bin.user {
        c.uid(u).gid(u);
    }
    let o = match c.output() {
        Ok(o) => o,
        Err(e) => engine_error(&format!("the command line does not run: {e}")),
    };
    for (p, _) in &lock {
        let _ = fs::set_permissions(p, fs::Permissions::from_mode(0o644));
    }
    let mut got = Tree::new();
    read_tree(root, root, &mut got);

    // Compare.
    let stderr = String::from_utf8_lossy(&o.stderr).into_owned();
    let log = |e: String| format!("{e}; exit status {:?}, stderr {:?}", o.status.code(), stderr.chars().take(300).collect::<String>());
    let all_good = expected(&mut tree, &inputs, ty, out, bin.user.is_some());
    diff(&tree, &got).map_err(log)?;
    if o.status.code().is_none() || o.status.code() == Some(101) || stderr.contains("panicked at") {
        return Err(log("it crashed".into()));
    }
    if all_good && !o.status.success() {
        return Err(log("it failed".into()));
    }
    if !all_good && stderr.is_empty() {
        return Err(log("nothing was reported about the input which was not minified".into()));
    }
    Ok(())
}

const NAMES: &[&str] = &[
    "a.css", "b.js", "c.json", "D.CSS", "e.Js", "f.JsOn", "g.h.css", "dir/i.js", "./j.json", "dir/../k.css", "@/l.js", "@/dir/m.json", "dir/n.o/p.css", "\u{e9}.css", "sp ace.js", "q.min.js", ".css", "noext", "r.txt", "s.html", "t.css.bak", "dir.css/u.js",
    "v..css", "dir/./w.css", "x.min.min.css", "y.jsonx", "dir/.hidden.js", "z",
];
const OUTS: &[&str] = &["", "o=out", "o=out/", "o=o.css", "o=new.css", "o=made/new.css", "o=made/again/new", "o=@/out", "o=@/new.txt", "o=dir.css", "o=./dir", "o=dir/new.js", "o=.", "o=out/../out"];
const TYPES: &[&str] = &["", "t=css", "t=js", "t=json"];
const STYLES: &[&str] = &["args=short", "args=long", "args=equal", "args=glued", "args=after", "args=between", "args=dashes"];
const PREVS: &[&str] = &["prev=none", "prev=short", "prev=long"];

fn case(e: &mut Emit<'_>, parts: &[&str]) {
    let v: Vec<&str> = parts.iter().copied().filter(|p| !p.is_empty()).collect();
    e.case(&v);
}

/// Two inputs must not be the same file, nor be the output of another one.
fn distinct(names: &[&str]) -> bool {
    names.iter().enumerate().all(|(i, a)| !names[..i].contains(a))
}

pub fn explore_l01(ctx: &Ctx) {
    let t = ctx.thorough();
    let inputs: Vec<String> = NAMES.iter().map(|n| format!("good:{n}")).collect();
    // 1. One input: everything.
    ctx.product("one-input", &[NAMES.len(), OUTS.len(), TYPES.len(), PREVS.len()], |d, e| {
        case(e, &[TYPES[d[2]], OUTS[d[1]], PREVS[d[3]], &inputs[d[0]]]);
    });
    ctx.product("arguments", &[STYLES.len(), OUTS.len(), TYPES.len(), if t { NAMES.len() } else { 6 }], |d, e| {
        case(e, &[TYPES[d[2]], OUTS[d[1]], STYLES[d[0]], &inputs[d[3]]]);
        case(e, &[TYPES[d[2]], OUTS[d[1]], STYLES[d[0]], &inputs[d[3]], "good:other.css"]);
    });
    // 2. Contents.
    for kind in ["empty", "big"] {
        ctx.product("contents", &[NAMES.len(), if t { OUTS.len() } else { 4 }, PREVS.len()], |d, e| {
            case(e, &[OUTS[d[1]], PREVS[d[2]], &format!("{kind}:{}", NAMES[d[0]])]);
        });
    }
    // 3. Two and three inputs.
    ctx.product("two-inputs", &[NAMES.len(), NAMES.len(), OUTS.len(), if t { 4 } else { 2 }], |d, e| {
        if distinct(&[NAMES[d[0]], NAMES[d[1]]]) {
            case(e, &[TYPES[d[3]], OUTS[d[2]], PREVS[(d[0] + d[1] + d[2]) % 3], &inputs[d[0]], &inputs[d[1]]]);
        }
    });
    let few: Vec<usize> = if t { (0..NAMES.len()).step_by(2).collect() } else { vec![0, 1, 7, 10, 17, 2] };
    ctx.product("three-inputs", &[few.len(), few.len(), few.len(), OUTS.len()], |d, e| {
        let n = [few[d[0]], few[d[1]], few[d[2]]];
        if distinct(&[NAMES[n[0]], NAMES[n[1]], NAMES[n[2]]]) {
            case(e, &[OUTS[d[3]], PREVS[(d[0] + d[1] + d[2] + d[3]) % 3], &inputs[n[0]], &inputs[n[1]], &inputs[n[2]]]);
        }
    });
    // 4. Nothing to do.
    ctx.product("no-input", &[OUTS.len(), TYPES.len()], |d, e| case(e, &[OUTS[d[0]], TYPES[d[1]]]));
}

/// Kinds of inputs, and their extensions.
const KINDS: &[(&str, &str)] = &[
    ("good", "css"), ("missing", "css"), ("directory", "js"), ("not-utf8", "json"), ("bad-css", "css"), ("bad-js", "js"), ("good", "txt"), ("output-is-directory", "css"), ("good", "js"), ("empty", "css"), ("unreadable", "css"), ("read-only-output", "json"),
    ("broken-link", "js"), ("cut-utf8", "css"), ("bad-css2", "css"), ("missing", "txt"),
];

pub fn explore_l02(ctx: &Ctx) {
    let t = ctx.thorough();
    let outs: &[&str] = &["", "o=out", "o=o.css", "o=made/new.css", "o=keep.css/new.css", "o=locked", "o=locked/new.css", "o=@/out", "o=missing/"];
    let places: &[&str] = &["", "dir/", "@/"];
    let go = |e: &mut Emit<'_>, kinds: &[usize], place: &str, out: &str, prev: &str, ty: &str| {
        let names: Vec<String> = kinds
            .iter()
            .enumerate()
            .map(|(i, k)| format!("{}:{place}{}{}.{}", KINDS[*k].0, ["p", "q", "r", "s", "t"][i], i, KINDS[*k].1))
            .collect();
        let mut parts = vec![ty, out, prev];
        parts.extend(names.iter().map(|n| n.as_str()));
        if kinds.iter().any(|k| KINDS[*k].0 != "good") {
            e.nontrivial();
        }
        case(e, &parts);
    };
    let n = KINDS.len();
    ctx.product("one-input", &[n, outs.len(), places.len(), 3, 4], |d, e| go(e, &[d[0]], places[d[2]], outs[d[1]], PREVS[d[3]], TYPES[d[4]]));
    ctx.product("two-inputs", &[n, n, outs.len(), 2], |d, e| go(e, &[d[0], d[1]], places[(d[0] + d[1]) % 3], outs[d[2]], PREVS[d[3] * 2], ""));
    ctx.product("three-inputs", &[n, n, n, if t { outs.len() } else { 2 }, 2], |d, e| {
        let good = d[..3].iter().any(|k| matches!(KINDS[*k], ("good", "css" | "js")));
        if t || good {
            go(e, &d[..3], places[(d[0] + d[1] + d[2]) % 3], outs[d[3]], PREVS[d[4] * 2], "");
        }
    });
    ctx.product("typed", &[n, n, 3, outs.len()], |d, e| go(e, &[d[0], d[1]], places[d[2]], outs[d[3]], "prev=short", TYPES[1 + (d[0] + d[2]) % 3]));
    // The bad input is anywhere in a longer list.
    ctx.product("positions", &[n, 5, n, if t { 4 } else { 1 }], |d, e| {
        let mut k = [0, 8, 0, 8, 0];
        k[d[1]] = d[0];
        k[(d[1] + 2) % 5] = d[2];
        go(e, &k, "", outs[d[3]], "prev=long", "");
    });
}
