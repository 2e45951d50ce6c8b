//! The explorer: runs every case of a bounded space on the real code, in parallel, counts what was
//! explored, keeps the smallest violation, and survives panics, crashes, hangs and memory blow-ups
//! of the code under test (the exploration runs in a child process which publishes, in shared
//! memory, the case every thread is working on).

use std::collections::BTreeMap;
use std::fs;
use std::io::Write as _;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitCode};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Decides one case. `parts` is the whole case: the family tells how to read it.
pub type Judge = fn(family: &str, parts: &[&str]) -> Result<(), String>;
/// Enumerates the bounded space of a property.
pub type Explore = fn(&Ctx);

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub judge: Judge,
    pub explore: Explore,
}

pub const VERIF: &str = "/verif";
const SLOT: usize = 8 << 20;
const HEAD: usize = 4096;
const MAX_THREADS: usize = 16;
/// A case which takes longer than this is a suspect.
const HANG: Duration = Duration::from_secs(20);
/// ... and one which takes longer than this on its own, three times, is a hang.
const HANG_ALONE: Duration = Duration::from_secs(25);
const MEMORY: u64 = 14 << 30;

pub fn tmp_root() -> PathBuf {
    let dir = std::env::var_os("MC_TMP")
        .map(PathBuf::from)
        .unwrap_or_else(|| std::env::temp_dir().join(format!("mc-{}", std::process::id())));
    fs::create_dir_all(&dir).expect("scratch directory");
    dir
}

// ---------------------------------------------------------------------------------------------
// Shared memory: one header page (counters) and one slot per thread (the current case).

struct Shared {
    base: *mut u8,
    threads: usize,
}
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}

impl Shared {
    fn map(path: &Path, threads: usize, create: bool) -> Shared {
        let size = HEAD + threads * SLOT;
        let file = fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(create)
            .truncate(false)
            .open(path)
            .expect("shared file");
        if create {
            file.set_len(size as u64).expect("shared file size");
        }
        use std::os::fd::AsRawFd;
        let base = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                size,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                file.as_raw_fd(),
                0,
            )
        };
        assert!(base != libc::MAP_FAILED, "mmap");
        Shared {
            base: base as *mut u8,
            threads,
        }
    }
    fn word(&self, off: usize) -> &AtomicU64 {
        unsafe { &*(self.base.add(off) as *const AtomicU64) }
    }
    fn states(&self) -> &AtomicU64 {
        self.word(0)
    }
    fn transitions(&self) -> &AtomicU64 {
        self.word(8)
    }
    fn traces(&self) -> &AtomicU64 {
        self.word(16)
    }
    fn nontrivial(&self) -> &AtomicU64 {
        self.word(24)
    }
    fn slot(&self, i: usize) -> Slot<'_> {
        Slot {
            shared: self,
            off: HEAD + i * SLOT,
        }
    }
}

/// `[seq: u64][len: u64][bytes]`; seq is odd while a case is running.
#[derive(Clone, Copy)]
pub struct Slot<'a> {
    shared: &'a Shared,
    off: usize,
}

impl Slot<'_> {
    fn seq(&self) -> &AtomicU64 {
        self.shared.word(self.off)
    }
    fn len(&self) -> &AtomicU64 {
        self.shared.word(self.off + 8)
    }
    fn begin(&self, family: &str, parts: &[&str]) {
        let mut at = self.off + 16;
        let end = self.off + SLOT;
        let mut put = |bytes: &[u8]| {
            let n = bytes.len().min(end - at);
            unsafe { std::ptr::copy_nonoverlapping(bytes.as_ptr(), self.shared.base.add(at), n) };
            at += n;
        };
        put(family.as_bytes());
        for p in parts {
            put(&[0xff]);
            put(p.as_bytes());
        }
        self.len().store((at - self.off - 16) as u64, Relaxed);
        self.seq().store(self.seq().load(Relaxed) + 1, Release);
    }
    fn end(&self) {
        self.seq().store(self.seq().load(Relaxed) + 1, Release);
    }
    fn current(&self) -> Option<Case> {
        let seq = self.seq().load(Acquire);
        if seq % 2 == 0 {
            return None;
        }
        let n = (self.len().load(Relaxed) as usize).min(SLOT - 16);
        let bytes =
            unsafe { std::slice::from_raw_parts(self.shared.base.add(self.off + 16), n) }.to_vec();
        let mut it = bytes
            .split(|b| *b == 0xff)
            .map(|b| String::from_utf8_lossy(b).into_owned());
        let family = it.next()?;
        Some(Case {
            family,
            parts: it.collect(),
        })
    }
}

// ---------------------------------------------------------------------------------------------
// Cases and their textual form.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Case {
    pub family: String,
    pub parts: Vec<String>,
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) || c == '\u{2028}' || c == '\u{2029}' || c == '\u{feff}' => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Long repetitive parts are kept exact: they are written in full.
fn json_list(parts: &[String]) -> String {
    let v: Vec<String> = parts.iter().map(|p| json_str(p)).collect();
    format!("[{}]", v.join(","))
}

/// A tiny reader for what `json_list` writes.
pub fn parse_json_list(s: &str) -> Option<Vec<String>> {
    let mut it = s.trim().chars().peekable();
    let mut out = Vec::new();
    if it.next()? != '[' {
        return None;
    }
    loop {
        match it.next()? {
            ']' => return Some(out),
            ',' | ' ' => {}
            '"' => {
                let mut cur = String::new();
                loop {
                    match it.next()? {
                        '"' => break,
                        '\\' => match it.next()? {
                            'n' => cur.push('\n'),
                            'r' => cur.push('\r'),
                            't' => cur.push('\t'),
                            'u' => {
                                let h: String = (0..4).map(|_| it.next().unwrap_or('0')).collect();
                                cur.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                            }
                            c => cur.push(c),
                        },
                        c => cur.push(c),
                    }
                }
                out.push(cur);
            }
            _ => return None,
        }
    }
}

impl Case {
    fn size(&self) -> usize {
        self.parts.iter().map(|p| p.len()).sum()
    }
    /// The text of a replay file.
    fn to_text(&self, prop: &str) -> String {
        format!("{prop}\n{}\n{}\n", self.family, json_list(&self.parts))
    }
    pub fn from_text(s: &str) -> Option<(String, Case)> {
        let mut l = s.lines();
        let prop = l.next()?.to_owned();
        let family = l.next()?.to_owned();
        let parts = parse_json_list(l.next()?)?;
        Some((prop, Case { family, parts }))
    }
    fn short(&self) -> String {
        let mut s = format!("{} {}", self.family, json_list(&self.parts));
        if s.len() > 600 {
            let mut n = 600;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            s.truncate(n);
            s.push_str("...");
        }
        s
    }
}

// ---------------------------------------------------------------------------------------------
// Known findings.

pub struct Known {
    pub case: Case,
    pub what: String,
}

/// Lines `known: property=<id> family=<family> parts=<json list> :: <what fails>`.
pub fn known_findings(prop: &str) -> Vec<Known> {
    let text = fs::read_to_string(Path::new(VERIF).join("known_findings.txt")).unwrap_or_default();
    let mut out = Vec::new();
    let start = format!("known: property={prop} family=");
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix(&start) {
            let parsed = rest.split_once(" parts=").and_then(|(family, rest)| {
                let (parts, what) = rest.split_once(" :: ")?;
                Some(Known {
                    case: Case {
                        family: family.to_owned(),
                        parts: parse_json_list(parts)?,
                    },
                    what: what.to_owned(),
                })
            });
            match parsed {
                Some(k) => out.push(k),
                None => engine_error(&format!("bad known finding: {line}")),
            }
        }
    }
    out
}

pub fn engine_error(msg: &str) -> ! {
    eprintln!("mc: engine error: {msg}");
    std::process::exit(2)
}

// ---------------------------------------------------------------------------------------------
// Running one case.

thread_local! {
    static JUDGING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if !JUDGING.with(|j| j.get()) {
            eprintln!("mc: engine error: {msg} at {at}");
        }
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {at}"));
    }));
}

fn judge_case(judge: Judge, family: &str, parts: &[&str]) -> Result<(), String> {
    JUDGING.with(|j| j.set(true));
    let r = catch_unwind(AssertUnwindSafe(|| judge(family, parts)));
    JUDGING.with(|j| j.set(false));
    match r {
        Ok(r) => r,
        Err(_) => {
            let msg = PANIC.with(|p| p.borrow().clone());
            if msg.contains("/verif/mc/") || msg.contains("at src/") {
                // The harness itself panicked: never a verdict.
                eprintln!("mc: engine error: {msg} on {family} {parts:?}");
                std::process::exit(2);
            }
            Err(format!("panic: {msg}"))
        }
    }
}

// ---------------------------------------------------------------------------------------------
// The exploration.

struct Best {
    case: Case,
    msg: String,
}

pub struct Ctx {
    prop: &'static Prop,
    pub tier: Tier,
    pub seed: u64,
    shared: Shared,
    threads: usize,
    best: Mutex<Option<Best>>,
    best_len: AtomicUsize,
    violations: AtomicU64,
    known: Vec<Known>,
    known_seen: AtomicU64,
    samples: Mutex<Vec<String>>,
    families: Mutex<BTreeMap<String, [u64; 3]>>,
    only: Option<String>,
    verbose: bool,
    stop: AtomicBool,
    prefix: Mutex<&'static str>,
}

pub struct Emit<'a> {
    ctx: &'a Ctx,
    slot: Slot<'a>,
    family: &'static str,
    states: u64,
    transitions: u64,
    traces: u64,
    nontrivial: u64,
}

impl Emit<'_> {
    /// A new state of the exploration was reached, through one transition.
    #[inline]
    pub fn state(&mut self) {
        self.states += 1;
        self.transitions += 1;
    }
    #[inline]
    pub fn states(&mut self, n: u64) {
        self.states += n;
        self.transitions += n;
    }
    /// A transition which leads to a state already counted (a deviation which changes nothing).
    #[inline]
    pub fn transition(&mut self) {
        self.transitions += 1;
    }
    #[inline]
    pub fn nontrivial(&mut self) {
        self.nontrivial += 1;
    }
    /// Runs a complete case on the real code and judges it.
    #[inline]
    pub fn case(&mut self, parts: &[&str]) {
        self.slot.begin(self.family, parts);
        let r = judge_case(self.ctx.prop.judge, self.family, parts);
        self.slot.end();
        self.traces += 1;
        if let Err(msg) = r {
            self.ctx.violation(self.family, parts, msg);
        } else if self.traces == 1 || self.traces == 1000 {
            self.ctx.sample(self.family, parts);
        }
    }
}

impl Emit<'_> {
    /// Runs many parts, which are cases as well, together; one by one if something is wrong.
    pub fn batch(&mut self, parts: &[&str]) {
        self.slot.begin(self.family, parts);
        let r = judge_case(self.ctx.prop.judge, self.family, parts);
        self.slot.end();
        self.traces += parts.len() as u64;
        match r {
            Ok(()) => {
                if self.traces == parts.len() as u64 {
                    self.ctx.sample(self.family, &parts[..1]);
                }
            }
            Err(msg) => {
                let before = self.ctx.violations.load(Relaxed) + self.ctx.known_seen.load(Relaxed);
                for p in parts {
                    self.case(&[p]);
                    if self.ctx.violations.load(Relaxed) > 2000 {
                        return;
                    }
                }
                // Neither of them is wrong on its own.
                if self.ctx.violations.load(Relaxed) + self.ctx.known_seen.load(Relaxed) == before {
                    self.ctx.violation(self.family, parts, msg);
                }
            }
        }
    }
}

impl Ctx {
    fn sample(&self, family: &str, parts: &[&str]) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 60 && s.iter().filter(|x| x.starts_with(family)).count() < 3 {
            s.push(
                Case {
                    family: family.to_owned(),
                    parts: parts.iter().map(|p| p.to_string()).collect(),
                }
                .short(),
            );
        }
    }

    fn violation(&self, family: &str, parts: &[&str], msg: String) {
        for k in &self.known {
            if k.case.family == family && k.case.parts == parts {
                self.known_seen.fetch_add(1, Relaxed);
                return;
            }
        }
        self.violations.fetch_add(1, Relaxed);
        let case = Case {
            family: family.to_owned(),
            parts: parts.iter().map(|p| p.to_string()).collect(),
        };
        let len = case.size();
        if len > self.best_len.load(Relaxed) {
            return;
        }
        let mut best = self.best.lock().unwrap();
        let better = match &*best {
            None => true,
            Some(b) => (len, &case.parts) < (b.case.size(), &b.case.parts),
        };
        if better {
            self.best_len.store(len, Relaxed);
            *best = Some(Best { case, msg });
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// Explores the families of another property for this one: their names start with `prefix`.
    pub fn prefixed(&self, prefix: &'static str, f: impl FnOnce(&Ctx)) {
        *self.prefix.lock().unwrap() = prefix;
        f(self);
        *self.prefix.lock().unwrap() = "";
    }

    /// Explores the subtrees `0..n` of a family in parallel.
    pub fn run<F: Fn(u64, &mut Emit<'_>) + Sync>(&self, family: &'static str, n: u64, f: F) {
        let prefix = *self.prefix.lock().unwrap();
        let family: &'static str = if prefix.is_empty() { family } else { format!("{prefix}-{family}").leak() };
        if self.stop.load(Relaxed) || self.only.as_ref().is_some_and(|o| !family.contains(o.as_str())) {
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let chunk = (n / (self.threads as u64 * 64)).clamp(1, 4096);
        let total = Mutex::new([1u64, 0, 0, 0]); // the root state
        std::thread::scope(|s| {
            for t in 0..self.threads {
                let (next, f, total) = (&next, &f, &total);
                s.spawn(move || {
                    let mut e = Emit {
                        ctx: self,
                        slot: self.shared.slot(t),
                        family,
                        states: 0,
                        transitions: 0,
                        traces: 0,
                        nontrivial: 0,
                    };
                    loop {
                        let from = next.fetch_add(chunk, Relaxed);
                        if from >= n {
                            break;
                        }
                        for i in from..(from + chunk).min(n) {
                            f(i, &mut e);
                        }
                        // A broken tree can fail on millions of cases.
                        if self.violations.load(Relaxed) > 200_000 {
                            break;
                        }
                        let sh = &self.shared;
                        sh.traces().fetch_add(0, Relaxed);
                    }
                    let mut t = total.lock().unwrap();
                    t[0] += e.states;
                    t[1] += e.transitions;
                    t[2] += e.traces;
                    t[3] += e.nontrivial;
                });
            }
        });
        let t = total.into_inner().unwrap();
        self.shared.states().fetch_add(t[0], Relaxed);
        self.shared.transitions().fetch_add(t[1], Relaxed);
        self.shared.traces().fetch_add(t[2], Relaxed);
        self.shared.nontrivial().fetch_add(t[3], Relaxed);
        {
            let mut families = self.families.lock().unwrap();
            let f = families.entry(family.to_owned()).or_insert([0; 3]);
            for (f, t) in f.iter_mut().zip(t) {
                *f += t;
            }
        }
        if self.verbose {
            eprintln!(
                "{} {family}: states {} traces {} in {:.2}s, violations {}",
                self.prop.id,
                t[0],
                t[2],
                t0.elapsed().as_secs_f64(),
                self.violations.load(Relaxed)
            );
        }
        if self.violations.load(Relaxed) > 0 {
            self.stop.store(true, Relaxed);
        }
    }

    /// All the sequences of exactly `len` fragments of `alphabet` (each prefix is a state).
    pub fn sequences<F>(&self, family: &'static str, alphabet: usize, len: usize, f: F)
    where
        F: Fn(&[usize], &mut Emit<'_>) + Sync,
    {
        self.product(family, &vec![alphabet; len], f)
    }

    /// The cartesian product of `dims`.
    pub fn product<F>(&self, family: &'static str, dims: &[usize], f: F)
    where
        F: Fn(&[usize], &mut Emit<'_>) + Sync,
    {
        let n: u64 = dims.iter().map(|d| *d as u64).product();
        self.run(family, n, |mut i, e| {
            let mut digits = [0usize; 32];
            let mut fresh = true;
            for p in (0..dims.len()).rev() {
                let d = dims[p] as u64;
                digits[p] = (i % d) as usize;
                i /= d;
                if fresh {
                    e.state();
                    fresh = digits[p] == 0;
                }
            }
            f(&digits[..dims.len()], e);
        });
    }

    /// One case per item of a list.
    pub fn list<T: Sync, F: Fn(&T, &mut Emit<'_>) + Sync>(
        &self,
        family: &'static str,
        items: &[T],
        f: F,
    ) {
        self.run(family, items.len() as u64, |i, e| {
            e.state();
            f(&items[i as usize], e)
        })
    }
}

// ---------------------------------------------------------------------------------------------
// Driver.

fn limit_memory() {
    let l = libc::rlimit {
        rlim_cur: MEMORY,
        rlim_max: MEMORY,
    };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
    let c = libc::rlimit {
        rlim_cur: 0,
        rlim_max: 0,
    };
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &c) };
}

/// Runs with a stack as small as the one of any spawned thread.
fn on_small_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, f)
            .unwrap()
            .join()
            .unwrap_or_else(|_| engine_error("judge thread"))
    })
}

/// `mc one FILE`: 0 = fine, 1 = violation (message on stdout), anything else = it crashed.
pub fn one(props: &'static [Prop], file: &str) -> i32 {
    limit_memory();
    quiet_panics();
    let text = fs::read_to_string(file).unwrap_or_else(|e| engine_error(&format!("{file}: {e}")));
    let (id, case) = Case::from_text(&text).unwrap_or_else(|| engine_error("bad case file"));
    let prop = find(props, &id);
    let parts: Vec<&str> = case.parts.iter().map(|s| s.as_str()).collect();
    match on_small_stack(|| judge_case(prop.judge, &case.family, &parts)) {
        Ok(()) => {
            println!("ok");
            0
        }
        Err(m) => {
            println!("{m}");
            1
        }
    }
}

pub fn find(props: &'static [Prop], id: &str) -> &'static Prop {
    props
        .iter()
        .find(|p| p.id == id)
        .unwrap_or_else(|| engine_error(&format!("unknown property {id}")))
}

enum Alone {
    Fine,
    Bad(String),
    Error(String),
}

/// Runs a case alone in a process of its own.
fn run_alone(prop: &str, case: &Case, dir: &Path) -> Alone {
    let file = dir.join("one.case");
    fs::write(&file, case.to_text(prop)).expect("case file");
    let out = dir.join("one.out");
    let t0 = Instant::now();
    let mut child = Command::new(std::env::current_exe().unwrap())
        .arg("one")
        .arg(&file)
        .env("MC_TMP", dir.join("one-tmp"))
        .stdout(fs::File::create(&out).unwrap())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("spawn");
    loop {
        match child.try_wait().expect("wait") {
            Some(st) => {
                return match (st.code(), st.signal()) {
                    (Some(0), _) => Alone::Fine,
                    (Some(1), _) => {
                        Alone::Bad(fs::read_to_string(&out).unwrap_or_default().trim().to_owned())
                    }
                    (_, Some(sig)) => Alone::Bad(format!(
                        "the process was killed by signal {sig} (stack overflow, abort or out of memory)"
                    )),
                    (c, _) => Alone::Error(format!("exit code {c:?}")),
                }
            }
            None if t0.elapsed() > HANG_ALONE => {
                let _ = child.kill();
                let _ = child.wait();
                return Alone::Bad(format!("no answer after {} s", HANG_ALONE.as_secs()));
            }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    }
}

fn replay_path(prop: &str, case: &Case) -> PathBuf {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (&case.family, &case.parts).hash(&mut h);
    Path::new(VERIF)
        .join("replays")
        .join(format!("{prop}-{:016x}.case", h.finish()))
}

fn report(prop: &str, case: &Case, msg: &str) {
    let path = replay_path(prop, case);
    let _ = fs::create_dir_all(path.parent().unwrap());
    let _ = fs::write(
        &path,
        format!("{}# {}\n# replay: /verif/run.sh replay {}\n", case.to_text(prop), msg.replace('\n', "\\n"), path.display()),
    );
    println!("counterexample: {}", case.short());
    println!("reason: {}", msg.replace('\n', "\\n"));
    println!("VIOLATION property={prop} replay={}", path.display());
}

fn evidence(
    prop: &Prop,
    tier: Tier,
    seed: u64,
    counts: [u64; 4],
    samples: &[String],
    families: &BTreeMap<String, [u64; 3]>,
    wall: f64,
    violations: u64,
    complete: bool,
) {
    let mut cov = String::new();
    if prop.level == "fault_enumeration" {
        cov.push_str(&format!(
            "\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},",
            counts[2],
            counts[3],
            json_str(prop.rule)
        ));
        cov.push_str(&format!(
            "\"fault_points_states\":{},\"fault_transitions\":{},",
            counts[0], counts[1]
        ));
    } else {
        cov.push_str(&format!(
            "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"rule\":{},",
            counts[0],
            counts[1],
            counts[2],
            json_str(prop.rule)
        ));
    }
    let s: Vec<String> = samples.iter().map(|s| json_str(s)).collect();
    cov.push_str(&format!("\"samples\":[{}],", s.join(",")));
    let f: Vec<String> = families
        .iter()
        .map(|(k, v)| {
            format!(
                "{}:{{\"states\":{},\"transitions\":{},\"traces\":{}}}",
                json_str(k),
                v[0],
                v[1],
                v[2]
            )
        })
        .collect();
    cov.push_str(&format!("\"families\":{{{}}},", f.join(",")));
    cov.push_str(&format!("\"exhaustive\":{complete}"));
    let a: Vec<String> = prop.assumptions.iter().map(|s| json_str(s)).collect();
    let text = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{seed},\"level\":{},\"coverage\":{{{cov}}},\"assumptions\":[{}],\"wall_s\":{wall:.2},\"violations\":{violations}}}\n",
        json_str(prop.id),
        if tier == Tier::Quick { "\"quick\"" } else { "\"thorough\"" },
        json_str(prop.level),
        a.join(","),
    );
    let dir = Path::new(VERIF).join("evidence");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.json", prop.id));
    let tmp = dir.join(format!(".{}.tmp", prop.id));
    if fs::write(&tmp, text).and_then(|_| fs::rename(&tmp, &path)).is_err() {
        engine_error("cannot write the evidence");
    }
}

fn n_threads() -> usize {
    std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .clamp(2, MAX_THREADS)
}

/// The child: explores and prints the verdict.
pub fn worker(props: &'static [Prop], id: &str, tier: Tier, seed: u64, shared: &str, only: Option<String>) -> i32 {
    limit_memory();
    quiet_panics();
    let prop = find(props, id);
    let threads = n_threads();
    let t0 = Instant::now();
    let ctx = Ctx {
        prop,
        tier,
        seed,
        shared: Shared::map(Path::new(shared), threads, false),
        threads,
        best: Mutex::new(None),
        best_len: AtomicUsize::new(usize::MAX),
        violations: AtomicU64::new(0),
        known: known_findings(id),
        known_seen: AtomicU64::new(0),
        samples: Mutex::new(Vec::new()),
        families: Mutex::new(BTreeMap::new()),
        only,
        verbose: std::env::var_os("MC_VERBOSE").is_some(),
        stop: AtomicBool::new(false),
        prefix: Mutex::new(""),
    };
    // Known findings: probed first, one by one.
    for (i, k) in ctx.known.iter().enumerate() {
        let _ = i;
        let parts: Vec<&str> = k.case.parts.iter().map(|s| s.as_str()).collect();
        match on_small_stack(|| judge_case(prop.judge, &k.case.family, &parts)) {
            Err(_) => println!("KNOWN-FINDING: property={id} {}", k.what),
            Ok(()) => println!("note: known finding no longer fails: {}", k.what),
        }
    }
    (prop.explore)(&ctx);
    let sh = &ctx.shared;
    let counts = [
        sh.states().load(Relaxed),
        sh.transitions().load(Relaxed),
        sh.traces().load(Relaxed),
        sh.nontrivial().load(Relaxed),
    ];
    let violations = ctx.violations.load(Relaxed);
    if ctx.only.is_none() {
        evidence(
            prop,
            tier,
            seed,
            counts,
            &ctx.samples.lock().unwrap(),
            &ctx.families.lock().unwrap(),
            t0.elapsed().as_secs_f64(),
            violations,
            violations == 0,
        );
    }
    let best = ctx.best.lock().unwrap().take();
    if let Some(b) = best {
        // The same case must fail every time.
        let parts: Vec<&str> = b.case.parts.iter().map(|s| s.as_str()).collect();
        if on_small_stack(|| judge_case(prop.judge, &b.case.family, &parts)).is_ok() {
            engine_error(&format!("not reproducible: {} ({})", b.case.short(), b.msg));
        }
        report(id, &b.case, &b.msg);
        return 1;
    }
    println!(
        "{id}: held on everything explored: {} states, {} transitions, {} traces run on the real code, {:.1} s",
        counts[0],
        counts[1],
        counts[2],
        t0.elapsed().as_secs_f64()
    );
    if counts[2] == 0 {
        engine_error("nothing was explored");
    }
    0
}

fn kill_group(child: &mut Child) {
    unsafe { libc::kill(-(child.id() as i32), libc::SIGKILL) };
    let _ = child.kill();
    let _ = child.wait();
}

/// The parent: watches the child.
pub fn check(props: &'static [Prop], id: &str, tier: Tier, seed: u64, only: Option<String>) -> ExitCode {
    let prop = find(props, id);
    let t0 = Instant::now();
    let dir = tmp_root();
    let threads = n_threads();
    let shm = dir.join("shared");
    let shared = Shared::map(&shm, threads, true);
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("worker")
        .arg(id)
        .arg(if tier == Tier::Quick { "quick" } else { "thorough" })
        .arg(seed.to_string())
        .arg(&shm)
        .env("MC_TMP", &dir)
        .process_group(0);
    if let Some(o) = &only {
        cmd.arg(o);
    }
    let mut child = cmd.spawn().expect("spawn");
    let mut seen: Vec<(u64, Instant)> = vec![(0, Instant::now()); threads];
    let mut suspects: Vec<Case> = Vec::new();
    let mut reason = String::new();
    let code = loop {
        if let Some(st) = child.try_wait().expect("wait") {
            if let Some(c) = st.code() {
                break c;
            }
            reason = format!("the exploration was killed by signal {:?}", st.signal());
            for t in 0..shared.threads {
                suspects.extend(shared.slot(t).current());
            }
            break -1;
        }
        let now = Instant::now();
        for t in 0..threads {
            let seq = shared.slot(t).seq().load(Acquire);
            if seq != seen[t].0 || seq % 2 == 0 {
                seen[t] = (seq, now);
            } else if now - seen[t].1 > HANG {
                suspects.extend(shared.slot(t).current());
            }
        }
        if !suspects.is_empty() {
            reason = "a case takes too long".to_owned();
            kill_group(&mut child);
            break -1;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let mut exit = code;
    if code == -1 {
        exit = 2;
        suspects.sort_by_key(|c| c.size());
        let known = known_findings(id);
        suspects.retain(|c| !known.iter().any(|k| k.case == *c));
        for c in &suspects {
            match run_alone(id, c, &dir) {
                Alone::Bad(msg) => {
                    let counts = [
                        shared.states().load(Relaxed),
                        shared.transitions().load(Relaxed),
                        shared.traces().load(Relaxed),
                        shared.nontrivial().load(Relaxed),
                    ];
                    evidence(
                        prop,
                        tier,
                        seed,
                        counts,
                        &[c.short()],
                        &BTreeMap::new(),
                        t0.elapsed().as_secs_f64(),
                        1,
                        false,
                    );
                    report(id, c, &msg);
                    exit = 1;
                    break;
                }
                Alone::Fine => {}
                Alone::Error(e) => eprintln!("mc: {e}"),
            }
        }
        if exit == 2 {
            eprintln!("mc: engine error: {reason}, and no suspect case reproduces it alone");
        }
    }
    let _ = std::io::stdout().flush();
    let _ = fs::remove_dir_all(&dir);
    ExitCode::from(exit.clamp(0, 255) as u8)
}

/// `mc replay FILE`.
pub fn replay(props: &'static [Prop], file: &str) -> ExitCode {
    let text = fs::read_to_string(file).unwrap_or_else(|e| engine_error(&format!("{file}: {e}")));
    let (id, case) = Case::from_text(&text).unwrap_or_else(|| engine_error("bad case file"));
    find(props, &id);
    let dir = tmp_root();
    let r = run_alone(&id, &case, &dir);
    let _ = fs::remove_dir_all(&dir);
    match r {
        Alone::Fine => {
            println!("{}: holds on {}", id, case.short());
            ExitCode::from(0)
        }
        Alone::Bad(m) => {
            println!("counterexample: {}", case.short());
            println!("reason: {m}");
            println!("VIOLATION property={id} replay={file}");
            ExitCode::from(1)
        }
        Alone::Error(e) => engine_error(&e),
    }
}
