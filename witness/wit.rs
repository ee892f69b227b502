// Shared driver of the witness programs: they look for a concrete input on which the real code
// (the cernan library built from /repo's current tree) breaks the property.
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(s.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % (n as u64)) as usize }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.u64() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn string(&mut self, alphabet: &str, lo: usize, hi: usize) -> String {
        let cs: Vec<char> = alphabet.chars().collect();
        let n = lo + self.below(hi - lo + 1);
        (0..n).map(|_| *self.pick(&cs)).collect()
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
    /// a count: mostly up to `small`, now and then up to `big`, preferring the constants of the code under
    /// test, powers of two, and their neighbours
    pub fn size(&mut self, small: usize, big: usize) -> usize {
        if big <= small || !self.chance(1, 16) { return self.below(small + 1); }
        let n = match self.below(4) {
            0 | 1 => {
                let ns: Vec<usize> = dict().0.iter().filter(|x| **x > 0 && (**x as u64) <= big as u64 + 1).map(|x| *x as usize).collect();
                if ns.is_empty() { self.below(big + 1) } else { *self.pick(&ns) + self.below(3) - 1 }
            }
            2 => { let mut b = 1; while (2usize << b) <= big { b += 1; } (1usize << self.below(b + 1)) + self.below(3) - 1 }
            _ => self.below(big + 1),
        };
        n.min(big)
    }
    /// a number the code under test may treat in a way of its own
    pub fn num(&mut self) -> i64 {
        let d = self.range(-1, 1);
        match self.below(4) {
            0 | 1 if !dict().0.is_empty() => self.pick(&dict().0).wrapping_add(d),
            2 => (1i64 << self.below(63)).wrapping_add(d),
            _ => *self.pick(&[i64::min_value(), i64::min_value() + 1, -1, 0, 1, i64::max_value() - 1, i64::max_value()]),
        }
    }
    /// a text constant of the code under test, if there is one that `f` admits
    pub fn word<F: Fn(&str) -> bool>(&mut self, f: F) -> Option<String> {
        let ws: Vec<&String> = dict().1.iter().filter(|w| f(w)).collect();
        if ws.is_empty() { None } else { Some(self.pick(&ws).to_string()) }
    }
    /// a text over `alphabet`, now and then with a text constant of the code under test in it
    pub fn text<F: Fn(&str) -> bool>(&mut self, alphabet: &str, lo: usize, hi: usize, f: F) -> String {
        let s = self.string(alphabet, lo, hi);
        if !self.chance(1, 6) { return s; }
        match self.word(f) {
            None => s,
            Some(w) => { let k = self.below(s.chars().count() + 1); let mut o: String = s.chars().take(k).collect(); o += &w; o.extend(s.chars().skip(k)); o }
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

static mut DICT: Option<(Vec<i64>, Vec<String>)> = None;
/// the numbers and texts written in the source files the property is about
pub fn dict() -> &'static (Vec<i64>, Vec<String>) {
    unsafe { DICT.get_or_insert_with(|| (Vec::new(), Vec::new())) }
}
fn load_dict(path: &str) {
    let (mut n, mut w) = (Vec::new(), Vec::new());
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if l.starts_with("n ") { if let Ok(x) = l[2..].parse() { n.push(x); } }
        if l.starts_with("w ") {
            let b: Vec<u8> = l[2..].split(' ').filter_map(|h| u8::from_str_radix(h, 16).ok()).collect();
            if let Ok(s) = String::from_utf8(b) { w.push(s); }
        }
    }
    unsafe { DICT = Some((n, w)); }
}

pub struct Info {
    pub input: String,
    pub nontrivial: bool,
}
pub fn ok(input: String, nontrivial: bool) -> Res {
    Ok(Info { input, nontrivial })
}
pub struct Fail {
    /// identifies the kind of failure (matched against the known-findings file)
    pub key: String,
    pub input: String,
    pub msg: String,
}
pub fn fail<T>(key: &str, input: String, msg: String) -> Result<T, Fail> {
    Err(Fail { key: key.to_string(), input, msg })
}
pub type Res = Result<Info, Fail>;
pub struct Case {
    pub name: &'static str,
    /// relative share of iterations: runs once every `every` rounds
    pub every: usize,
    pub run: fn(&mut Rng) -> Res,
}


static PANICS: AtomicUsize = AtomicUsize::new(0);
static BEAT: AtomicUsize = AtomicUsize::new(0);
static mut LAST_PANIC: Option<Mutex<String>> = None;
static mut CURRENT: Option<Mutex<(String, u64, String)>> = None;

pub fn panics() -> usize {
    PANICS.load(Ordering::SeqCst)
}
pub fn last_panic() -> String {
    unsafe { LAST_PANIC.as_ref().unwrap().lock().unwrap().clone() }
}
/// A long case may call this to say what it is doing (used when it hangs).
pub fn note(s: &str) {
    unsafe { CURRENT.as_ref().unwrap().lock().unwrap().2 = s.to_string() }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars().take(6000) {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => o.push_str(&format!("\\u{:04x}", (c as u32) & 0xffff)),
            c => o.push(c),
        }
    }
    o
}
fn hash(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn run_one(c: &Case, seed: u64) -> Res {
    unsafe { *CURRENT.as_ref().unwrap().lock().unwrap() = (c.name.to_string(), seed, String::new()) };
    BEAT.fetch_add(1, Ordering::SeqCst);
    let f = c.run;
    match panic::catch_unwind(panic::AssertUnwindSafe(|| f(&mut Rng::new(seed)))) {
        Ok(r) => r,
        Err(_) => {
            let n = unsafe { CURRENT.as_ref().unwrap().lock().unwrap().2.clone() };
            fail(&format!("panic:{}", c.name), n, format!("panicked: {}", last_panic()))
        }
    }
}

fn report(c: &str, seed: u64, f: &Fail) {
    println!(
        "FAIL {{\"case\":\"{}\",\"case_seed\":{},\"key\":\"{}\",\"input\":\"{}\",\"message\":\"{}\"}}",
        c, seed, esc(&f.key), esc(&f.input), esc(&f.msg)
    );
}

pub fn main(cases: &[Case]) {
    unsafe {
        LAST_PANIC = Some(Mutex::new(String::new()));
        CURRENT = Some(Mutex::new((String::new(), 0, String::new())));
    }
    panic::set_hook(Box::new(|pi| {
        PANICS.fetch_add(1, Ordering::SeqCst);
        let s = format!("{}", pi);
        unsafe {
            if let Ok(mut g) = LAST_PANIC.as_ref().unwrap().lock() {
                *g = s;
            }
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String {
        a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()).unwrap_or_else(|| d.to_string())
    };
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let budget: f64 = get("--budget", "10").parse().unwrap();
    let hang: u64 = get("--hang", "60").parse().unwrap();
    load_dict(&get("--dict", ""));
    let trace = a.iter().any(|x| x == "--trace");
    let max_rounds: usize = get("--rounds", "1000000000").parse().unwrap();
    std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let b = BEAT.load(Ordering::SeqCst);
            if b != last.0 {
                last = (b, Instant::now());
            } else if last.1.elapsed().as_secs() > hang {
                let cur = unsafe { CURRENT.as_ref().unwrap().lock().unwrap().clone() };
                report(&cur.0, cur.1, &Fail { key: format!("hang:{}", cur.0), input: cur.2,
                    msg: format!("no answer within {} s", hang) });
                std::process::exit(3);
            }
        }
    });
    if a.iter().any(|x| x == "--replay") {
        let name = get("--replay", "");
        let s: u64 = get("--case-seed", "0").parse().unwrap();
        for c in cases {
            if c.name == name {
                match run_one(c, s) {
                    Ok(i) => println!("HOLDS {}", i.input),
                    Err(f) => {
                        report(c.name, s, &f);
                        std::process::exit(3);
                    }
                }
            }
        }
        std::process::exit(0);
    }
    let start = Instant::now();
    let mut evals = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut failures = 0;
    let mut keys: HashSet<String> = HashSet::new();
    let mut round = 0usize;
    'all: while start.elapsed().as_secs_f64() < budget && round < max_rounds {
        for (k, c) in cases.iter().enumerate() {
            if round % c.every != 0 {
                continue;
            }
            if evals > 0 && start.elapsed().as_secs_f64() > budget * 1.5 && round > 0 {
                break 'all;
            }
            let cs = seed.wrapping_mul(1_000_003).wrapping_add((k as u64) << 40).wrapping_add(round as u64);
            if trace {
                eprintln!("CASE {} {}", c.name, cs);
            }
            match run_one(c, cs) {
                Ok(i) => {
                    evals += 1;
                    if i.nontrivial && distinct.len() < 2_000_000 && distinct.insert(hash(&i.input)) && samples.len() < 6
                        && samples.iter().filter(|s| s.starts_with(c.name)).count() < 2 {
                        samples.push(format!("{}: {}", c.name, i.input.chars().take(300).collect::<String>()));
                    }
                }
                Err(f) => {
                    evals += 1;
                    failures += 1;
                    // one report per kind of failure is enough
                    if keys.insert(f.key.clone()) {
                        report(c.name, cs, &f);
                    }
                    if keys.len() >= 8 {
                        break 'all;
                    }
                }
            }
        }
        round += 1;
    }
    let ss: Vec<String> = samples.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    println!(
        "DONE {{\"evaluations\":{},\"distinct_nontrivial\":{},\"rounds\":{},\"failures\":{},\"cases\":{},\"samples\":[{}]}}",
        evals, distinct.len(), round, failures, cases.len(), ss.join(",")
    );
    std::process::exit(if failures > 0 { 3 } else { 0 });
}
