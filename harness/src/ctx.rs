//! Exploration context: counts evaluations, catches panics, watches for
//! non-termination, records the first failing input of every sub-check.
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Violation { pub check: String, pub index: u64, pub input: String, pub msg: String }

#[derive(Default)]
pub struct State {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub per_check: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub current: Option<(Instant, u64, String, String)>,
    pub done: bool,
}

pub struct Ctx {
    pub thorough: bool,
    pub rng: Rng,
    pub only: Option<u64>,
    pub idx: u64,
    pub deadline: Instant,
    pub state: Arc<Mutex<State>>,
    pub failed: HashSet<String>,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_result(st: &State, path: &str) {
    let viol: Vec<_> = st.violations.iter().map(|v| format!(
        "{{\"check\":{},\"index\":{},\"input\":{},\"message\":{}}}",
        esc(&v.check), v.index, esc(&v.input), esc(&v.msg))).collect();
    let per: Vec<_> = st.per_check.iter().map(|(k, n)| format!("{}:{}", esc(k), n)).collect();
    let smp: Vec<_> = st.samples.iter().map(|s| esc(s)).collect();
    let s = format!(
        "{{\"evaluations\":{},\"distinct\":{},\"per_check\":{{{}}},\"samples\":[{}],\"violations\":[{}]}}\n",
        st.evals, st.distinct.len(), per.join(","), smp.join(","), viol.join(","));
    std::fs::write(path, s).unwrap();
}

impl Ctx {
    pub fn new(thorough: bool, seed: u64, only: Option<u64>, secs: u64, out: String, case_secs: u64) -> Ctx {
        let state = Arc::new(Mutex::new(State::default()));
        let st = state.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let mut s = match st.lock() { Ok(s) => s, Err(_) => continue };
            if s.done { return }
            if let Some((t, idx, check, input)) = s.current.clone() {
                if t.elapsed() > Duration::from_secs(case_secs) {
                    s.violations.push(Violation { check, index: idx, input,
                        msg: format!("no answer within {} s (does not terminate)", case_secs) });
                    write_result(&s, &out);
                    std::process::exit(0);
                }
            }
        });
        Ctx {
            thorough, rng: Rng::new(seed), only, idx: 0,
            deadline: Instant::now() + Duration::from_secs(secs),
            state, failed: HashSet::new(),
        }
    }

    /// 5*n cases at the quick tier, 2*k*n at the thorough tier
    pub fn n(&self, n: usize, k: usize) -> usize { if self.thorough { 2 * n * k } else { 5 * n } }

    pub fn stop(&self) -> bool { Instant::now() > self.deadline }

    pub fn case<F>(&mut self, check: &str, input: String, f: F)
        where F: FnOnce() -> Result<(), String>
    {
        self.idx += 1;
        if let Some(k) = self.only { if k != self.idx { return } }
        if self.failed.contains(check) || self.stop() { return }
        {
            let mut s = self.state.lock().unwrap();
            s.evals += 1;
            *s.per_check.entry(check.to_string()).or_insert(0) += 1;
            let mut h = DefaultHasher::new();
            (check, &input).hash(&mut h);
            s.distinct.insert(h.finish());
            if s.per_check[check] == 2 && s.samples.len() < 12 {
                let t: String = input.chars().take(200).collect();
                s.samples.push(format!("{}: {}", check, t));
            }
            s.current = Some((Instant::now(), self.idx, check.to_string(), input.clone()));
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        let mut s = self.state.lock().unwrap();
        s.current = None;
        let msg = match r {
            Ok(Ok(())) => return,
            Ok(Err(m)) => m,
            Err(e) => format!("panic: {}", e.downcast_ref::<String>().cloned()
                .or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
        };
        s.violations.push(Violation { check: check.to_string(), index: self.idx, input, msg });
        drop(s);
        self.failed.insert(check.to_string());
    }
}

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        if r.0 == 0 { r.0 = 1 }
        for _ in 0..4 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        x ^= x >> 12; x ^= x << 25; x ^= x >> 27;
        self.0 = x;
        x.wrapping_mul(0x2545F4914F6CDD1D)
    }
    /// inclusive range
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + ((self.next() >> 11) % ((hi - lo + 1) as u64)) as i64
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize { self.int(lo as i64, hi as i64) as usize }
    pub fn chance(&mut self, num: i64, den: i64) -> bool { self.int(1, den) <= num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.us(0, v.len() - 1); &v[i] }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() { let j = self.us(0, i); v.swap(i, j); }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
