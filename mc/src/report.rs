//! Counting, violations, replay files and the summary of a run.
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
pub struct Inner {
    pub counts: BTreeMap<String, u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(String, String, String)>,
}

#[derive(Default)]
pub struct Report {
    pub inner: Mutex<Inner>,
    stop: AtomicBool,
}

impl Report {
    pub fn add(&self, key: &str, n: u64) { *self.inner.lock().unwrap().counts.entry(key.into()).or_default() += n; }
    pub fn outcome(&self, key: &str, n: u64) { *self.inner.lock().unwrap().outcomes.entry(key.into()).or_default() += n; }
    pub fn sample(&self, s: impl Into<String>) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 8 {
            i.samples.push(s.into());
        }
    }
    pub fn stopped(&self) -> bool { self.stop.load(Ordering::Relaxed) }
    /// `input` is what to replay (a schema text or a description), `how` is extra replay data
    pub fn violation(&self, what: impl Into<String>, input: impl Into<String>, how: impl Into<String>) {
        let mut i = self.inner.lock().unwrap();
        i.violations.push((what.into(), input.into(), how.into()));
        if i.violations.len() >= 20 {
            self.stop.store(true, Ordering::Relaxed);
        }
    }
    pub fn to_json(&self) -> String {
        let mut i = self.inner.lock().unwrap();
        i.violations.sort_by_key(|(_, a, _)| (a.len(), a.clone()));
        let m = |m: &BTreeMap<String, u64>| {
            m.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(",")
        };
        format!(
            "{{\"counts\":{{{}}},\"outcomes\":{{{}}},\"samples\":[{}],\"violations\":[{}]}}\n",
            m(&i.counts),
            m(&i.outcomes),
            i.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","),
            i.violations
                .iter()
                .map(|(a, b, c)| format!(
                    "{{\"what\":{},\"input\":{},\"how\":{}}}",
                    json_str(a),
                    json_str(b),
                    json_str(c)
                ))
                .collect::<Vec<_>>()
                .join(",")
        )
    }
}

pub const SHARDS: usize = 8;

/// Runs `f(shard)` on one thread per shard.
pub fn shards(f: impl Fn(usize) + Sync) {
    std::thread::scope(|s| {
        for i in 0..SHARDS {
            let f = &f;
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || f(i))
                .unwrap();
        }
    });
}

// Crashes which end the process and runs without end. A watchdog ends the
// process if a thread stays in the code under test for long. Run again with
// MC_TRACE set to a folder, each thread keeps its current input in a file there.
static BUSY: Mutex<Vec<std::sync::Arc<AtomicU64>>> = Mutex::new(Vec::new());
pub const STUCK: i32 = 78;
const PATIENCE: u64 = 40;

thread_local! {
    static CLOCK: std::sync::Arc<AtomicU64> = {
        let c = std::sync::Arc::new(AtomicU64::new(0));
        BUSY.lock().unwrap().push(c.clone());
        c
    };
    static TRACE: Option<std::fs::File> = std::env::var_os("MC_TRACE").map(|d| {
        let n = BUSY.lock().unwrap().len();
        std::fs::File::create(std::path::Path::new(&d).join(n.to_string())).unwrap()
    });
}

/// `seconds` of computing or waiting since the start, plus one
static NOW: AtomicU64 = AtomicU64::new(1);

pub fn watch() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let now = NOW.fetch_add(1, Ordering::Relaxed) + 1;
        for c in BUSY.lock().unwrap().iter() {
            let since = c.load(Ordering::Relaxed);
            if since != 0 && now > since + PATIENCE {
                std::process::exit(STUCK);
            }
        }
    });
}

/// Notes what is about to be given to the code under test, as `violation` would
pub fn at(what: impl FnOnce() -> (String, String)) {
    CLOCK.with(|_| ());
    TRACE.with(|t| {
        if let Some(f) = t {
            use std::os::unix::fs::FileExt;
            let (input, how) = what();
            let mut b = (input.len() as u32).to_le_bytes().to_vec();
            b.extend((how.len() as u32).to_le_bytes());
            b.extend(input.as_bytes());
            b.extend(how.as_bytes());
            f.write_all_at(&b, 0).unwrap();
        }
    })
}

thread_local! {
    static QUIET: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

/// Panics are printed unless they happen in the code under test
pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if !QUIET.with(|q| q.get()) {
            default(info)
        }
    }));
}

/// Runs code under test; `Err` if it panics
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(true));
    CLOCK.with(|c| c.store(NOW.load(Ordering::Relaxed), Ordering::Relaxed));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    CLOCK.with(|c| c.store(0, Ordering::Relaxed));
    QUIET.with(|q| q.set(false));
    r.map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}
