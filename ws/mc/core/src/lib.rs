//! Shared by every checker: run bookkeeping, measured coverage, evidence, verdicts, known findings,
//! a deterministic parallel map and a breadth-first explicit-state explorer.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::Hash;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

thread_local! {
	static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
	static QUIET: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

/// Runs code under test; a panic becomes an `Err` with its message.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
	QUIET.with(|q| q.set(q.get() + 1));
	let r = catch_unwind(AssertUnwindSafe(f));
	QUIET.with(|q| q.set(q.get() - 1));
	r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn install_hook() {
	let old = std::panic::take_hook();
	std::panic::set_hook(Box::new(move |info| {
		let msg = format!("{info}").replace('\n', " ");
		LAST_PANIC.with(|p| *p.borrow_mut() = msg);
		if QUIET.with(|q| q.get()) == 0 {
			old(info)
		}
	}));
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
	Quick,
	Thorough,
}

/// A failure found by an exploration: a stable key (what kind of failure) and the concrete case.
#[derive(Clone, Debug)]
pub struct Failure {
	pub key: String,
	pub case: Value,
}

/// Counters shared by worker threads.
#[derive(Default)]
pub struct Counters {
	pub states: AtomicU64,
	pub transitions: AtomicU64,
	pub traces: AtomicU64,
}

pub struct Run {
	pub property: String,
	pub tier: Tier,
	pub seed: u64,
	start: Instant,
	pub c: Counters,
	samples: Mutex<Vec<Value>>,
	extra: Mutex<BTreeMap<String, Value>>,
	assumptions: Mutex<Vec<String>>,
	failures: Mutex<BTreeMap<String, (u64, Value)>>,
	/// known-finding key -> (description, hits)
	known: Mutex<BTreeMap<String, (String, u64)>>,
	exhaustive: Mutex<bool>,
	by_comparison: std::sync::atomic::AtomicBool,
	root: std::path::PathBuf,
}

#[repr(align(128))]
struct Shard(std::sync::atomic::AtomicU64);
static COMPARED: [Shard; 64] = [const { Shard(std::sync::atomic::AtomicU64::new(0)) }; 64];
static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
thread_local! {
	static SHARD: usize = NEXT.fetch_add(1, Ordering::Relaxed) % 64;
}

fn verif_root() -> std::path::PathBuf {
	std::env::var("VERIF_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

impl Run {
	pub fn new(property: &str) -> Run {
		install_hook();
		let tier = match std::env::var("VERIF_TIER").as_deref() {
			Ok("thorough") => Tier::Thorough,
			_ => Tier::Quick,
		};
		let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0) as u64;
		let root = verif_root();
		let mut known = BTreeMap::new();
		let text = std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
		for line in text.lines() {
			// `known: property=<id> key=<key> <what fails>`
			let Some(rest) = line.strip_prefix("known: ") else { continue };
			let mut it = rest.splitn(3, ' ');
			let (p, k, d) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
			if p == format!("property={property}") {
				if let Some(k) = k.strip_prefix("key=") {
					known.insert(k.to_string(), (d.to_string(), 0));
				}
			}
		}
		Run {
			property: property.into(),
			tier,
			seed,
			start: Instant::now(),
			c: Counters::default(),
			samples: Mutex::new(vec![]),
			extra: Mutex::new(BTreeMap::new()),
			assumptions: Mutex::new(vec![]),
			failures: Mutex::new(BTreeMap::new()),
			known: Mutex::new(known),
			exhaustive: Mutex::new(true),
			by_comparison: Default::default(),
			root,
		}
	}

	pub fn thorough(&self) -> bool {
		self.tier == Tier::Thorough
	}

	pub fn states(&self, n: u64) {
		self.c.states.fetch_add(n, Ordering::Relaxed);
	}
	pub fn transitions(&self, n: u64) {
		self.c.transitions.fetch_add(n, Ordering::Relaxed);
	}
	pub fn traces(&self, n: u64) {
		self.c.traces.fetch_add(n, Ordering::Relaxed);
	}

	pub fn sample(&self, v: Value) {
		let mut s = self.samples.lock().unwrap();
		if s.len() < 12 {
			s.push(v);
		}
	}

	pub fn info(&self, k: &str, v: Value) {
		self.extra.lock().unwrap().insert(k.into(), v);
	}

	pub fn assume(&self, s: &str) {
		self.assumptions.lock().unwrap().push(s.into());
	}

	pub fn not_exhaustive(&self) {
		*self.exhaustive.lock().unwrap() = false;
	}

	/// Records a failure. Failures whose key is listed in known-findings.txt for this property are
	/// reported as such; all others are violations. The smallest case (by printed length) is kept.
	pub fn fail(&self, key: &str, case: Value) {
		COMPARED[SHARD.with(|s| *s)].0.fetch_add(1, Ordering::Relaxed);
		self.record(key, case);
	}
	fn record(&self, key: &str, case: Value) {
		let mut known = self.known.lock().unwrap();
		if let Some((_, hits)) = known.get_mut(key) {
			*hits += 1;
			return;
		}
		let mut f = self.failures.lock().unwrap();
		let e = f.entry(key.to_string()).or_insert_with(|| (0, case.clone()));
		e.0 += 1;
		if case.to_string().len() < e.1.to_string().len() {
			e.1 = case;
		}
	}

	pub fn failed(&self) -> bool {
		!self.failures.lock().unwrap().is_empty()
	}

	/// `cond` must hold; otherwise the case is recorded under `key`.
	#[inline]
	pub fn check(&self, cond: bool, key: &str, case: impl FnOnce() -> Value) -> bool {
		COMPARED[SHARD.with(|s| *s)].0.fetch_add(1, Ordering::Relaxed);
		if !cond {
			self.record(key, case());
		}
		cond
	}

	/// Counts as validated every answer of the implementation that was compared with the reference,
	/// for checks that enumerate single calls instead of histories.
	pub fn traces_are_comparisons(&self) {
		self.by_comparison.store(true, Ordering::Relaxed);
	}

	/// Writes the evidence file, prints the verdict and ends the process.
	pub fn finish(self) -> ! {
		let wall = self.start.elapsed().as_secs_f64();
		let failures = self.failures.into_inner().unwrap();
		let known = self.known.into_inner().unwrap();
		let states = self.c.states.load(Ordering::Relaxed);
		let transitions = self.c.transitions.load(Ordering::Relaxed);
		let compared: u64 = COMPARED.iter().map(|c| c.0.load(Ordering::Relaxed)).sum();
		let traces = if self.by_comparison.load(Ordering::Relaxed) { compared } else { self.c.traces.load(Ordering::Relaxed) };
		let exhaustive = *self.exhaustive.lock().unwrap();
		let violations: u64 = failures.values().map(|f| f.0).sum();
		let mut coverage = json!({
			"states": states,
			"transitions": transitions,
			"traces_validated_against_impl": traces,
			"exhaustive": exhaustive,
			"samples": self.samples.into_inner().unwrap(),
		});
		for (k, v) in self.extra.into_inner().unwrap() {
			coverage[k] = v;
		}
		let mut assumptions = self.assumptions.into_inner().unwrap();
		let mut hits = vec![];
		for (k, (d, n)) in &known {
			if *n > 0 {
				println!("KNOWN-FINDING: property={} {} ({})", self.property, d, k);
				hits.push(json!({"key": k, "occurrences": n}));
			}
		}
		if !hits.is_empty() {
			coverage["known_findings_seen"] = json!(hits);
			assumptions.push("behaviour listed as known finding is accepted where it matches its exact prediction".into());
		}
		let ev = json!({
			"property": self.property,
			"tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
			"seed": self.seed as i64,
			"level": "model_checking",
			"coverage": coverage,
			"wall_s": (wall * 1000.0).round() / 1000.0,
			"assumptions": assumptions,
			"violations": violations,
		});
		let dir = self.root.join("evidence");
		std::fs::create_dir_all(&dir).expect("evidence dir");
		std::fs::write(
			dir.join(format!("{}.json", self.property)),
			serde_json::to_string_pretty(&ev).unwrap() + "\n",
		)
		.expect("write evidence");
		if failures.is_empty() && (states == 0 || traces == 0) {
			eprintln!("nothing was explored: error of the check");
			std::process::exit(3);
		}
		if !failures.is_empty() {
			let rdir = dir.join("replay");
			std::fs::create_dir_all(&rdir).expect("replay dir");
			let path = rdir.join(format!("{}.json", self.property));
			let list: Vec<Value> = failures
				.iter()
				.map(|(k, (n, c))| json!({"what": k, "occurrences": n, "smallest_case": c}))
				.collect();
			let doc = json!({
				"property": self.property,
				"rerun": format!("VERIF_TIER={} ./check {}", if self.tier == Tier::Quick { "quick" } else { "thorough" }, self.property),
				"violations": list,
			});
			std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap() + "\n").expect("write replay");
			for (k, (n, c)) in failures.iter().take(8) {
				let mut c = c.to_string();
				if c.len() > 1500 {
					let mut e = 1500;
					while !c.is_char_boundary(e) {
						e -= 1;
					}
					c.truncate(e);
				}
				println!("  {k} ({n}x): {c}");
			}
			println!("VIOLATION property={} replay={}", self.property, path.display());
			std::process::exit(1);
		}
		println!(
			"OK property={} states={} transitions={} traces={} wall={:.1}s",
			self.property, states, transitions, traces, wall
		);
		std::process::exit(0);
	}
}

pub fn workers() -> usize {
	std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
}

/// Runs `f(i)` for every i in 0..n on all cores (dynamic chunks).
pub fn par_for(n: usize, chunk: usize, f: impl Fn(usize) + Sync) {
	let next = AtomicUsize::new(0);
	std::thread::scope(|s| {
		for _ in 0..workers() {
			s.spawn(|| loop {
				let a = next.fetch_add(chunk, Ordering::Relaxed);
				if a >= n {
					break;
				}
				for i in a..(a + chunk).min(n) {
					f(i)
				}
			});
		}
	});
}

/// Parallel map over a slice, result order preserved.
pub fn par_map<T: Sync, R: Send>(items: &[T], f: impl Fn(&T) -> R + Sync) -> Vec<R> {
	let out: Vec<Mutex<Option<R>>> = items.iter().map(|_| Mutex::new(None)).collect();
	let chunk = (items.len() / (workers() * 8)).max(1);
	par_for(items.len(), chunk, |i| {
		let r = f(&items[i]);
		*out[i].lock().unwrap() = Some(r);
	});
	out.into_iter().map(|m| m.into_inner().unwrap().expect("computed")).collect()
}

/// Every string over `alphabet` of length `len`, by index.
pub fn nth_word<T: Copy>(alphabet: &[T], len: usize, mut i: usize) -> Vec<T> {
	let mut v = Vec::with_capacity(len);
	for _ in 0..len {
		v.push(alphabet[i % alphabet.len()]);
		i /= alphabet.len();
	}
	v
}

/// 128 bits standing for a state's canonical bytes: two of the at most few million states of a run
/// coincide with probability below 2^-80.
pub fn digest(bytes: &[u8]) -> u128 {
	use std::hash::Hasher;
	let half = |salt: u8| {
		let mut h = std::collections::hash_map::DefaultHasher::new();
		h.write_u8(salt);
		h.write(bytes);
		h.finish() as u128
	};
	half(1) << 64 | half(2)
}

/// Result of exploring one state: successor states with the labels leading there.
pub struct Succ<S> {
	pub label: String,
	pub state: S,
}

/// What a breadth-first exploration visited.
pub struct Explored {
	pub states: u64,
	pub transitions: u64,
	pub depth: usize,
	pub fixpoint: bool,
}

/// Breadth-first explicit-state search. `key` is the canonical form of a state (deduplication);
/// `expand` executes every enabled action on the real code and returns the successors after having
/// checked the properties (it receives the trace of labels on request through `Trace`).
/// Stops at `max_depth`, or when nothing new appears (fixpoint), or before a level that would start
/// beyond `max_states`.
pub fn bfs<S: Send + Sync, K: Eq + Hash + Send + Sync>(
	init: Vec<S>,
	key: impl Fn(&S) -> K + Sync,
	max_depth: usize,
	max_states: usize,
	expand: impl Fn(&S, &dyn Fn() -> Vec<String>) -> Vec<Succ<S>> + Sync,
) -> Explored {
	let mut seen: HashSet<K> = HashSet::new();
	// successors are gathered for this many states at a time
	const BATCH: usize = 2048;
	// parent links for counterexamples: index -> (parent index, label)
	let mut parents: Vec<(usize, String)> = vec![];
	let mut frontier: Vec<(usize, S)> = vec![];
	for s in init {
		if seen.insert(key(&s)) {
			parents.push((usize::MAX, "init".into()));
			frontier.push((parents.len() - 1, s));
		}
	}
	let mut transitions = 0u64;
	let mut depth = 0;
	let mut fixpoint = true;
	while !frontier.is_empty() {
		if depth >= max_depth || seen.len() > max_states {
			fixpoint = false;
			break;
		}
		let mut next = vec![];
		for batch in frontier.chunks(BATCH) {
			let (par, before) = (&parents, &seen);
			let results: Vec<Vec<(String, K, Option<S>)>> = par_map(batch, |(id, s)| {
				let trace = || {
					let mut v = vec![];
					let mut i = *id;
					while i != usize::MAX {
						v.push(par[i].1.clone());
						i = par[i].0;
					}
					v.reverse();
					v
				};
				expand(s, &trace)
					.into_iter()
					.map(|x| {
						let k = key(&x.state);
						let known = before.contains(&k);
						(x.label, k, (!known).then_some(x.state))
					})
					.collect()
			});
			for ((id, _), succ) in batch.iter().zip(results) {
				for (label, k, s) in succ {
					transitions += 1;
					if let Some(s) = s {
						if seen.insert(k) {
							parents.push((*id, label));
							next.push((parents.len() - 1, s));
						}
					}
				}
			}
		}
		frontier = next;
		depth += 1;
	}
	Explored { states: seen.len() as u64, transitions, depth, fixpoint }
}

/// Counts occurrences per label (for showing that an exploration reached what it should).
#[derive(Default)]
pub struct Tallier(Mutex<HashMap<String, u64>>);
impl Tallier {
	pub fn hit(&self, k: &str) {
		let mut m = self.0.lock().unwrap();
		if let Some(v) = m.get_mut(k) {
			*v += 1
		} else {
			m.insert(k.into(), 1);
		}
	}
	pub fn get(&self, k: &str) -> u64 {
		self.0.lock().unwrap().get(k).copied().unwrap_or(0)
	}
	pub fn json(&self) -> Value {
		let m = self.0.lock().unwrap();
		let b: BTreeMap<_, _> = m.iter().collect();
		json!(b)
	}
}

pub use serde_json;
