//! Runs one property: fixed cases, then sharded random search with shrinking; evidence; replay.
use proptest::{
	strategy::{BoxedStrategy, Strategy, ValueTree},
	test_runner::{Config, RngAlgorithm, TestRng, TestRunner},
};
use serde::{de::DeserializeOwned, Serialize};
use sha2::{Digest, Sha256};
use std::{
	cell::{Cell, RefCell},
	collections::{BTreeMap, HashSet},
	fmt::Debug,
	hash::{Hash, Hasher},
	panic::{catch_unwind, AssertUnwindSafe},
	sync::atomic::{AtomicBool, AtomicU32, Ordering},
	sync::Mutex,
	time::{Duration, Instant},
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
	Quick,
	Thorough,
}
impl Tier {
	/// Number of cases: `q` for quick, `q * t` for thorough.
	pub fn cases(self, q: u32, t: u32) -> u32 {
		match self {
			Tier::Quick => q,
			Tier::Thorough => q.saturating_mul(t),
		}
	}
}

/// What a case that held was about.
#[derive(Default)]
pub struct Obs {
	pub nontrivial: bool,
	/// Sub-evaluations beyond the case itself (e.g. enumerated positions).
	pub inner: u64,
	pub labels: Vec<&'static str>,
}
impl Obs {
	pub fn new(nontrivial: bool) -> Self {
		Self { nontrivial, ..Self::default() }
	}
	pub fn label(&mut self, cond: bool, l: &'static str) {
		if cond && !self.labels.contains(&l) {
			self.labels.push(l)
		}
	}
}

pub type Verdict = Result<Obs, String>;

pub trait Prop: Sync {
	type Case: Serialize + DeserializeOwned + Debug + Clone + Hash + Send + Sync + 'static;
	const ID: &'static str;
	fn rule(&self) -> &'static str;
	fn assumptions(&self) -> Vec<&'static str> {
		vec![]
	}
	fn cases(&self, tier: Tier) -> u32;
	fn shards(&self) -> u32 {
		8
	}
	fn strategy(&self, tier: Tier) -> BoxedStrategy<Self::Case>;
	/// Cases which are always run first.
	fn fixed(&self, _tier: Tier) -> Vec<Self::Case> {
		vec![]
	}
	fn check(&self, case: &Self::Case) -> Verdict;
	/// A case takes milliseconds; one that runs this long loops.
	fn hang_after(&self) -> Duration {
		Duration::from_secs(120)
	}
	fn max_shrink(&self) -> u32 {
		4000
	}
}

/// Processor time of a thread since some moment.
struct Cpu(libc::clockid_t, Duration);
impl Cpu {
	fn read(id: libc::clockid_t) -> Duration {
		let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
		unsafe { libc::clock_gettime(id, &mut t) };
		Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
	}
	fn start() -> Self {
		let mut id = 0;
		unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut id) };
		Self(id, Self::read(id))
	}
	fn spent(&self) -> Duration {
		Self::read(self.0).saturating_sub(self.1)
	}
}

/// No check needs anywhere near this much memory.
const MEMORY_LIMIT: u64 = 12 << 30;

fn memory_in_use() -> u64 {
	let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
	s.split(' ').nth(1).and_then(|n| n.parse::<u64>().ok()).unwrap_or(0) * 4096
}

/// A problem with the check itself rather than with the code: never reported as a violation.
pub const HARNESS_ERROR: &str = "HARNESS-ERROR";

thread_local! {
	static CATCHING: Cell<u32> = Cell::new(0);
	static PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
	std::panic::set_hook(Box::new(|info| {
		let msg = info
			.payload()
			.downcast_ref::<&str>()
			.map(|s| s.to_string())
			.or_else(|| info.payload().downcast_ref::<String>().cloned())
			.unwrap_or_else(|| "?".into());
		let loc = info
			.location()
			.map(|l| format!("{}:{}", l.file(), l.line()))
			.unwrap_or_default();
		if CATCHING.with(|c| c.get()) == 0 {
			eprintln!("panic at {}: {}", loc, msg);
		}
		PANIC.with(|p| *p.borrow_mut() = format!("panic at {}: {}", loc, msg));
	}));
}

pub fn last_panic() -> String {
	PANIC.with(|p| p.borrow().clone())
}

/// Run something of the code under test; a panic becomes an error message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	catch(f).map_err(|_| last_panic())
}

fn catch<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
	CATCHING.with(|c| c.set(c.get() + 1));
	let r = catch_unwind(AssertUnwindSafe(f));
	CATCHING.with(|c| c.set(c.get() - 1));
	r
}

fn run_check<P: Prop>(p: &P, case: &P::Case) -> Verdict {
	match catch(|| p.check(case)) {
		Ok(r) => r,
		Err(_) => {
			let m = last_panic();
			// A panic raised by the harness' own sources is not the code's fault.
			if m.starts_with("panic at src/") {
				Err(format!("{}: {}", HARNESS_ERROR, m))
			} else {
				Err(m)
			}
		}
	}
}

#[derive(Default)]
struct Stats {
	evaluations: u64,
	inner: u64,
	nontrivial: HashSet<u64>,
	labels: BTreeMap<&'static str, u64>,
	samples: Vec<serde_json::Value>,
}
impl Stats {
	fn add<C: Serialize + Hash>(&mut self, case: &C, obs: &Obs) {
		self.evaluations += 1;
		self.inner += obs.inner;
		for l in &obs.labels {
			*self.labels.entry(l).or_default() += 1;
		}
		if obs.nontrivial {
			let mut h = std::collections::hash_map::DefaultHasher::new();
			case.hash(&mut h);
			if self.nontrivial.insert(h.finish()) && self.samples.len() < 2 {
				let s = serde_json::to_string(case).unwrap_or_default();
				self.samples.push(if s.len() <= 1500 {
					serde_json::from_str(&s).unwrap_or_default()
				} else {
					let cut: String = s.chars().take(1500).collect();
					format!("{}... ({} characters of JSON)", cut, s.len()).into()
				});
			}
		}
	}
	fn merge(&mut self, o: Stats) {
		self.evaluations += o.evaluations;
		self.inner += o.inner;
		self.nontrivial.extend(o.nontrivial);
		for (k, v) in o.labels {
			*self.labels.entry(k).or_default() += v;
		}
		for s in o.samples {
			if self.samples.len() < 4 {
				self.samples.push(s)
			}
		}
	}
}

pub struct Env {
	pub seed: u64,
	pub tier: Tier,
	pub verif: String,
}

fn rng_for(id: &str, seed: u64, shard: u32) -> TestRng {
	let d = Sha256::new()
		.chain_update(b"vpcheck")
		.chain_update(id.as_bytes())
		.chain_update(seed.to_be_bytes())
		.chain_update(shard.to_be_bytes())
		.finalize();
	TestRng::from_seed(RngAlgorithm::ChaCha, &d)
}

struct Failure<C> {
	case: C,
	msg: String,
	order: u32,
}

pub fn run<P: Prop>(p: &P, env: &Env, replay: Option<&str>) -> i32 {
	install_panic_hook();
	let start = Instant::now();
	if let Some(path) = replay {
		let t = match std::fs::read_to_string(path) {
			Ok(t) => t,
			Err(e) => {
				eprintln!("cannot read {}: {}", path, e);
				return 2;
			}
		};
		let v: serde_json::Value = serde_json::from_str(&t).expect("replay file is JSON");
		let case: P::Case = serde_json::from_value(v["case"].clone()).expect("replay case");
		return match run_check(p, &case) {
			Ok(_) => {
				println!("replay of {} holds", path);
				0
			}
			Err(m) if m.starts_with(HARNESS_ERROR) => {
				eprintln!("{}", m);
				2
			}
			Err(m) => {
				println!("{}", m);
				println!("VIOLATION property={} replay={}", P::ID, path);
				1
			}
		};
	}

	let stop = AtomicBool::new(false);
	let stats = Mutex::new(Stats::default());
	let failures: Mutex<Vec<Failure<P::Case>>> = Mutex::new(vec![]);

	let fixed = p.fixed(env.tier);
	let shards = p.shards();
	let current: Vec<Mutex<Option<(Instant, Cpu, P::Case)>>> = (0..shards).map(|_| Mutex::new(None)).collect();
	let finished = AtomicU32::new(0);
	// Percentage of the cases, for experiments (tools/mutate.py).
	let scale = std::env::var("VP_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(100u64);
	let total = (u64::from(p.cases(env.tier)) * scale / 100).max(1) as u32;
	let per = (total + shards - 1) / shards;
	std::thread::scope(|s| {
		// A case which does not come back at all: the code under test loops.
		let (cur, fin) = (&current, &finished);
		s.spawn(move || {
			while fin.load(Ordering::Relaxed) < shards {
				std::thread::sleep(Duration::from_millis(20));
				let memory = memory_in_use();
				for c in cur {
					let c = c.lock().unwrap();
					if let Some((since, cpu, case)) = &*c {
						let (wall, spent) = (since.elapsed(), cpu.spent());
						// Enough computation for thousands of cases, or all the memory.
						let loops = wall > p.hang_after() && spent > Duration::from_secs(15) || spent > p.hang_after() / 2;
						let hogs = memory > MEMORY_LIMIT && spent > Duration::from_secs(1);
						if !loops && !hogs && wall > p.hang_after() * 3 {
							// It waits for something, or the machine is too slow to tell.
							eprintln!("{}: {}: no result after {:?}", P::ID, HARNESS_ERROR, wall);
							std::process::exit(2);
						}
						if loops || hogs {
							let msg = format!("no result after {:?} of computation ({} MB in use): the code does not terminate", spent, memory >> 20);
							write_evidence(
								env, P::ID, 1, 1, 0, p.rule(), &BTreeMap::new(), &[], &p.assumptions(),
								start.elapsed().as_secs_f64(), 1,
							);
							report::<P>(env, case, &msg);
							std::process::exit(1);
						}
					}
				}
			}
		});
		for shard in 0..shards {
			let (stop, stats, failures, fixed) = (&stop, &stats, &failures, &fixed);
			let (current, finished) = (&current[shard as usize], &finished);
			let trace = trace_dir().map(|d| format!("{}/{}", d, shard));
			let run_check = move |p: &P, c: &P::Case| {
				if let Some(t) = &trace {
					let v = serde_json::json!({"property": P::ID, "message": "the process crashes", "case": c});
					std::fs::write(t, v.to_string()).expect("trace");
				}
				*current.lock().unwrap() = Some((Instant::now(), Cpu::start(), c.clone()));
				let r = run_check(p, c);
				*current.lock().unwrap() = None;
				r
			};
			struct Fin<'a>(&'a AtomicU32);
			impl Drop for Fin<'_> {
				fn drop(&mut self) {
					self.0.fetch_add(1, Ordering::Relaxed);
				}
			}
			std::thread::Builder::new()
				.stack_size(64 << 20)
				.spawn_scoped(s, move || {
					let _fin = Fin(finished);
					let mut st = Stats::default();
					let fail = |case: P::Case, msg: String, order: u32| {
						stop.store(true, Ordering::Relaxed);
						failures.lock().unwrap().push(Failure { case, msg, order });
					};
					for (i, c) in fixed.iter().enumerate() {
						if i as u32 % shards != shard {
							continue;
						}
						match run_check(p, c) {
							Ok(o) => {
								st.add(c, &o);
								*st.labels.entry("fixed cases").or_default() += 1;
							}
							Err(m) => {
								fail(c.clone(), m, shard);
								return;
							}
						}
					}
					let config = Config {
						failure_persistence: None,
						max_shrink_iters: p.max_shrink(),
						..Config::default()
					};
					let mut runner = TestRunner::new_with_rng(config, rng_for(P::ID, env.seed, shard));
					let strat = p.strategy(env.tier);
					for _ in 0..per {
						if stop.load(Ordering::Relaxed) {
							break;
						}
						let mut tree = match strat.new_tree(&mut runner) {
							Ok(t) => t,
							Err(e) => {
								fail(
									match strat.new_tree(&mut runner) {
										Ok(t) => t.current(),
										Err(_) => panic!("cannot generate: {}", e),
									},
									format!("{}: cannot generate: {}", HARNESS_ERROR, e),
									shard,
								);
								break;
							}
						};
						let case = tree.current();
						match run_check(p, &case) {
							Ok(o) => st.add(&case, &o),
							Err(m) => {
								// Shrink to a minimal case (any failure of this property counts).
								let (mut best, mut msg) = (case, m);
								let deadline = Instant::now() + Duration::from_secs(100);
								let mut n = 0;
								let mut go = tree.simplify();
								while go && n < p.max_shrink() && Instant::now() < deadline {
									n += 1;
									let c = tree.current();
									match run_check(p, &c) {
										Err(m) if m.starts_with(HARNESS_ERROR) == msg.starts_with(HARNESS_ERROR) => {
											best = c;
											msg = m;
											go = tree.simplify();
										}
										_ => go = tree.complicate(),
									}
								}
								fail(best, msg, 1000 + shard);
								break;
							}
						}
					}
					stats.lock().unwrap().merge(st);
				})
				.expect("thread");
		}
	});

	let st = stats.into_inner().unwrap();
	let mut failures = failures.into_inner().unwrap();
	failures.sort_by_key(|f| f.order);
	let wall = start.elapsed().as_secs_f64();
	let violation = failures.iter().find(|f| !f.msg.starts_with(HARNESS_ERROR));

	write_evidence(
		env,
		P::ID,
		st.evaluations,
		st.nontrivial.len() as u64,
		st.inner,
		p.rule(),
		&st.labels,
		&st.samples,
		&p.assumptions(),
		wall,
		violation.is_some() as u64,
	);
	println!(
		"{}: {} cases ({} distinct non-trivial, {} inner evaluations) in {:.1} s; {:?}",
		P::ID,
		st.evaluations,
		st.nontrivial.len(),
		st.inner,
		wall,
		st.labels
	);

	if let Some(f) = violation {
		report::<P>(env, &f.case, &f.msg);
		return 1;
	}
	if let Some(f) = failures.first() {
		eprintln!("{}", f.msg);
		eprintln!("{:?}", f.case);
		return 2;
	}
	0
}

fn report<P: Prop>(env: &Env, case: &P::Case, msg: &str) {
	let dir = format!("{}/replays", env.verif);
	let _ = std::fs::create_dir_all(&dir);
	let path = format!("{}/{}-seed{}.json", dir, P::ID, env.seed);
	let v = serde_json::json!({"property": P::ID, "message": msg, "case": case});
	std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("write replay");
	let d = format!("{:?}", case);
	println!("minimal case: {}", d.chars().take(3000).collect::<String>());
	println!("{}", msg);
	println!("VIOLATION property={} replay={}", P::ID, path);
}

#[allow(clippy::too_many_arguments)]
pub fn write_evidence(
	env: &Env,
	id: &str,
	evaluations: u64,
	nontrivial: u64,
	inner: u64,
	rule: &str,
	labels: &BTreeMap<&'static str, u64>,
	samples: &[serde_json::Value],
	assumptions: &[&str],
	wall: f64,
	violations: u64,
) {
	let v = serde_json::json!({
		"property": id,
		"tier": if env.tier == Tier::Quick { "quick" } else { "thorough" },
		"seed": env.seed,
		"level": "exploration",
		"coverage": {
			"evaluations": evaluations,
			"distinct_nontrivial": nontrivial,
			"inner_evaluations": inner,
			"rule": rule,
			"classes": labels,
			"samples": samples,
		},
		"assumptions": assumptions,
		"wall_s": wall,
		"violations": violations,
	});
	let dir = format!("{}/evidence", env.verif);
	let _ = std::fs::create_dir_all(&dir);
	std::fs::write(
		format!("{}/{}.json", dir, id),
		serde_json::to_string_pretty(&v).unwrap(),
	)
	.expect("write evidence");
}

/// Where to note every case before it is run.
fn trace_dir() -> Option<String> {
	std::env::var("VP_TRACE").ok()
}

/// Run the check in a child process. If that dies of a signal (stack overflow, abort), find the case that does it.
fn supervise(id: &str, env: &Env) -> ! {
	use std::os::unix::process::{CommandExt, ExitStatusExt};
	let run = |args: &[&str], trace: Option<&str>| {
		let mut c = std::process::Command::new(std::env::current_exe().expect("own path"));
		c.args(args).env("VP_CHILD", "1");
		if let Some(t) = trace {
			c.env("VP_TRACE", t);
		}
		unsafe {
			c.pre_exec(|| {
				libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
				Ok(())
			});
		}
		c.status().expect("run the check")
	};
	let crashed = |s: std::process::ExitStatus| matches!(s.signal(), Some(libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS | libc::SIGILL | libc::SIGFPE));
	let args: Vec<String> = std::env::args().skip(1).collect();
	let args: Vec<&str> = args.iter().map(|s| &**s).collect();
	let first = run(&args, None);
	if !crashed(first) {
		std::process::exit(first.code().unwrap_or(2));
	}
	let violation = |path: &str| -> ! {
		println!("the process dies: {}", first);
		println!("VIOLATION property={} replay={}", id, path);
		std::process::exit(1)
	};
	if args.get(1) == Some(&"--replay") {
		violation(args.get(2).copied().unwrap_or_default());
	}
	let dir = std::env::temp_dir().join(format!("vpcheck-trace-{}", std::process::id()));
	let _ = std::fs::remove_dir_all(&dir);
	std::fs::create_dir_all(&dir).expect("trace directory");
	let start = Instant::now();
	let again = run(&args, dir.to_str());
	let mut found = None;
	if crashed(again) {
		for e in std::fs::read_dir(&dir).expect("trace directory").flatten() {
			let p = e.path();
			if crashed(run(&[id, "--replay", p.to_str().expect("path")], None)) {
				let path = format!("{}/replays/{}-seed{}.json", env.verif, id, env.seed);
				let _ = std::fs::create_dir_all(format!("{}/replays", env.verif));
				std::fs::copy(&p, &path).expect("write replay");
				found = Some(path);
				break;
			}
		}
	}
	let _ = std::fs::remove_dir_all(&dir);
	match found {
		Some(path) => {
			write_evidence(
				env, id, 1, 1, 0, "the case that crashes the process", &BTreeMap::new(), &[], &[],
				start.elapsed().as_secs_f64(), 1,
			);
			violation(&path)
		}
		None => {
			eprintln!("{}: {}: the check died ({}), but no single case does that", id, HARNESS_ERROR, first);
			std::process::exit(2)
		}
	}
}

/// Command line and environment of a check.
pub fn setup() -> (String, Env, Option<String>) {
	let args: Vec<String> = std::env::args().collect();
	let id = args.get(1).cloned().unwrap_or_default();
	let replay = match (args.get(2).map(|s| &**s), args.get(3)) {
		(Some("--replay"), Some(f)) => Some(f.clone()),
		_ => None,
	};
	let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
	let tier = match std::env::var("VERIF_TIER").as_deref() {
		Ok("thorough") => Tier::Thorough,
		_ => Tier::Quick,
	};
	let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
	let env = Env { seed, tier, verif };
	// The programs tested by the others run in processes of their own.
	if !("C24".."C30").contains(&id.as_str()) && std::env::var_os("VP_CHILD").is_none() {
		supervise(&id, &env);
	}
	crate::refcrypto::self_test();

	// A run that does not end is an error of the check, not a violation.
	let limit = if tier == Tier::Quick { 840 } else { 6 * 3600 };
	std::thread::spawn(move || {
		std::thread::sleep(Duration::from_secs(limit));
		eprintln!("watchdog: no result after {} s", limit);
		std::process::exit(3);
	});
	(id, env, replay)
}

#[macro_export]
macro_rules! props {
	($($p:expr),* $(,)?) => {{
		fn name<P: $crate::runner::Prop>(_: &P) -> &'static str { P::ID }
		let (id, env, replay) = $crate::runner::setup();
		$(if name(&$p) == id { std::process::exit($crate::runner::run(&$p, &env, replay.as_deref())); })*
		eprintln!("unknown property {:?}", id);
		std::process::exit(2);
	}};
}
