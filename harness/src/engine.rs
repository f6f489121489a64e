//! Runs a property: generated and enumerated cases over several threads in a worker process, shrinking, replay files,
//! evidence, and a parent process that notices when the worker dies or gets stuck.

use crate::case::{Case, Shrinker};
use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use proptest::prelude::Rng as RngCore;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

pub const SHARDS: usize = 8;
const STACK: usize = 512 << 20;
/// How long to look for a smaller case.
const SHRINK_SECONDS: u64 = 50;
/// A single case that normally takes milliseconds is given this much processor time when run on its own.
const CASE_CPU_SECONDS: u64 = 60;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
	Quick,
	Thorough,
}

impl Tier {
	pub fn name(self) -> &'static str {
		match self {
			Self::Quick => "quick",
			Self::Thorough => "thorough",
		}
	}
}

/// Source of all random choices: proptest's generator.
pub struct Tape<'a> {
	rng: &'a mut TestRng,
}

impl Tape<'_> {
	pub fn u32(&mut self) -> u32 {
		self.rng.next_u32()
	}
	pub fn u64(&mut self) -> u64 {
		self.rng.next_u64()
	}
	/// 0..n
	pub fn below(&mut self, n: usize) -> usize {
		debug_assert!(n > 0);
		((u64::from(self.rng.next_u32()) * n as u64) >> 32) as usize
	}
	/// a..=b
	pub fn range(&mut self, a: usize, b: usize) -> usize {
		a + self.below(b - a + 1)
	}
	pub fn chance(&mut self, num: usize, den: usize) -> bool {
		self.below(den) < num
	}
	pub fn pick<'t, T>(&mut self, items: &'t [T]) -> &'t T {
		&items[self.below(items.len())]
	}
	/// A size: mostly small, sometimes up to `max`.
	pub fn size(&mut self, max: usize) -> usize {
		let m = match self.below(4) {
			0 => max.min(2),
			1 => (max / 4).max(1),
			2 => (max / 2).max(1),
			_ => max,
		};
		self.range(0, m)
	}
	pub fn weighted(&mut self, weights: &[usize]) -> usize {
		let total: usize = weights.iter().sum();
		let mut x = self.below(total);
		for (i, &w) in weights.iter().enumerate() {
			if x < w {
				return i;
			}
			x -= w;
		}
		unreachable!()
	}
}

#[derive(Default)]
pub struct Obs {
	pub labels: BTreeMap<String, u64>,
	pub notes: Vec<String>,
}

impl Obs {
	pub fn label(&mut self, l: &str) {
		if let Some(n) = self.labels.get_mut(l) {
			*n += 1;
		} else {
			self.labels.insert(l.to_owned(), 1);
		}
	}
	pub fn count(&mut self, l: &str, n: u64) {
		*self.labels.entry(l.to_owned()).or_default() += n;
	}
}

pub enum Outcome {
	/// The property holds for the case; the flag says whether the case counts as non-trivial.
	Pass(bool),
	/// Outside of what the check explores (too costly, does not meet a precondition).
	Discard,
	Fail(String),
}

pub type Check = fn(&Case, &mut Obs) -> Outcome;

pub enum Make {
	/// one case per index
	Enumerate(fn(u64) -> Case),
	Random(fn(&mut Tape<'_>) -> Case),
}

pub struct Family {
	pub name: &'static str,
	pub count: u64,
	pub make: Make,
}

impl Family {
	pub fn random(name: &'static str, count: u64, make: fn(&mut Tape<'_>) -> Case) -> Self {
		Self { name, count, make: Make::Random(make) }
	}
	pub fn enumerate(name: &'static str, count: u64, make: fn(u64) -> Case) -> Self {
		Self { name, count, make: Make::Enumerate(make) }
	}
}

pub struct Property {
	pub id: &'static str,
	pub rule: &'static str,
	pub assumptions: &'static [&'static str],
	pub families: fn(Tier) -> Vec<Family>,
	pub check: Check,
	pub nums_are_list: bool,
}

// --- running a single case -----------------------------------------------------------------------------------------

thread_local! {
	static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn quiet_panics() {
	std::panic::set_hook(Box::new(|info| {
		let text = info.to_string();
		PANIC.with(|p| *p.borrow_mut() = text);
	}));
}

pub fn last_panic() -> String {
	format!("panicked: {}", PANIC.with(|p| p.borrow().replace('\n', " ")))
}

pub fn run_case(check: Check, case: &Case, obs: &mut Obs) -> Outcome {
	match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(case, obs))) {
		Ok(outcome) => outcome,
		Err(_) => Outcome::Fail(last_panic()),
	}
}

// --- proptest glue -------------------------------------------------------------------------------------------------

struct CaseStrategy {
	make: fn(&mut Tape<'_>) -> Case,
	nums_are_list: bool,
}

impl std::fmt::Debug for CaseStrategy {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str("CaseStrategy")
	}
}

struct CaseTree {
	shrinker: Shrinker,
	/// whether the candidate was tried
	tried: std::cell::Cell<bool>,
}

impl Strategy for CaseStrategy {
	type Tree = CaseTree;
	type Value = Case;
	fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
		let case = (self.make)(&mut Tape { rng: runner.rng() });
		Ok(CaseTree { shrinker: Shrinker::new(case, self.nums_are_list), tried: std::cell::Cell::new(false) })
	}
}

impl ValueTree for CaseTree {
	type Value = Case;
	fn current(&self) -> Case {
		self.tried.set(true);
		self.shrinker.candidate.as_ref().unwrap_or(&self.shrinker.best).clone()
	}
	fn simplify(&mut self) -> bool {
		self.tried.set(false);
		self.shrinker.accepted()
	}
	fn complicate(&mut self) -> bool {
		if !self.tried.replace(false) {
			// shrinking was given up; back to the best so far
			self.shrinker.candidate = None;
			return false;
		}
		self.shrinker.rejected()
	}
}

// --- one shard -----------------------------------------------------------------------------------------------------

struct Current {
	file: std::fs::File,
	serial: u64,
}

impl Current {
	fn set(&mut self, case: &Case) {
		self.serial += 1;
		let text = case.to_text();
		let mut buf = Vec::with_capacity(16 + text.len());
		buf.extend_from_slice(&self.serial.to_le_bytes());
		buf.extend_from_slice(&(text.len() as u64).to_le_bytes());
		buf.extend_from_slice(text.as_bytes());
		let _ = self.file.write_all_at(&buf, 0);
	}
	fn read(path: &Path) -> Option<(u64, Case)> {
		let data = std::fs::read(path).ok()?;
		let serial = u64::from_le_bytes(data.get(..8)?.try_into().ok()?);
		let len = u64::from_le_bytes(data.get(8..16)?.try_into().ok()?) as usize;
		let text = std::str::from_utf8(data.get(16..16 + len)?).ok()?;
		Some((serial, Case::from_text(text)))
	}
	fn serial(path: &Path) -> u64 {
		let mut b = [0; 8];
		match std::fs::File::open(path).and_then(|f| f.read_exact_at(&mut b, 0)) {
			Ok(()) => u64::from_le_bytes(b),
			Err(_) => 0,
		}
	}
}

#[derive(Default)]
struct ShardResult {
	evaluations: u64,
	discarded: u64,
	nontrivial: HashSet<u64>,
	samples: Vec<String>,
	families: BTreeMap<String, (u64, u64)>,
	obs: Obs,
	failure: Option<Failure>,
}

struct Failure {
	shard: usize,
	/// as found
	first: Case,
	/// after shrinking
	case: Case,
	message: String,
}

fn seed_bytes(seed: u64, id: &str, family: &str, shard: usize) -> [u8; 32] {
	// FNV over everything that identifies the stream, expanded with splitmix
	let mut h = 0xcbf2_9ce4_8422_2325u64;
	for b in format!("{seed}/{id}/{family}/{shard}").bytes() {
		h = (h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3);
	}
	let mut out = [0; 32];
	for chunk in out.chunks_mut(8) {
		h = h.wrapping_add(0x9e37_79b9_7f4a_7c15);
		let mut z = h;
		z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
		chunk.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
	}
	out
}

fn run_shard(p: &Property, tier: Tier, seed: u64, shard: usize, scratch: &Path, stop: &AtomicBool) -> ShardResult {
	let mut current = Current { file: std::fs::File::create(scratch.join(format!("cur.{shard}"))).unwrap(), serial: 0 };
	let result = RefCell::new(ShardResult::default());
	let timing = std::env::var_os("VH_TIMES").is_some();
	// for measurements: a fraction of the random cases
	let scale: u64 = std::env::var("VH_DIVIDE").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
	for mut family in (p.families)(tier) {
		if matches!(family.make, Make::Random(_)) {
			family.count /= scale;
		}
		let share = family.count / SHARDS as u64 + u64::from((family.count % SHARDS as u64) > shard as u64);
		if share == 0 || stop.load(Ordering::Relaxed) {
			continue;
		}
		let sampled = RefCell::new(0u64);
		let first = RefCell::new(None);
		let began = Instant::now();
		let shrinking = RefCell::new(false);
		let cur = RefCell::new(&mut current);
		let eval = |case: &Case| -> Result<(), TestCaseError> {
			if stop.load(Ordering::Relaxed) && !*shrinking.borrow() {
				return Ok(());
			}
			cur.borrow_mut().set(case);
			let mut r = result.borrow_mut();
			if *shrinking.borrow() {
				let mut ignored = Obs::default();
				return match run_case(p.check, case, &mut ignored) {
					Outcome::Fail(m) => Err(TestCaseError::fail(m)),
					_ => Ok(()),
				};
			}
			r.evaluations += 1;
			r.families.entry(family.name.to_owned()).or_default().0 += 1;
			let case_began = timing.then(Instant::now);
			let outcome = run_case(p.check, case, &mut r.obs);
			if let Some(spent) = case_began.map(|b| b.elapsed().as_secs_f64()).filter(|s| *s > 0.25) {
				eprintln!("  slow, {spent:.2} s: {}", case.sample());
			}
			match outcome {
				Outcome::Pass(nontrivial) => {
					if nontrivial && r.nontrivial.insert(case.hash64()) {
						r.families.get_mut(family.name).unwrap().1 += 1;
						let mut n = sampled.borrow_mut();
						*n += 1;
						if shard == 0 && (*n <= 2 || (n.is_power_of_two() && *n >= 64)) && r.samples.len() < 60 {
							let s = format!("[{}] {}", family.name, case.sample());
							r.samples.push(s);
						}
					}
					Ok(())
				}
				Outcome::Discard => {
					r.discarded += 1;
					Ok(())
				}
				Outcome::Fail(m) => {
					*shrinking.borrow_mut() = true;
					*first.borrow_mut() = Some(case.clone());
					stop.store(true, Ordering::Relaxed);
					Err(TestCaseError::fail(m))
				}
			}
		};
		let failure = match family.make {
			Make::Random(make) => {
				let config = Config {
					cases: u32::try_from(share).unwrap(),
					failure_persistence: None,
					max_shrink_iters: 6000,
					max_shrink_time: SHRINK_SECONDS as u32 * 1000,
					max_local_rejects: u32::MAX,
					max_global_rejects: u32::MAX,
					..Config::default()
				};
				let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, p.id, family.name, shard));
				let mut runner = TestRunner::new_with_rng(config, rng);
				match runner.run(&CaseStrategy { make, nums_are_list: p.nums_are_list }, |case| eval(&case)) {
					Ok(()) => None,
					Err(TestError::Fail(reason, case)) => Some((case, reason.to_string())),
					Err(TestError::Abort(reason)) => panic!("proptest aborted: {reason}"),
				}
			}
			Make::Enumerate(make) => {
				let mut failure = None;
				for i in 0..share {
					let case = make(i * SHARDS as u64 + shard as u64);
					if let Err(e) = eval(&case) {
						failure = Some(shrink(case, e.to_string(), p.nums_are_list, 6000, &mut |c| match eval(c) {
							Ok(()) => None,
							Err(e) => Some(e.to_string()),
						}));
						break;
					}
					if stop.load(Ordering::Relaxed) {
						break;
					}
				}
				failure
			}
		};
		if timing {
			let spent = began.elapsed().as_secs_f64();
			eprintln!("  {}: {share} cases, {spent:.2} s, {:.3} ms each", family.name, spent * 1e3 / share as f64);
		}
		if let Some((case, message)) = failure {
			let first = first.take().unwrap_or_else(|| case.clone());
			result.borrow_mut().failure = Some(Failure { shard, first, case, message });
			break;
		}
	}
	result.into_inner()
}

pub fn shrink(
	case: Case,
	message: String,
	nums_are_list: bool,
	budget: usize,
	fails: &mut dyn FnMut(&Case) -> Option<String>,
) -> (Case, String) {
	let mut s = Shrinker::new(case, nums_are_list);
	let mut message = message;
	let mut more = s.accepted();
	let mut left = budget;
	let deadline = Instant::now() + Duration::from_secs(SHRINK_SECONDS);
	while more && left > 0 && Instant::now() < deadline {
		left -= 1;
		match fails(s.candidate.as_ref().unwrap()) {
			Some(m) => {
				message = m;
				more = s.accepted();
			}
			None => more = s.rejected(),
		}
	}
	(s.best, message)
}

// --- worker --------------------------------------------------------------------------------------------------------

/// Runs all shards; writes evidence; returns the exit code.
pub fn worker(p: &'static Property, tier: Tier, seed: u64, scratch: &Path, verif: &Path) -> i32 {
	quiet_panics();
	let start = Instant::now();
	let stop = AtomicBool::new(false);
	let mut results: Vec<ShardResult> = std::thread::scope(|scope| {
		let handles: Vec<_> = (0..SHARDS)
			.map(|shard| {
				let stop = &stop;
				std::thread::Builder::new()
					.stack_size(STACK)
					.spawn_scoped(scope, move || run_shard(p, tier, seed, shard, scratch, stop))
					.unwrap()
			})
			.collect();
		handles.into_iter().map(|h| h.join().expect("shard")).collect()
	});
	let mut total = ShardResult::default();
	let mut failures = Vec::new();
	for r in &mut results {
		total.evaluations += r.evaluations;
		total.discarded += r.discarded;
		total.nontrivial.extend(r.nontrivial.iter());
		total.samples.append(&mut r.samples);
		for (k, v) in &r.obs.labels {
			*total.obs.labels.entry(k.clone()).or_default() += v;
		}
		total.obs.notes.append(&mut r.obs.notes);
		for (k, v) in &r.families {
			let e = total.families.entry(k.clone()).or_default();
			e.0 += v.0;
			e.1 += v.1;
		}
		failures.extend(r.failure.take());
	}
	total.obs.notes.sort();
	total.obs.notes.dedup();
	let enumerated: Vec<String> = (p.families)(tier)
		.iter()
		.filter(|f| matches!(f.make, Make::Enumerate(_)))
		.map(|f| f.name.to_owned())
		.collect();
	write_evidence(p, tier, seed, verif, &total, &enumerated, failures.len() as u64, start.elapsed().as_secs_f64(), None);
	println!(
		"{}: {} cases, {} discarded, {} distinct non-trivial, {:.1} s",
		p.id,
		total.evaluations,
		total.discarded,
		total.nontrivial.len(),
		start.elapsed().as_secs_f64()
	);
	for note in &total.obs.notes {
		println!("{note}");
	}
	if let Some(f) = failures.into_iter().next() {
		let _ = std::fs::write(scratch.join("reporting"), "");
		report_found(p, tier, seed, scratch, verif, f);
		return 1;
	}
	if total.nontrivial.is_empty() {
		eprintln!("{}: no non-trivial case was generated", p.id);
		return 2;
	}
	0
}

/// Make sure that the replay file shows the failure in a process of its own.
fn report_found(p: &Property, tier: Tier, seed: u64, scratch: &Path, verif: &Path, f: Failure) {
	let alone = |c: &Case| run_single(p, c, scratch, CASE_CPU_SECONDS, CASE_MEMORY);
	if alone(&f.case) != Single::Ok {
		return report(p, &f.case, &f.message, verif, None);
	}
	if let Single::Fails(message) = alone(&f.first) {
		// shrinking was misled by what had happened before
		let deadline = Instant::now() + Duration::from_secs(60);
		let (small, message) = shrink(f.first, message, p.nums_are_list, 300, &mut |c| {
			if Instant::now() > deadline {
				return None;
			}
			match alone(c) {
				Single::Fails(m) => Some(m),
				_ => None,
			}
		});
		return report(p, &small, &message, verif, None);
	}
	let message = format!("{} (only after the cases before it)", f.message);
	report(p, &f.case, &message, verif, Some((tier, seed, f.shard)));
}

fn report(p: &Property, case: &Case, message: &str, verif: &Path, after: Option<(Tier, u64, usize)>) {
	let cut: String = message.chars().take(2000).collect();
	let message = if cut.len() < message.len() { &*format!("{cut}…") } else { message };
	let dir = verif.join("replays");
	std::fs::create_dir_all(&dir).unwrap();
	let path = dir.join(format!("{}-{:016x}.replay", p.id, case.hash64()));
	let after = after.map_or(String::new(), |(tier, seed, shard)| {
		format!("# run after all cases before it in this shard\nafter {} {seed} {shard}\n", tier.name())
	});
	let text = format!("# {}\nproperty {}\n{after}{}", message.replace('\n', " "), p.id, case.to_text());
	std::fs::write(&path, text).unwrap();
	println!("{}: {}", p.id, message);
	println!("case: {}", case.sample());
	println!("VIOLATION property={} replay={}", p.id, path.display());
}

fn json(s: &str) -> String {
	let mut out = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => out.push_str("\\\""),
			'\\' => out.push_str("\\\\"),
			c if (c as u32) < 0x20 => write!(out, "\\u{:04x}", c as u32).unwrap(),
			c => out.push(c),
		}
	}
	out.push('"');
	out
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
	p: &Property,
	tier: Tier,
	seed: u64,
	verif: &Path,
	total: &ShardResult,
	enumerated: &[String],
	violations: u64,
	wall: f64,
	extra: Option<&str>,
) {
	let mut o = String::from("{\n");
	let tier = if tier == Tier::Quick { "quick" } else { "thorough" };
	writeln!(o, " \"property\": {},\n \"tier\": \"{tier}\",\n \"seed\": {seed},\n \"level\": \"exploration\",", json(p.id)).unwrap();
	writeln!(o, " \"coverage\": {{").unwrap();
	writeln!(o, "  \"evaluations\": {},", total.evaluations).unwrap();
	writeln!(o, "  \"distinct_nontrivial\": {},", total.nontrivial.len()).unwrap();
	writeln!(o, "  \"discarded\": {},", total.discarded).unwrap();
	writeln!(o, "  \"rule\": {},", json(p.rule)).unwrap();
	let fam: Vec<String> = total
		.families
		.iter()
		.map(|(k, v)| format!("{}: {{\"cases\": {}, \"distinct_nontrivial\": {}}}", json(k), v.0, v.1))
		.collect();
	writeln!(o, "  \"families\": {{{}}},", fam.join(", ")).unwrap();
	let en: Vec<String> = enumerated.iter().map(|e| json(e)).collect();
	writeln!(o, "  \"families_enumerated_completely\": [{}],", en.join(", ")).unwrap();
	let labels: Vec<String> = total.obs.labels.iter().map(|(k, v)| format!("{}: {v}", json(k))).collect();
	writeln!(o, "  \"distribution\": {{{}}},", labels.join(", ")).unwrap();
	if let Some(e) = extra {
		writeln!(o, "  \"note\": {},", json(e)).unwrap();
	}
	let samples: Vec<String> = total.samples.iter().map(|s| format!("   {}", json(s))).collect();
	writeln!(o, "  \"samples\": [\n{}\n  ]", samples.join(",\n")).unwrap();
	writeln!(o, " }},").unwrap();
	let a: Vec<String> = p.assumptions.iter().map(|a| json(a)).collect();
	writeln!(o, " \"assumptions\": [{}],", a.join(", ")).unwrap();
	writeln!(o, " \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}").unwrap();
	let dir = verif.join("evidence");
	std::fs::create_dir_all(&dir).unwrap();
	let path = dir.join(format!("{}.json", p.id));
	let tmp = dir.join(format!(".{}.json.tmp", p.id));
	std::fs::write(&tmp, o).unwrap();
	std::fs::rename(&tmp, &path).unwrap();
}

// --- parent --------------------------------------------------------------------------------------------------------

fn limit(cmd: &mut std::process::Command, cpu: Option<u64>, memory: u64) {
	// SAFETY: only async-signal-safe calls between fork and exec
	unsafe {
		cmd.pre_exec(move || {
			if let Some(s) = cpu {
				let l = libc::rlimit { rlim_cur: s, rlim_max: s + 5 };
				libc::setrlimit(libc::RLIMIT_CPU, &l);
			}
			let l = libc::rlimit { rlim_cur: memory, rlim_max: memory };
			libc::setrlimit(libc::RLIMIT_AS, &l);
			let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
			libc::setrlimit(libc::RLIMIT_CORE, &l);
			libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
			Ok(())
		});
	}
}

#[derive(Debug, PartialEq, Eq)]
pub enum Single {
	Ok,
	Fails(String),
	Crashes(i32),
	OutOfTime,
	Broken(String),
}

/// Run one case in a process of its own.
pub fn run_single(p: &Property, case: &Case, scratch: &Path, cpu: u64, memory: u64) -> Single {
	let file = scratch.join(format!("single.{:?}", std::thread::current().id()).replace(['(', ')'], ""));
	std::fs::write(&file, format!("property {}\n{}", p.id, case.to_text())).unwrap();
	let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
	cmd.arg("replay").arg(&file).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null());
	limit(&mut cmd, Some(cpu), memory);
	let out = match cmd.output() {
		Ok(o) => o,
		Err(e) => return Single::Broken(e.to_string()),
	};
	match (out.status.code(), out.status.signal()) {
		(Some(0), _) => Single::Ok,
		(Some(1), _) => Single::Fails(String::from_utf8_lossy(&out.stdout).trim().replace('\n', " ")),
		(_, Some(s)) if s == libc::SIGXCPU => Single::OutOfTime,
		(_, Some(s)) if s == libc::SIGKILL => Single::Broken("killed".to_owned()),
		(_, Some(s)) => Single::Crashes(s),
		(c, _) => Single::Broken(format!("exit {c:?}")),
	}
}

const CASE_MEMORY: u64 = 3 << 30;

pub fn parent(p: &'static Property, tier: Tier, seed: u64, verif: &Path) -> i32 {
	let start = Instant::now();
	let scratch = PathBuf::from(format!("/tmp/vh.{}", std::process::id()));
	std::fs::create_dir_all(&scratch).unwrap();
	let code = parent_in(p, tier, seed, verif, &scratch, start);
	known_findings(p, verif);
	let _ = std::fs::remove_dir_all(&scratch);
	code
}

/// the processor time that a process of ours has taken so far
fn processor_seconds(pid: u32) -> f64 {
	let stat = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
	// behind the name, which is in parentheses, the state is the first field and the times are the 12th and 13th
	let ticks = |n: usize| -> f64 {
		stat.rsplit(')').next().and_then(|s| s.split_whitespace().nth(n)).and_then(|s| s.parse().ok()).unwrap_or(0.0)
	};
	(ticks(11) + ticks(12)) / 100.0
}

fn parent_in(p: &'static Property, tier: Tier, seed: u64, verif: &Path, scratch: &Path, start: Instant) -> i32 {
	let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
	cmd.arg("worker")
		.arg(p.id)
		.arg(tier.name())
		.arg(seed.to_string())
		.arg(scratch)
		.arg(verif);
	limit(&mut cmd, None, 20 << 30);
	let mut child = cmd.spawn().unwrap();
	let mut seen = [(0u64, Instant::now()); SHARDS];
	let reporting = scratch.join("reporting");
	let path = |s: usize| scratch.join(format!("cur.{s}"));
	// processor time of the worker when something moved last
	let mut spent = 0.0;
	let stuck = loop {
		std::thread::sleep(Duration::from_millis(100));
		if let Some(status) = child.try_wait().unwrap() {
			if let Some(code) = status.code() {
				if code != 101 {
					return code;
				}
			}
			break None;
		}
		let mut stuck = None;
		for s in 0..SHARDS {
			let serial = Current::serial(&path(s));
			if serial != seen[s].0 {
				seen[s] = (serial, Instant::now());
				spent = processor_seconds(child.id());
			} else if serial > 0 && seen[s].1.elapsed() > Duration::from_secs(90) {
				stuck = Some(s);
			}
		}
		// a shard that has finished also stops counting; only worry while nobody moves, and not because the machine
		// has no time for the worker
		let idle = seen.iter().map(|x| x.1.elapsed()).min().unwrap();
		let worked = stuck.is_some() && processor_seconds(child.id()) - spent > 45.0;
		if stuck.is_some()
			&& !reporting.exists()
			&& (worked && idle > Duration::from_secs(60) || idle > Duration::from_secs(300))
		{
			let _ = child.kill();
			let _ = child.wait();
			break stuck;
		}
	};
	eprintln!("{}: the worker {}", p.id, if stuck.is_some() { "got stuck" } else { "died" });
	let cases: Vec<Case> = (0..SHARDS).filter_map(|s| Current::read(&path(s))).map(|c| c.1).collect();
	let verdicts: Vec<Single> = std::thread::scope(|scope| {
		let handles: Vec<_> = cases
			.iter()
			.map(|c| scope.spawn(move || run_single(p, c, scratch, CASE_CPU_SECONDS, CASE_MEMORY)))
			.collect();
		handles.into_iter().map(|h| h.join().unwrap()).collect()
	});
	for (case, verdict) in cases.iter().zip(&verdicts) {
		let message = match verdict {
			Single::Ok | Single::Broken(_) => continue,
			Single::Fails(m) => m.clone(),
			Single::Crashes(s) => format!("the process died from signal {s} (stack overflow, abort or invalid memory access)"),
			Single::OutOfTime => {
				format!("not finished after {CASE_CPU_SECONDS} s of processor time, on a case predicted to take well under a second")
			}
		};
		let hang = *verdict == Single::OutOfTime;
		let (cpu, budget) = if hang { (10, 16) } else { (20, 300) };
		let deadline = (Instant::now() + Duration::from_secs(100)).min(start + Duration::from_secs(450));
		let (small, _) = shrink(case.clone(), message.clone(), p.nums_are_list, budget, &mut |c| {
			if Instant::now() > deadline {
				return None;
			}
			match run_single(p, c, scratch, cpu, CASE_MEMORY) {
				Single::Crashes(_) if !hang => Some(String::new()),
				Single::OutOfTime if hang => Some(String::new()),
				_ => None,
			}
		});
		let small = if hang && run_single(p, &small, scratch, CASE_CPU_SECONDS, CASE_MEMORY) != Single::OutOfTime {
			case.clone()
		} else {
			small
		};
		let total = ShardResult {
			evaluations: seen.iter().map(|s| s.0).sum(),
			samples: vec![small.sample()],
			..ShardResult::default()
		};
		write_evidence(p, tier, seed, verif, &total, &[], 1, start.elapsed().as_secs_f64(), Some("the worker did not survive; counts are of cases started"));
		report(p, &small, &message, verif, None);
		return 1;
	}
	eprintln!("{}: no single case reproduces it: {verdicts:?}", p.id);
	2
}

/// The inputs in the committed list of findings, which the search leaves out because of their size: say which of them
/// still fail. Never changes the verdict.
fn known_findings(p: &Property, verif: &Path) {
	let list = std::fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
	let handles: Vec<_> = list
		.lines()
		.filter_map(|l| {
			// finding: property=ID input=TEMPLATE | WHAT
			let rest = l.strip_prefix("finding: property=")?.strip_prefix(p.id)?.strip_prefix(" input=")?;
			let (input, what) = rest.split_once(" | ")?;
			Some((input.to_owned(), what.to_owned()))
		})
		.map(|(input, what)| {
			std::thread::spawn(move || {
				let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
				cmd.arg("once").arg(&input).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
				limit(&mut cmd, Some(10), CASE_MEMORY);
				let ok = cmd.status().map_or(true, |s| s.success());
				(input, what, ok)
			})
		})
		.collect();
	for h in handles {
		let (input, what, ok) = h.join().unwrap();
		if ok {
			println!("note: a listed finding does not fail any more: {input}");
		} else {
			println!("KNOWN-FINDING: property={} {what}: {input}", p.id);
		}
	}
}

/// `{ke }*3;broda` is `ke ke ke broda`
pub fn expand(template: &str) -> String {
	let mut out = String::new();
	let mut rest = template;
	while let Some((before, after)) = rest.split_once('{') {
		out.push_str(before);
		let (unit, after) = after.split_once("}*").expect("repetition");
		let (n, after) = after.split_once(';').expect("number of repetitions");
		out.push_str(&unit.repeat(n.parse().expect("number of repetitions")));
		rest = after;
	}
	out + rest
}

/// Run a stored case: 0 holds, 1 fails, 2 cannot be run.
pub fn replay(props: &[&'static Property], file: &Path) -> i32 {
	quiet_panics();
	let text = std::fs::read_to_string(file).expect("replay file");
	let id = text.lines().find_map(|l| l.strip_prefix("property ")).expect("property line");
	let p: &'static Property = props.iter().find(|p| p.id == id).copied().expect("unknown property");
	if let Some(after) = text.lines().find_map(|l| l.strip_prefix("after ")) {
		let words: Vec<&str> = after.split(' ').collect();
		let tier = if words[0] == "quick" { Tier::Quick } else { Tier::Thorough };
		let (seed, shard) = (words[1].parse().expect("seed"), words[2].parse().expect("shard"));
		let scratch = PathBuf::from(format!("/tmp/vh.{}", std::process::id()));
		std::fs::create_dir_all(&scratch).unwrap();
		let inside = scratch.clone();
		let found = std::thread::Builder::new()
			.stack_size(STACK)
			.spawn(move || run_shard(p, tier, seed, shard, &inside, &AtomicBool::new(false)).failure)
			.unwrap()
			.join();
		let _ = std::fs::remove_dir_all(&scratch);
		return match found {
			Ok(None) => 0,
			Ok(Some(f)) => {
				println!("{}\ncase: {}", f.message, f.case.sample());
				1
			}
			Err(_) => 2,
		};
	}
	let case = Case::from_text(&text);
	let handle = std::thread::Builder::new()
		.stack_size(STACK)
		.spawn(move || match run_case(p.check, &case, &mut Obs::default()) {
			Outcome::Pass(_) => 0,
			Outcome::Discard => {
				println!("not a case of this property any more");
				0
			}
			Outcome::Fail(m) => {
				println!("{m}");
				1
			}
		})
		.unwrap();
	handle.join().unwrap_or(2)
}

/// A generator for what is too large to be stored in a case.
pub fn seeded(seed: u64) -> TestRng {
	TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, "", "", 0))
}

pub fn new_tape(rng: &mut TestRng) -> Tape<'_> {
	Tape { rng }
}
