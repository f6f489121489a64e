//! C22 (no hidden state), C23 (no crash, always an end), C24 (spans).

use super::decomp::{big_case, corpus_case};
use super::lexing::quote_text;
use super::tree::{sentence, spaced};
use super::{MORPH_LIMIT, PARSE_LIMIT};
use crate::case::{Case, Tok};
use crate::cst::{self, Line};
use crate::engine::{new_tape, seeded, Family, Obs, Outcome, Property, Tape, Tier};
use crate::gen;
use crate::lexmodel::{self, variant_named, Range};
use crate::morph;
use crate::sut::{self, Parse};
use sneturfahi::{Arena, Span};
use std::fmt::Write as _;

pub const PROPS: &[Property] = &[C22, C23, C24];

fn fail(s: impl Into<String>) -> Outcome {
	Outcome::Fail(s.into())
}

const COST: &str = "inputs whose reference predicts too high a cost are skipped (counted as discarded)";

// --- C22 -----------------------------------------------------------------------------------------------------------

const C22: Property = Property {
	id: "C22",
	rule: "histories of decomposing, lexing and parsing several texts in one process: repeated, interleaved, in one arena, with trees read again after later parses, on several threads at once, inside of larger buffers, one after the other in the same memory, with logging on; every result must be the one of the reference for that text alone; non-trivial: at least two different texts with at least three tokens between them",
	assumptions: &[COST],
	families: |tier| {
		let m = if tier == Tier::Quick { 1 } else { 30 };
		vec![
			Family::random("histories", 5_000 * m, |t| history(t, "history")),
			Family::random("histories with logging", 700 * m, |t| history(t, "logged")),
			Family::random("histories on threads", 1_500 * m, |t| history(t, "threads")),
			Family::random("texts in larger buffers", 5_000 * m, |t| {
				let n = t.range(1, 3);
				let mut c = Case::new("embedded");
				for _ in 0..n {
					c.strs.push(some_text(t));
				}
				c.strs.push(gen::junk(t));
				c.strs.push(some_text(t));
				c
			}),
			Family::random("very long histories", 16 * m, |t| Case::new("marathon").num(i64::from(t.u32() >> 2)).num(i64::from(t.u32() % 3000) + 500)),
			Family::random("one arena for very many texts", 8 * m, |t| Case::new("big arena").num(i64::from(t.u32() >> 2)).num(t.range(1, 40) as i64)),
			Family::random("similar texts in one buffer", 4_000 * m, |t| {
				let mut c = Case::new("reuse");
				let s = if t.chance(1, 2) { some_text(t) } else { gen::text(t, 2, true) };
				for _ in 0..t.range(1, 3) {
					let twin = twin(t, &s);
					c.strs.push(twin);
				}
				c.strs.push(s);
				for _ in 0..t.range(2, 12) {
					c.nums.push(i64::from(t.u32() >> 4));
				}
				c
			}),
		]
	},
	check: c22,
	nums_are_list: true,
};

fn some_text(t: &mut Tape<'_>) -> String {
	match t.below(6) {
		0 => gen::text(t, 4, true),
		1 => quote_text(t).strs[0].clone(),
		2 => corpus_case(t).strs[0].clone(),
		_ => sentence(t),
	}
}

/// Thousands of different texts one after the other.
fn marathon(nums: &[i64]) -> Result<usize, String> {
	let (&[seed, count] | &[seed, count, ..]) = nums else { return Ok(0) };
	let mut rng = seeded(seed as u64);
	let mut t = new_tape(&mut rng);
	let arena = Arena::new();
	let mut done = 0;
	for i in 0..count {
		let wrong = |e: String| format!("text number {i}: {e}");
		if i % 16 == 0 {
			let s = sentence(&mut t);
			let Some(want) = expected(&s) else { continue };
			if let Some(toks) = check_lexed(&s, &want).map_err(wrong)? {
				check_tree(&s, &want, &sut::parse_in(&toks, &arena)).map_err(wrong)?;
			}
		} else {
			let s = gen::text(&mut t, 8, true);
			let Some(words) = morph::decompose(&s, MORPH_LIMIT / 20) else { continue };
			let Some(lexed) = lexmodel::lex(&s, MORPH_LIMIT / 20) else { continue };
			let want = Everything { words: words.words, lexed, tree: None };
			check_words(&s, &want).map_err(wrong)?;
			check_lexed(&s, &want).map_err(wrong)?;
		}
		done += 1;
	}
	Ok(done)
}

/// A few texts again and again in one arena until it is of the given size.
fn big_arena(nums: &[i64]) -> Result<usize, String> {
	let (&[seed, megabytes] | &[seed, megabytes, ..]) = nums else { return Ok(0) };
	let mut rng = seeded(seed as u64);
	let mut t = new_tape(&mut rng);
	let arena = Arena::new();
	let mut texts = Vec::new();
	while texts.len() < 8 {
		let s = sentence(&mut t);
		let Some(want) = expected(&s) else { continue };
		if let Some(toks) = check_lexed(&s, &want)? {
			texts.push((s, want, toks));
		}
	}
	let mut kept = Vec::new();
	let mut done = 0;
	while arena.allocated_bytes() < (megabytes.clamp(1, 64) as usize) << 20 && done < 60_000 {
		let (text, want, toks) = &texts[t.below(8)];
		let wrong = |e: String| format!("parse number {done}, in an arena of {} bytes: {e}", arena.allocated_bytes());
		if done % 32 == 0 {
			check_tree(text, want, &sut::parse_in(toks, &arena)).map_err(wrong)?;
		} else {
			let got = sneturfahi::Cst::parse(toks, &arena);
			if got.is_ok() != matches!(want.tree, Some(Ok(_))) {
				return Err(wrong(format!("{} {text:?}", if got.is_ok() { "accepts" } else { "rejects" })));
			}
			if let (Ok(c), 1) = (got, done % 512) {
				kept.push((text, want, c));
			}
		}
		done += 1;
	}
	for (text, want, c) in kept.iter().take(64) {
		let (lines, broken) = sut::lines(c.root());
		check_tree(text, want, &Parse::Tree(lines, broken)).map_err(|e| format!("read at the end: {e}"))?;
	}
	Ok(done)
}

/// A text of the same length, with words at the same places.
fn twin(t: &mut Tape<'_>, s: &str) -> String {
	let dense = *t.pick(&[1, 3, 8]);
	s.chars()
		.map(|c| {
			if !t.chance(1, dense) {
				c
			} else if gen::VOWELS.iter().any(|v| v.starts_with(c)) {
				t.pick(gen::VOWELS).chars().next().unwrap()
			} else if gen::CONSONANTS.iter().any(|v| v.starts_with(c)) {
				t.pick(gen::CONSONANTS).chars().next().unwrap()
			} else {
				c
			}
		})
		.collect()
}

/// The texts one after the other in the same memory.
fn reuse(texts: &[String], nums: &[i64], want: &[Everything]) -> Result<(), String> {
	let mut buffer = String::with_capacity(texts.iter().map(String::len).max().unwrap_or(0));
	let mut toks = Vec::with_capacity(want.iter().map(|w| w.lexed.tokens.len()).max().unwrap_or(0));
	for &n in nums {
		let n = n as usize;
		let i = n / 16 % texts.len();
		buffer.clear();
		buffer.push_str(&texts[i]);
		if n % 4 == 0 {
			check_words(&buffer, &want[i])?;
		}
		// single words
		for t in &want[i].lexed.tokens {
			if t.span.0 == t.span.1 || matches!(t.selmaho, "AnyText" | "ZoiDelimiter") {
				continue;
			}
			let got = sneturfahi::lex::Selmaho::classify(&buffer[t.span.0..t.span.1]);
			if format!("{:?}", got.0) != t.selmaho || got.1 != t.exp {
				return Err(format!("{:?} is {got:?}, alone {}", &buffer[t.span.0..t.span.1], t.selmaho));
			}
			if n % 8 < 4 {
				// only the first one, so that the next text's is the next word
				break;
			}
		}
		if let Some(found) = check_lexed(&buffer, &want[i])? {
			toks.clear();
			toks.extend(found);
			check_tree(&buffer, &want[i], &sut::parse(&toks))?;
		}
	}
	Ok(())
}

fn history(t: &mut Tape<'_>, kind: &str) -> Case {
	let n = t.range(1, 5);
	let mut c = Case::new(kind);
	for _ in 0..n {
		let s = some_text(t);
		c.strs.push(s);
	}
	for _ in 0..t.range(2, 14) {
		c.nums.push(i64::from(t.u32() >> 4));
	}
	c
}

/// What there is to know about a text.
#[derive(Debug, PartialEq, Clone)]
struct Everything {
	words: Vec<Range>,
	lexed: lexmodel::Lexed,
	tree: Option<Result<Vec<Line>, usize>>,
}

fn expected(text: &str) -> Option<Everything> {
	let words = morph::decompose(text, MORPH_LIMIT)?.words;
	let lexed = lexmodel::lex(text, MORPH_LIMIT)?;
	let toks: Vec<Tok> = lexed.tokens.iter().map(tok).collect();
	let tree = if lexed.error.is_none() {
		let kinds: Vec<u16> = toks.iter().map(|t| t.sm).collect();
		let p = cst::parse(&kinds, PARSE_LIMIT / 10)?;
		Some(match p.result {
			Ok(_) => Ok(p.lines(&toks)),
			Err(at) => Err(at),
		})
	} else {
		None
	};
	Some(Everything { words, lexed: lexmodel::Lexed { cost: 0, ..lexed }, tree })
}

fn tok(t: &lexmodel::MTok) -> Tok {
	Tok { sm: variant_named(t.selmaho) as u16, exp: t.exp, start: t.span.0 as u32, end: t.span.1 as u32 }
}

fn check_words(text: &str, want: &Everything) -> Result<(), String> {
	let got = sut::decompose(text);
	if got == want.words {
		Ok(())
	} else {
		Err(format!("words {got:?}, alone {:?}, of {text:?}", want.words))
	}
}

fn check_lexed(text: &str, want: &Everything) -> Result<Option<Vec<sneturfahi::lex::Token>>, String> {
	let mut out = Vec::new();
	let mut error = None;
	for item in sneturfahi::lex(text) {
		match item {
			Ok(t) => out.push(t),
			Err(e) => error = Some(sut::error(e)),
		}
	}
	let want_toks: Vec<Tok> = want.lexed.tokens.iter().map(tok).collect();
	let got: Vec<Tok> = out.iter().map(|&t| sut::tok(t)).collect();
	if got != want_toks || error != want.lexed.error {
		return Err(format!("tokens {got:?} {error:?}, alone {want_toks:?} {:?}, of {text:?}", want.lexed.error));
	}
	Ok(error.is_none().then_some(out))
}

fn check_tree(text: &str, want: &Everything, got: &Parse) -> Result<(), String> {
	let same = match (want.tree.as_ref(), got) {
		(Some(Ok(w)), Parse::Tree(g, None)) => w == g,
		(Some(Err(w)), Parse::Rejected(g, _)) => w == g,
		_ => false,
	};
	if same {
		Ok(())
	} else {
		let got = match got {
			Parse::Tree(..) => "another tree".to_owned(),
			Parse::Rejected(at, _) => format!("rejected at {at}"),
			Parse::BadLocation(e) => e.clone(),
		};
		let want = match &want.tree {
			Some(Ok(_)) => "a tree".to_owned(),
			Some(Err(at)) => format!("rejected at {at}"),
			None => "a lexing error".to_owned(),
		};
		Err(format!("{got} instead of {want} of {text:?}"))
	}
}

fn check_all(text: &str, want: &Everything) -> Result<(), String> {
	check_words(text, want)?;
	if let Some(toks) = check_lexed(text, want)? {
		check_tree(text, want, &sut::parse(&toks))?;
	}
	Ok(())
}

fn steps(texts: &[String], nums: &[i64], want: &[Everything]) -> Result<(), String> {
	let arena = Arena::new();
	let lexed: Vec<Option<Vec<_>>> = texts
		.iter()
		.zip(want)
		.map(|(t, w)| check_lexed(t, w))
		.collect::<Result<_, _>>()?;
	let mut kept = Vec::new();
	let mut size = arena.allocated_bytes();
	for &n in nums {
		let n = n as usize;
		let i = n / 16 % texts.len();
		let j = n / 256 % texts.len();
		let (text, other) = (&texts[i], &texts[j]);
		match n % 8 {
			0 => check_words(text, &want[i])?,
			1 => {
				check_lexed(text, &want[i])?;
			}
			// in the shared arena
			2 | 3 => {
				if let Some(toks) = &lexed[i] {
					check_tree(text, &want[i], &sut::parse_in(toks, &arena))?;
				}
			}
			// in the shared arena, to be read again later
			4 | 5 => {
				if let Some(toks) = &lexed[i] {
					if let Ok(c) = sneturfahi::Cst::parse(toks, &arena) {
						kept.push((i, c));
					} else {
						check_tree(text, &want[i], &sut::parse_in(toks, &arena))?;
					}
				}
			}
			6 => {
				if let Some(toks) = &lexed[i] {
					check_tree(text, &want[i], &sut::parse(toks))?;
				}
			}
			// word by word in two texts at once
			_ => {
				let (mut a, mut b) = (sneturfahi::decompose(text), sneturfahi::decompose(other));
				let (mut wa, mut wb) = (Vec::new(), Vec::new());
				let (mut la, mut lb) = (sneturfahi::lex(text), sneturfahi::lex(other));
				let (mut ta, mut tb) = (Vec::new(), Vec::new());
				let mut bits = n as u64 / 4096 | 1;
				loop {
					bits = bits.rotate_left(7).wrapping_mul(0x9e37_79b9_7f4a_7c15);
					let mut more = false;
					if bits & 1 == 0 || bits & 6 == 0 {
						let x = a.next();
						more |= x.is_some();
						wa.extend(x.map(sut::range));
						let x = la.next();
						more |= x.is_some();
						ta.extend(x.and_then(Result::ok).map(sut::tok));
					} else {
						more = true;
					}
					if bits & 8 == 0 || bits & 6 == 0 {
						let x = b.next();
						more |= x.is_some();
						wb.extend(x.map(sut::range));
						let x = lb.next();
						more |= x.is_some();
						tb.extend(x.and_then(Result::ok).map(sut::tok));
					} else {
						more = true;
					}
					if !more {
						break;
					}
				}
				let toks = |w: &Everything| -> Vec<Tok> { w.lexed.tokens.iter().map(tok).collect() };
				if wa != want[i].words || wb != want[j].words || ta != toks(&want[i]) || tb != toks(&want[j]) {
					return Err(format!("taking turns with {other:?} gives something else for {text:?}"));
				}
			}
		}
		// read some older tree again
		if let Some((k, c)) = kept.get(n / 4096 % kept.len().max(1)) {
			let (lines, broken) = sut::lines(c.root());
			check_tree(&texts[*k], &want[*k], &Parse::Tree(lines, broken)).map_err(|e| format!("read later: {e}"))?;
		}
		let now = arena.allocated_bytes();
		if now < size {
			return Err(format!("the arena shrank from {size} to {now}"));
		}
		size = now;
	}
	for (k, c) in &kept {
		let (lines, broken) = sut::lines(c.root());
		check_tree(&texts[*k], &want[*k], &Parse::Tree(lines, broken)).map_err(|e| format!("read at the end: {e}"))?;
	}
	Ok(())
}

struct Sink;

impl log::Log for Sink {
	fn enabled(&self, _: &log::Metadata<'_>) -> bool {
		true
	}
	fn log(&self, record: &log::Record<'_>) {
		let mut n = Count(0);
		let _ = write!(n, "{}", record.args());
		std::hint::black_box(n.0);
	}
	fn flush(&self) {}
}

struct Count(usize);

impl std::fmt::Write for Count {
	fn write_str(&mut self, s: &str) -> std::fmt::Result {
		self.0 += s.len();
		Ok(())
	}
}

static SINK: Sink = Sink;
static LOGGING: std::sync::RwLock<()> = std::sync::RwLock::new(());

fn c22(case: &Case, obs: &mut Obs) -> Outcome {
	obs.label(&case.kind);
	if case.kind == "marathon" || case.kind == "big arena" {
		let result = if case.kind == "marathon" { marathon(&case.nums) } else { big_arena(&case.nums) };
		return match result {
			Ok(done) => Outcome::Pass(done > 100),
			Err(e) => fail(e),
		};
	}
	if case.strs.is_empty() {
		return Outcome::Discard;
	}
	let Some(want) = case.strs.iter().map(|s| expected(s)).collect::<Option<Vec<_>>>() else { return Outcome::Discard };
	let total: usize = want.iter().map(|w| w.lexed.tokens.len()).sum();
	let nontrivial = total >= 3 && case.strs.iter().any(|s| *s != case.strs[0]);
	let result = match case.kind.as_str() {
		"embedded" => {
			let mut all = String::new();
			let mut places = Vec::new();
			for s in &case.strs {
				places.push((all.len(), all.len() + s.len()));
				all.push_str(s);
			}
			case.strs.iter().zip(&places).zip(&want).try_for_each(|((_, p), w)| check_all(&all[p.0..p.1], w))
		}
		"logged" => {
			if want.iter().map(|w| w.lexed.tokens.len()).max().unwrap() > 60 {
				return Outcome::Discard;
			}
			let _exclusive = LOGGING.write().unwrap_or_else(std::sync::PoisonError::into_inner);
			let _ = log::set_logger(&SINK);
			log::set_max_level(log::LevelFilter::Trace);
			let r = std::panic::catch_unwind(|| case.strs.iter().zip(&want).try_for_each(|(s, w)| check_all(s, w)));
			log::set_max_level(log::LevelFilter::Off);
			match r {
				Ok(r) => r,
				Err(p) => std::panic::resume_unwind(p),
			}
		}
		"threads" => {
			let (want, case) = (&want, case);
			std::thread::scope(|s| {
				let handles: Vec<_> = (0..3)
					.map(|k| {
						std::thread::Builder::new()
							.stack_size(64 << 20)
							.spawn_scoped(s, move || {
								let mut nums = case.nums.clone();
								let len = nums.len().max(1);
								nums.rotate_left(k * 5 % len);
								steps(&case.strs, &nums, want)
							})
							.unwrap()
					})
					.collect();
				handles.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panicked on a thread".to_owned()))).collect()
			})
		}
		"reuse" => reuse(&case.strs, &case.nums, &want),
		_ => steps(&case.strs, &case.nums, &want),
	};
	match result {
		Ok(()) => Outcome::Pass(nontrivial),
		Err(e) => fail(e),
	}
}

// --- C23 -----------------------------------------------------------------------------------------------------------

/// The stack of the main thread of an ordinary program.
const ORDINARY_STACK: usize = 8 << 20;

const C23: Property = Property {
	id: "C23",
	rule: "any texts, any token sequences, every construct of the grammar nested and repeated, long runs of letters; everything is run on an ordinary 8 MB stack to its end, printed and read; non-trivial: at least three tokens, or 20 letters",
	assumptions: &[
		"inputs that the reference predicts to take exponential time are skipped; known_findings.txt lists such inputs, which are run on their own",
		"nesting (by rules of the reference grammar) up to half of what overflowed an 8 MB stack when this was written, chunks up to a fraction of it",
	],
	families: |tier| {
		let q = tier == Tier::Quick;
		let m = if q { 1 } else { 30 };
		vec![
			Family::enumerate("nested constructs", NESTS.len() as u64 * if q { 24 } else { 200 }, |i| {
				let n = NESTS.len() as u64;
				let d = i / n;
				let depth = if d < 16 { d } else { (d - 16) * (d - 16) + 16 };
				Case::new("nest").num((i % n) as i64).num(depth as i64)
			}),
			Family::enumerate("long runs of letters", RUNS.len() as u64 * if q { 24 } else { 60 }, |i| {
				let n = RUNS.len() as u64;
				let d = i / n;
				let len = if d < 12 { d } else { (d - 11) * (d - 11) * 2 + 12 };
				Case::new("run").num((i % n) as i64).num(len as i64)
			}),
			Family::random("texts", 20_000 * m, |t| {
				Case::new("text").str(match t.below(3) {
					0 => gen::text(t, 8, true),
					1 => quote_text(t).strs[0].clone(),
					_ => sentence(t),
				})
			}),
			Family::random("any characters", 12_000 * m, |t| {
				let n = t.size(60);
				let mut s = String::new();
				for _ in 0..n {
					match t.below(8) {
						0 => s.push_str(&gen::junk(t)),
						1 => s.push_str(*t.pick(&gen::words().official)),
						2 => s.push_str(t.pick(gen::PAUSES)),
						3 => s.push(char::from(t.below(128) as u8)),
						_ => s.push(*t.pick(&['a', 'e', 'i', 'o', 'u', 'y', '\'', ',', 'n', 'r', 't', 'k', 'A', 'H', 'q', '1', '.'])),
					}
				}
				Case::new("text").str(s)
			}),
			Family::random("words on their own", 40_000 * m, |t| {
				let mut s = gen::chunk(t);
				if t.chance(1, 3) {
					s.push_str(&gen::junk(t));
				}
				Case::new("word").str(s.trim_end_matches(','))
			}),
			Family::random("sentences", 20_000 * m, |t| {
				let sms = cst::tokens(t, 60, true);
				Case::new("tokens").toks(spaced(t, &sms))
			}),
			Family::random("any tokens", 20_000 * m, |t| {
				let n = t.size(40);
				let sms: Vec<u16> = (0..n).map(|_| cst::random_token(t)).collect();
				Case::new("tokens").toks(spaced(t, &sms))
			}),
			Family::random("nested sentences", 6_000 * m, |t| {
				let sms = cst::nested(t, 60);
				Case::new("tokens").toks(spaced(t, &sms))
			}),
			Family::random("repetitions", 800 * m, |t| {
				let sms = cst::repetitive(t, 3_000);
				Case::new("tokens").toks(spaced(t, &sms))
			}),
			Family::random("big texts", 400 * m, |t| Case::new("text").str(big_case(t).strs[0].clone())),
			Family::enumerate("very long runs of pauses and commas", LONG.len() as u64, |i| {
				Case::new("very long").num(i as i64).num(LONG[i as usize].1)
			}),
		]
	},
	check: c23,
	nums_are_list: false,
};

/// What comes before, the part that is repeated on the left, the middle, the part repeated on the right, the end.
pub const NESTS: &[[&str; 5]] = &[
	["", "ke ", "broda", " ke'e", ""],
	["", "ke ", "broda", "", ""],
	["", "", "broda", " bo broda", ""],
	["", "", "broda", " co broda", ""],
	["", "", "broda", " zei broda", ""],
	["", "", "a", " bu", ""],
	["", "se ", "broda", "", ""],
	["", "na'e ", "broda", "", ""],
	["", "na ", "broda", "", ""],
	["", "na ku ", "broda", "", ""],
	["", "lu ", "mi", " li'u", ""],
	["", "to ", "mi", " toi", ""],
	["mi ", "to ", "mi", " toi", ""],
	["mi ", "sei ", "broda", " se'u", ""],
	["mi ", "to'i ", "do", "", ""],
	["", "le ", "broda", " ku", ""],
	["", "le nu ", "broda", " kei ku", ""],
	["", "nu ", "broda", " kei", ""],
	["", "nu ", "broda", "", ""],
	["", "le mi ", "broda", "", ""],
	["", "la'e ", "mi", " lu'u", ""],
	["", "tu'a ", "mi", "", ""],
	["", "lo poi broda ku'o ", "broda", "", ""],
	["mi ", "poi ", "broda", " ku'o", ""],
	["mi ", "poi mi ", "broda", "", ""],
	["mi ", "pe mi ", "", " ge'u", ""],
	["broda ", "be mi ", "", " be'o", ""],
	["broda ", "be le broda ", "", " be'o", ""],
	["li ", "vei ", "pa", " ve'o", ""],
	["li ", "vei ", "pa", "", ""],
	["li ", "pa su'i ", "pa", "", ""],
	["li ", "pa bi'e su'i ", "pa", "", ""],
	["li ", "ma'o ", "by", " te'u", ""],
	["li fu'a ", "pa pa su'i ", "pa", "", ""],
	["li ", "pe'o su'i ", "pa", " ku'e", ""],
	["li ", "ke pa su'i ", "pa", " ke'e", ""],
	["li ", "nu'a su'i ", "pa", "", ""],
	["li jo'i ", "pa ", "pa", "", " te'u"],
	["li ", "mo'e li ", "pa", " lo'o te'u", ""],
	["li ", "", "pa", " xi pa", ""],
	["li ", "", "pa", " pa", ""],
	["", "tei by ", "by", " foi", ""],
	["", "ga broda gi ", "broda", "", ""],
	["", "gu'a broda gi ", "broda", "", ""],
	["", "ga mi gi ", "mi", "", ""],
	["", "ge ke ", "broda", " gi broda", ""],
	["", "mi e ", "mi", "", ""],
	["", "mi e bo ", "mi", "", ""],
	["", "mi e ke ", "mi", " ke'e", ""],
	["mi ", "broda gi'e ", "broda", "", ""],
	["mi ", "broda gi'e bo ", "broda", "", ""],
	["mi ", "broda gi'e ke ", "broda", " ke'e", ""],
	["", "broda je ", "broda", "", ""],
	["", "broda je bo ", "broda", "", ""],
	["", "broda je ke ", "broda", " ke'e", ""],
	["", "broda joi ", "broda", "", ""],
	["", "", "broda", " .i broda", ""],
	["", "", "broda", " .i je broda", ""],
	["", "", "broda", " .i bo broda", ""],
	["", "", "broda", " ni'o broda", ""],
	["", "tu'e ", "broda", " tu'u", ""],
	["", "ni'o", "", "", " broda"],
	["", ".i ", "broda", "", ""],
	["mi", " ui", " broda", "", ""],
	["mi", " ui nai", " broda", "", ""],
	["mi", " y", " broda", "", ""],
	["", "ba'e ", "broda", "", ""],
	["", "mi ", "broda", " mi", ""],
	["", "fa mi ", "broda", " fa mi", ""],
	["", "pu ", "broda", "", ""],
	["", "bai mi ", "broda", "", ""],
	["", "fi'o broda fe'u mi ", "broda", "", ""],
	["", "fi'o broda ", "broda", "", ""],
	["", "fi'o ", "broda", "", " mi"],
	["", "mi zo'u ", "broda", "", ""],
	["", "coi ", "mi", " do'u", ""],
	["", "doi ", "mi", "", ""],
	["", "coi doi ", "la .djan.", "", ""],
	["mi ", "soi mi ", "", " se'u", ""],
	["mi ", "mai ", "broda", "", ""],
	["", "pa mai ", "broda", "", ""],
	["mi ", "xi pa ", "broda", "", ""],
	["", "me mi ", "", " me'u", ""],
	["", "me ", "mi", " me'u", ""],
	["", "me le ", "broda", "", ""],
	["", "nu'i mi ", "", " nu'u", " broda"],
	["", "", "nu'i mi", " pe'e je mi", " broda"],
	["", "jai ", "broda", "", ""],
	["", "jai gau ", "broda", "", ""],
	["", "", "broda", " cei broda", ""],
	["", "mu'o ", "mi", "", ""],
	["", "lo'u ", "mi", "", " le'u"],
	["", "zo ", "mi", "", ""],
	["", "zo zo ", "mi", "", ""],
	["", "zoi gy. ", "mi", " .gy.", ""],
	["zoi gy. ", "mi ", "mi", "", " .gy."],
	["lo'u ", "mi ", "mi", "", " le'u"],
	["", "la'o gy. mi .gy. ", "broda", "", ""],
	["", "me'oi mi ", "broda", "", ""],
	["", "fa'o ", "mi", "", ""],
	["", "goi mi ", "", "", ""],
	["mi ", "goi mi zi'e ", "goi mi", "", ""],
	["", "na'e bo ", "mi", " lu'u", ""],
	["", "pa lo ", "broda", "", ""],
	["", "re mi ", "", "", ""],
	["la ", "", ".djan.", " .djan.", ""],
	["", "vu'o ", "mi", "", ""],
	["", "mi vu'o pe ", "mi", "", ""],
	["", "na se nu ", "broda", "", ""],
	["", "le se na'e ke ", "broda", "", ""],
	["", "ca le nu ", "broda", "", ""],
	["", "lo ni li ", "pa", "", ""],
	["", "mi pu joi ", "ba broda", "", ""],
	["", "ku ", "", "", ""],
	["", "kei ", "", "", ""],
	["", "cu ", "", "", ""],
	["", "gi ", "", "", ""],
	["", "ga ", "", "", ""],
	["", "bu ", "", "", ""],
	["", "zei ", "", "", ""],
	["", "lo ", "", "", ""],
	["", "vei ", "", "", ""],
];

const RUNS: &[&str] = &[
	"a", "e", "i", "o", "u", "y", "'", "h", ",", "b", "n", "r", "l", "s", "t", "m", "k", "1", "A", "I", "ai", "a'a", "ba", "ka", "y'y",
	"'a", "a'", "ya", "ay", ".", " ", "..", "ia", "ua", "ii", "uu", "by", "ky", "na", "n,", "a,", ",a", "h'", "bau", "bai",
	"\u{e9}", "\u{1f600}", "q", "w", "-", "0", "kla", "bra", "st", "tc", "nl", "gu'u",
];

pub fn nest_text(i: usize, n: usize) -> Option<String> {
	let [a, b, c, d, e] = NESTS.get(i)?;
	Some(format!("{a}{}{c}{}{e}", b.repeat(n), d.repeat(n)))
}

pub fn c23_text(case: &Case) -> Option<String> {
	let n = *case.nums.get(1)? as usize;
	let i = *case.nums.first()? as usize;
	match case.kind.as_str() {
		"nest" => nest_text(i, n),
		"run" => Some(RUNS.get(i)?.repeat(n)),
		"very long" => {
			let (a, b, c) = LONG.get(i)?.0;
			Some(format!("{a}{}{c}", b.repeat(n)))
		}
		_ => None,
	}
}

/// Texts with something in the middle that is repeated very often but means nothing, or is quoted, and how often.
const LONG: &[((&str, &str, &str), i64)] = &[
	(("a", ",", "'i"), 1_000_000),
	(("", ",", "mi"), 1_000_000),
	(("mi", ",", ""), 1_000_000),
	(("mi ", ",", " do"), 1_000_000),
	(("", ",", ""), 1_000_000),
	((".dja", ",", "n"), 300_000),
	(("k", ",", "lama"), 160_000),
	(("kla", ",", "ma"), 160_000),
	(("", ",", "klama"), 160_000),
	(("klama", ",", ""), 160_000),
	(("za'e", ",", "klama"), 160_000),
	(("klAma", ",", "mi"), 160_000),
	(("y", ",", "y"), 300_000),
	(("1", ",", "2"), 300_000),
	(("", " ", "mi"), 1_000_000),
	(("mi", ".", "do"), 1_000_000),
	(("mi", " \n", ""), 1_000_000),
	(("mi ", ", ", "do"), 300_000),
	(("zoi gy", ",", " a gy"), 300_000),
	(("zoi", ",", " gy a gy"), 300_000),
	(("zoi gy a", ",", "b gy"), 300_000),
	(("zoi gy", " ", "gy mi"), 300_000),
	(("zoi gy a", " ", " gy mi"), 300_000),
	(("so'e'ai gy a gy", " ", "b gy"), 300_000),
	(("me'oi", ",", " a"), 300_000),
	(("me'oi ", ",", " a"), 300_000),
	(("me'oi ", ", ", "a"), 300_000),
	(("me'oi", " ", "a"), 300_000),
	(("mi fa'o ", "mi ", ""), 40_000),
	(("zo", ",", "klama"), 160_000),
];

/// Decompose, lex, parse, print, read.
pub fn everything(text: &str) -> (usize, usize) {
	let words: Vec<Span> = sneturfahi::decompose(text).collect();
	let mut out = Count(0);
	let it = sneturfahi::decompose(text);
	let hint = it.size_hint();
	assert!(words.len() >= hint.0 && hint.1.map_or(true, |h| h >= words.len()), "size hint {hint:?} for {} words", words.len());
	let mut it = sneturfahi::decompose(text);
	let mut n = 0;
	while it.next_no_decomposition().is_some() {
		n += 1;
	}
	let lexed: Result<Vec<_>, _> = sneturfahi::lex(text).collect();
	match lexed {
		Ok(toks) => {
			for t in &toks {
				let _ = write!(out, "{:?} {} {:?}", t, t.selmaho, t.span.slice(text));
				assert!(t.span.slice(text).is_some(), "token {t:?} is not in the text");
			}
			let nodes = parse_everything(&toks);
			(toks.len(), nodes + n)
		}
		Err(e) => {
			let _ = write!(out, "{e:?} {e}");
			(0, out.0 + n)
		}
	}
}

fn parse_everything(toks: &[sneturfahi::lex::Token]) -> usize {
	let arena = Arena::new();
	let mut out = Count(0);
	match sneturfahi::Cst::parse(toks, &arena) {
		Ok(c) => {
			let (lines, broken) = sut::lines(c.root());
			assert!(broken.is_none(), "{broken:?}");
			if toks.len() < 2_000 {
				let _ = write!(out, "{c:?}");
			}
			lines.len()
		}
		Err(e) => {
			let _ = write!(out, "{:?} {}", e.error, e.error);
			let _ = e.location.first().map(|t| t.span.start);
			0
		}
	}
}

/// Run on a stack of the given size; a panic becomes a message.
fn on_stack<T: Send>(size: usize, f: impl FnOnce() -> T + Send) -> Result<T, String> {
	std::thread::scope(|s| {
		let h = std::thread::Builder::new()
			.stack_size(size)
			.spawn_scoped(s, || {
				std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| crate::engine::last_panic())
			})
			.unwrap();
		h.join().unwrap_or_else(|_| Err("panicked".to_owned()))
	})
}

/// Deeper recursion than this (in rules of the reference grammar) is left to the known findings.
pub const DEPTH_LIMIT: u32 = 3_000;
/// Longer chunks as well (in letters).
const CHUNK_LETTERS: usize = 700;

fn c23(case: &Case, obs: &mut Obs) -> Outcome {
	obs.label(&case.kind);
	let long = |s: &str| s.split(morph::is_separator).any(|c| c.len() > CHUNK_LETTERS);
	match case.kind.as_str() {
		"tokens" => {
			let kinds: Vec<u16> = case.toks.iter().map(|t| t.sm).collect();
			let Some(p) = cst::parse(&kinds, PARSE_LIMIT) else { return Outcome::Discard };
			if p.depth > DEPTH_LIMIT {
				return Outcome::Discard;
			}
			let toks = sut::real(&case.toks);
			match on_stack(ORDINARY_STACK, || parse_everything(&toks)) {
				Ok(_) => Outcome::Pass(toks.len() >= 3),
				Err(e) => fail(e),
			}
		}
		"word" => {
			let w = &case.strs[0];
			// a word as it comes out of decomposition does not end in a comma
			if w.ends_with(',') || long(w) || lexmodel::classify(w).2 > morph::CHUNK_LIMIT {
				return Outcome::Discard;
			}
			match on_stack(ORDINARY_STACK, || sneturfahi::lex::Selmaho::classify(w)) {
				Ok((s, _)) => {
					obs.label(s.as_repr());
					Outcome::Pass(w.len() >= 3)
				}
				Err(e) => fail(format!("classifying {w:?}: {e}")),
			}
		}
		"very long" => {
			let Some(text) = c23_text(case) else { return Outcome::Discard };
			match on_stack(ORDINARY_STACK, || everything(&text)) {
				Ok(_) => Outcome::Pass(true),
				Err(e) => fail(e),
			}
		}
		_ => {
			let text = match c23_text(case) {
				Some(t) => t,
				None => case.strs[0].clone(),
			};
			if long(&text) || morph::decompose(&text, MORPH_LIMIT).is_none() {
				return Outcome::Discard;
			}
			let Some(lexed) = lexmodel::lex(&text, MORPH_LIMIT) else { return Outcome::Discard };
			if lexed.error.is_none() {
				let kinds: Vec<u16> = lexed.tokens.iter().map(|t| tok(t).sm).collect();
				match cst::parse(&kinds, PARSE_LIMIT) {
					Some(p) if p.depth <= DEPTH_LIMIT => {
						obs.label(if p.result.is_ok() { "accepted" } else { "rejected" });
					}
					_ => return Outcome::Discard,
				}
			} else {
				obs.label("lexing error");
			}
			match on_stack(ORDINARY_STACK, || everything(&text)) {
				Ok((n, _)) => Outcome::Pass(n >= 3 || text.len() >= 20),
				Err(e) => fail(e),
			}
		}
	}
}

/// For finding out where the limits are: the whole pipeline on an ordinary stack, without any prediction.
pub fn probe_count(kind: &str) -> usize {
	if kind == "nest" { NESTS.len() } else { RUNS.len() }
}

/// The whole pipeline on an ordinary stack.
pub fn once(text: &str) -> i32 {
	i32::from(on_stack(ORDINARY_STACK, || everything(text)).is_err())
}

pub fn probe(kind: &str, i: i64, n: i64) -> i32 {
	let case = Case::new(kind).num(i).num(n);
	let Some(text) = c23_text(&case) else { return 3 };
	let predict = || {
		let m = morph::decompose(&text, u64::MAX)?.cost;
		let l = lexmodel::lex(&text, u64::MAX)?;
		let kinds: Vec<u16> = l.tokens.iter().map(|t| tok(t).sm).collect();
		let p = if l.error.is_none() { cst::parse(&kinds, 100 * PARSE_LIMIT) } else { None };
		Some((m, l.cost, p.map(|p| (p.cost, p.depth, p.result.is_ok()))))
	};
	println!("{:?}", on_stack(4 << 30, predict));
	match on_stack(ORDINARY_STACK, || everything(&text)) {
		Ok(_) => 0,
		Err(e) => {
			println!("{e}");
			1
		}
	}
}

// --- C24 -----------------------------------------------------------------------------------------------------------

const C24: Property = Property {
	id: "C24",
	rule: "all pairs of small spans, also near the largest location, spans over generated texts with characters of several bytes, parts at any distance from the start, against sets of places; non-trivial: two non-empty spans, or a text with a character of several bytes",
	assumptions: &["what lies between two adjacent spans may be nothing or an empty span; whether two empty spans at the same place overlap is left open"],
	families: |tier| {
		let q = tier == Tier::Quick;
		let m = if q { 1 } else { 30 };
		let side = if q { SMALL } else { SMALL };
		vec![
			Family::enumerate("all pairs of small spans", side * side * BASES.len() as u64, |i| {
				let b = BASES[(i % BASES.len() as u64) as usize];
				let i = i / BASES.len() as u64;
				let (x, y) = (small_span(i % SMALL), small_span(i / SMALL));
				Case::new("pair").num(b + x.0).num(b + x.1).num(b + y.0).num(b + y.1)
			}),
			Family::random("any pairs of spans", 400_000 * m, |t| {
				let mut c = Case::new("pair");
				let near = i64::from(t.u32());
				for _ in 0..2 {
					let a = any_location(t, near);
					let b = any_location(t, near);
					c.nums.push(a.min(b));
					c.nums.push(a.max(b));
				}
				c
			}),
			Family::random("texts", 300_000 * m, |t| {
				let mut s = String::new();
				for _ in 0..t.size(12) {
					match t.below(3) {
						0 => s.push_str(t.pick(&["a", " ", "ku", "\u{e9}", "\u{20ac}", "\u{1f600}", "\0", "\n", "t\u{301}"])),
						1 => s.push_str(&gen::junk(t)),
						_ => s.push(char::from(t.below(128) as u8)),
					}
				}
				let n = s.len() as i64 + 3;
				let (a, b) = (t.below(n as usize) as i64, t.below(n as usize) as i64);
				let loc = if t.chance(1, 8) { i64::from(u32::MAX) } else { t.below(n as usize) as i64 };
				Case::new("text").str(s).num(a.min(b)).num(if t.chance(1, 20) { i64::from(u32::MAX) } else { a.max(b) }).num(loc)
			}),
			Family::random("parts far from the start", 60_000 * m, |t| {
				let s = gen::text(t, 2, true);
				let n = if t.chance(1, 2) { any_location(t, 1 << 24) } else { (1 << t.range(1, 32)) - t.below(3) as i64 };
				Case::new("place").str(s).num(n)
			}),
			Family::random("parts of long texts", 600 * m, |t| {
				let s = gen::text(t, 3, true);
				let mut c = gen::far(t, s);
				let len = c.text().len();
				let near = if t.chance(1, 3) { 0 } else { len.saturating_sub(c.strs[0].len() + 3) };
				let (a, b) = (near + t.below(len - near + 2), if t.chance(1, 2) { t.below(len + 2) } else { len - t.below(12).min(len) });
				c.nums.extend([a.min(b) as i64, a.max(b) as i64, t.below(len + 2) as i64]);
				c
			}),
		]
	},
	check: c24,
	nums_are_list: false,
};

/// Spans inside of 0..=11
const SMALL: u64 = 78;
const BASES: &[i64] = &[0, 1, 250, 65_530, i32::MAX as i64 - 5, u32::MAX as i64 - 11];

fn small_span(mut i: u64) -> (i64, i64) {
	for a in 0..12 {
		let n = 12 - a;
		if i < n {
			return (a as i64, (a + i) as i64);
		}
		i -= n;
	}
	unreachable!()
}

fn any_location(t: &mut Tape<'_>, near: i64) -> i64 {
	match t.below(5) {
		0 => t.below(20) as i64,
		1 => i64::from(u32::MAX) - t.below(20) as i64,
		2 => i64::from(t.u32()),
		_ => (near + t.below(16) as i64 - 8).clamp(0, i64::from(u32::MAX)),
	}
}

fn c24(case: &Case, obs: &mut Obs) -> Outcome {
	match c24_inner(case, obs) {
		Ok(b) => Outcome::Pass(b),
		Err(e) if e.is_empty() => Outcome::Discard,
		Err(e) => fail(e),
	}
}

fn c24_inner(case: &Case, obs: &mut Obs) -> Result<bool, String> {
	obs.label(&case.kind);
	let loc = |i: usize| -> Result<u32, String> { u32::try_from(case.nums[i]).map_err(|_| String::new()) };
	if case.kind == "pair" {
		let (a, b, c, d) = (loc(0)?, loc(1)?, loc(2)?, loc(3)?);
		if a > b || c > d {
			return Err(String::new());
		}
		let (x, y) = (Span::new(a, b), Span { start: c, end: d });
		for (s, from, to) in [(x, a, b), (y, c, d), (Span::at(a, b - a), a, b)] {
			if s.start != from || s.end != to {
				return Err(format!("span {s:?} of {from}, {to}"));
			}
			if s.len() != to - from || s.is_empty() != (from == to) {
				return Err(format!("{s:?} has length {}, empty: {}", s.len(), s.is_empty()));
			}
			if format!("{s:?}") != format!("{from}..{to}") {
				return Err(format!("{s:?} printed for {from}..{to}"));
			}
		}
		if a < b && std::panic::catch_unwind(|| Span::new(b, a)).is_ok() {
			return Err(format!("Span::new({b}, {a}) does not panic"));
		}
		for p in [0, a, b, c, d, a.wrapping_sub(1), b.wrapping_add(1), c.wrapping_add(1), d.wrapping_sub(1), u32::MAX] {
			if x.contains(p) != (a <= p && p < b) {
				return Err(format!("{x:?} contains {p}: {}", x.contains(p)));
			}
		}
		// in half steps: a span covers what is strictly inside of it, an empty one the point it is at
		let inside = |from: u32, to: u32| -> (u64, u64) {
			if from == to {
				(2 * u64::from(from), 2 * u64::from(from))
			} else {
				(2 * u64::from(from) + 1, 2 * u64::from(to) - 1)
			}
		};
		let ((xa, xb), (ya, yb)) = (inside(a, b), inside(c, d));
		let common = xa.max(ya) <= xb.min(yb);
		if !(a == b && c == d && a == c) {
			for (p, q) in [(x, y), (y, x)] {
				if p.overlaps_with(q) != common {
					return Err(format!("{p:?} overlaps {q:?}: {}", !common));
				}
			}
		}
		if (x == y) != ((a, b) == (c, d)) {
			return Err(format!("{x:?} and {y:?} are equal: {}", x == y));
		}
		for (p, q) in [(x, y), (y, x)] {
			let got = Span::between(p, q);
			let ok = if p.end < q.start {
				got.is_some_and(|g| g.start == p.end && g.end == q.start)
			} else if p.end == q.start {
				got.map_or(true, |g| g.start == p.end && g.end == q.start)
			} else {
				got.is_none()
			};
			if !ok {
				return Err(format!("between {p:?} and {q:?}: {got:?}"));
			}
		}
		obs.label(if common { "overlapping" } else { "apart" });
		return Ok(a < b && c < d);
	}
	let text = &*case.text();
	if case.kind == "place" {
		// only the addresses matter
		let n = loc(0)?;
		let Some(end) = u32::try_from(text.len()).ok().and_then(|l| n.checked_add(l)) else { return Err(String::new()) };
		if (text.as_ptr() as usize) < n as usize {
			return Err(String::new());
		}
		let got = Span::from_embedded_slice(text.as_ptr().wrapping_sub(n as usize), text);
		if (got.start, got.end) != (n, end) {
			return Err(format!("{} bytes at {n} are found at {got:?}", text.len()));
		}
		return Ok(n > 0);
	}
	let skip = if case.kind == "far" { 3 } else { 0 };
	let (a, b, p) = (loc(skip)?, loc(skip + 1)?, loc(skip + 2)?);
	if a > b {
		return Err(String::new());
	}
	let s = Span::new(a, b);
	let bytes = text.as_bytes();
	let boundary = |i: u32| -> bool {
		let i = i as usize;
		i == bytes.len() || i < bytes.len() && bytes[i] & 0xc0 != 0x80
	};
	let part = |from: u32, to: u32| -> Option<&[u8]> {
		(boundary(from) && boundary(to)).then(|| &bytes[from as usize..to as usize])
	};
	let len = bytes.len() as u32;
	let (got, want) = (s.slice(text).map(str::as_bytes), part(a, b));
	if got != want {
		return Err(format!("{s:?} of {text:?} is {got:?}"));
	}
	let (before, after) = (s.slice_before(text), s.slice_after(text));
	if before.map(str::as_bytes) != part(0, a) {
		return Err(format!("before {s:?} in {text:?} is {before:?}"));
	}
	let want = boundary(b).then(|| &bytes[b as usize..]);
	if after.map(str::as_bytes) != want {
		return Err(format!("after {s:?} in {text:?} is {after:?}"));
	}
	if let (Some(x), Some(y), Some(z)) = (before, s.slice(text), after) {
		if format!("{x}{y}{z}") != *text {
			return Err(format!("the parts of {text:?} at {s:?} do not make it up"));
		}
		let back = Span::from_embedded_slice(text.as_ptr(), y);
		if back != s {
			return Err(format!("the part of {text:?} at {s:?} is found at {back:?}"));
		}
		let in_rest = Span::from_embedded_slice(y.as_ptr(), z);
		if in_rest != Span::new(b - a, len - a) {
			return Err(format!("what comes after {s:?} is found at {in_rest:?} from its start"));
		}
		if a > 0 && std::panic::catch_unwind(|| Span::from_embedded_slice(y.as_ptr(), x)).is_ok() {
			return Err("a part found before the start".to_owned());
		}
	}
	let all = Span::entire_slice(text);
	if (all.start, all.end) != (0, len) || all.slice(text) != Some(text) {
		return Err(format!("all of {text:?} is {all:?}"));
	}
	if s.contains(p) != (a <= p && p < b) {
		return Err(format!("{s:?} contains {p}: {}", s.contains(p)));
	}
	Ok(!text.is_ascii())
}
