//! C25: what the command line tool prints.

use super::decomp::big_case;
use super::lexing::quote_text;
use super::tree::sentence;
use super::{MORPH_LIMIT, PARSE_LIMIT};
use crate::case::{Case, Tok};
use crate::cst::{self, Line};
use crate::engine::{Family, Obs, Outcome, Property, Tape, Tier};
use crate::gen;
use crate::lexmodel::{self, variant_named, MErr};
use crate::morph;
use sneturfahi::lex::Error;
use sneturfahi::{Arena, Cst, Span};
use std::fmt::Write as _;
use std::io::Write as _;
use std::path::PathBuf;
use std::process::{Command, Stdio};

pub const PROPS: &[Property] = &[C25];

fn fail(s: impl Into<String>) -> Outcome {
	Outcome::Fail(s.into())
}

const C25: Property = Property {
	id: "C25",
	rule: "texts given to the tool on its standard input (also big, and in pieces), with all combinations of its options, also with verbose logging (whose lines are taken out), and line by line on a terminal; all it prints is compared with what the reference says about the text; non-trivial: at least three tokens",
	assumptions: &[
		"the wording of a parse error is taken from the library (where it is, is compared with the reference)",
		"texts that the reference predicts to be costly are skipped",
		"the terminal is a pseudo-terminal with line editing switched off, except for the end of file",
	],
	families: |tier| {
		let m = if tier == Tier::Quick { 1 } else { 25 };
		vec![
			Family::random("sentences", 14_000 * m, |t| {
				let s = sentence(t);
				invocation(t, s)
			}),
			Family::random("texts", 7_000 * m, |t| {
				let s = gen::text(t, 6, true);
				invocation(t, s)
			}),
			Family::random("quotes", 5_000 * m, |t| {
				let s = quote_text(t).strs[0].clone();
				invocation(t, s)
			}),
			Family::random("example sentences", 5_000 * m, |t| {
				let s = (*t.pick(gen::corpus())).to_owned();
				invocation(t, s)
			}),
			Family::random("verbose", 1_500 * m, |t| {
				let s = if t.chance(1, 2) { gen::text(t, 3, true) } else { cst_words(t) };
				let mut case = invocation(t, s);
				case.nums[0] |= VERBOSE;
				case
			}),
			Family::random("fed in pieces", 500 * m, |t| {
				let s = match t.below(3) {
					0 => gen::text(t, 8, true),
					1 => quote_text(t).strs[0].clone(),
					_ => sentence(t),
				};
				let mut case = invocation(t, s);
				for _ in 0..t.range(1, 4) {
					case.nums.push(t.below(case.strs[0].len() + 1) as i64);
				}
				case
			}),
			Family::random("big texts", 160 * m, |t| {
				let s = big_case(t).strs[0].clone();
				let mut case = invocation(t, s);
				case.nums[0] = t.range(1, 3) as i64;
				if t.chance(1, 3) {
					case.nums.push(t.below(case.strs[0].len() + 1) as i64);
				}
				case
			}),
			Family::random("many sentences", 160 * m, |t| {
				let stock: Vec<String> = (0..t.range(1, 4)).map(|_| if t.chance(1, 2) { cst_words(t) } else { (*t.pick(gen::corpus())).to_owned() }).collect();
				let mut n = 8;
				while n < 500 && t.chance(3, 4) {
					n *= 2;
				}
				let mut s = String::new();
				for _ in 0..t.range(n / 2, n) {
					s.push_str(t.pick(&stock));
					s.push_str(t.pick(&["\n.i ", " .i ", " ni'o "]));
				}
				invocation(t, s)
			}),
			Family::random("on a terminal", 2_500 * m, |t| {
				let mut case = Case::new("terminal");
				let mut flags = 0;
				let lines = if t.chance(1, 60) { t.range(20, 60) } else { t.range(1, 5) };
				for _ in 0..lines {
					let s = match t.below(8) {
						0 => String::new(),
						1 => t.pick(&[" ", ".", "  \t", "\u{a0}", "zoi gy", "zoi", "lo'u", "ra'oi", "mi ku ku ku"]).to_string(),
						2 | 3 => gen::text(t, 4, true),
						4 => quote_text(t).strs[0].clone(),
						5 => (*t.pick(gen::corpus())).to_owned(),
						_ => sentence(t),
					};
					let line = invocation(t, s);
					flags = line.nums[0];
					case = case.str(line.strs[0].replace(['\n', '\u{4}'], " "));
				}
				if t.chance(1, 6) {
					// nothing is left of the last line
					let last = case.strs[case.strs.len() - 1].clone();
					case = case.str(last).str(String::new());
				}
				case.num(flags)
			}),
		]
	},
	check: c25,
	nums_are_list: false,
};

fn invocation(t: &mut Tape<'_>, mut s: String) -> Case {
	for _ in 0..t.below(3) {
		s.push_str(*t.pick(&["\n", " ", "\t", "\u{a0}", ".", "\u{2003}"]));
	}
	if t.chance(1, 4) {
		s = format!("{}{s}", t.pick(&["\n", "  ", ".", "\u{3000}", "\u{85}"]));
	}
	// decompose, lex, cst, collapse
	let flags = if t.chance(1, 3) { t.below(16) } else { *t.pick(&[4, 12, 7, 15, 6, 14]) };
	Case::new("run").str(s).num(flags as i64)
}

fn binary() -> PathBuf {
	match std::env::var_os("VH_CLI") {
		Some(p) => p.into(),
		None => {
			// target/release/vharness -> target/cli/release/examples/main
			let exe = std::env::current_exe().unwrap();
			exe.parent().unwrap().parent().unwrap().join("cli/release/examples/main")
		}
	}
}

fn span(r: (usize, usize)) -> Span {
	Span::new(r.0 as u32, r.1 as u32)
}

fn place(text: &str, r: (usize, usize)) -> String {
	format!("{:?} @ {}..{}", &text[r.0..r.1], r.0, r.1)
}

/// Print the lines of a tree.
fn tree(text: &str, lines: &[Line], collapse: bool) -> String {
	// children of every node
	let mut children: Vec<Vec<usize>> = vec![Vec::new(); lines.len()];
	let mut open: Vec<usize> = Vec::new();
	for (i, l) in lines.iter().enumerate() {
		open.truncate(l.depth as usize);
		if let Some(&p) = open.last() {
			children[p].push(i);
		}
		open.push(i);
	}
	let mut out = String::new();
	let mut todo = vec![(0usize, 0usize)];
	while let Some((mut i, level)) = todo.pop() {
		while collapse && children[i].len() == 1 {
			i = children[i][0];
		}
		let l = &lines[i];
		write!(out, "{}{}{}", " ".repeat(2 * level), l.name, if l.exp { "*" } else { "" }).unwrap();
		if let Some((a, b)) = l.span {
			write!(out, " @ {a}..{b} {:?}", &text[a as usize..b as usize]).unwrap();
		}
		out.push('\n');
		todo.extend(children[i].iter().rev().map(|&c| (c, level + 1)));
	}
	out
}

const VERBOSE: i64 = 16;

/// A few words.
fn cst_words(t: &mut Tape<'_>) -> String {
	let mut s = sentence(t);
	let mut at = s.len().min(30);
	while !s.is_char_boundary(at) {
		at -= 1;
	}
	s.truncate(at);
	s
}

/// What the tool should print for a text, with `SIZE` for the size of the arena.
fn wanted(text: &str, flags: i64, obs: &mut Obs) -> Result<(String, usize), Outcome> {
	let limit = if flags & VERBOSE != 0 { 400_000 } else { MORPH_LIMIT };
	let words = morph::decompose(text, limit).ok_or(Outcome::Discard)?;
	let lexed = lexmodel::lex(text, limit).ok_or(Outcome::Discard)?;
	let (decompose, lex, parse, collapse) = (flags & 1 != 0, flags & 2 != 0, flags & 4 != 0, flags & 8 != 0);
	let mut want = String::new();
	if !(decompose || lex || parse) {
		obs.label("nothing asked for");
		return Ok((want, 0));
	}
	if decompose {
		let list: Vec<String> = words.words.iter().map(|&w| place(text, w)).collect();
		writeln!(want, "Decomposed: [{}]", list.join(", ")).unwrap();
	}
	if let Some(e) = &lexed.error {
		obs.label("lexing error");
		let e = match *e {
			MErr::MissingSeparator { initiator } => {
				Error::DelimitedQuoteMissingSeparator { initiator_span: span(initiator) }
			}
			MErr::Unclosed { initiator, delimiter } => Error::DelimitedQuoteUnclosed {
				initiator_span: span(initiator),
				starting_delimiter_span: span(delimiter),
			},
			MErr::PauseEof { initiator } => Error::PauseDelimitedQuoteEof { initiator_span: span(initiator) },
		};
		writeln!(want, "Lexing error: {e:?}").unwrap();
		return Ok((want, 0));
	}
	let toks: Vec<Tok> = lexed
		.tokens
		.iter()
		.map(|t| Tok {
			sm: variant_named(t.selmaho) as u16,
			exp: t.exp,
			start: t.span.0 as u32,
			end: t.span.1 as u32,
		})
		.collect();
	if lex {
		let list: Vec<String> = lexed
			.tokens
			.iter()
			.map(|t| format!("{}{}({})", cst::repr(t.selmaho), if t.exp { "*" } else { "" }, place(text, t.span)))
			.collect();
		writeln!(want, "Lexed: [{}]", list.join(", ")).unwrap();
	}
	if parse {
		let kinds: Vec<u16> = toks.iter().map(|t| t.sm).collect();
		let limit = if text.len() > 3000 { PARSE_LIMIT * 4 } else { PARSE_LIMIT / 2 };
		let p = cst::parse(&kinds, limit).ok_or(Outcome::Discard)?;
		if p.depth > super::misc::DEPTH_LIMIT {
			return Err(Outcome::Discard);
		}
		match p.result {
			Ok(_) => {
				obs.label(if collapse { "tree, collapsed" } else { "tree" });
				want.push_str(&tree(text, &p.lines(&toks), collapse));
			}
			Err(at) => {
				let real = crate::sut::real(&toks);
				if let Some(t) = real.get(at).filter(|_| toks[at].name() == "AnyText") {
					obs.label("a token that could not be lexed");
					writeln!(
						want,
						"The token {t:?} could not be lexed. The content of this token is {:?}.",
						&text[toks[at].start as usize..toks[at].end as usize]
					)
					.unwrap();
				} else {
					obs.label("parse error");
					let arena = Arena::new();
					match Cst::parse(&real, &arena) {
						Err(e) if real.len() - e.location.len() == at => writeln!(want, "Parse error: {e:?}").unwrap(),
						_ => return Err(fail("the library has no error there")),
					};
				}
			}
		}
		want.push_str(SIZE);
		want.push_str("SIZE\n");
	}
	Ok((want, toks.len()))
}

const SIZE: &str = "size of CST arena: ";

/// Without log messages, and with `SIZE` for the sizes of arenas.
fn tidy(printed: &str, verbose: bool) -> String {
	let mut out = String::new();
	for line in printed.split_inclusive('\n') {
		if let Some(size) = line.strip_prefix(SIZE) {
			if size.trim_end_matches('\n').parse::<u64>().is_ok() {
				out.push_str(SIZE);
				out.push_str("SIZE\n");
				continue;
			}
		}
		match (verbose).then(|| log_message(line)).flatten() {
			Some(at) => out.push_str(&line[..at]),
			None => out.push_str(line),
		}
	}
	out
}

/// Where a log message starts: `00:00:00 [LEVEL]`.
fn log_message(line: &str) -> Option<usize> {
	["[TRACE]", "[DEBUG]"].iter().filter_map(|level| line.find(level)).min().and_then(|at| {
		let time = line.get(at.checked_sub(9)?..at)?;
		let digits = |r| time.get(r).is_some_and(|s: &str| s.bytes().all(|b| b.is_ascii_digit()));
		(digits(0..2) && digits(3..5) && digits(6..8) && time.ends_with(' ')).then_some(at - 9)
	})
}

/// A pseudo-terminal: the end to write to, and the tool's.
fn terminal() -> Option<(std::fs::File, std::fs::File)> {
	use std::os::fd::{AsRawFd as _, FromRawFd as _};
	// SAFETY: plain calls of the C library with valid arguments; the descriptors are owned by the files made of them
	unsafe {
		let master = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
		if master < 0 {
			return None;
		}
		let master = std::fs::File::from_raw_fd(master);
		if libc::grantpt(master.as_raw_fd()) != 0 || libc::unlockpt(master.as_raw_fd()) != 0 {
			return None;
		}
		let mut name = [0 as libc::c_char; 128];
		if libc::ptsname_r(master.as_raw_fd(), name.as_mut_ptr(), name.len()) != 0 {
			return None;
		}
		let slave = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
		if slave < 0 {
			return None;
		}
		let slave = std::fs::File::from_raw_fd(slave);
		let mut t: libc::termios = std::mem::zeroed();
		if libc::tcgetattr(slave.as_raw_fd(), &mut t) != 0 {
			return None;
		}
		t.c_iflag = 0;
		t.c_lflag = libc::ICANON;
		t.c_cc = [0; 32];
		t.c_cc[libc::VEOF] = 4;
		if libc::tcsetattr(slave.as_raw_fd(), libc::TCSANOW, &t) != 0 {
			return None;
		}
		Some((master, slave))
	}
}

fn c25(case: &Case, obs: &mut Obs) -> Outcome {
	let flags = case.nums[0];
	let asked = flags & 7 != 0;
	let on_terminal = case.kind == "terminal";
	let mut want = String::new();
	let mut ntokens = 0;
	if case.nums.len() > 1 {
		obs.label("in pieces");
	}
	if on_terminal {
		if case.strs.iter().any(|s| s.len() > 3000 || s.contains(['\n', '\u{4}', '\0'])) {
			return Outcome::Discard;
		}
		obs.label("terminal");
	}
	for text in &case.strs {
		match wanted(text.trim(), flags, obs) {
			Ok((w, n)) => {
				want.push_str(&w);
				ntokens += n;
			}
			Err(o) => return o,
		}
	}
	let mut cmd = Command::new(binary());
	for (bit, name) in ["--decompose", "--lex", "--cst", "--collapse-cst", "--verbose"].iter().enumerate() {
		if flags >> bit & 1 == 1 {
			cmd.arg(name);
		}
	}
	cmd.stdout(Stdio::piped()).stderr(Stdio::piped()).env_remove("RUST_BACKTRACE");
	let (input, master) = if on_terminal {
		let Some((master, slave)) = terminal() else { return Outcome::Discard };
		cmd.stdin(Stdio::from(slave));
		// the end of file comes at the beginning of a line, or first in the last line, which then has no newline
		let mut input: String = case.strs.iter().map(|s| format!("{s}\n")).collect();
		if case.strs.last().is_some_and(|s| s.len() % 3 == 1) {
			input.pop();
			input.push_str("\u{4}\u{4}");
		}
		input.push('\u{4}');
		(input, Some(master))
	} else {
		cmd.stdin(Stdio::piped());
		(case.strs[0].clone(), None)
	};
	let mut child = match cmd.spawn() {
		Ok(c) => c,
		Err(e) => panic!("cannot run the tool: {e}"),
	};
	drop(cmd);
	let mut keep = None;
	let mut stdin: Box<dyn std::io::Write + Send> = match master {
		Some(m) => {
			keep = m.try_clone().ok();
			Box::new(m)
		}
		None => Box::new(child.stdin.take().unwrap()),
	};
	let mut cuts: Vec<usize> = case.nums[1..].iter().map(|&n| (n.max(0) as usize).min(input.len())).collect();
	if on_terminal {
		cuts.clear();
	}
	cuts.push(input.len());
	cuts.sort_unstable();
	let writer = std::thread::spawn(move || {
		let mut done = 0;
		for cut in cuts {
			if done > 0 {
				std::thread::sleep(std::time::Duration::from_millis(2));
			}
			if stdin.write_all(&input.as_bytes()[done..cut]).is_err() {
				break;
			}
			done = cut;
		}
	});
	let pid = child.id() as libc::pid_t;
	let (done, wait) = std::sync::mpsc::channel::<()>();
	let watch = std::thread::spawn(move || {
		let late = wait.recv_timeout(std::time::Duration::from_secs(100)) == Err(std::sync::mpsc::RecvTimeoutError::Timeout);
		if late {
			// SAFETY: our own child, which has not been waited for
			unsafe { libc::kill(pid, libc::SIGKILL) };
		}
		late
	});
	let out = child.wait_with_output().unwrap();
	drop(done);
	let late = watch.join().unwrap();
	drop(keep);
	let _ = writer.join();
	if late {
		return fail("the tool does not end within 100 seconds");
	}
	let err = String::from_utf8_lossy(&out.stderr);
	if !out.status.success() {
		return fail(format!("the tool ended with {}: {}", out.status, err.trim()));
	}
	let Ok(got) = String::from_utf8(out.stdout) else { return fail("the tool does not print text") };
	let got = tidy(&got, flags & VERBOSE != 0);
	if !asked && !err.contains("required") {
		return fail("nothing is said about missing options");
	}
	if got != want {
		let i = got.lines().zip(want.lines()).take_while(|(a, b)| a == b).count();
		return fail(format!("line {i} is {:?}, should be {:?}", got.lines().nth(i), want.lines().nth(i)));
	}
	if got.len() > 65_536 {
		obs.label("more than 64 KiB printed");
	}
	Outcome::Pass(ntokens >= 3 && asked)
}
