//! A test case: plain data, so that it can be generated, shrunk, stored as a replay file and run again without the
//! generator that made it.

use crate::variants::ALL;
use sneturfahi::lex::{Selmaho, Token};
use sneturfahi::Span;
use std::borrow::Cow;
use std::fmt::Write as _;

/// What a text can be stretched with; the pauses first.
pub const FILLERS: &[&str] = &[" ", ".", "\n", "\t", "?", "xy ", "x", "\u{e9}", ",", "g y.", "klama "];
pub const PAUSE_FILLERS: usize = 5;

/// A token given directly (not produced from text).
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Tok {
	/// index in `variants::ALL`
	pub sm: u16,
	pub exp: bool,
	pub start: u32,
	pub end: u32,
}

impl Tok {
	pub fn token(self) -> Token {
		Token { experimental: self.exp, selmaho: self.selmaho(), span: Span { start: self.start, end: self.end } }
	}
	pub fn selmaho(self) -> Selmaho {
		ALL[self.sm as usize].0
	}
	pub fn name(self) -> &'static str {
		ALL[self.sm as usize].1
	}
}

#[derive(Debug, Clone, Default, PartialEq, Eq, Hash)]
pub struct Case {
	/// which of the property's families the case belongs to
	pub kind: String,
	pub strs: Vec<String>,
	pub nums: Vec<i64>,
	pub toks: Vec<Tok>,
}

impl Case {
	pub fn new(kind: &str) -> Self {
		Self { kind: kind.to_owned(), ..Self::default() }
	}
	pub fn str(mut self, s: impl Into<String>) -> Self {
		self.strs.push(s.into());
		self
	}
	pub fn num(mut self, n: i64) -> Self {
		self.nums.push(n);
		self
	}
	pub fn toks(mut self, toks: Vec<Tok>) -> Self {
		self.toks = toks;
		self
	}

	/// The text of a case that is about one text. In the kind "far", something is repeated at one place in it: `nums` are
	/// the place, how often, and what.
	pub fn text(&self) -> Cow<'_, str> {
		let text = &self.strs[0];
		if self.kind != "far" {
			return Cow::Borrowed(text);
		}
		let at = text.floor_char_boundary(self.nums[0].clamp(0, text.len() as i64) as usize);
		let filler = FILLERS[self.nums[2].clamp(0, FILLERS.len() as i64 - 1) as usize];
		let n = self.nums[1].max(0) as usize;
		let mut o = String::with_capacity(text.len() + n * filler.len());
		o.push_str(&text[..at]);
		for _ in 0..n {
			o.push_str(filler);
		}
		o.push_str(&text[at..]);
		Cow::Owned(o)
	}

	pub fn to_text(&self) -> String {
		let mut out = format!("kind {}\n", self.kind);
		for s in &self.strs {
			writeln!(out, "str {}", escape(s)).unwrap();
		}
		for n in &self.nums {
			writeln!(out, "num {n}").unwrap();
		}
		for t in &self.toks {
			writeln!(out, "tok {} {} {} {}", t.name(), if t.exp { "x" } else { "-" }, t.start, t.end).unwrap();
		}
		out
	}

	pub fn from_text(text: &str) -> Self {
		let mut case = Self::default();
		for line in text.lines() {
			let (key, value) = line.split_once(' ').unwrap_or((line, ""));
			match key {
				"kind" => case.kind = value.to_owned(),
				"str" => case.strs.push(unescape(value)),
				"num" => case.nums.push(value.parse().expect("number")),
				"tok" => {
					let f: Vec<&str> = value.split(' ').collect();
					let sm = ALL.iter().position(|v| v.1 == f[0]).expect("selma'o") as u16;
					case.toks.push(Tok { sm, exp: f[1] == "x", start: f[2].parse().unwrap(), end: f[3].parse().unwrap() });
				}
				_ => {}
			}
		}
		case
	}

	/// Short human-readable form.
	pub fn sample(&self) -> String {
		let mut out = self.kind.clone();
		for s in &self.strs {
			let e = escape(s);
			if e.len() > 300 {
				let cut: String = e.chars().take(240).collect();
				write!(out, " | {cut}… ({} bytes)", s.len()).unwrap();
			} else {
				write!(out, " | {e}").unwrap();
			}
		}
		if !self.nums.is_empty() {
			let shown: Vec<String> = self.nums.iter().take(60).map(ToString::to_string).collect();
			write!(out, " | nums {}", shown.join(" ")).unwrap();
		}
		if !self.toks.is_empty() {
			let shown: Vec<String> =
				self.toks.iter().take(60).map(|t| format!("{}{}", t.name(), if t.exp { "*" } else { "" })).collect();
			write!(out, " | toks {}", shown.join(" ")).unwrap();
			if self.toks.len() > 60 {
				write!(out, " … ({} tokens)", self.toks.len()).unwrap();
			}
		}
		out
	}

	pub fn hash64(&self) -> u64 {
		use std::hash::{Hash, Hasher};
		let mut h = std::collections::hash_map::DefaultHasher::new();
		self.hash(&mut h);
		h.finish()
	}
}

pub fn escape(s: &str) -> String {
	let mut out = String::with_capacity(s.len());
	for c in s.chars() {
		match c {
			'\\' => out.push_str("\\\\"),
			'\n' => out.push_str("\\n"),
			'\r' => out.push_str("\\r"),
			'\t' => out.push_str("\\t"),
			c if (' '..='~').contains(&c) => out.push(c),
			c => write!(out, "\\u{{{:x}}}", c as u32).unwrap(),
		}
	}
	out
}

pub fn unescape(s: &str) -> String {
	let mut out = String::new();
	let mut it = s.chars();
	while let Some(c) = it.next() {
		if c != '\\' {
			out.push(c);
			continue;
		}
		match it.next() {
			Some('n') => out.push('\n'),
			Some('r') => out.push('\r'),
			Some('t') => out.push('\t'),
			Some('u') => {
				let hex: String = it.by_ref().skip(1).take_while(|&c| c != '}').collect();
				out.push(char::from_u32(u32::from_str_radix(&hex, 16).unwrap()).unwrap());
			}
			Some(c) => out.push(c),
			None => {}
		}
	}
	out
}

/// Shrinks a failing case one deletion at a time; driven by proptest's simplify/complicate protocol or by hand.
pub struct Shrinker {
	pub best: Case,
	pub candidate: Option<Case>,
	field: usize,
	size: usize,
	pos: usize,
	progress: bool,
	/// whether numbers form a list that can lose elements
	pub nums_are_list: bool,
}

impl Shrinker {
	pub fn new(best: Case, nums_are_list: bool) -> Self {
		let mut s = Self { best, candidate: None, field: 0, size: 0, pos: 0, progress: false, nums_are_list };
		s.size = s.len(0);
		s
	}

	// fields: 0 tokens, 1 numbers, 2.. strings, then the values of numbers, then of tokens
	fn fields(&self) -> usize {
		2 + self.best.strs.len() + 2
	}

	fn len(&self, field: usize) -> usize {
		let n = self.best.strs.len();
		match field {
			0 => self.best.toks.len(),
			1 if self.nums_are_list => self.best.nums.len(),
			1 => 0,
			f if f < 2 + n => self.best.strs[f - 2].chars().count(),
			f if f == 2 + n => self.best.nums.len(),
			_ => self.best.toks.len(),
		}
	}

	fn make(&self) -> Option<Case> {
		let n = self.best.strs.len();
		let mut c = self.best.clone();
		let (a, b) = (self.pos, (self.pos + self.size).min(self.len(self.field)));
		if a >= b {
			return None;
		}
		match self.field {
			0 => {
				c.toks.drain(a..b);
			}
			1 => {
				c.nums.drain(a..b);
			}
			f if f < 2 + n => {
				c.strs[f - 2] = self.best.strs[f - 2]
					.chars()
					.enumerate()
					.filter(|(i, _)| *i < a || *i >= b)
					.map(|(_, c)| c)
					.collect();
			}
			f if f == 2 + n => {
				// values: towards 0
				for v in &mut c.nums[a..b] {
					*v /= 2;
				}
			}
			_ => {
				for t in &mut c.toks[a..b] {
					t.exp = false;
				}
			}
		}
		(c != self.best).then_some(c)
	}

	/// The last candidate still failed: keep it. Returns whether there is another candidate.
	pub fn accepted(&mut self) -> bool {
		if let Some(c) = self.candidate.take() {
			self.best = c;
			self.progress = true;
		}
		self.advance()
	}

	/// The last candidate passed: drop it.
	pub fn rejected(&mut self) -> bool {
		self.candidate = None;
		self.pos += self.size.max(1);
		self.advance()
	}

	fn advance(&mut self) -> bool {
		loop {
			let len = self.len(self.field);
			if self.pos < len && self.size > 0 {
				if let Some(c) = self.make() {
					self.candidate = Some(c);
					return true;
				}
				self.pos += self.size;
			} else if self.size > 1 {
				self.size = (self.size.min(len.max(1)) / 2).max(1);
				self.pos = 0;
			} else {
				self.field += 1;
				if self.field >= self.fields() {
					if !self.progress {
						return false;
					}
					self.progress = false;
					self.field = 0;
				}
				self.size = self.len(self.field);
				self.pos = 0;
			}
		}
	}
}
