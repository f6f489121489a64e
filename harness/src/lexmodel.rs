//! Reference model of the stateful word iterator, of classification and of the lexer.

use crate::gen::cmavo_table;
use crate::morph::{self, Class};
use crate::variants::ALL;
use sneturfahi::lex::Selmaho;
use std::collections::{HashMap, VecDeque};
use std::sync::OnceLock;

pub type Range = (usize, usize);

/// The word iterator: full words, or what is left up to the next pause.
#[derive(Clone)]
pub struct Walker<'t> {
	text: &'t str,
	chunks: VecDeque<Range>,
	current: VecDeque<Range>,
	current_end: usize,
	pub cost: u64,
}

impl<'t> Walker<'t> {
	pub fn new(text: &'t str) -> Self {
		Self {
			text,
			chunks: morph::chunks(text).into(),
			current: VecDeque::new(),
			current_end: 0,
			cost: 0,
		}
	}

	pub fn next_word(&mut self) -> Option<Range> {
		loop {
			if let Some(w) = self.current.pop_front() {
				return Some(w);
			}
			let (a, b) = self.chunks.pop_front()?;
			if a == b {
				continue;
			}
			let c = morph::get().chunk(&self.text[a..b]);
			self.cost = self.cost.saturating_add(c.cost);
			self.current = c.words.iter().map(|&(s, e)| (a + s, a + e)).collect();
			self.current_end = b;
		}
	}

	pub fn next_raw(&mut self) -> Option<Range> {
		if let Some((a, _)) = self.current.pop_front() {
			self.current.clear();
			Some((a, self.current_end))
		} else {
			self.chunks.pop_front()
		}
	}

	/// Number of words that `next_word` alone would still give.
	pub fn remaining(&self) -> usize {
		let mut c = self.clone();
		let mut n = 0;
		while c.next_word().is_some() {
			n += 1;
		}
		n
	}
}

/// A word with commas dropped, h written as ' and stress removed.
pub fn normalise(word: &str) -> String {
	word.chars()
		.filter(|&c| c != ',')
		.map(|c| match c {
			'h' => '\'',
			'H' => 'H',
			c => c.to_ascii_lowercase(),
		})
		.collect()
}

pub fn variant(s: Selmaho) -> usize {
	static MAP: OnceLock<Vec<usize>> = OnceLock::new();
	let m = MAP.get_or_init(|| {
		let n = ALL.iter().map(|v| v.0 as usize).max().unwrap();
		let mut m = vec![usize::MAX; n + 1];
		for (i, v) in ALL.iter().enumerate() {
			m[v.0 as usize] = i;
		}
		m
	});
	m[s as usize]
}

pub fn variant_named(name: &str) -> usize {
	static MAP: OnceLock<HashMap<&'static str, usize>> = OnceLock::new();
	let m = MAP.get_or_init(|| ALL.iter().enumerate().map(|(i, v)| (v.1, i)).collect());
	*m.get(name).unwrap_or_else(|| panic!("no selma'o {name}"))
}

fn table() -> &'static HashMap<&'static str, (&'static str, bool)> {
	static T: OnceLock<HashMap<&'static str, (&'static str, bool)>> = OnceLock::new();
	T.get_or_init(|| cmavo_table().iter().map(|&(w, s, x)| (w, (s, x))).collect())
}

/// Name of the selma'o, whether experimental, and cost.
pub fn classify(word: &str) -> (&'static str, bool, u64) {
	let n = normalise(word);
	if let Some(&(s, x)) = table().get(n.as_str()) {
		return (s, x, 0);
	}
	if !n.is_empty() && n.chars().all(|c| c == 'y') {
		return ("Y", false, 0);
	}
	let (class, cost) = morph::get().class(word);
	match class {
		Class::Cmevla => ("Cmevla", false, cost),
		Class::Cmavo => ("UnknownCmavo", true, cost),
		Class::Gismu => ("Gismu", false, cost),
		Class::Fuhivla => ("Fuhivla", false, cost),
		Class::Lujvo => ("Lujvo", false, cost),
		Class::AnyText => ("AnyText", false, cost),
	}
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct MTok {
	pub selmaho: &'static str,
	pub exp: bool,
	pub span: Range,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum MErr {
	MissingSeparator { initiator: Range },
	Unclosed { initiator: Range, delimiter: Range },
	PauseEof { initiator: Range },
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Lexed {
	pub tokens: Vec<MTok>,
	pub error: Option<MErr>,
	pub cost: u64,
}

fn without_commas(s: &str) -> String {
	s.replace(',', "")
}

/// `None` when costlier than the limit.
pub fn lex(text: &str, limit: u64) -> Option<Lexed> {
	let mut w = Walker::new(text);
	let mut out = Lexed { tokens: vec![], error: None, cost: 0 };
	let quote = |name: &'static str, span| MTok { selmaho: name, exp: false, span };
	while let Some(span) = w.next_word() {
		let (selmaho, exp, cost) = classify(&text[span.0..span.1]);
		out.cost = out.cost.saturating_add(cost);
		if cost > morph::CHUNK_LIMIT || out.cost.saturating_add(w.cost) > limit {
			return None;
		}
		let token = MTok { selmaho, exp, span };
		match selmaho {
			"Zoi" | "Muhoi" | "Sohehai" => {
				let Some(mut delimiter) = w.next_word() else {
					out.error = Some(MErr::MissingSeparator { initiator: span });
					break;
				};
				out.tokens.push(token);
				let quotes = if selmaho == "Sohehai" { 2 } else { 1 };
				for i in 0..quotes {
					let mut pieces: Vec<Range> = Vec::new();
					let wanted = without_commas(&text[delimiter.0..delimiter.1]);
					let end = loop {
						match w.next_raw() {
							None => {
								out.error = Some(MErr::Unclosed { initiator: span, delimiter });
								break None;
							}
							Some(p) if without_commas(&text[p.0..p.1]) == wanted => break Some(p),
							Some(p) => pieces.push(p),
						}
					};
					let Some(end) = end else { break };
					if i == 0 {
						out.tokens.push(quote("ZoiDelimiter", delimiter));
					}
					if let (Some(a), Some(b)) = (pieces.first(), pieces.last()) {
						out.tokens.push(quote("AnyText", (a.0, b.1)));
					}
					out.tokens.push(quote("ZoiDelimiter", end));
					delimiter = end;
				}
				if out.error.is_some() {
					break;
				}
			}
			"Mehoi" | "Zohoi" | "Dohoi" => {
				out.tokens.push(token);
				let piece = loop {
					match w.next_raw() {
						None => break None,
						Some((a, b)) if text[a..b].chars().all(|c| c == ',') => {}
						Some(p) => break Some(p),
					}
				};
				match piece {
					Some(p) => out.tokens.push(quote("AnyText", p)),
					None => {
						out.error = Some(MErr::PauseEof { initiator: span });
						break;
					}
				}
			}
			"Faho" | "Fahoho" => {
				out.tokens.push(token);
				break;
			}
			_ => out.tokens.push(token),
		}
	}
	out.cost = out.cost.saturating_add(w.cost);
	(out.cost <= limit).then_some(out)
}
