//! Reference model of the decomposition of text into words and of the morphological classes of words.
//!
//! Works on the letters of a chunk (the stretch between two pauses) with commas taken out, on top of the morphology
//! grammar in `data/morphology.peg`.

use crate::peg::{Grammar, Session};
use std::collections::HashMap;
use std::sync::OnceLock;

pub const SEPARATORS: &str = ". \t\n\r?!";

pub fn is_separator(c: char) -> bool {
	SEPARATORS.contains(c)
}

pub struct Morphology {
	grammar: Grammar,
	cmavo_minimal: usize,
	es_brivla: usize,
	nucleus: usize,
	gismu: usize,
	fuhivla: usize,
	lujvo_minimal: usize,
	cmevla: usize,
	lojban_word: usize,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Class {
	Cmevla,
	Cmavo,
	Gismu,
	Fuhivla,
	Lujvo,
	AnyText,
}

/// A word of a chunk: byte range in the chunk.
pub type Word = (usize, usize);

#[derive(Debug, Clone)]
pub struct ChunkModel {
	pub words: Vec<Word>,
	/// predicted number of rule applications of an evaluation without memoisation
	pub cost: u64,
}

pub fn get() -> &'static Morphology {
	static M: OnceLock<Morphology> = OnceLock::new();
	M.get_or_init(|| {
		let grammar = Grammar::parse(include_str!("../data/morphology.peg"));
		let r = |n: &str| grammar.rule(n);
		Morphology {
			cmavo_minimal: r("cmavo_minimal"),
			es_brivla: r("es_brivla"),
			nucleus: r("nucleus"),
			gismu: r("gismu"),
			fuhivla: r("fuhivla"),
			lujvo_minimal: r("lujvo_minimal"),
			cmevla: r("cmevla"),
			lojban_word: r("lojban_word"),
			grammar,
		}
	})
}

pub fn is_consonant(c: char) -> bool {
	"bcdfgjklmnprstvxz".contains(c.to_ascii_lowercase())
}

/// Letters without commas, and for each of them the byte offset where the letter *with the commas before it* starts
/// and where the letter ends.
fn letters(chunk: &str) -> (Vec<char>, Vec<(usize, usize)>) {
	let mut cs = Vec::new();
	let mut at = Vec::new();
	let mut start = None;
	for (i, c) in chunk.char_indices() {
		let s = *start.get_or_insert(i);
		if c != ',' {
			cs.push(c);
			at.push((s, i + c.len_utf8()));
			start = None;
		}
	}
	(cs, at)
}

impl Morphology {
	/// Decompose one chunk (no separators inside).
	pub fn chunk(&self, chunk: &str) -> ChunkModel {
		let (cs, at) = letters(chunk);
		if cs.is_empty() {
			return ChunkModel { words: vec![], cost: 0 };
		}
		let n = cs.len();
		if is_consonant(cs[n - 1]) {
			return ChunkModel { words: vec![(at[0].0, at[n - 1].1)], cost: 1 };
		}
		let mut s = self.grammar.session(cs);
		let mut cost = 0u64;
		let mut cuts: Vec<(usize, usize)> = Vec::new();
		let mut pos = 0;
		let mut pending: Option<(usize, usize)> = None;
		loop {
			let mut next = self.apply(&mut s, self.cmavo_minimal, pos, &mut cost);
			if next.is_none() {
				next = self.apply(&mut s, self.es_brivla, pos, &mut cost);
			}
			let Some(next) = next else { break };
			if let Some(p) = pending.replace((pos, next)) {
				cuts.push(p);
			}
			pos = next;
		}
		let mut rest = pos;
		if let Some(p) = pending {
			// the last word that fell off stands only if a word can start after it
			let ok = self.apply(&mut s, self.nucleus, pos, &mut cost).is_none()
				&& [self.gismu, self.fuhivla, self.lujvo_minimal, self.cmavo_minimal]
					.into_iter()
					.any(|r| self.apply(&mut s, r, pos, &mut cost).is_some());
			if ok {
				cuts.push(p);
			} else {
				rest = p.0;
			}
		}
		if rest < n {
			cuts.push((rest, n));
		}
		let words = cuts.into_iter().map(|(a, b)| (at[a].0, at[b - 1].1)).collect();
		ChunkModel { words, cost }
	}

	fn apply(&self, s: &mut Session<'_>, rule: usize, pos: usize, cost: &mut u64) -> Option<usize> {
		let (end, c) = s.apply(rule, pos);
		*cost = cost.saturating_add(c);
		end
	}

	/// Morphological class of a word, and the predicted cost.
	pub fn class(&self, word: &str) -> (Class, u64) {
		let (cs, _) = letters(word);
		let n = cs.len();
		let mut s = self.grammar.session(cs);
		let mut cost = 0;
		for (rule, class) in [
			(self.cmevla, Class::Cmevla),
			(self.cmavo_minimal, Class::Cmavo),
			(self.gismu, Class::Gismu),
			(self.fuhivla, Class::Fuhivla),
			(self.lujvo_minimal, Class::Lujvo),
		] {
			if self.apply(&mut s, rule, 0, &mut cost) == Some(n) {
				return (class, cost);
			}
		}
		(Class::AnyText, cost)
	}

	/// The `lojban_word` rule of the grammar applied at the start.
	pub fn lojban_word(&self, letters: &str) -> Option<usize> {
		let cs: Vec<char> = letters.chars().collect();
		self.grammar.session(cs).apply(self.lojban_word, 0).0
	}
}

/// Chunks of a text: byte ranges between separators, empty ones included.
pub fn chunks(text: &str) -> Vec<(usize, usize)> {
	let mut out = Vec::new();
	let mut start = 0;
	for (i, c) in text.char_indices() {
		if is_separator(c) {
			out.push((start, i));
			start = i + c.len_utf8();
		}
	}
	out.push((start, text.len()));
	out
}

/// Chunks with a higher predicted cost are outside of what the checks explore (about 5 ms).
pub const CHUNK_LIMIT: u64 = 600_000;

/// Model of full decomposition with a cost limit; `None` when too costly.
pub struct TextModel {
	pub words: Vec<Word>,
	pub cost: u64,
}

pub fn decompose(text: &str, limit: u64) -> Option<TextModel> {
	let m = get();
	let mut words = Vec::new();
	let mut cost = 0u64;
	let mut seen: HashMap<&str, ChunkModel> = HashMap::new();
	for (a, b) in chunks(text) {
		if a == b {
			continue;
		}
		let chunk = &text[a..b];
		let c = seen.entry(chunk).or_insert_with(|| m.chunk(chunk));
		cost = cost.saturating_add(c.cost);
		if cost > limit || c.cost > CHUNK_LIMIT {
			return None;
		}
		words.extend(c.words.iter().map(|&(s, e)| (a + s, a + e)));
	}
	Some(TextModel { words, cost })
}
