//! C01–C05: text into words.

use super::MORPH_LIMIT;
use crate::case::Case;
use crate::engine::{Family, Obs, Outcome, Property, Tape, Tier};
use crate::gen;
use crate::lexmodel::{self, Range, Walker};
use crate::morph::{self, is_separator};
use crate::sut;

pub const PROPS: &[Property] = &[C01, C02, C03, C04, C05];

fn fail(s: impl Into<String>) -> Outcome {
	Outcome::Fail(s.into())
}

// --- texts ---------------------------------------------------------------------------------------------------------

/// Every short string over all letters.
const WIDE: &[&str] = &[
	"a", "e", "i", "o", "u", "y", "'", "h", ",", "b", "c", "d", "f", "g", "j", "k", "l", "m", "n", "p", "r", "s", "t",
	"v", "x", "z", "A", "I", "7", ".", "q",
];
/// Longer strings over the letters that matter most for where words end.
const NARROW: &[&[&str]] = &[
	&["a", "i", "'", "y", "k", "l", "n", "r", "s"],
	&["a", "u", "A", "b", "c", "r", "t", ","],
	&["e", "i", "o", "m", "n", "l", "z", "d"],
	&["a", "i", "u", "'", "o", "I", "k"],
	&["ba", "kla", "ma", "ra", "y", "li", "'u", "n", "tci", "bau"],
	&["to", "sy", "ma", "bru", "tos", "slin", "ku'i", "I", "r", "cai"],
	&["le", "nu", "i", "ja", "cmi", "spa", "ge", "ti", "LE", "n"],
];

pub fn wide(i: u64) -> Case {
	Case::new("short").str(gen::nth_string(i, WIDE))
}

fn narrow_sizes(per: u64) -> Vec<u64> {
	NARROW
		.iter()
		.map(|a| {
			let mut len = 1;
			while gen::strings_up_to(len + 1, a) <= per {
				len += 1;
			}
			gen::strings_up_to(len, a)
		})
		.collect()
}

const NARROW_QUICK: u64 = 9_000;
const NARROW_THOROUGH: u64 = 800_000;

fn narrow(mut i: u64, per: u64) -> Case {
	for (a, n) in NARROW.iter().zip(narrow_sizes(per)) {
		if i < n {
			return Case::new("short").str(gen::nth_string(i, a));
		}
		i -= n;
	}
	unreachable!()
}

pub fn narrow_quick(i: u64) -> Case {
	narrow(i, NARROW_QUICK)
}
pub fn narrow_thorough(i: u64) -> Case {
	narrow(i, NARROW_THOROUGH)
}

pub fn chunk_case(t: &mut Tape<'_>) -> Case {
	Case::new("chunk").str(gen::chunk(t))
}
pub fn text_case(t: &mut Tape<'_>) -> Case {
	Case::new("text").str(gen::text(t, 8, false))
}
pub fn junk_case(t: &mut Tape<'_>) -> Case {
	Case::new("junk").str(gen::text(t, 6, true))
}

/// Thousands of chunks out of a small stock.
pub fn big_case(t: &mut Tape<'_>) -> Case {
	let mut stock: Vec<String> = (0..t.range(1, 12)).map(|_| gen::chunk(t)).collect();
	if t.chance(1, 3) {
		stock.push(gen::junk(t));
	}
	if t.chance(1, 3) {
		stock.push(String::new());
	}
	let mut size = 300;
	while size < 200_000 && t.chance(4, 5) {
		size *= 2;
	}
	let mut o = String::new();
	while o.len() < size {
		o.push_str(t.pick(&stock));
		o.push_str(if t.chance(9, 10) { " " } else { t.pick(gen::PAUSES) });
	}
	Case::new("big").str(o)
}

/// A single long chunk.
pub fn long_chunk_case(t: &mut Tape<'_>) -> Case {
	let mut stock: Vec<&str> = Vec::new();
	for _ in 0..t.range(1, 4) {
		stock.push(*t.pick(&gen::words().official));
	}
	let mut n = 8;
	while n < 1500 && t.chance(3, 4) {
		n *= 2;
	}
	let mut o = String::new();
	for _ in 0..t.range(n / 2, n) {
		match t.below(40) {
			0 => o.push_str(t.pick(&gen::words().gismu)),
			1 => o.push_str(&gen::commas(t, "le'e")),
			2 => o.push_str("yyy"),
			3 => o.push('3'),
			_ => o.push_str(*t.pick(&stock)),
		}
	}
	Case::new("long").str(gen::decorate(t, o))
}

pub fn corpus_case(t: &mut Tape<'_>) -> Case {
	let mut s = String::new();
	for i in 0..t.range(1, 3) {
		if i > 0 {
			s.push_str(&gen::pause(t));
		}
		s.push_str(*t.pick(gen::corpus()));
	}
	if t.chance(1, 3) {
		// run words together
		s = s.chars().filter(|c| *c != ' ' || t.chance(1, 2)).collect();
	}
	Case::new("corpus").str(gen::decorate(t, s))
}

/// Many pauses somewhere.
pub fn far_case(t: &mut Tape<'_>) -> Case {
	let text = gen::text(t, 5, true);
	gen::far(t, text)
}

fn text_families(tier: Tier, scale: u64) -> Vec<Family> {
	let q = tier == Tier::Quick;
	let m = if q { scale } else { scale * 30 };
	let wide_n = gen::strings_up_to(if q { 3 } else { 4 }, WIDE);
	let narrow_n: u64 = narrow_sizes(if q { NARROW_QUICK } else { NARROW_THOROUGH }).iter().sum();
	vec![
		Family::enumerate("all short strings", wide_n, wide),
		Family::enumerate("all strings over few syllables", narrow_n, if q { narrow_quick } else { narrow_thorough }),
		Family::random("chunks", 25 * m, chunk_case),
		Family::random("texts", 8 * m, text_case),
		Family::random("texts with other characters", 6 * m, junk_case),
		Family::random("example sentences", 3 * m, corpus_case),
		Family::random("big texts", m / 20, big_case),
		Family::random("long chunks", m / 5, long_chunk_case),
		Family::random("far into the text", m / 5, far_case),
		Family::enumerate("far into the text, at special places", gen::FAR_FIXED, gen::far_fixed),
	]
}

const COST: &str = "texts whose reference morphology predicts more than 3 million rule applications are skipped (counted as discarded)";

// --- C01 -----------------------------------------------------------------------------------------------------------

const C01: Property = Property {
	id: "C01",
	rule: "all strings up to a length over several alphabets, generated chunks and texts (words, syllables, junk, any Unicode; the same stretch again in another spelling), big texts, texts moved by up to 32 million bytes; non-trivial: at least two words, or something that is not in any word",
	assumptions: &[COST],
	families: |tier| text_families(tier, 3_000),
	check: c01,
	nums_are_list: false,
};

/// What is wrong with the words given for a text, if anything.
pub fn tiling_error(text: &str, words: &[Range]) -> Option<String> {
	let mut prev = 0;
	for (i, &(a, b)) in words.iter().enumerate() {
		if a >= b {
			return Some(format!("word {i} is empty: {a}..{b}"));
		}
		if b > text.len() || !text.is_char_boundary(a) || !text.is_char_boundary(b) {
			return Some(format!("word {i} at {a}..{b} does not lie on characters of the text"));
		}
		if a < prev {
			return Some(format!("word {i} at {a}..{b} starts before the previous one ends at {prev}"));
		}
		let between = &text[prev..a];
		// commas before a word belong to it, those at the end of a chunk to nothing
		if let Some(c) = between.chars().find(|&c| !is_separator(c) && c != ',') {
			return Some(format!("{c:?} in {prev}..{a} is in no word"));
		}
		if between.ends_with(',') {
			return Some(format!("commas right before the word at {a}..{b} are not part of it"));
		}
		let word = &text[a..b];
		if word.chars().any(is_separator) {
			return Some(format!("there is a pause in the word at {a}..{b}"));
		}
		if word.ends_with(',') {
			return Some(format!("the word at {a}..{b} ends with a comma"));
		}
		prev = b;
	}
	if let Some(c) = text[prev..].chars().find(|&c| !is_separator(c) && c != ',') {
		return Some(format!("{c:?} at the end, after {prev}, is in no word"));
	}
	None
}

fn c01(case: &Case, obs: &mut Obs) -> Outcome {
	let text = &*case.text();
	let Some(model) = morph::decompose(text, MORPH_LIMIT) else { return Outcome::Discard };
	let mut it = sneturfahi::decompose(text);
	let words: Vec<Range> = it.by_ref().map(sut::range).collect();
	if (0..3).any(|_| it.next().is_some()) {
		return fail("a word came after the end");
	}
	if let Some(e) = tiling_error(text, &words) {
		return fail(e);
	}
	let total: usize = words.iter().map(|w| w.1 - w.0).sum();
	let _ = model;
	obs.label(match words.len() {
		0 => "words: 0",
		1 => "words: 1",
		2..=5 => "words: 2-5",
		6..=50 => "words: 6-50",
		_ => "words: more than 50",
	});
	if text.len() > 65536 {
		obs.label("text longer than 64 KiB");
	}
	Outcome::Pass(words.len() >= 2 || total < text.len())
}

// --- C02 -----------------------------------------------------------------------------------------------------------

const C02: Property = Property {
	id: "C02",
	rule: "as for C01, compared with a reference evaluation of the morphology grammar (data/morphology.peg); non-trivial: at least two words in some chunk, or a brivla or cmevla among the words",
	assumptions: &[COST, "the reference grammar was transcribed from the published rules this library follows and cross-checked against gismu and lujvo shapes"],
	families: |tier| text_families(tier, 3_200),
	check: c02,
	nums_are_list: false,
};

fn c02(case: &Case, obs: &mut Obs) -> Outcome {
	let text = &*case.text();
	let Some(model) = morph::decompose(text, MORPH_LIMIT) else { return Outcome::Discard };
	let words = sut::decompose(text);
	if words != model.words {
		let i = words.iter().zip(&model.words).take_while(|(a, b)| a == b).count();
		let show = |w: Option<&Range>| w.map_or("nothing".to_owned(), |w| format!("{w:?} {:?}", text.get(w.0..w.1)));
		return fail(format!("word {i} is {}, should be {}", show(words.get(i)), show(model.words.get(i))));
	}
	let chunks = text.split(is_separator).filter(|c| !c.trim_matches(',').is_empty()).count();
	if words.len() > chunks {
		obs.label("some chunk falls apart into words");
	}
	Outcome::Pass(words.len() > chunks || words.iter().any(|w| w.1 - w.0 >= 5))
}

// --- C03 -----------------------------------------------------------------------------------------------------------

const C03: Property = Property {
	id: "C03",
	rule: "texts with every run of pauses replaced by another one, texts joined with a pause, and every character as a possible pause; non-trivial: at least two chunks",
	assumptions: &[COST],
	families: |tier| {
		let m = if tier == Tier::Quick { 1 } else { 30 };
		vec![
			Family::enumerate("every character, in blocks of 256", 0x1100, |i| Case::new("chars").num(i as i64 * 256).num(256)),
			Family::random("other pauses", 22_000 * m, c03_repause),
			Family::random("joined texts", 22_000 * m, c03_join),
			Family::random("big texts", 50 * m, |t| {
				let c = big_case(t);
				Case::new("join").str(c.strs[0].clone()).str(gen::pause(t)).str(gen::text(t, 6, true))
			}),
		]
	},
	check: c03,
	nums_are_list: false,
};

fn c03_repause(t: &mut Tape<'_>) -> Case {
	let text = match t.below(3) {
		0 => gen::text(t, 8, false),
		1 => gen::text(t, 6, true),
		_ => corpus_case(t).strs[0].clone(),
	};
	let mut o = if t.chance(1, 2) { gen::pause(t) } else { String::new() };
	for (i, c) in text.split(is_separator).filter(|c| !c.is_empty()).enumerate() {
		if i > 0 {
			o.push_str(&gen::pause(t));
		}
		o.push_str(c);
	}
	if t.chance(1, 2) {
		o.push_str(&gen::pause(t));
	}
	Case::new("repause").str(text).str(o)
}

fn c03_join(t: &mut Tape<'_>) -> Case {
	let a = if t.chance(1, 2) { gen::text(t, 4, true) } else { gen::chunk(t) };
	let b = match t.below(5) {
		0 | 1 => gen::text(t, 4, true),
		2 | 3 => gen::chunk(t),
		_ => {
			let last = a.split(is_separator).next_back().unwrap_or("");
			gen::echo(t, last)
		}
	};
	Case::new("join").str(a).str(gen::pause(t)).str(b)
}

fn chunks_of(s: &str) -> Vec<&str> {
	s.split(is_separator).filter(|c| !c.is_empty()).collect()
}

/// Whether the character separates words exactly if it is one of the pauses.
fn check_char(c: char) -> Result<bool, String> {
	let want = is_separator(c);
	if sneturfahi::decompose::split_or_trim_condition(c) != want {
		return Err(format!("{c:?} is {}a pause", if want { "" } else { "not " }));
	}
	if c == ',' {
		return Ok(false);
	}
	// the whole texts for all that look like a pause in some sense and a part of the others
	let n = c as u32;
	let suspicious = c.is_whitespace() || c.is_control() || n < 0x250 || (0x2000..0x2100).contains(&n) || (0x3000..0x3010).contains(&n);
	if !suspicious && n % 127 != 7 {
		return Ok(false);
	}
	let text = format!("klama{c}nanmu");
	let words = sut::decompose(&text);
	let apart = words.iter().any(|w| w.1 == 5) && words.iter().any(|w| w.0 == 5 + c.len_utf8());
	if want && (!apart || words.len() != 2) {
		return Err(format!("{c:?} does not separate words: {words:?}"));
	}
	let words = sut::decompose(&c.to_string());
	if want != words.is_empty() {
		return Err(format!("{c:?} alone gives {words:?}"));
	}
	Ok(want || !c.is_ascii())
}

fn c03(case: &Case, obs: &mut Obs) -> Outcome {
	obs.label(&case.kind);
	match case.kind.as_str() {
		"chars" => {
			let mut nontrivial = false;
			for n in case.nums[0]..case.nums[0] + case.nums[1].min(256) {
				let Some(c) = u32::try_from(n).ok().and_then(char::from_u32) else { continue };
				match check_char(c) {
					Ok(x) => nontrivial |= x,
					Err(e) => return fail(e),
				}
			}
			Outcome::Pass(nontrivial)
		}
		"repause" => {
			let (a, b) = (&case.strs[0], &case.strs[1]);
			// shrinking may have taken letters away
			if chunks_of(a) != chunks_of(b) {
				return Outcome::Discard;
			}
			if morph::decompose(a, MORPH_LIMIT).is_none() {
				return Outcome::Discard;
			}
			let wa: Vec<&str> = sut::decompose(a).iter().map(|w| &a[w.0..w.1]).collect();
			let wb: Vec<&str> = sut::decompose(b).iter().map(|w| &b[w.0..w.1]).collect();
			if wa != wb {
				return fail(format!("other pauses give other words: {wa:?} and {wb:?}"));
			}
			Outcome::Pass(chunks_of(a).len() >= 2 && a != b)
		}
		_ => {
			let (a, p, b) = (&case.strs[0], &case.strs[1], &case.strs[2]);
			if p.is_empty() || !p.chars().all(is_separator) {
				return Outcome::Discard;
			}
			let joined = format!("{a}{p}{b}");
			if morph::decompose(&joined, MORPH_LIMIT).is_none() {
				return Outcome::Discard;
			}
			let off = a.len() + p.len();
			let mut want = sut::decompose(a);
			let (na, wb) = (want.len(), sut::decompose(b));
			let nb = wb.len();
			want.extend(wb.iter().map(|w| (w.0 + off, w.1 + off)));
			let got = sut::decompose(&joined);
			if got != want {
				return fail(format!("joined: {got:?}, one by one: {want:?}"));
			}
			Outcome::Pass(na >= 1 && nb >= 1)
		}
	}
}

// --- C04 -----------------------------------------------------------------------------------------------------------

const C04: Property = Property {
	id: "C04",
	rule: "texts respelled: commas put in or taken out, h for ', capital or small consonants; non-trivial: the spelling changed and there is more than one word or a brivla",
	assumptions: &[COST, "with words that start quotes of foreign text, tokens are compared only if nothing but commas differs"],
	families: |tier| {
		let m = if tier == Tier::Quick { 1 } else { 30 };
		vec![
			Family::random("chunks", 20_000 * m, |t| {
				let c = gen::chunk(t);
				respell(t, c)
			}),
			Family::random("texts", 6_700 * m, |t| {
				let c = gen::text(t, 6, true);
				respell(t, c)
			}),
			Family::random("words", 6_700 * m, |t| {
				let w = gen::words();
				let list = if t.chance(1, 2) { &w.cmavo } else { &w.official };
				let c = (*t.pick(list)).to_owned();
				let c = if t.chance(1, 2) { c } else { t.pick(&w.all).clone() };
				respell(t, c)
			}),
			Family::random("example sentences", 2_200 * m, |t| {
				let c = corpus_case(t).strs[0].clone();
				respell(t, c)
			}),
			Family::random("quotes, with commas", 12_000 * m, |t| {
				let c = super::lexing::quote_text(t).strs[0].clone();
				put_commas(t, c)
			}),
		]
	},
	check: c04,
	nums_are_list: false,
};

fn put_commas(t: &mut Tape<'_>, text: String) -> Case {
	let dense = *t.pick(&[2, 5, 12]);
	let mut o = String::new();
	for c in text.chars() {
		if c == ',' && t.chance(1, 2) {
			continue;
		}
		let sep = is_separator(c);
		if !sep && t.chance(1, dense) {
			for _ in 0..gen::comma_run(t) {
				o.push(',');
			}
		}
		o.push(c);
		if !sep && t.chance(1, dense * 2) {
			o.push(',');
		}
	}
	Case::new("commas").str(text).str(o)
}

/// The tokens and the error, apart from commas in them.
fn without_commas(text: &str) -> (Vec<(u16, bool, String)>, Option<(u8, Vec<String>)>) {
	let bare = |a: usize, b: usize| text[a..b].replace(',', "");
	let l = sut::lex(text);
	let error = l.error.map(|e| match e {
		lexmodel::MErr::MissingSeparator { initiator: i } => (0, vec![bare(i.0, i.1)]),
		lexmodel::MErr::PauseEof { initiator: i } => (1, vec![bare(i.0, i.1)]),
		lexmodel::MErr::Unclosed { initiator: i, delimiter: d } => (2, vec![bare(i.0, i.1), bare(d.0, d.1)]),
	});
	(l.tokens.iter().map(|t| (t.sm, t.exp, bare(t.start as usize, t.end as usize))).collect(), error)
}

fn respell(t: &mut Tape<'_>, text: String) -> Case {
	let (commas, h, caps) = (t.chance(2, 3), t.chance(2, 3), t.chance(2, 3));
	let dense = *t.pick(&[2, 5, 12]);
	let mut o = String::new();
	for c in text.chars() {
		let sep = is_separator(c);
		if commas && !sep && t.chance(1, dense) {
			for _ in 0..gen::comma_run(t) {
				o.push(',');
			}
		}
		match c {
			',' if commas && t.chance(1, 2) => {}
			'\'' if h && t.chance(1, 2) => o.push('h'),
			'h' if h && t.chance(1, 2) => o.push('\''),
			c if caps && morph::is_consonant(c) && t.chance(1, dense) => {
				o.push(if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() });
			}
			c => o.push(c),
		}
		if commas && !sep && t.chance(1, dense * 2) {
			o.push(',');
		}
	}
	Case::new("respelled").str(text).str(o)
}

/// A word as far as these spellings are concerned.
fn canonical(s: &str) -> String {
	s.chars()
		.filter(|&c| c != ',')
		.map(|c| match c {
			'h' => '\'',
			c if morph::is_consonant(c) => c.to_ascii_lowercase(),
			c => c,
		})
		.collect()
}

fn c04(case: &Case, obs: &mut Obs) -> Outcome {
	let (a, b) = (&case.strs[0], &case.strs[1]);
	let chunks = |s: &str| -> Vec<String> {
		s.split(is_separator).map(canonical).filter(|c| !c.is_empty()).collect()
	};
	if chunks(a) != chunks(b) {
		return Outcome::Discard;
	}
	if morph::decompose(a, MORPH_LIMIT).is_none() {
		return Outcome::Discard;
	}
	let (sa, sb) = (sut::decompose(a), sut::decompose(b));
	if sa.iter().any(|w| lexmodel::classify(&a[w.0..w.1]).2 > morph::CHUNK_LIMIT) {
		return Outcome::Discard;
	}
	let wa: Vec<String> = sa.iter().map(|w| canonical(&a[w.0..w.1])).collect();
	let wb: Vec<String> = sb.iter().map(|w| canonical(&b[w.0..w.1])).collect();
	if wa != wb {
		return fail(format!("respelled text has other words: {wa:?} and {wb:?}"));
	}
	for ((x, y), w) in sa.iter().zip(&sb).zip(&wa) {
		let one = class(&a[x.0..x.1]);
		let two = class(&b[y.0..y.1]);
		if one != two {
			return fail(format!("{w} is {one:?} as {:?} and {two:?} as {:?}", &a[x.0..x.1], &b[y.0..y.1]));
		}
	}
	// as tokens
	let (la, lb) = (sut::lex(a), sut::lex(b));
	let quotes = la.tokens.iter().any(|t| matches!(sut::name(t.sm), "Zoi" | "Muhoi" | "Sohehai" | "Mehoi" | "Zohoi" | "Dohoi"))
		|| la.error.is_some();
	if quotes {
		obs.label("with quoting words");
		// what is quoted and the words around it may be spelled as they like, but a comma is nothing to them either
		let bare = |s: &str| s.split(is_separator).map(|c| c.replace(',', "")).collect::<Vec<_>>();
		if bare(a) == bare(b) {
			let (ta, tb) = (without_commas(a), without_commas(b));
			if ta != tb {
				return fail(format!("with other commas it has other tokens: {ta:?} and {tb:?}"));
			}
		}
	} else {
		let ta: Vec<_> = la.tokens.iter().map(|t| (t.sm, t.exp)).collect();
		let tb: Vec<_> = lb.tokens.iter().map(|t| (t.sm, t.exp)).collect();
		if ta != tb || lb.error.is_some() {
			return fail(format!(
				"respelled text has other tokens: {:?} and {:?} {:?}",
				la.tokens.iter().map(|t| t.name()).collect::<Vec<_>>(),
				lb.tokens.iter().map(|t| t.name()).collect::<Vec<_>>(),
				lb.error
			));
		}
	}
	Outcome::Pass(a != b && (wa.len() > 1 || wa.iter().any(|w| w.len() >= 5)))
}

/// Kind and whether experimental of a single word.
pub fn class(word: &str) -> (String, bool) {
	let c = sneturfahi::lex::Selmaho::classify(word);
	(format!("{:?}", c.0), c.1)
}

// --- C05 -----------------------------------------------------------------------------------------------------------

const C05: Property = Property {
	id: "C05",
	rule: "histories of taking a word, taking everything up to the next pause, asking for the size hint, cloning and going on with either copy; non-trivial: a stretch without decomposition is taken in the middle of a chunk, or a clone is used",
	assumptions: &[COST],
	families: |tier| {
		let m = if tier == Tier::Quick { 1 } else { 40 };
		vec![
			Family::random("histories", 87_000 * m, |t| {
				let text = match t.below(4) {
					0 => gen::text(t, 5, true),
					1 => corpus_case(t).strs[0].clone(),
					_ => gen::text(t, 6, false),
				};
				history(t, text, 24)
			}),
			Family::random("long histories", 160 * m, |t| {
				let text = big_case(t).strs[0].chars().take(3000).collect();
				history(t, text, 800)
			}),
		]
	},
	check: c05,
	nums_are_list: true,
};

fn history(t: &mut Tape<'_>, text: String, max: usize) -> Case {
	let mut c = Case::new("history").str(text);
	let raw = t.range(1, 3);
	for _ in 0..=t.size(max) {
		c.nums.push(t.weighted(&[4, raw, 1, 1, 1]) as i64);
	}
	c
}

fn c05(case: &Case, obs: &mut Obs) -> Outcome {
	let text = &case.strs[0];
	if morph::decompose(text, MORPH_LIMIT).is_none() {
		return Outcome::Discard;
	}
	let mut sut_it = sneturfahi::decompose(text);
	let mut model = Walker::new(text);
	let mut interesting = false;
	let mut in_chunk = false;
	for (step, op) in case.nums.iter().enumerate() {
		match op {
			0 => {
				let (got, want) = (sut_it.next().map(sut::range), model.next_word());
				if got != want {
					return fail(format!("step {step}: next word {got:?}, should be {want:?}"));
				}
				in_chunk = want.is_some_and(|w| text[w.1..].starts_with(|c| !is_separator(c) && c != ','));
			}
			1 => {
				let (got, want) = (sut_it.next_no_decomposition().map(sut::range), model.next_raw());
				if got != want {
					return fail(format!("step {step}: rest of the chunk {got:?}, should be {want:?}"));
				}
				interesting |= in_chunk;
				if in_chunk {
					obs.label("rest of a chunk taken after a word of it");
				}
				in_chunk = false;
			}
			2 => {
				let (low, high) = sut_it.size_hint();
				let left = model.remaining();
				if low > left || high.is_some_and(|h| h < left) {
					return fail(format!("step {step}: size hint {low}..{high:?} with {left} words left"));
				}
			}
			3 => {
				let rest: Vec<Range> = sut_it.clone().map(sut::range).collect();
				let mut m = model.clone();
				let want: Vec<Range> = std::iter::from_fn(|| m.next_word()).collect();
				if rest != want {
					return fail(format!("step {step}: a copy goes on with {rest:?}, should be {want:?}"));
				}
				interesting = true;
			}
			_ => {
				// go on with the copy after the original was used up
				let copy = sut_it.clone();
				for _ in sut_it.by_ref().take(2) {}
				let _ = sut_it.next_no_decomposition();
				sut_it = copy;
				interesting = true;
			}
		}
	}
	Outcome::Pass(interesting)
}
