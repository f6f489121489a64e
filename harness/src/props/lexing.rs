//! C06–C13: words into tokens.

use super::decomp::{big_case, class, corpus_case, far_case};
use super::MORPH_LIMIT;
use crate::case::{Case, Tok, FILLERS, PAUSE_FILLERS};
use crate::cst::repr;
use crate::engine::{Family, Obs, Outcome, Property, Tape, Tier};
use crate::gen;
use crate::lexmodel::{self, MTok};
use crate::morph::{self, is_separator};
use crate::sut;
use crate::variants::ALL;

pub const PROPS: &[Property] = &[C06, C07, C08, C09, C10, C11, C12, C13];

fn fail(s: impl Into<String>) -> Outcome {
	Outcome::Fail(s.into())
}

const COST: &str = "texts whose reference morphology predicts more than 3 million rule applications are skipped (counted as discarded)";

pub fn quoting(name: &str) -> bool {
	matches!(name, "Zoi" | "Muhoi" | "Sohehai" | "Mehoi" | "Zohoi" | "Dohoi")
}

fn show(t: Option<&Tok>, text: &str) -> String {
	t.map_or("nothing".to_owned(), |t| {
		format!(
			"{}{} {}..{} {:?}",
			t.name(),
			if t.exp { "*" } else { "" },
			t.start,
			t.end,
			text.get(t.start as usize..t.end as usize).unwrap_or("(not a slice)")
		)
	})
}

fn same(t: &Tok, m: &MTok) -> bool {
	t.name() == m.selmaho && t.exp == m.exp && (t.start as usize, t.end as usize) == m.span
}

/// Compare with the model.
fn compare(text: &str, got: &sut::Lex, want: &lexmodel::Lexed) -> Option<String> {
	for i in 0..got.tokens.len().max(want.tokens.len()) {
		let (g, w) = (got.tokens.get(i), want.tokens.get(i));
		if !matches!((g, w), (Some(g), Some(w)) if same(g, w)) {
			return Some(format!("token {i} is {}, should be {w:?}", show(g, text)));
		}
	}
	if got.error != want.error {
		return Some(format!("error is {:?}, should be {:?}", got.error, want.error));
	}
	if got.more {
		return Some("something came after the end".to_owned());
	}
	None
}

// --- C06 -----------------------------------------------------------------------------------------------------------

const C06: Property = Property {
	id: "C06",
	rule: "every cmavo of the word list in its plain spelling, respelled (commas, h, stress, capitals) and in context (alone, after other cmavo without a pause, before a brivla), all CV, CVV, CV'V and longer cmavo shapes against the list, runs of y; every kind of token; non-trivial: the word is in the list, or has the shape of a cmavo",
	assumptions: &["the word list (data/cmavo.tsv, 1363 words) was checked against the official selma'o lists from memory; its experimental words are those of this library"],
	families: |tier| {
		let m = if tier == Tier::Quick { 1 } else { 30 };
		vec![
			Family::enumerate("every listed word", gen::cmavo_table().len() as u64, |i| {
				Case::new("word").str(gen::cmavo_table()[i as usize].0)
			}),
			Family::enumerate("every listed word in capitals", gen::cmavo_table().len() as u64, |i| {
				Case::new("word").str(gen::cmavo_table()[i as usize].0.to_ascii_uppercase())
			}),
			Family::enumerate("every listed word with h", gen::cmavo_table().len() as u64, |i| {
				Case::new("word").str(gen::cmavo_table()[i as usize].0.replace('\'', "h"))
			}),
			Family::enumerate("every listed word with commas", gen::cmavo_table().len() as u64, |i| {
				let w = gen::cmavo_table()[i as usize].0;
				Case::new("word").str(w.chars().map(|c| format!(",{c}")).collect::<String>())
			}),
			Family::enumerate("every listed word before every kind of word", gen::cmavo_table().len() as u64 * 6, |i| {
				let w = gen::cmavo_table()[(i / 6) as usize].0;
				let next = ["klama", "le", "broda", "uenzi", ".djan", "y"][(i % 6) as usize];
				Case::new("text").str(format!("{w}{next}"))
			}),
			Family::enumerate("every listed word after every kind of word", gen::cmavo_table().len() as u64 * 6, |i| {
				let w = gen::cmavo_table()[(i / 6) as usize].0;
				let prev = ["klama", "le", "y", "djan.", "y'y", "lojbo,"][(i % 6) as usize];
				Case::new("text").str(format!("{prev}{w}"))
			}),
			Family::enumerate("all cmavo shapes", shapes(), shape),
			Family::enumerate("kinds of tokens", ALL.len() as u64, |i| Case::new("kind").num(i as i64)),
			Family::enumerate("runs of y", 600, |i| {
				let w = "y".repeat(i as usize + 1);
				Case::new("word").str(if i % 3 == 0 { w.to_ascii_uppercase() } else { w })
			}),
			Family::random("respelled", 32_000 * m, |t| {
				let w = (*t.pick(&gen::words().cmavo)).to_owned();
				let w = gen::stress(t, &w);
				let w = if t.chance(1, 2) { gen::h_spelling(t, &w) } else { w };
				let w = if t.chance(1, 2) { gen::commas(t, &w) } else { w };
				Case::new("word").str(w)
			}),
			Family::random("in context", 32_000 * m, |t| {
				let mut o = String::new();
				for _ in 0..t.range(1, 6) {
					let w = *t.pick(&gen::words().cmavo);
					o.push_str(&gen::decorate(t, w.to_owned()));
					if t.chance(1, 3) {
						o.push_str(&gen::pause(t));
					}
				}
				if t.chance(1, 3) {
					o.push_str(t.pick(&gen::words().gismu));
				}
				Case::new("text").str(o)
			}),
		]
	},
	check: c06,
	nums_are_list: false,
};

/// Nuclei of cmavo, without and with a second half.
fn nuclei() -> Vec<&'static str> {
	let mut v: Vec<&str> = vec!["a", "e", "i", "o", "u", "y", "ai", "au", "ei", "oi"];
	v.extend(["ia", "ie", "ii", "io", "iu", "ua", "ue", "ui", "uo", "uu", "iy", "uy"]);
	v
}

const ONSETS: &[&str] =
	&["", "b", "c", "d", "f", "g", "j", "k", "l", "m", "n", "p", "r", "s", "t", "v", "x", "z", "i", "u"];

fn shapes() -> u64 {
	let n = nuclei().len() as u64;
	ONSETS.len() as u64 * (n + n * n)
}

fn shape(i: u64) -> Case {
	let v = nuclei();
	let n = v.len() as u64;
	let onset = ONSETS[(i % ONSETS.len() as u64) as usize];
	let j = i / ONSETS.len() as u64;
	let w = if j < n {
		format!("{onset}{}", v[j as usize])
	} else {
		let k = j - n;
		format!("{onset}{}'{}", v[(k % n) as usize], v[(k / n) as usize])
	};
	Case::new("word").str(w)
}

fn c06(case: &Case, obs: &mut Obs) -> Outcome {
	obs.label(&case.kind);
	match case.kind.as_str() {
		"kind" => {
			let (s, name, experimental) = ALL[case.nums[0] as usize];
			let want = repr(name);
			if s.as_repr() != want || s.to_string() != want {
				return fail(format!("{s:?} is shown as {:?} and {s}, should be {want}", s.as_repr()));
			}
			if s.is_fundamentally_experimental() != experimental {
				return fail(format!("{s:?} should {}be fundamentally experimental", if experimental { "" } else { "not " }));
			}
			// an official word belongs to an official selma'o
			if experimental {
				if let Some(w) = gen::cmavo_table().iter().find(|w| w.1 == name && !w.2) {
					return fail(format!("{} is official, its selma'o is not", w.0));
				}
			}
			Outcome::Pass(true)
		}
		"word" => {
			let word = &case.strs[0];
			let (want, exp, cost) = lexmodel::classify(word);
			if cost > MORPH_LIMIT || word.chars().any(is_separator) {
				return Outcome::Discard;
			}
			let got = class(word);
			if got != (want.to_owned(), exp) {
				return fail(format!("{word:?} is {got:?}, should be {want} {exp}"));
			}
			// as a text of its own; commas around it are not part of a word
			let Some(model) = lexmodel::lex(word, MORPH_LIMIT) else { return Outcome::Discard };
			if let Some(e) = compare(word, &sut::lex(word), &model) {
				return fail(e);
			}
			obs.label(if exp { "experimental" } else { "official" });
			Outcome::Pass(!matches!(want, "AnyText" | "Cmevla" | "Gismu" | "Lujvo" | "Fuhivla"))
		}
		_ => {
			let text = &case.strs[0];
			let Some(model) = lexmodel::lex(text, MORPH_LIMIT) else { return Outcome::Discard };
			if let Some(e) = compare(text, &sut::lex(text), &model) {
				return fail(e);
			}
			Outcome::Pass(model.tokens.len() > 1)
		}
	}
}

// --- C07 -----------------------------------------------------------------------------------------------------------

const C07: Property = Property {
	id: "C07",
	rule: "all CVCCV and CCVCV strings against the tables of permissible consonant pairs, all short strings over several alphabets, generated and damaged words, against the reference morphology; non-trivial: not a cmavo and not any text",
	assumptions: &[COST, "gismu shapes are decided independently of the grammar by the published pair tables"],
	families: |tier| {
		let q = tier == Tier::Quick;
		let m = if q { 1 } else { 30 };
		vec![
			Family::enumerate("all CVCCV", 17 * 5 * 17 * 17 * 5, |i| gismu_shape(i, true)),
			Family::enumerate("all CCVCV", 17 * 17 * 5 * 17 * 5, |i| gismu_shape(i, false)),
			Family::enumerate("all short strings", gen::strings_up_to(if q { 3 } else { 4 }, WORD_LETTERS), |i| {
				Case::new("word").str(gen::nth_string(i, WORD_LETTERS))
			}),
			Family::enumerate(
				"all strings of rafsi and gismu parts",
				gen::strings_up_to(if q { 3 } else { 5 }, PARTS),
				|i| Case::new("word").str(gen::nth_string(i, PARTS)),
			),
			Family::random("made-up words", 20_000 * m, |t| Case::new("word").str(gen::chunk(t).replace([' ', '.'], ""))),
			Family::random("known words, changed", 10_000 * m, |t| {
				let w = t.pick(&gen::words().all).clone();
				let w = if t.chance(1, 2) { gen::decorate(t, w) } else { w };
				let mut cs: Vec<char> = w.chars().collect();
				if t.chance(2, 3) && !cs.is_empty() {
					let i = t.below(cs.len());
					cs[i] = t.pick(WORD_LETTERS).chars().next().unwrap();
				}
				Case::new("word").str(cs.into_iter().collect::<String>())
			}),
			Family::random("words with digits", 3_000 * m, |t| {
				let all = gen::words();
				let w = if t.chance(1, 2) { t.pick(&all.cmevla).clone() } else { t.pick(&all.all).clone() };
				let mut cs: Vec<char> = w.chars().collect();
				for _ in 0..t.range(1, 2) {
					let i = t.below(cs.len() + 1);
					let d = char::from(b'0' + t.below(10) as u8);
					if t.chance(1, 3) && i < cs.len() {
						cs[i] = d;
					} else {
						cs.insert(i, d);
					}
				}
				Case::new("word").str(cs.into_iter().collect::<String>())
			}),
		]
	},
	check: c07,
	nums_are_list: false,
};

const WORD_LETTERS: &[&str] = &[
	"a", "e", "i", "o", "u", "y", "'", "b", "c", "d", "f", "g", "j", "k", "l", "m", "n", "p", "r", "s", "t", "v", "x",
	"z", "A", "B", "h", "1",
];
const PARTS: &[&str] = &[
	"a", "i", "'", "y", "n", "r", "ba", "bri", "lka", "tos", "ma", "bru", "kla", "gis", "mu", "ctu", "'e", "TSA", "nja",
	"cai",
];

fn gismu_shape(mut i: u64, cvccv: bool) -> Case {
	let mut c = |n: usize, from: &[&'static str]| {
		let s = from[(i % n as u64) as usize];
		i /= n as u64;
		s
	};
	let (cs, vs) = (gen::CONSONANTS, gen::VOWELS);
	let w = if cvccv {
		[c(17, cs), c(5, vs), c(17, cs), c(17, cs), c(5, vs)]
	} else {
		[c(17, cs), c(17, cs), c(5, vs), c(17, cs), c(5, vs)]
	};
	Case::new(if cvccv { "CVCCV" } else { "CCVCV" }).str(w.concat())
}

/// The permissible medial pairs (CLL 3.6).
fn permissible_pair(a: char, b: char) -> bool {
	let voiced = "bdgjvz";
	let unvoiced = "cfkpstx";
	let sibilant = "cjsz";
	a != b
		&& !(voiced.contains(a) && unvoiced.contains(b))
		&& !(unvoiced.contains(a) && voiced.contains(b))
		&& !(sibilant.contains(a) && sibilant.contains(b))
		&& !matches!((a, b), ('c', 'x') | ('k', 'x') | ('x', 'c') | ('x', 'k') | ('m', 'z'))
}

fn c07(case: &Case, obs: &mut Obs) -> Outcome {
	let word = &case.strs[0];
	// no word has a pause in it or ends with a comma
	if word.chars().any(is_separator) || word.ends_with(',') {
		return Outcome::Discard;
	}
	let (want, exp, cost) = lexmodel::classify(word);
	if cost > morph::CHUNK_LIMIT {
		return Outcome::Discard;
	}
	let got = class(word);
	if got != (want.to_owned(), exp) {
		return fail(format!("{word:?} is {got:?}, should be {want} {exp}"));
	}
	if matches!(case.kind.as_str(), "CVCCV" | "CCVCV") && word.len() == 5 && word.is_ascii() {
		let c: Vec<char> = word.chars().collect();
		let gismu = if case.kind == "CVCCV" {
			permissible_pair(c[2], c[3])
		} else {
			gen::INITIAL_PAIRS.contains(&&word[..2])
		};
		if gismu != (got.0 == "Gismu") {
			return fail(format!("{word} should {}be a gismu", if gismu { "" } else { "not " }));
		}
		// one word in the text if it is a gismu
		if gismu && sut::decompose(word) != [(0, 5)] {
			return fail(format!("the gismu {word} falls apart"));
		}
	}
	obs.label(want);
	Outcome::Pass(matches!(want, "Gismu" | "Lujvo" | "Fuhivla" | "Cmevla"))
}

// --- C08 -----------------------------------------------------------------------------------------------------------

const C08: Property = Property {
	id: "C08",
	rule: "texts made of words, junk and quotes, lexed and compared token by token with a reference lexer; non-trivial: at least three tokens",
	assumptions: &[COST],
	families: |tier| {
		let m = if tier == Tier::Quick { 1 } else { 30 };
		vec![
			Family::random("texts", 30_000 * m, |t| Case::new("text").str(gen::text(t, 8, true))),
			Family::random("quotes", 30_000 * m, quote_text),
			Family::random("example sentences", 13_000 * m, corpus_case),
			Family::random("big texts", 130 * m, big_case),
			Family::random("far into the text", 500 * m, far_case),
			Family::enumerate("far into the text, at special places", gen::FAR_FIXED, gen::far_fixed),
			Family::random("very long quotes", 300 * m, far_quote),
		]
	},
	check: c08,
	nums_are_list: false,
};

fn c08(case: &Case, obs: &mut Obs) -> Outcome {
	let text = &*case.text();
	let Some(model) = lexmodel::lex(text, MORPH_LIMIT) else { return Outcome::Discard };
	if let Some(e) = compare(text, &sut::lex(text), &model) {
		return fail(e);
	}
	obs.label(if model.error.is_some() { "ends with an error" } else { "no error" });
	obs.label(match model.tokens.len() {
		0..=2 => "tokens: 0-2",
		3..=10 => "tokens: 3-10",
		11..=255 => "tokens: 11-255",
		_ => "tokens: more than 255",
	});
	Outcome::Pass(model.tokens.len() >= 3)
}

// --- C09 -----------------------------------------------------------------------------------------------------------

const C09: Property = Property {
	id: "C09",
	rule: "texts without quotes of foreign text: the tokens must be the words of the text one by one, each with the kind its word has alone, up to fa'o; non-trivial: at least two words, or fa'o before the end",
	assumptions: &[COST],
	families: |tier| {
		let m = if tier == Tier::Quick { 1 } else { 30 };
		vec![
			Family::random("texts", 24_000 * m, |t| Case::new("text").str(gen::text(t, 8, true))),
			Family::random("end of text", 16_000 * m, |t| {
				let mut o = gen::text(t, 4, false);
				let w = *t.pick(&["fa'o", "faho", "fa,'o", "FA'o", "fa'O", ",fa'o", "fa'o'o", "fa'oho", "fa'a", "fa'o'"]);
				if t.chance(2, 3) {
					o.push_str(&gen::pause(t));
				}
				o.push_str(w);
				if t.chance(2, 3) {
					o.push_str(&gen::pause(t));
				}
				o.push_str(&gen::text(t, 4, true));
				Case::new("text").str(o)
			}),
			Family::random("example sentences", 8_000 * m, corpus_case),
			Family::random("big texts", 80 * m, big_case),
			Family::random("far into the text", 400 * m, far_case),
			Family::enumerate("far into the text, at special places", gen::FAR_FIXED, gen::far_fixed),
		]
	},
	check: c09,
	nums_are_list: false,
};

fn c09(case: &Case, obs: &mut Obs) -> Outcome {
	let text = &*case.text();
	let Some(model) = lexmodel::lex(text, MORPH_LIMIT) else { return Outcome::Discard };
	if model.error.is_some() || model.tokens.iter().any(|t| quoting(t.selmaho)) {
		return Outcome::Discard;
	}
	// what comes after fa'o is decomposed too
	if morph::decompose(text, MORPH_LIMIT).is_none() {
		return Outcome::Discard;
	}
	let got = sut::lex(text);
	if got.error.is_some() || got.more {
		return fail(format!("error {:?} or tokens after the end", got.error));
	}
	let mut n = 0;
	let mut ended = false;
	for (i, w) in sut::decompose(text).iter().enumerate() {
		let Some(t) = got.tokens.get(i) else {
			return fail(format!("there is no token for word {i} at {w:?}"));
		};
		let c = class(&text[w.0..w.1]);
		if (t.start as usize, t.end as usize) != *w || (t.name(), t.exp) != (c.0.as_str(), c.1) {
			return fail(format!("word {i} at {w:?} is {c:?}, its token {}", show(Some(t), text)));
		}
		n += 1;
		if matches!(t.name(), "Faho" | "Fahoho") {
			ended = true;
			break;
		}
	}
	if got.tokens.len() != n {
		return fail(format!("{} tokens for {n} words", got.tokens.len()));
	}
	// and all of that is right
	if let Some(e) = compare(text, &got, &model) {
		return fail(e);
	}
	if ended {
		obs.label("ends with fa'o");
	}
	Outcome::Pass(n >= 2 || ended)
}

// --- quotes --------------------------------------------------------------------------------------------------------

const DELIMITED: &[&str] = &["zoi", "la'o", "mu'oi", "so'e'ai", "ZOI", "z,oi", "laho", ",zoi", "la'O"];
const PAUSED: &[&str] = &["me'oi", "zo'oi", "do'oi", "MEhOI", "zo,'oi", "mehoi", "la'oi", "ra'oi", "zo'Oi"];

fn zoi_words() -> &'static [&'static str] {
	static W: std::sync::OnceLock<Vec<&str>> = std::sync::OnceLock::new();
	W.get_or_init(|| {
		gen::cmavo_table().iter().filter(|c| matches!(c.1, "Zoi" | "Muhoi" | "Sohehai")).map(|c| c.0).collect()
	})
}
fn hoi_words() -> &'static [&'static str] {
	static W: std::sync::OnceLock<Vec<&str>> = std::sync::OnceLock::new();
	W.get_or_init(|| {
		gen::cmavo_table().iter().filter(|c| matches!(c.1, "Mehoi" | "Zohoi" | "Dohoi")).map(|c| c.0).collect()
	})
}

fn delimiter(t: &mut Tape<'_>) -> String {
	match t.below(8) {
		0..=2 => (*t.pick(&["gy", "y", "ky", "zoi", "by", "xy", "fa'o", "a", "la'o", "me'oi"])).to_owned(),
		3 => (*t.pick(&gen::words().cmavo)).to_owned(),
		4 => t.pick(&gen::words().all).clone(),
		5 => gen::junk(t),
		6 => (*t.pick(&["1", "g,y", "GY", "gYgy", "é", "lek", "klama", "gygy", "y'y"])).to_owned(),
		_ => gen::chunk(t),
	}
}

/// Something like the delimiter that is not the delimiter, or is it spelled otherwise.
fn near(t: &mut Tape<'_>, d: &str) -> String {
	match t.below(8) {
		0 => format!("{d}{d}"),
		1 => format!("{d}ku"),
		2 => format!("le{d}"),
		3 => d.to_ascii_uppercase(),
		4 => d.chars().map(|c| format!(",{c}")).collect(),
		5 => format!("{d},"),
		6 => d.chars().rev().collect(),
		_ => d.chars().skip(1).collect(),
	}
}

pub fn quote(t: &mut Tape<'_>, o: &mut String) {
	if t.chance(2, 3) {
		// delimited
		o.push_str(if t.chance(1, 2) { t.pick(DELIMITED) } else { t.pick(zoi_words()) });
		if t.chance(3, 4) {
			o.push_str(&gen::pause(t));
		}
		let d = delimiter(t);
		o.push_str(&d);
		let parts = if o.contains("so'e'ai") { 2 } else { 1 };
		for _ in 0..parts {
			if t.chance(4, 5) {
				o.push_str(&gen::pause(t));
			}
			for _ in 0..t.size(4) {
				match t.below(5) {
					0 => o.push_str(&near(t, &d)),
					1 => o.push_str(&gen::junk(t)),
					2 => o.push_str(t.pick(&["a", "yes", "I", "le", ",", "fa'o", "zoi", "me'oi", ""])),
					_ => o.push_str(&gen::chunk(t)),
				}
				if t.chance(9, 10) {
					o.push_str(&gen::pause(t));
				}
			}
			if t.chance(9, 10) {
				let end = match t.below(10) {
					0 => near(t, &d),
					1 => gen::commas(t, &d),
					_ => d.clone(),
				};
				o.push_str(&end);
			}
		}
	} else {
		o.push_str(if t.chance(1, 2) { t.pick(PAUSED) } else { t.pick(hoi_words()) });
		match t.below(6) {
			0 => {}
			1 => {
				o.push_str(&gen::pause(t));
				o.push_str(",,");
				o.push_str(&gen::pause(t));
			}
			_ => o.push_str(&gen::pause(t)),
		}
		match t.below(6) {
			0 => {}
			1 => o.push_str(&gen::junk(t)),
			2 => o.push_str(t.pick(&["fa'o", ",le,", "zoi", "klama", "yyy", "'", "la'o"])),
			_ => o.push_str(&gen::chunk(t)),
		}
	}
}

pub fn quote_text(t: &mut Tape<'_>) -> Case {
	let mut o = if t.chance(1, 2) { gen::text(t, 2, false) } else { String::new() };
	for _ in 0..t.range(1, 3) {
		if t.chance(5, 6) {
			o.push_str(&gen::pause(t));
		}
		quote(t, &mut o);
		if t.chance(1, 2) {
			o.push_str(&gen::pause(t));
			o.push_str(&gen::text(t, 2, false));
		}
	}
	Case::new("text").str(o)
}

/// Quoted text of many chunks.
fn long_quote(t: &mut Tape<'_>) -> Case {
	let mut o = String::new();
	if t.chance(1, 2) {
		o.push_str("mi cusku ");
	}
	o.push_str(t.pick(zoi_words()));
	o.push(' ');
	let d = delimiter(t);
	o.push_str(&d);
	let stock: Vec<String> = (0..t.range(1, 5)).map(|_| if t.chance(1, 3) { near(t, &d) } else { gen::junk(t) }).collect();
	let mut n = 8;
	while n < 70_000 && t.chance(4, 5) {
		n *= 2;
	}
	for _ in 0..t.range(n / 2, n) {
		o.push_str(if t.chance(9, 10) { " " } else { t.pick(gen::PAUSES) });
		o.push_str(t.pick(&stock));
	}
	o.push(' ');
	o.push_str(&d);
	if t.chance(1, 2) {
		o.push_str(" melo " );
		o.push_str(&d);
	}
	Case::new("text").str(o)
}

/// A quote whose contents, or what is before it, are very long.
fn far_quote(t: &mut Tape<'_>) -> Case {
	let before = ["", "mi cusku ", "klama. ", "\u{e9} ", "le "];
	let mut o = (*t.pick(&before)).to_owned();
	let mut at = vec![o.len()];
	let mut inside = false;
	if t.chance(1, 4) {
		o.push_str(t.pick(hoi_words()));
		o.push(' ');
		inside = t.chance(3, 4);
	} else {
		o.push_str(t.pick(zoi_words()));
		o.push(' ');
		at.push(o.len());
		let mut d = delimiter(t);
		if !d.starts_with(|c: char| c.is_ascii_alphabetic()) {
			d.insert(0, 'g');
		}
		o.push_str(&d);
		o.push(' ');
		if t.chance(3, 4) {
			at.push(o.len());
			inside = t.chance(3, 4);
			if t.chance(1, 2) {
				o.push_str(&near(t, &d));
				o.push(' ');
			}
			if t.chance(3, 4) {
				o.push_str(&d);
				o.push(' ');
				at.push(o.len());
			}
		}
	}
	let quoted = o.len();
	if inside {
		at = vec![if at.len() > 2 { at[2] } else { quoted }];
	}
	o.push_str(t.pick(&["", " do klama", " melo gy. do", " zoi"]));
	let filler = if inside { t.below(FILLERS.len()) } else { t.below(PAUSE_FILLERS) };
	let n = gen::distance(t) / if t.chance(1, 2) { FILLERS[filler].len() as i64 } else { 1 };
	Case::new("far").str(o).num(*t.pick(&at) as i64).num(n).num(filler as i64)
}

/// Comma-only and empty pieces, quoting words next to one another: every combination of a few pieces.
const QUOTE_PARTS: &[&str] = &["zoi", "me'oi", "gy", ".", " ", ",", "a", "so'e'ai", "fa'o", "ku"];

fn quote_families(tier: Tier) -> Vec<Family> {
	let q = tier == Tier::Quick;
	let m = if q { 1 } else { 30 };
	vec![
		Family::enumerate("all combinations of few pieces", gen::strings_up_to(if q { 5 } else { 7 }, QUOTE_PARTS), |i| {
			Case::new("text").str(gen::nth_string(i, QUOTE_PARTS))
		}),
		Family::random("texts with quotes", 200_000 * m, quote_text),
		Family::random("long quotes", 300 * m, long_quote),
		Family::random("very long quotes", 800 * m, far_quote),
	]
}

// --- C10 -----------------------------------------------------------------------------------------------------------

const C10: Property = Property {
	id: "C10",
	rule: "texts with delimited quotes (delimiters of any kind, near misses of the delimiter inside, several spellings, contents and distances of up to 16 million bytes) against a reference lexer, and the quoted text must come out as written; non-trivial: a delimited quote was opened",
	assumptions: &[COST],
	families: quote_families,
	check: c10,
	nums_are_list: false,
};

fn c10(case: &Case, obs: &mut Obs) -> Outcome {
	let text = &*case.text();
	let Some(model) = lexmodel::lex(text, MORPH_LIMIT) else { return Outcome::Discard };
	if !model.tokens.iter().any(|t| matches!(t.selmaho, "Zoi" | "Muhoi" | "Sohehai")) {
		return Outcome::Discard;
	}
	let got = sut::lex(text);
	if let Some(e) = compare(text, &got, &model) {
		return fail(e);
	}
	// without the reference: a complete quote is delimiter, text, delimiter; the delimiters are the same word, and the
	// text does not contain it as a chunk of its own
	let strip = |t: &Tok| text[t.start as usize..t.end as usize].replace(',', "");
	let mut complete = false;
	for (i, t) in got.tokens.iter().enumerate() {
		if matches!(t.name(), "Zoi" | "Muhoi" | "Sohehai") && got.tokens.len() > i + 2 {
			let rest = &got.tokens[i + 1..];
			if rest[0].name() != "ZoiDelimiter" {
				return fail(format!("no delimiter after the quoting word at {}", t.start));
			}
			let quoted = usize::from(rest[1].name() == "AnyText");
			let Some(end) = rest.get(1 + quoted) else { return fail("quote without an end") };
			if end.name() != "ZoiDelimiter" || strip(&rest[0]) != strip(end) {
				return fail(format!("the quote from {} ends with {}", t.start, show(Some(end), text)));
			}
			if quoted == 1 {
				let body = &text[rest[1].start as usize..rest[1].end as usize];
				let d = strip(end);
				// the first piece may be the rest of the chunk the delimiter is in
				if body.split(is_separator).any(|p| p.replace(',', "") == d) {
					return fail(format!("the delimiter is inside of the quoted text {body:?}"));
				}
				// nothing but pauses and ignorable commas around the text
				let around = [
					&text[rest[0].end as usize..rest[1].start as usize],
					&text[rest[1].end as usize..end.start as usize],
				];
				if around.iter().any(|s| !s.chars().all(|c| is_separator(c) || c == ',')) {
					return fail(format!("text around {body:?} belongs to no token: {around:?}"));
				}
				obs.label("with text");
			} else {
				obs.label("empty quote");
			}
			complete = true;
		}
	}
	if complete {
		obs.label("complete quote");
	}
	if model.error.is_some() {
		obs.label("not closed");
	}
	Outcome::Pass(true)
}

// --- C11 -----------------------------------------------------------------------------------------------------------

const C11: Property = Property {
	id: "C11",
	rule: "texts with words that quote up to the next pause, against a reference lexer; the quoted text must be one whole stretch between pauses; non-trivial: such a word was used",
	assumptions: &[COST],
	families: quote_families,
	check: c11,
	nums_are_list: false,
};

fn c11(case: &Case, obs: &mut Obs) -> Outcome {
	let text = &*case.text();
	let Some(model) = lexmodel::lex(text, MORPH_LIMIT) else { return Outcome::Discard };
	if !model.tokens.iter().any(|t| matches!(t.selmaho, "Mehoi" | "Zohoi" | "Dohoi")) {
		return Outcome::Discard;
	}
	let got = sut::lex(text);
	if let Some(e) = compare(text, &got, &model) {
		return fail(e);
	}
	for pair in got.tokens.windows(2) {
		if matches!(pair[0].name(), "Mehoi" | "Zohoi" | "Dohoi") {
			let q = &text[pair[1].start as usize..pair[1].end as usize];
			if pair[1].name() != "AnyText" || q.is_empty() || q.chars().any(is_separator) {
				return fail(format!("{:?} quoted as {}", q, show(Some(&pair[1]), text)));
			}
			if !text[pair[1].end as usize..].chars().next().map_or(true, is_separator) {
				return fail(format!("{q:?} does not go on to the next pause"));
			}
			if !text[pair[0].end as usize..pair[1].start as usize].chars().all(|c| is_separator(c) || c == ',') {
				return fail(format!("letters before {q:?} were left out"));
			}
			obs.label("quote");
		}
	}
	if model.error.is_some() {
		obs.label("nothing to quote");
	}
	Outcome::Pass(true)
}

// --- C12 -----------------------------------------------------------------------------------------------------------

const C12: Property = Property {
	id: "C12",
	rule: "texts cut off inside of quotes and texts with quotes, against a reference lexer: an error exactly when a quote is incomplete, with the right kind and places, after all tokens before the quote, and nothing after it; non-trivial: the text ends with an error",
	assumptions: &[COST],
	families: |tier| {
		let q = tier == Tier::Quick;
		let m = if q { 1 } else { 30 };
		let mut f = quote_families(tier);
		f[1].count = 7_500 * m;
		f.push(Family::random("cut off", 20_000 * m, |t| {
			let c = quote_text(t).strs[0].clone();
			let n = t.below(c.chars().count() + 1);
			Case::new("text").str(c.chars().take(n).collect::<String>())
		}));
		f
	},
	check: c12,
	nums_are_list: false,
};

fn c12(case: &Case, obs: &mut Obs) -> Outcome {
	let text = &*case.text();
	let Some(model) = lexmodel::lex(text, MORPH_LIMIT) else { return Outcome::Discard };
	let got = sut::lex(text);
	if got.error != model.error {
		return fail(format!("error is {:?}, should be {:?}", got.error, model.error));
	}
	if let Some(e) = compare(text, &got, &model) {
		return fail(e);
	}
	let collected: Result<Vec<_>, _> = sneturfahi::lex(text).collect();
	if collected.is_err() != model.error.is_some() {
		return fail("collecting disagrees about the error");
	}
	if let Some(e) = &model.error {
		obs.label(match e {
			lexmodel::MErr::MissingSeparator { .. } => "missing separator",
			lexmodel::MErr::Unclosed { .. } => "not closed",
			lexmodel::MErr::PauseEof { .. } => "nothing to quote",
		});
	}
	Outcome::Pass(model.error.is_some())
}

// --- C13 -----------------------------------------------------------------------------------------------------------

const C13: Property = Property {
	id: "C13",
	rule: "any text, also with other characters, quotes and errors: places of tokens and errors are on characters, in order, without overlap, and every letter not in a token is a pause, an ignored comma, or after the end of text; non-trivial: at least two tokens",
	assumptions: &[COST],
	families: |tier| {
		let m = if tier == Tier::Quick { 1 } else { 30 };
		vec![
			Family::random("any characters", 32_000 * m, |t| {
				let mut o = String::new();
				for _ in 0..t.size(30) {
					match t.below(8) {
						0 => o.push(char::from_u32(t.u32() % 0x11_0000).unwrap_or(' ')),
						1 => o.push_str(t.pick(gen::PAUSES)),
						2 => o.push_str(&gen::junk(t)),
						3 => o.push(','),
						4 => o.push_str(t.pick(zoi_words())),
						5 => o.push_str(t.pick(hoi_words())),
						_ => o.push_str(t.pick(WORD_LETTERS)),
					}
				}
				Case::new("text").str(o)
			}),
			Family::random("texts", 32_000 * m, |t| Case::new("text").str(gen::text(t, 8, true))),
			Family::random("quotes", 32_000 * m, quote_text),
			Family::random("big texts", 160 * m, big_case),
			Family::random("long quotes", 60 * m, long_quote),
			Family::random("far into the text", 500 * m, far_case),
			Family::enumerate("far into the text, at special places", gen::FAR_FIXED, gen::far_fixed),
			Family::random("very long quotes", 300 * m, far_quote),
			Family::random("long words of long characters", 4_000 * m, |t| {
				let mut o = String::new();
				for _ in 0..t.range(1, 3) {
					match t.below(6) {
						0 => o.push_str(t.pick(zoi_words())),
						1 => o.push_str(t.pick(hoi_words())),
						_ => {}
					}
					o.push(' ');
					let n = t.size(70);
					let mixed = t.chance(1, 3);
					for _ in 0..t.below(5) {
						o.push_str(t.pick(WORD_LETTERS));
					}
					let long = *t.pick(&['\u{e9}', '\u{7ff}', '\u{201c}', '\u{ffff}', '\u{1f600}', '\u{10ffff}']);
					for _ in 0..n {
						if mixed && t.chance(1, 2) {
							o.push_str(t.pick(WORD_LETTERS));
						} else {
							o.push(long);
						}
					}
					o.push(' ');
				}
				Case::new("text").str(o)
			}),
		]
	},
	check: c13,
	nums_are_list: false,
};

fn c13(case: &Case, obs: &mut Obs) -> Outcome {
	let text = &*case.text();
	if lexmodel::lex(text, MORPH_LIMIT).is_none() {
		return Outcome::Discard;
	}
	let got = sut::lex(text);
	if got.more {
		return fail("something came after the end");
	}
	let mut prev = 0usize;
	let mut faho = false;
	let mut second_part = false;
	for (i, t) in got.tokens.iter().enumerate() {
		let (a, b) = (t.start as usize, t.end as usize);
		// quoted text can be empty when there are only pauses in the quote
		let empty = a == b && t.name() != "AnyText";
		if a > b || empty || b > text.len() || !text.is_char_boundary(a) || !text.is_char_boundary(b) {
			return fail(format!("token {i}, a {}, has the place {a}..{b}", t.name()));
		}
		if a < prev {
			return fail(format!("token {i}, a {}, at {a}..{b} starts before {prev}", t.name()));
		}
		let between = &text[prev..a];
		if let Some(c) = between.chars().find(|&c| !is_separator(c) && c != ',') {
			return fail(format!("{c:?} before token {i}, at {prev}..{a}, belongs to no token"));
		}
		if faho {
			return fail(format!("token {i}, a {}, after fa'o", t.name()));
		}
		faho = matches!(t.name(), "Faho" | "Fahoho");
		second_part |= t.name() == "AnyText";
		let slice = sneturfahi::Span { start: t.start, end: t.end }.slice(text);
		if slice != text.get(a..b) {
			return fail(format!("slice of token {i} is {slice:?}"));
		}
		prev = b;
	}
	let _ = second_part;
	match &got.error {
		None => {
			if !faho {
				if let Some(c) = text[prev..].chars().find(|&c| !is_separator(c) && c != ',') {
					return fail(format!("{c:?} at the end belongs to no token"));
				}
			}
		}
		Some(e) => {
			let (i, d) = match e {
				lexmodel::MErr::MissingSeparator { initiator } | lexmodel::MErr::PauseEof { initiator } => (*initiator, None),
				lexmodel::MErr::Unclosed { initiator, delimiter } => (*initiator, Some(*delimiter)),
			};
			for r in [Some(i), d].into_iter().flatten() {
				if r.0 >= r.1 || text.get(r.0..r.1).is_none() {
					return fail(format!("an error at {r:?}"));
				}
			}
			if d.is_some_and(|d| d.0 < i.1) {
				return fail(format!("delimiter {d:?} before the quoting word {i:?}"));
			}
			if faho {
				return fail("an error after fa'o");
			}
		}
	}
	obs.label(if text.is_ascii() { "ascii" } else { "other characters" });
	Outcome::Pass(got.tokens.len() >= 2)
}
