//! Generators of chunks and texts.

use crate::case::{Case, PAUSE_FILLERS};
use crate::engine::Tape;
use crate::morph;
use std::sync::OnceLock;

pub const VOWELS: &[&str] = &["a", "e", "i", "o", "u"];
pub const CONSONANTS: &[&str] = &["b", "c", "d", "f", "g", "j", "k", "l", "m", "n", "p", "r", "s", "t", "v", "x", "z"];
const DIPHTHONGS: &[&str] = &["ai", "au", "ei", "oi", "ia", "ie", "ii", "io", "iu", "ua", "ue", "ui", "uo", "uu"];
/// The permissible initial pairs (CLL 3.7).
pub const INITIAL_PAIRS: &[&str] = &[
	"bl", "br", "cf", "ck", "cl", "cm", "cn", "cp", "cr", "ct", "dj", "dr", "dz", "fl", "fr", "gl", "gr", "jb", "jd",
	"jg", "jm", "jv", "kl", "kr", "ml", "mr", "pl", "pr", "sf", "sk", "sl", "sm", "sn", "sp", "sr", "st", "tc", "tr",
	"ts", "vl", "vr", "xl", "xr", "zb", "zd", "zg", "zm", "zv",
];

/// cmavo, selma'o (variant name), experimental
pub fn cmavo_table() -> &'static [(&'static str, &'static str, bool)] {
	static T: OnceLock<Vec<(&'static str, &'static str, bool)>> = OnceLock::new();
	T.get_or_init(|| {
		include_str!("../data/cmavo.tsv")
			.lines()
			.filter(|l| !l.starts_with('#') && !l.is_empty())
			.map(|l| {
				let f: Vec<&str> = l.split('\t').collect();
				(f[0], f[1], f[2] == "x")
			})
			.collect()
	})
}

pub fn corpus() -> &'static [&'static str] {
	static T: OnceLock<Vec<&'static str>> = OnceLock::new();
	T.get_or_init(|| include_str!("../data/corpus.txt").lines().filter(|l| !l.is_empty()).collect())
}

pub struct Words {
	pub cmavo: Vec<&'static str>,
	pub official: Vec<&'static str>,
	pub gismu: Vec<String>,
	pub lujvo: Vec<String>,
	pub fuhivla: Vec<String>,
	pub cmevla: Vec<String>,
	pub all: Vec<String>,
}

/// Words of the corpus and the story, sorted by class.
pub fn words() -> &'static Words {
	static W: OnceLock<Words> = OnceLock::new();
	W.get_or_init(|| {
		let mut set = std::collections::BTreeSet::new();
		for text in corpus().iter().copied().chain([include_str!("../data/srasu.txt")]) {
			if let Some(m) = morph::decompose(text, u64::MAX) {
				for (a, b) in m.words {
					set.insert(text[a..b].to_owned());
				}
			}
		}
		for extra in EXTRA_WORDS {
			set.insert((*extra).to_owned());
		}
		let mut w = Words {
			cmavo: cmavo_table().iter().map(|c| c.0).collect(),
			official: cmavo_table().iter().filter(|c| !c.2).map(|c| c.0).collect(),
			gismu: vec![],
			lujvo: vec![],
			fuhivla: vec![],
			cmevla: vec![],
			all: vec![],
		};
		for word in set {
			match morph::get().class(&word).0 {
				morph::Class::Gismu => w.gismu.push(word.clone()),
				morph::Class::Lujvo => w.lujvo.push(word.clone()),
				morph::Class::Fuhivla => w.fuhivla.push(word.clone()),
				morph::Class::Cmevla => w.cmevla.push(word.clone()),
				_ => {}
			}
			w.all.push(word);
		}
		w
	})
}

const EXTRA_WORDS: &[&str] = &[
	"tosymabru", "tosmabru", "slinku'i", "spageti", "djarspageti", "cidjrspageti", "blabigerku", "iglu", "alga", "uenzi",
	"akvo", "eskrima", "a'orne", "ricrceraso", "jbofuvi", "selma'o", "lojbo", "jbopre", "brivla", "bangrkorea",
	"tci'ile", "kuarka", "stretci'o", "samyuebybolci", "ko'ersarxe", "mu'amla", "bacycripu", "sorgu'icna", "jbovlaste",
	"toldi", "posydji", "nunkla", "nalmle", "cmalu", "prenu", "gismu", "cipnrstrigi", "tricu", "klama", "barda",
	"mamta", "patfu", "vlipa", "xekri", "zutse", "jvinu", "dzukla", "zbasu", "tsani", "dzipo", "djacu", "fraso",
	"kla'o", "cizra", "ba'ostu", "co'arbi'o", "zi'evla", "ka'urbo", "fu'ivla", "le'avla", "ckafybarja", "fagyfesti",
	"mo'izgu", "sofybakni", "bidjylyfesti", "saske'u", "malylai", "nolraitru", "lobykai", "brodrvai", "ritrkrala",
	"selpa'i", "terpanci", "xelkla", "velcki", "nunpre", "kamgei", "jdarogali", "kurtyti'u", "djan", "alis", "meris",
	"lojban", "kevin", "xorxes", "djordj", "briten", "ipcran", "ualaxa", "ui'amrat",
];

pub fn stress(t: &mut Tape<'_>, s: &str) -> String {
	match t.below(5) {
		// one vowel
		0 | 1 => {
			let at: Vec<usize> =
				s.char_indices().filter(|(_, c)| "aeiouy".contains(*c)).map(|(i, _)| i).collect();
			if at.is_empty() {
				return s.to_owned();
			}
			let i = *t.pick(&at);
			let mut o = s.to_owned();
			o.replace_range(i..=i, &s[i..=i].to_ascii_uppercase());
			o
		}
		// a stretch
		2 | 3 => {
			let n = s.chars().count();
			if n == 0 {
				return s.to_owned();
			}
			let a = t.below(n);
			let b = (a + 1 + t.below(4)).min(n);
			s.chars().enumerate().map(|(i, c)| if i >= a && i < b { c.to_ascii_uppercase() } else { c }).collect()
		}
		_ => s.chars().map(|c| if t.chance(1, 4) { c.to_ascii_uppercase() } else { c }).collect(),
	}
}

pub fn commas(t: &mut Tape<'_>, s: &str) -> String {
	let mut o = String::new();
	// now and then very many at one place
	let long = if t.chance(1, 12) { t.below(s.chars().count() + 1) } else { usize::MAX };
	for (i, c) in s.chars().enumerate() {
		if i == long {
			let n = if t.chance(1, 2) { t.range(4, 40) } else { t.range(40, 400) };
			o.extend(std::iter::repeat_n(',', n));
		} else if t.chance(1, 5) {
			for _ in 0..=t.below(3).saturating_sub(1) {
				o.push(',');
			}
		}
		o.push(c);
	}
	if t.chance(1, 6) {
		o.push(',');
	}
	o
}

/// How many commas to put at one place.
pub fn comma_run(t: &mut Tape<'_>) -> usize {
	match t.below(60) {
		59 => t.range(40, 300),
		58 => t.range(3, 40),
		n => 1 + n % 2,
	}
}

pub fn h_spelling(t: &mut Tape<'_>, s: &str) -> String {
	s.chars().map(|c| if c == '\'' && t.chance(1, 2) { 'h' } else { c }).collect()
}

fn syllable(t: &mut Tape<'_>, o: &mut String) {
	match t.below(10) {
		0 => {}
		1..=4 => o.push_str(t.pick(CONSONANTS)),
		5 | 6 => o.push_str(t.pick(INITIAL_PAIRS)),
		7 => {
			o.push_str(t.pick(CONSONANTS));
			o.push_str(t.pick(CONSONANTS));
		}
		8 => o.push('\''),
		_ => {
			o.push_str(t.pick(INITIAL_PAIRS));
			o.push_str(t.pick(&["r", "l", "n", "m"]));
		}
	}
	match t.below(12) {
		0..=7 => o.push_str(t.pick(VOWELS)),
		8 | 9 => o.push_str(t.pick(DIPHTHONGS)),
		10 => o.push('y'),
		_ => {
			o.push_str(t.pick(VOWELS));
			o.push('\'');
			o.push_str(t.pick(VOWELS));
		}
	}
	if t.chance(1, 5) {
		o.push_str(t.pick(&["n", "r", "l", "m", "s", "k", "t", "b", "rn", "x"]));
	}
}

fn dictionary_word(t: &mut Tape<'_>) -> String {
	let w = words();
	match t.below(12) {
		0..=4 => (*t.pick(&w.official)).to_owned(),
		5 => (*t.pick(&w.cmavo)).to_owned(),
		6 | 7 => t.pick(&w.gismu).clone(),
		8 => t.pick(&w.lujvo).clone(),
		9 => t.pick(&w.fuhivla).clone(),
		10 => {
			// a made-up gismu
			if t.chance(1, 2) {
				format!("{}{}{}{}", t.pick(INITIAL_PAIRS), t.pick(VOWELS), t.pick(CONSONANTS), t.pick(VOWELS))
			} else {
				format!(
					"{}{}{}{}{}",
					t.pick(CONSONANTS),
					t.pick(VOWELS),
					t.pick(CONSONANTS),
					t.pick(CONSONANTS),
					t.pick(VOWELS)
				)
			}
		}
		_ => t.pick(&w.cmevla).clone(),
	}
}

/// Rafsi-like pieces for lujvo.
fn rafsi(t: &mut Tape<'_>) -> String {
	let c = |t: &mut Tape<'_>| (*t.pick(CONSONANTS)).to_owned();
	let v = |t: &mut Tape<'_>| (*t.pick(VOWELS)).to_owned();
	match t.below(8) {
		0 | 1 => c(t) + &v(t) + &c(t),
		2 => (*t.pick(INITIAL_PAIRS)).to_owned() + &v(t),
		3 => c(t) + t.pick(&["ai", "au", "ei", "oi"]) + t.pick(&["", "r", "n"]),
		4 => c(t) + &v(t) + "'" + &v(t) + t.pick(&["", "r", "n"]),
		5 => c(t) + &v(t) + &c(t) + &c(t) + "y",
		6 => (*t.pick(INITIAL_PAIRS)).to_owned() + &v(t) + &c(t) + "y",
		_ => c(t) + &v(t) + &c(t) + "y",
	}
}

const LETTERS: &[char] = &[
	'a', 'e', 'i', 'o', 'u', 'y', '\'', 'h', ',', 'b', 'c', 'd', 'f', 'g', 'j', 'k', 'l', 'm', 'n', 'p', 'r', 's', 't',
	'v', 'x', 'z', 'A', 'E', 'I', 'O', 'U', 'Y', 'B', 'N', 'R', '0', '1', '9', 'H', 'q', 'w',
];

fn mutate(t: &mut Tape<'_>, s: &str) -> String {
	let mut cs: Vec<char> = s.chars().collect();
	for _ in 0..=t.below(3) {
		let n = cs.len();
		match t.below(4) {
			0 if n > 0 => {
				cs.remove(t.below(n));
			}
			1 => cs.insert(t.below(n + 1), *t.pick(LETTERS)),
			2 if n > 0 => cs[t.below(n)] = *t.pick(LETTERS),
			3 if n > 1 => {
				let i = t.below(n - 1);
				cs.swap(i, i + 1);
			}
			_ => {}
		}
	}
	cs.into_iter().collect()
}

/// A stretch without pauses. Not necessarily anything Lojban.
pub fn chunk(t: &mut Tape<'_>) -> String {
	let mut o = String::new();
	match t.below(14) {
		0..=2 => {
			for _ in 0..=t.size(5) {
				syllable(t, &mut o);
			}
		}
		3..=6 => {
			for _ in 0..=t.size(4) {
				o.push_str(&dictionary_word(t));
			}
		}
		7 | 8 => {
			for _ in 0..t.below(3) {
				o.push_str(t.pick(&words().official));
			}
			for _ in 0..=t.below(3) {
				o.push_str(&rafsi(t));
			}
			match t.below(4) {
				0 => o.push_str(t.pick(&words().gismu)),
				1 => o.push_str(t.pick(&["bau", "kla", "'u", "i", "a", "ku'a", "cri", "da'i", "mle"])),
				2 => o.push_str(t.pick(&words().fuhivla)),
				_ => {}
			}
			for _ in 0..t.below(2) {
				o.push_str(t.pick(&words().official));
			}
		}
		9 => {
			for _ in 0..=t.below(10) {
				o.push(*t.pick(LETTERS));
			}
		}
		10 => {
			let a = dictionary_word(t);
			o = mutate(t, &a);
			if t.chance(1, 2) {
				o.push_str(&dictionary_word(t));
			}
		}
		11 => {
			// digits, hesitation, commas
			for _ in 0..=t.below(5) {
				o.push_str(t.pick(&["1", "2", "90", "y", "yy", "Y", ",", "li", "moi", "y,y", "by", "vo'e", "mai"]));
			}
		}
		12 => {
			// vowel runs
			for _ in 0..=t.below(6) {
				o.push_str(t.pick(&["a", "i", "u", "ai", "oi", "ui", "'", "o", "ii", "A", "ia", "y", "e'e"]));
			}
			if t.chance(1, 2) {
				o.push_str(&dictionary_word(t));
			}
		}
		_ => {
			o = dictionary_word(t);
		}
	}
	decorate(t, o)
}

pub fn decorate(t: &mut Tape<'_>, mut o: String) -> String {
	if t.chance(1, 5) {
		o = stress(t, &o);
	}
	if t.chance(1, 8) {
		o = commas(t, &o);
	}
	if t.chance(1, 8) {
		o = h_spelling(t, &o);
	}
	o
}

pub const PAUSES: &[&str] = &[" ", ".", "\t", "\n", "\r", "?", "!"];

pub fn pause(t: &mut Tape<'_>) -> String {
	let n = match t.below(6) {
		0..=3 => 1,
		4 => 2,
		_ => 1 + t.below(5),
	};
	(0..n).map(|_| if t.chance(1, 2) { " " } else { *t.pick(PAUSES) }).collect()
}

/// Anything that can be in a chunk but is not a letter of Lojban.
pub fn junk(t: &mut Tape<'_>) -> String {
	let n = 1 + t.below(4);
	(0..n)
		.map(|_| match t.below(6) {
			0 => *t.pick(&['é', 'ы', '日', '😀', '\u{301}', '\u{a0}', '\u{2019}', '\u{200b}', 'İ', 'ß', '\u{feff}']),
			1 => *t.pick(&['-', '(', ')', '"', ';', ':', '/', '@', '\0', '\u{7f}', '\u{b}', '\u{c}', '\u{2028}', '´']),
			2 => char::from_u32(t.u32() % 0x11_0000).unwrap_or('\u{fffd}'),
			_ => *t.pick(LETTERS),
		})
		.filter(|c| !morph::is_separator(*c))
		.collect()
}

pub fn text(t: &mut Tape<'_>, max_chunks: usize, junky: bool) -> String {
	let mut o = String::new();
	if t.chance(1, 4) {
		o.push_str(&pause(t));
	}
	let n = t.size(max_chunks);
	let echoes = t.chance(1, 5);
	let mut last = String::new();
	for i in 0..n {
		if i > 0 {
			o.push_str(&pause(t));
		}
		if i > 0 && echoes && t.chance(1, 2) {
			last = echo(t, &last);
		} else if junky && t.chance(1, 6) {
			last = junk(t);
		} else {
			last = chunk(t);
		}
		o.push_str(&last);
	}
	if t.chance(1, 4) {
		o.push_str(&pause(t));
	}
	o
}

/// The same stretch again, or nearly.
pub fn echo(t: &mut Tape<'_>, chunk: &str) -> String {
	match t.below(8) {
		0 => chunk.to_owned(),
		1 | 2 => stress(t, chunk),
		3 => chunk.to_ascii_uppercase(),
		4 => chunk.to_ascii_lowercase(),
		5 => commas(t, chunk),
		6 => h_spelling(t, &chunk.replace('h', "'")),
		_ => mutate(t, chunk).chars().filter(|c| !morph::is_separator(*c)).collect(),
	}
}

/// How far something is from something else: around the powers of two.
pub fn distance(t: &mut Tape<'_>) -> i64 {
	let bits = match t.below(60) {
		0 => t.range(21, 24),
		1..=5 => t.range(18, 20),
		_ => t.range(7, 17),
	};
	let n = 1i64 << bits;
	match t.below(4) {
		0 => n + t.below(n as usize) as i64,
		1 => n + t.below(300) as i64,
		_ => n - 3 + t.below(6) as i64,
	}
}

/// Texts right before and after places that are special to some kinds of numbers.
const EDGES: &[i64] = &[0x7f, 0xff, 0x7fff, 0xffff, 0xf_ffff, 0x7f_ffff, 0xff_ffff, 0x1ff_ffff];
const EDGE_TEXTS: &[&str] = &["me'oi a mi", "zoi gy a \u{e9} gy mi", "klama mi\u{e9} do"];
pub const FAR_FIXED: u64 = (EDGES.len() * EDGE_TEXTS.len() * 5) as u64;

pub fn far_fixed(i: u64) -> Case {
	let (e, i) = (i as usize % EDGES.len(), i as usize / EDGES.len());
	let (text, delta) = (i % EDGE_TEXTS.len(), i / EDGE_TEXTS.len());
	Case::new("far").str(EDGE_TEXTS[text]).num(0).num(EDGES[e] + delta as i64 - 2).num(0)
}

/// A text with very many pauses at one place.
pub fn far(t: &mut Tape<'_>, text: String) -> Case {
	let at = match t.below(4) {
		0 => 0,
		1 => t.below(text.len() + 1),
		_ => {
			let at: Vec<usize> = text.char_indices().filter(|(_, c)| morph::is_separator(*c)).map(|(i, _)| i).collect();
			if at.is_empty() {
				0
			} else {
				*t.pick(&at)
			}
		}
	};
	let n = distance(t);
	Case::new("far").str(text).num(at as i64).num(n).num(t.below(PAUSE_FILLERS) as i64)
}

/// All strings over an alphabet up to a length, in order of length.
pub fn nth_string(mut i: u64, alphabet: &[&str]) -> String {
	let k = alphabet.len() as u64;
	let mut len = 0;
	let mut block = 1u64;
	while i >= block {
		i -= block;
		block *= k;
		len += 1;
	}
	let mut parts = Vec::new();
	for _ in 0..len {
		parts.push(alphabet[(i % k) as usize]);
		i /= k;
	}
	parts.reverse();
	parts.concat()
}

pub fn strings_up_to(len: u32, alphabet: &[&str]) -> u64 {
	(0..=len).map(|l| (alphabet.len() as u64).pow(l)).sum()
}
