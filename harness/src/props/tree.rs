//! C14–C21: tokens into a tree.

use super::misc::{nest_text, NESTS};
use super::{MORPH_LIMIT, PARSE_LIMIT};
use crate::case::{Case, Tok};
use crate::cst::{self, Kind, Line};
use crate::engine::{Family, Obs, Outcome, Property, Tape, Tier};
use crate::gen;
use crate::lexmodel::{self, variant_named};
use crate::sut::{self, Parse};
use crate::variants::ALL;
use std::borrow::Cow;

pub const PROPS: &[Property] = &[C14, C15, C16, C17, C18, C19, C20, C21];

fn fail(s: impl Into<String>) -> Outcome {
	Outcome::Fail(s.into())
}

const COST: &str = "token sequences whose reference grammar predicts more than 1.5 million rule applications are skipped (counted as discarded)";
const GRAMMAR: &str = "the reference grammar (data/cst.grammar) is the published grammar in the form this library gives it (no si, sa, su; fragments only as listed there)";

// --- cases ---------------------------------------------------------------------------------------------------------

/// Tokens with places in some imagined text.
pub fn spaced(t: &mut Tape<'_>, sms: &[u16]) -> Vec<Tok> {
	let mut at = match t.below(12) {
		0 => u32::MAX - 40 * (sms.len() as u32 + 1),
		1 => t.u32() / 4,
		2 => 65_530,
		_ => t.below(4) as u32,
	};
	let experimental = *t.pick(&[0, 0, 1, 4, 20]);
	sms.iter()
		.map(|&sm| {
			at += t.below(3) as u32;
			let start = at;
			at += t.range(1, 8) as u32;
			// the lexer never marks quoted text and delimiters
			let exp = t.below(20) < experimental && !matches!(ALL[sm as usize].1, "AnyText" | "ZoiDelimiter");
			Tok { sm, exp, start, end: at }
		})
		.collect()
}

fn tokens_case(t: &mut Tape<'_>) -> Case {
	let sms = cst::tokens(t, 40, true);
	Case::new("tokens").toks(spaced(t, &sms))
}
fn good_tokens_case(t: &mut Tape<'_>) -> Case {
	let sms = cst::tokens(t, 40, false);
	Case::new("tokens").toks(spaced(t, &sms))
}
fn nested_case(t: &mut Tape<'_>) -> Case {
	let sms = cst::nested(t, 60);
	Case::new("tokens").toks(spaced(t, &sms))
}
fn repetitive_case(t: &mut Tape<'_>) -> Case {
	let sms = cst::repetitive(t, 1200);
	Case::new("tokens").toks(spaced(t, &sms))
}
fn random_tokens_case(t: &mut Tape<'_>) -> Case {
	let n = t.size(10);
	let sms: Vec<u16> = (0..n).map(|_| cst::random_token(t)).collect();
	Case::new("tokens").toks(spaced(t, &sms))
}

/// A word of the kind.
fn word(t: &mut Tape<'_>, sm: u16) -> String {
	let name = ALL[sm as usize].1;
	let w = gen::words();
	match name {
		"Gismu" => t.pick(&w.gismu).clone(),
		"Lujvo" => t.pick(&w.lujvo).clone(),
		"Fuhivla" => t.pick(&w.fuhivla).clone(),
		"Cmevla" => format!(".{}.", t.pick(&w.cmevla)),
		"ZoiDelimiter" => " gy ".to_owned(),
		"AnyText" => gen::junk(t),
		"UnknownCmavo" => "gy'y".to_owned(),
		_ => {
			let list: Vec<&str> = gen::cmavo_table().iter().filter(|c| c.1 == name).map(|c| c.0).collect();
			if list.is_empty() {
				return "y".to_owned();
			}
			(*t.pick(&list)).to_owned()
		}
	}
}

/// A text that follows the grammar more or less.
pub fn sentence(t: &mut Tape<'_>) -> String {
	let mut o = String::new();
	if t.chance(1, 6) {
		// an example, with words left out, doubled or exchanged
		let mut words: Vec<String> = t.pick(gen::corpus()).split(' ').map(str::to_owned).collect();
		for _ in 0..t.below(4) {
			let i = t.below(words.len());
			match t.below(4) {
				0 if words.len() > 1 => {
					words.remove(i);
				}
				1 => {
					let sm = cst::random_token(t);
					let w = word(t, sm);
					words.insert(i, w);
				}
				2 => {
					let j = t.below(words.len());
					words.swap(i, j);
				}
				_ => {}
			}
		}
		return words.join(" ");
	}
	let sms = cst::tokens(t, 30, t_damage());
	let glue = t.below(4);
	for sm in sms {
		let w = word(t, sm);
		let w = if t.chance(1, 20) { gen::decorate(t, w) } else { w };
		o.push_str(&w);
		let quote = matches!(ALL[sm as usize].1, "Zoi" | "ZoiDelimiter" | "AnyText");
		if quote || t.below(4) >= glue {
			o.push_str(if t.chance(5, 6) { " " } else { t.pick(gen::PAUSES) });
		}
	}
	o
}

const fn t_damage() -> bool {
	true
}

fn sentence_case(t: &mut Tape<'_>) -> Case {
	Case::new("text").str(sentence(t))
}

fn pair(i: u64) -> Case {
	let n = ALL.len() as u64;
	let sms = if i < n { vec![i as u16] } else { vec![((i - n) / n) as u16, ((i - n) % n) as u16] };
	fixed(&sms)
}

fn fixed(sms: &[u16]) -> Case {
	Case::new("tokens").toks(
		sms.iter()
			.enumerate()
			.map(|(i, &sm)| Tok { sm, exp: i % 2 == 1, start: 3 * i as u32, end: 3 * i as u32 + 2 })
			.map(|t| Tok { exp: t.exp && !matches!(t.name(), "AnyText" | "ZoiDelimiter"), ..t })
			.collect(),
	)
}

const TRIPLE: &[&str] = &[
	"Koha", "Gismu", "Le", "La", "Cmevla", "Ku", "Cu", "Na", "Se", "I", "Pa", "By", "Bu", "Zei", "Ui", "Bahe", "Zo", "Lu",
	"Lihu", "Ke", "A", "Ja", "Joi", "Pu", "Bai", "Nu", "Be", "Noi", "Goi", "Bo", "Gi", "Ga", "Nai", "Xi", "Sei", "Coi",
	"Fa", "Nahe", "Lohu", "Lehu", "To", "Li", "Vuhu", "Moi", "Niho", "Bihi", "Gaho", "Faho", "Mai", "Doi", "Zohu", "Cai",
	"Zoi", "ZoiDelimiter", "AnyText", "Giha", "Guha", "Tei", "Foi", "Goha", "Fuhe", "Va", "Roi", "Jai",
];

fn triple(i: u64) -> Case {
	let n = TRIPLE.len() as u64;
	let sm = |k: u64| variant_named(TRIPLE[k as usize]) as u16;
	fixed(&[sm(i / n / n), sm(i / n % n), sm(i % n)])
}

fn families(tier: Tier) -> Vec<Family> {
	let m = if tier == Tier::Quick { 1 } else { 40 };
	let n = ALL.len() as u64;
	vec![
		Family::enumerate("all pairs of kinds of tokens", n + n * n, pair),
		Family::enumerate("all triples of common kinds", (TRIPLE.len() as u64).pow(3), triple),
		Family::random("sentences", 35_000 * m, tokens_case),
		Family::random("undamaged sentences", 20_000 * m, good_tokens_case),
		Family::random("nested sentences", 4_500 * m, nested_case),
		Family::random("long repetitions", 800 * m, repetitive_case),
		Family::random("any tokens", 20_000 * m, random_tokens_case),
		Family::random("texts", 8_000 * m, sentence_case),
		Family::enumerate("every construct repeated and nested very often", (NESTS.len() * (DEEP.len() - usize::from(tier == Tier::Quick))) as u64, deep),
	]
}

/// How often constructs are repeated or nested; the last only in the thorough tier.
const DEEP: &[i64] = &[130, 300, 600, 4100, 9000];
const DEEP_LIMIT: u64 = 40 * PARSE_LIMIT;
/// Reading the places of all nodes takes time that grows with the square of the nesting.
const DEEP_DEPTH: usize = 16_000;

fn deep(i: u64) -> Case {
	let n = NESTS.len() as u64;
	Case::new("deep").num((i % n) as i64).num(DEEP[(i / n) as usize])
}

/// Whether the tokens of the case come from a text.
fn lexes(case: &Case) -> bool {
	case.kind == "text" || case.kind == "deep"
}

fn text_of(case: &Case) -> Cow<'_, str> {
	if case.kind == "deep" {
		Cow::Owned(nest_text(case.nums[0] as usize, case.nums[1].max(0) as usize).unwrap_or_default())
	} else {
		Cow::Borrowed(&case.strs[0])
	}
}

/// The tokens of a case; for a text, the lexer is used (and has to agree with its reference).
fn tokens_of(case: &Case) -> Result<Vec<Tok>, Outcome> {
	if !lexes(case) {
		return Ok(case.toks.clone());
	}
	let text = &*text_of(case);
	let Some(model) = lexmodel::lex(text, 10 * MORPH_LIMIT) else { return Err(Outcome::Discard) };
	if model.error.is_some() {
		return Err(Outcome::Discard);
	}
	Ok(model
		.tokens
		.iter()
		.map(|t| Tok {
			sm: variant_named(t.selmaho) as u16,
			exp: t.exp,
			start: t.span.0 as u32,
			end: t.span.1 as u32,
		})
		.collect())
}

fn kinds(toks: &[Tok]) -> Vec<u16> {
	toks.iter().map(|t| t.sm).collect()
}

fn names(toks: &[Tok]) -> String {
	let mut s: Vec<&str> = toks.iter().take(40).map(|t| t.name()).collect();
	if toks.len() > 40 {
		s.push("…");
	}
	s.join(" ")
}

struct Both {
	toks: Vec<Tok>,
	model: cst::Parsed,
	sut: Parse,
}

/// Parse with both; for texts the code under test lexes on its own.
fn both(case: &Case, obs: &mut Obs) -> Result<Both, Outcome> {
	let toks = tokens_of(case)?;
	let limit = if case.kind == "deep" { DEEP_LIMIT } else { PARSE_LIMIT };
	let Some(model) = cst::parse(&kinds(&toks), limit) else { return Err(Outcome::Discard) };
	if model.depth as usize > DEEP_DEPTH {
		return Err(Outcome::Discard);
	}
	let sut = if lexes(case) {
		let lexed: Result<Vec<_>, _> = sneturfahi::lex(&text_of(case)).collect();
		match lexed {
			Ok(l) => sut::parse(&l),
			Err(e) => return Err(fail(format!("the text does not lex: {e:?}"))),
		}
	} else {
		sut::parse(&sut::real(&toks))
	};
	obs.label(match (&case.kind[..], model.result.is_ok()) {
		("text", true) => "text, accepted",
		("text", false) => "text, rejected",
		("deep", true) => "very long or deep, accepted",
		("deep", false) => "very long or deep, rejected",
		(_, true) => "accepted",
		(_, false) => "rejected",
	});
	obs.label(match toks.len() {
		0..=3 => "tokens: 0-3",
		4..=15 => "tokens: 4-15",
		16..=60 => "tokens: 16-60",
		61..=255 => "tokens: 61-255",
		256..=4000 => "tokens: 256-4000",
		_ => "tokens: more than 4000",
	});
	Ok(Both { toks, model, sut })
}

// --- C14 -----------------------------------------------------------------------------------------------------------

const C14: Property = Property {
	id: "C14",
	rule: "all pairs of kinds of tokens, all triples of common ones, sentences generated from the grammar (also damaged, deeply nested, with long repetitions), every construct repeated and nested up to 4100 times, random tokens, texts; compared with a reference parser; non-trivial: at least three tokens",
	assumptions: &[COST, GRAMMAR],
	families,
	check: c14,
	nums_are_list: false,
};

fn c14(case: &Case, obs: &mut Obs) -> Outcome {
	let b = match both(case, obs) {
		Ok(b) => b,
		Err(o) => return o,
	};
	match (&b.model.result, &b.sut) {
		(Ok(_), Parse::Tree(..)) | (Err(_), Parse::Rejected(..) | Parse::BadLocation(_)) => {}
		(Ok(_), Parse::Rejected(at, e)) => {
			return fail(format!("rejected at token {at} ({e}), should be accepted: {}", names(&b.toks)));
		}
		(Ok(_), Parse::BadLocation(e)) => return fail(format!("rejected ({e}), should be accepted: {}", names(&b.toks))),
		(Err(at), Parse::Tree(..)) => {
			return fail(format!("accepted, should be rejected at token {at}: {}", names(&b.toks)));
		}
	}
	if b.model.result.is_ok() {
		for n in reachable(&b.model) {
			obs.label(n);
		}
	}
	Outcome::Pass(b.toks.len() >= 3)
}

/// Names of the kinds of nodes in a tree (to report what was covered).
fn reachable(p: &cst::Parsed) -> Vec<&'static str> {
	let mut out = Vec::new();
	let mut todo: Vec<u32> = p.result.iter().copied().collect();
	while let Some(i) = todo.pop() {
		let n = &p.nodes[i as usize];
		if n.token.is_none() && n.name.contains("::") {
			out.push(n.name);
		}
		todo.extend(&n.children);
	}
	out.sort_unstable();
	out.dedup();
	out
}

// --- C15 -----------------------------------------------------------------------------------------------------------

const C15: Property = Property {
	id: "C15",
	rule: "as for C14; for accepted ones the whole tree (names, nesting, order, places) is compared with the reference tree; non-trivial: at least three tokens, accepted",
	assumptions: &[COST, GRAMMAR],
	families,
	check: c15,
	nums_are_list: false,
};

fn show(l: Option<&Line>) -> String {
	l.map_or("nothing".to_owned(), |l| format!("{} (level {}, {:?}{})", l.name, l.depth, l.span, if l.exp { ", experimental" } else { "" }))
}

fn c15(case: &Case, obs: &mut Obs) -> Outcome {
	let b = match both(case, obs) {
		Ok(b) => b,
		Err(o) => return o,
	};
	let want = b.model.lines(&b.toks);
	match (&b.model.result, &b.sut) {
		(Ok(_), Parse::Tree(got, _)) => {
			for i in 0..want.len().max(got.len()) {
				let (w, g) = (want.get(i), got.get(i));
				if w.map(|l| (l.depth, l.name, l.span)) != g.map(|l| (l.depth, l.name, l.span)) {
					return fail(format!("node {i} is {}, should be {}: {}", show(g), show(w), names(&b.toks)));
				}
			}
			if b.toks.len() <= 40 {
				if let Some(e) = sut::held(&sut::real(&b.toks), true) {
					return fail(format!("{e}: {}", names(&b.toks)));
				}
			}
			obs.count("nodes compared", want.len() as u64);
			Outcome::Pass(b.toks.len() >= 3)
		}
		(Ok(_), Parse::Rejected(at, e)) => fail(format!("no tree, rejected at token {at} ({e}): {}", names(&b.toks))),
		(Ok(_), Parse::BadLocation(e)) => fail(format!("no tree ({e}): {}", names(&b.toks))),
		(Err(_), Parse::Tree(..)) => fail(format!("a tree for something ungrammatical: {}", names(&b.toks))),
		(Err(_), _) => Outcome::Pass(false),
	}
}

// --- C16 -----------------------------------------------------------------------------------------------------------

const C16: Property = Property {
	id: "C16",
	rule: "as for C14; the leaves of every tree must be the tokens, each once and in order, by place and kind; non-trivial: at least three tokens, accepted",
	assumptions: &[COST],
	families,
	check: c16,
	nums_are_list: false,
};

fn is_leaf(lines: &[Line], i: usize) -> bool {
	lines[i].span.is_some() && lines.get(i + 1).map_or(true, |n| n.depth <= lines[i].depth)
}

fn c16(case: &Case, obs: &mut Obs) -> Outcome {
	let b = match both(case, obs) {
		Ok(b) => b,
		Err(o) => return o,
	};
	let Parse::Tree(got, _) = &b.sut else {
		return if b.model.result.is_ok() {
			fail(format!("no tree: {}", names(&b.toks)))
		} else {
			Outcome::Pass(false)
		};
	};
	let leaves: Vec<&Line> = (0..got.len()).filter(|&i| is_leaf(got, i)).map(|i| &got[i]).collect();
	for i in 0..leaves.len().max(b.toks.len()) {
		let (l, t) = (leaves.get(i), b.toks.get(i));
		let ok = match (l, t) {
			(Some(l), Some(t)) => {
				l.span == Some((t.start, t.end))
					&& (l.name == t.selmaho().as_repr() || matches!(t.name(), "ZoiDelimiter" | "AnyText"))
			}
			_ => false,
		};
		if !ok {
			let t = t.map(|t| format!("{} {}..{}", t.name(), t.start, t.end));
			return fail(format!("leaf {i} is {}, token {i} is {t:?}: {}", show(l.copied()), names(&b.toks)));
		}
	}
	if b.toks.len() <= 100 {
		let printed = printed_places(&b.toks);
		let want: Vec<(u32, u32)> = b.toks.iter().map(|t| (t.start, t.end)).collect();
		if printed != want {
			return fail(format!("printing the tree: {}: {}", first_difference(&printed, &want), names(&b.toks)));
		}
	}
	Outcome::Pass(b.toks.len() >= 3)
}

/// The places (`start..end`) in the debug output of the tree, in order.
fn printed_places(toks: &[Tok]) -> Vec<(u32, u32)> {
	let real = sut::real(toks);
	let arena = sneturfahi::Arena::new();
	let Ok(tree) = sneturfahi::Cst::parse(&real, &arena) else { return Vec::new() };
	let text = format!("{tree:?}");
	let mut out = Vec::new();
	for (at, _) in text.match_indices("..") {
		let from = text[..at].rfind(|c: char| !c.is_ascii_digit()).map_or(0, |i| i + 1);
		let to = text[at + 2..].find(|c: char| !c.is_ascii_digit()).map_or(text.len(), |i| at + 2 + i);
		if let (Ok(a), Ok(b)) = (text[from..at].parse(), text[at + 2..to].parse()) {
			out.push((a, b));
		}
	}
	out
}

// --- C17 -----------------------------------------------------------------------------------------------------------

const C17: Property = Property {
	id: "C17",
	rule: "as for C14; every node must reach from its first to its last token, have no place when it has no tokens, and be experimental exactly when one of its tokens is; non-trivial: at least three tokens, accepted, at least one of them experimental or some node empty",
	assumptions: &[COST],
	families,
	check: c17,
	nums_are_list: false,
};

fn c17(case: &Case, obs: &mut Obs) -> Outcome {
	let b = match both(case, obs) {
		Ok(b) => b,
		Err(o) => return o,
	};
	let Parse::Tree(got, broken) = &b.sut else {
		return if b.model.result.is_ok() {
			fail(format!("no tree: {}", names(&b.toks)))
		} else {
			Outcome::Pass(false)
		};
	};
	if let Some(e) = broken {
		return fail(format!("{e}: {}", names(&b.toks)));
	}
	if b.toks.len() <= 40 {
		if let Some(e) = sut::held(&sut::real(&b.toks), false) {
			return fail(format!("{e}: {}", names(&b.toks)));
		}
	}
	let by_start: std::collections::HashMap<u32, &Tok> = b.toks.iter().map(|t| (t.start, t)).collect();
	// (depth, first, last, experimental, index) of open nodes, from the leaves up
	let mut stack: Vec<(u32, Option<(u32, u32)>, bool, usize)> = Vec::new();
	let mut empty = false;
	let close = |top: (u32, Option<(u32, u32)>, bool, usize), stack: &mut Vec<(u32, Option<(u32, u32)>, bool, usize)>| {
		if let Some(parent) = stack.last_mut() {
			if let Some(s) = top.1 {
				parent.1 = Some((parent.1.map_or(s.0, |p| p.0), s.1));
			}
			parent.2 |= top.2;
		}
		(top.3, top.1, top.2)
	};
	let mut verdicts = Vec::new();
	for (i, l) in got.iter().enumerate() {
		while stack.last().is_some_and(|t| t.0 >= l.depth) {
			let top = stack.pop().unwrap();
			verdicts.push(close(top, &mut stack));
		}
		if is_leaf(got, i) {
			let Some(t) = l.span.and_then(|s| by_start.get(&s.0)) else {
				return fail(format!("a leaf {} that is no token", show(Some(l))));
			};
			stack.push((l.depth, Some((t.start, t.end)), t.exp, i));
		} else {
			stack.push((l.depth, None, false, i));
		}
	}
	while let Some(top) = stack.pop() {
		verdicts.push(close(top, &mut stack));
	}
	for (i, span, exp) in verdicts {
		let l = &got[i];
		if l.span != span || l.exp != exp {
			return fail(format!(
				"node {i} is {}, its tokens reach over {span:?}{}: {}",
				show(Some(l)),
				if exp { ", experimental" } else { "" },
				names(&b.toks)
			));
		}
		empty |= span.is_none();
	}
	if empty {
		obs.label("with an empty node");
	}
	let exp = b.toks.iter().any(|t| t.exp);
	if exp {
		obs.label("with an experimental token");
	}
	// the same for the tree as a whole, by the tokens themselves
	let whole = b.toks.first().map(|f| (f.start, b.toks[b.toks.len() - 1].end));
	if got[0].span != whole || got[0].exp != exp {
		return fail(format!("the whole tree is {}, the tokens reach over {whole:?}", show(got.first())));
	}
	Outcome::Pass(b.toks.len() >= 3 && (exp || empty))
}

// --- C18 -----------------------------------------------------------------------------------------------------------

const C18: Property = Property {
	id: "C18",
	rule: "as for C14, mostly damaged sentences; the location of the error must be the rest of the given tokens from the one that could not be used, by the reference parser; non-trivial: rejected, at a token that is not the first",
	assumptions: &[COST, GRAMMAR],
	families: |tier| {
		let m = if tier == Tier::Quick { 1 } else { 40 };
		let mut f = families(tier);
		f[3].count = 1_000 * m;
		f.push(Family::random("damaged sentences", 25_000 * m, |t| {
			let mut sms = cst::tokens(t, 40, false);
			for _ in 0..t.range(1, 2) {
				let at = t.below(sms.len() + 1);
				let sm = cst::random_token(t);
				if t.chance(1, 2) || at == sms.len() {
					sms.insert(at, sm);
				} else {
					sms[at] = sm;
				}
			}
			Case::new("tokens").toks(spaced(t, &sms))
		}));
		f.push(Family::random("constructs that end too early", 6_000 * m, |t| {
			// the ones that are not given up once they have begun, in the middle of something
			let mut sms = cst::tokens(t, 12, false);
			let n = |s| variant_named(s) as u16;
			let at = t.below(sms.len() + 1);
			let mut put: Vec<u16> = match t.below(4) {
				0 => [&[n("Tei"), n("By"), n("Pa")][..t.range(1, 3)], &[n("Foi")]].concat(),
				1 => [&[n("Koha"), n("Gaho")][t.below(2)..], &[n("Se")][..t.below(2)], &[n("Bihi")], &[n("Nai")][..t.below(2)], &[n("Gaho"), n("Koha")]].concat(),
				2 => vec![n("Lohu"), cst::random_token(t), cst::random_token(t), n("Lehu")],
				_ => vec![n("Li"), n("Pa"), n("Gaho"), n("Bihi"), n("Gaho"), n("Vuhu"), n("Tei"), n("By"), n("Foi")],
			};
			let cut = t.below(put.len());
			match t.below(3) {
				0 => put.truncate(cut + 1),
				1 => put[cut] = cst::random_token(t),
				_ => {
					put.remove(cut);
				}
			}
			sms.splice(at..at, put);
			Case::new("tokens").toks(spaced(t, &sms))
		}));
		f
	},
	check: c18,
	nums_are_list: false,
};

fn c18(case: &Case, obs: &mut Obs) -> Outcome {
	let b = match both(case, obs) {
		Ok(b) => b,
		Err(o) => return o,
	};
	match (&b.model.result, &b.sut) {
		(Ok(_), Parse::Tree(..)) => Outcome::Pass(false),
		(Err(want), Parse::Rejected(got, e)) => {
			if want != got {
				return fail(format!("the error ({e}) is at token {got}, should be at {want}: {}", names(&b.toks)));
			}
			if *want == b.toks.len() {
				obs.label("at the end");
			}
			if let Some(what) = untrue_expectation(&b.toks, *got, obs) {
				return fail(format!("{what}: {}", names(&b.toks)));
			}
			Outcome::Pass(*want > 0)
		}
		(_, Parse::BadLocation(e)) => fail(format!("bad location: {e}: {}", names(&b.toks))),
		(Err(_), Parse::Tree(..)) => fail(format!("no error: {}", names(&b.toks))),
		(Ok(_), Parse::Rejected(at, e)) => fail(format!("an error ({e}) at token {at} of something grammatical: {}", names(&b.toks))),
	}
}

/// Whether an error that says which kinds it expected names ones that would not help.
fn untrue_expectation(toks: &[Tok], at: usize, obs: &mut Obs) -> Option<String> {
	let real = sut::real(toks);
	let arena = sneturfahi::Arena::new();
	let Err(e) = sneturfahi::Cst::parse(&real, &arena) else { return Some("accepted the second time".to_owned()) };
	let sneturfahi::parse::cst::Error::ExpectedGot { expected, got } = &e.error else { return None };
	obs.label("expected kinds named");
	if expected.is_empty() {
		return Some(format!("no kind is expected at {at}"));
	}
	if got.is_some_and(|got| expected.contains(&got.selmaho)) {
		return Some(format!("the error at {at} expects what it found: {e:?}"));
	}
	let mut kinds: Vec<u16> = expected.iter().map(|s| lexmodel::variant(*s) as u16).collect();
	kinds.sort_unstable();
	kinds.dedup();
	for sm in kinds {
		let mut toks = toks[..at].to_vec();
		let start = toks.last().map_or(0, |t| t.end);
		toks.push(Tok { sm, exp: false, start, end: start + 1 });
		if let Parse::Rejected(again, message) = sut::parse(&sut::real(&toks)) {
			if again == at {
				return Some(format!("{} is expected at token {at}, but not usable there ({message})", ALL[sm as usize].1));
			}
		}
	}
	None
}

// --- relations -----------------------------------------------------------------------------------------------------

/// Either parser: the lines of the tree or a description of what is wrong.
pub type AnyParser = fn(&[Tok]) -> Result<Vec<Line>, String>;

/// The relation, where the grammar itself has it: what fails must hold of the reference parser. (That it does but for
/// rare cases is what the selftest is for.)
fn relation(case: &Case, obs: &mut Obs, check: fn(&Case, &mut Obs, AnyParser) -> Outcome) -> Outcome {
	let outcome = check(case, obs, with_sut);
	if matches!(outcome, Outcome::Fail(_)) && matches!(check(case, &mut Obs::default(), with_model), Outcome::Fail(_)) {
		obs.label("not a relation of the grammar");
		return Outcome::Discard;
	}
	outcome
}

pub fn with_sut(toks: &[Tok]) -> Result<Vec<Line>, String> {
	match sut::parse(&sut::real(toks)) {
		Parse::Tree(l, None) => Ok(l),
		Parse::Tree(_, Some(e)) => Err(e),
		Parse::Rejected(at, e) => Err(format!("rejected at token {at} ({e})")),
		Parse::BadLocation(e) => Err(e),
	}
}

pub fn with_model(toks: &[Tok]) -> Result<Vec<Line>, String> {
	match cst::parse(&kinds(toks), 20 * PARSE_LIMIT) {
		Some(p) if p.result.is_ok() => Ok(p.lines(toks)),
		Some(p) => Err(format!("rejected at {:?}", p.result)),
		None => Err("too costly".to_owned()),
	}
}

/// What the relations compare: nesting and kinds of nodes, and where tokens are.
fn skeleton(lines: &[Line]) -> Vec<(u32, &'static str, Option<(u32, u32)>)> {
	(0..lines.len()).map(|i| (lines[i].depth, lines[i].name, if is_leaf(lines, i) { lines[i].span } else { None })).collect()
}

/// Without subtrees of the given name and leaves of the given name.
fn without(lines: &[Line], subtree: &str, leaf: &str) -> Vec<Line> {
	let mut out = Vec::new();
	let mut skip: Option<u32> = None;
	for (i, l) in lines.iter().enumerate() {
		if let Some(d) = skip {
			if l.depth > d {
				continue;
			}
			skip = None;
		}
		if l.name == subtree {
			skip = Some(l.depth);
			continue;
		}
		if l.name == leaf && is_leaf(lines, i) {
			continue;
		}
		out.push(l.clone());
	}
	out
}

fn first_difference<T: PartialEq + std::fmt::Debug>(a: &[T], b: &[T]) -> String {
	let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
	format!("at node {i}: {:?} and {:?}", a.get(i), b.get(i))
}

/// Places far apart, so that tokens can be put between.
fn wide_spaced(sms: &[u16]) -> Vec<Tok> {
	sms.iter().enumerate().map(|(i, &sm)| Tok { sm, exp: false, start: 100 * i as u32, end: 100 * i as u32 + 5 }).collect()
}

fn relation_cases(t: &mut Tape<'_>) -> Vec<Tok> {
	let sms = match t.below(10) {
		0 => cst::nested(t, 20),
		1 => cst::repetitive(t, 150),
		_ => cst::tokens(t, 36, false),
	};
	wide_spaced(&sms)
}

// --- C19 -----------------------------------------------------------------------------------------------------------

const C19: Property = Property {
	id: "C19",
	rule: "grammatical sentences with indicators put after words and emphasis before words; non-trivial: at least one was put in",
	assumptions: &[COST, "not after words that are quoted, made into letters by bu, or joined by zei"],
	families: |tier| {
		let m = if tier == Tier::Quick { 1 } else { 40 };
		vec![Family::random("sentences", 82_000 * m, |t| {
			let toks = relation_cases(t);
			let mut c = Case::new("indicators").toks(toks);
			for _ in 0..=t.size(8) {
				c.nums.push(i64::from(t.u32() >> 1));
			}
			c
		})]
	},
	check: |case, obs| relation(case, obs, c19),
	nums_are_list: true,
};

const INDICATORS: &[&[&str]] = &[
	&["Ui"],
	&["Cai"],
	&["Ui", "Nai"],
	&["Ui", "Cai", "Ui"],
	&["Daho"],
	&["Fuho"],
	&["Y"],
	&["Nai"],
	&["Fuhe", "Ui"],
	&["Ui", "Y", "Cai", "Nai", "Ui", "Fuho"],
];

pub fn c19(case: &Case, obs: &mut Obs, parse: AnyParser) -> Outcome {
	let toks = wide_spaced(&kinds(&case.toks));
	let Some(p) = cst::parse(&kinds(&toks), PARSE_LIMIT) else { return Outcome::Discard };
	if p.result.is_err() {
		return Outcome::Discard;
	}
	let g = cst::get();
	// nodes of words that can have them: (from, token, to, takes indicators)
	let mut places: Vec<(usize, usize, usize, bool)> = Vec::new();
	let mut todo: Vec<u32> = p.result.iter().copied().collect();
	while let Some(i) = todo.pop() {
		let n = &p.nodes[i as usize];
		todo.extend(&n.children);
		if n.token.is_some() {
			continue;
		}
		if let Some((sm, kind)) = g.rules[n.rule as usize].token {
			if matches!(kind, Kind::Usual | Kind::NoIndicators) {
				let at = n.children.iter().filter_map(|&c| p.nodes[c as usize].token).find(|&t| toks[t as usize].sm == sm);
				places.push((n.from as usize, at.unwrap() as usize, n.to as usize, kind == Kind::Usual));
			}
		}
	}
	places.sort_unstable();
	if places.is_empty() || case.nums.is_empty() {
		return Outcome::Discard;
	}
	// (position, tokens)
	let mut insertions: Vec<(usize, Vec<u16>)> = Vec::new();
	for &n in &case.nums {
		let n = n as usize;
		let (from, at, to, usual) = places[n % places.len()];
		let kind = (n / 1000) % 14;
		let (pos, new): (usize, Vec<u16>) = if kind < INDICATORS.len() && usual {
			let v: Vec<u16> = INDICATORS[kind].iter().map(|n| variant_named(n) as u16).collect();
			// fu'e only as the first one
			let first = to == at + 1;
			if INDICATORS[kind][0] == "Fuhe" && !first {
				continue;
			}
			(to, v)
		} else {
			(from, vec![variant_named("Bahe") as u16; 1 + n % 3])
		};
		// `bu` and `zei` claim the word before them, which would be the emphasis
		let claims = toks.get(pos).is_some_and(|t| matches!(t.name(), "Bu" | "Zei"));
		if claims || insertions.iter().any(|i| i.0 == pos) {
			continue;
		}
		insertions.push((pos, new));
	}
	insertions.sort();
	let shifted: Vec<Tok> = toks.iter().map(|t| Tok { start: t.start + 100, end: t.end + 100, ..*t }).collect();
	let mut more = Vec::new();
	let mut rest = insertions.iter().peekable();
	for i in 0..=toks.len() {
		while let Some(ins) = rest.next_if(|ins| ins.0 == i) {
			for (k, &sm) in ins.1.iter().enumerate() {
				let start = 100 * i as u32 + 10 + 5 * k as u32;
				more.push(Tok { sm, exp: false, start, end: start + 3 });
			}
		}
		more.extend(shifted.get(i));
	}
	if cst::parse(&kinds(&more), PARSE_LIMIT).is_none() {
		return Outcome::Discard;
	}
	let before = match parse(&shifted) {
		Ok(l) => l,
		Err(e) => return fail(format!("{e}: {}", names(&shifted))),
	};
	let after = match parse(&more) {
		Ok(l) => l,
		Err(e) => return fail(format!("with indicators: {e}: {}", names(&more))),
	};
	let strip = |l: &[Line]| skeleton(&without(l, "Indicators", "BAhE"));
	let (a, b) = (strip(&before), strip(&after));
	if a != b {
		return fail(format!("indicators change the rest of the tree, {}: {}", first_difference(&a, &b), names(&more)));
	}
	// and they are there
	let leaves = |l: &[Line]| (0..l.len()).filter(|&i| is_leaf(l, i)).count();
	if leaves(&after) != more.len() {
		return fail(format!("{} leaves for {} tokens", leaves(&after), more.len()));
	}
	obs.count("inserted", (more.len() - toks.len()) as u64);
	Outcome::Pass(more.len() > toks.len())
}

// --- C20 -----------------------------------------------------------------------------------------------------------

const C20: Property = Property {
	id: "C20",
	rule: "grammatical sentences, with a terminator that was left out written where it belongs, or one that was written left out at the end of the text; non-trivial: there was such a terminator",
	assumptions: &[COST, GRAMMAR],
	families: |tier| {
		let m = if tier == Tier::Quick { 1 } else { 40 };
		vec![Family::random("sentences", 50_000 * m, |t| {
			let toks = relation_cases(t);
			let mut c = Case::new("terminators").toks(toks);
			for _ in 0..=t.size(6) {
				c.nums.push(i64::from(t.u32() >> 1));
			}
			c
		})]
	},
	check: |case, obs| relation(case, obs, c20),
	nums_are_list: true,
};

/// Whether the token at that place is the ku that stands in for what a tag is about.
fn ku_of_tag(lines: &[Line], place: (u32, u32)) -> bool {
	let at = (0..lines.len()).find(|&i| is_leaf(lines, i) && lines[i].span == Some(place));
	at.is_some_and(|at| at >= 2 && lines[at - 2].name == "TagValue::Ku")
}

pub fn c20(case: &Case, obs: &mut Obs, parse: AnyParser) -> Outcome {
	let toks = wide_spaced(&kinds(&case.toks));
	let Some(left_out) = cst::elided(&kinds(&toks), PARSE_LIMIT) else { return Outcome::Discard };
	let before = match parse(&toks) {
		Ok(l) => l,
		Err(e) => return fail(format!("{e}: {}", names(&toks))),
	};
	let mut tried = 0;
	for &n in &case.nums {
		let n = n as usize;
		if left_out.is_empty() {
			break;
		}
		let (pos, sm) = left_out[n % left_out.len()];
		let mut more = toks.clone();
		let start = 100 * pos as u32;
		let start = if pos == 0 { 0 } else { start - 90 };
		more.insert(pos, Tok { sm, exp: false, start, end: start + 3 });
		let Some(grammar) = cst::parse(&kinds(&more), PARSE_LIMIT) else { continue };
		// directly after a tag, ku belongs to the tag
		if ALL[sm as usize].1 == "Ku" && grammar.result.is_ok() && ku_of_tag(&grammar.lines(&more), (start, start + 3)) {
			continue;
		}
		let after = match parse(&more) {
			Ok(l) => l,
			Err(e) => return fail(format!("with {} written: {e}: {}", ALL[sm as usize].1, names(&more))),
		};
		// take the node of the terminator out again
		let at = (0..after.len()).find(|&i| is_leaf(&after, i) && after[i].span == Some((start, start + 3)));
		let Some(at) = at else { return fail(format!("{} is not in the tree", ALL[sm as usize].1)) };
		let mut rest = after.clone();
		if at == 0 || after[at - 1].name != ALL[sm as usize].1 || after[at - 1].depth + 1 != after[at].depth {
			return fail(format!("{} was used as something else: {}", ALL[sm as usize].1, names(&more)));
		}
		rest.drain(at - 1..=at);
		let (a, b) = (skeleton(&before), skeleton(&rest));
		if a != b {
			return fail(format!(
				"writing {} changes the rest of the tree, {}: {}",
				ALL[sm as usize].1,
				first_difference(&a, &b),
				names(&more)
			));
		}
		obs.label(ALL[sm as usize].1);
		tried += 1;
	}
	// leaving out terminators at the end
	let mut end = toks.len();
	while end > 0 && cst::is_elidable(toks[end - 1].sm) {
		let without = cst::elided(&kinds(&toks[..end - 1]), PARSE_LIMIT);
		if !without.is_some_and(|e| e.contains(&(end - 1, toks[end - 1].sm))) {
			break;
		}
		// a ku may also be what a tag is about, instead of a terminator
		if ku_of_tag(&before, (toks[end - 1].start, toks[end - 1].end)) {
			break;
		}
		end -= 1;
	}
	if end < toks.len() {
		let fewer = &toks[..end];
		let after = match parse(fewer) {
			Ok(l) => l,
			Err(e) => return fail(format!("without the last terminators: {e}: {}", names(fewer))),
		};
		let gone: Vec<(u32, u32)> = toks[end..].iter().map(|t| (t.start, t.end)).collect();
		let mut keep = vec![true; before.len()];
		for i in 0..before.len() {
			if is_leaf(&before, i) && before[i].span.is_some_and(|s| gone.contains(&s)) {
				keep[i] = false;
				keep[i - 1] = false;
			}
		}
		let rest: Vec<_> =
			skeleton(&before).into_iter().zip(&keep).filter(|(_, k)| **k).map(|(l, _)| l).collect();
		let b = skeleton(&after);
		if rest != b {
			return fail(format!(
				"leaving out the last terminators changes the rest of the tree, {}: {}",
				first_difference(&rest, &b),
				names(&toks)
			));
		}
		obs.label("left out at the end");
		tried += 1;
	}
	Outcome::Pass(tried > 0)
}

// --- C21 -----------------------------------------------------------------------------------------------------------

const C21: Property = Property {
	id: "C21",
	rule: "grammatical texts quoted with lu … li'u, put in parentheses with to … toi, and joined with .i; the trees of the parts must come back inside of the whole; non-trivial: at least three tokens in a part",
	assumptions: &[COST, "texts that end with fa'o or leave out li'u, toi or tu'u are not used; the second of two joined texts does not start with a connective"],
	families: |tier| {
		let m = if tier == Tier::Quick { 1 } else { 40 };
		vec![
			Family::random("quoted", 38_000 * m, |t| {
				let toks = relation_cases(t);
				let mut c = Case::new("quoted").toks(toks);
				c.nums.push(t.below(5) as i64);
				c
			}),
			Family::random("joined", 45_000 * m, |t| {
				let a = relation_cases(t);
				let b = relation_cases(t);
				let n = a.len() as i64;
				Case::new("joined").toks([a, b].concat()).num(n)
			}),
		]
	},
	check: |case, obs| relation(case, obs, c21),
	nums_are_list: false,
};

fn closed(toks: &[Tok]) -> bool {
	!toks.iter().any(|t| t.name() == "Faho")
		&& cst::elided(&kinds(toks), PARSE_LIMIT).is_some_and(|e| {
			!e.iter().any(|e| matches!(ALL[e.1 as usize].1, "Lihu" | "Toi" | "Tuhu"))
		})
}

/// Starts with something that belongs to a word before it.
fn takes_indicators_away(toks: &[Tok]) -> bool {
	toks.iter()
		.find(|t| t.name() != "Bahe")
		.is_some_and(|t| matches!(t.name(), "Ui" | "Cai" | "Nai" | "Y" | "Daho" | "Fuho" | "Fuhe"))
}

/// The subtrees of outermost nodes whose name starts with the prefix.
fn subtrees(lines: &[Line], prefix: &str) -> Vec<Vec<(u32, &'static str, Option<(u32, u32)>)>> {
	let s = skeleton(lines);
	let mut out: Vec<Vec<_>> = Vec::new();
	let mut open: Option<u32> = None;
	for l in s {
		if open.is_some_and(|d| l.0 <= d) {
			open = None;
		}
		if let Some(d) = open {
			out.last_mut().unwrap().push((l.0 - d, l.1, l.2));
		} else if l.1.starts_with(prefix) {
			open = Some(l.0);
			out.push(vec![(0, l.1, l.2)]);
		}
	}
	out
}

pub fn c21(case: &Case, obs: &mut Obs, parse: AnyParser) -> Outcome {
	obs.label(&case.kind);
	let sm = |n: &str| variant_named(n) as u16;
	if case.kind == "quoted" {
		let toks = wide_spaced(&kinds(&case.toks));
		let mut inner: Vec<Tok> = toks;
		for t in &mut inner {
			t.start += 1000;
			t.end += 1000;
		}
		if !closed(&inner) || case.nums[0] / 2 == 1 && takes_indicators_away(&inner) {
			return Outcome::Discard;
		}
		let (before, after): (&[&str], &[&str]) = match case.nums[0] {
			0 => (&["Lu"], &["Lihu"]),
			1 => (&["Koha", "Cu", "Gismu", "Lu"], &["Lihu"]),
			2 => (&["To"], &["Toi"]),
			3 => (&["Koha", "To"], &["Toi", "Gismu", "Koha"]),
			_ => (&["Lu"], &["Lihu", "Gismu"]),
		};
		let mut all: Vec<Tok> = before
			.iter()
			.enumerate()
			.map(|(i, n)| Tok { sm: sm(n), exp: false, start: 10 * i as u32, end: 10 * i as u32 + 2 })
			.collect();
		all.extend(&inner);
		let end = inner.last().map_or(1000, |t| t.end) + 100;
		all.extend(
			after
				.iter()
				.enumerate()
				.map(|(i, n)| Tok { sm: sm(n), exp: false, start: end + 10 * i as u32, end: end + 10 * i as u32 + 2 }),
		);
		if cst::parse(&kinds(&all), PARSE_LIMIT).is_none() {
			return Outcome::Discard;
		}
		let alone = match parse(&inner) {
			Ok(l) => skeleton(&l),
			Err(e) => return fail(format!("{e}: {}", names(&inner))),
		};
		let whole = match parse(&all) {
			Ok(l) => skeleton(&l),
			Err(e) => return fail(format!("quoted: {e}: {}", names(&all))),
		};
		let opener = if before.contains(&"Lu") { "LU" } else { "TO" };
		let found = (0..whole.len()).any(|i| {
			whole[i].1 == "Text"
				&& i > 0 && whole[i - 1].1 == opener
				&& whole.len() >= i + alone.len()
				&& whole[i..i + alone.len()]
					.iter()
					.zip(&alone)
					.all(|(w, a)| w.0 == a.0 + whole[i].0 && w.1 == a.1 && w.2 == a.2)
				&& whole.get(i + alone.len()).is_some_and(|n| n.0 <= whole[i].0)
		});
		// the opening word may be a node around its token
		let found = found
			|| (0..whole.len()).any(|i| {
				whole[i].1 == "Text"
					&& whole[i].0 > 0
					&& whole.len() >= i + alone.len()
					&& whole[i..i + alone.len()]
						.iter()
						.zip(&alone)
						.all(|(w, a)| w.0 == a.0 + whole[i].0 && w.1 == a.1 && w.2 == a.2)
					&& whole.get(i + alone.len()).is_some_and(|n| n.0 <= whole[i].0)
			});
		if !found {
			return fail(format!("the tree of the text is not the tree of the quote: {}", names(&all)));
		}
		return Outcome::Pass(inner.len() >= 3);
	}
	let n = (case.nums[0].max(0) as usize).min(case.toks.len());
	let all = wide_spaced(&kinds(&case.toks));
	let (a, b) = all.split_at(n);
	if !closed(a) || cst::elided(&kinds(b), PARSE_LIMIT).is_none() {
		return Outcome::Discard;
	}
	if b.first().is_some_and(|t| matches!(t.name(), "I" | "Niho")) {
		return Outcome::Discard;
	}
	// a lone connective would become that of the `.i` before
	let connective = match cst::parse(&kinds(b), PARSE_LIMIT) {
		Some(p) => p.nodes.iter().any(|n| matches!(n.name, "Fragment::Joik" | "Fragment::Jek")),
		None => true,
	};
	if connective {
		return Outcome::Discard;
	}
	let mut joined = a.to_vec();
	let start = a.last().map_or(0, |t| t.end + 1);
	joined.push(Tok { sm: sm("I"), exp: false, start, end: start + 1 });
	joined.extend(b);
	if cst::parse(&kinds(&joined), PARSE_LIMIT).is_none() {
		return Outcome::Discard;
	}
	let (la, lb, lj) = match (parse(a), parse(b), parse(&joined)) {
		(Ok(x), Ok(y), Ok(z)) => (x, y, z),
		(Err(e), ..) => return fail(format!("{e}: {}", names(a))),
		(_, Err(e), _) => return fail(format!("{e}: {}", names(b))),
		(_, _, Err(e)) => return fail(format!("joined: {e}: {}", names(&joined))),
	};
	let items = |l: &[Line]| -> Vec<Vec<_>> {
		subtrees(l, "ParagraphItem::").into_iter().filter(|s| s[0].1 != "ParagraphItem::Empty").collect()
	};
	let mut want = items(&la);
	want.extend(items(&lb));
	let got = items(&lj);
	if want != got {
		return fail(format!(
			"joined with .i the sentences are others, {}: {} / {}",
			first_difference(&got, &want),
			names(a),
			names(b)
		));
	}
	Outcome::Pass(a.len() >= 3 && b.len() >= 3)
}
