//! The code under test, seen through the harness's own types.

use crate::case::Tok;
use crate::cst::Line;
use crate::lexmodel::{variant, MErr, Range};
use crate::variants::ALL;
use sneturfahi::lex::{Error, Token};
use sneturfahi::parse::tree_node::TreeNode;
use sneturfahi::{Arena, Cst, Span};

pub fn range(s: Span) -> Range {
	(s.start as usize, s.end as usize)
}

pub fn decompose(text: &str) -> Vec<Range> {
	sneturfahi::decompose(text).map(range).collect()
}

pub fn error(e: Error) -> MErr {
	match e {
		Error::DelimitedQuoteMissingSeparator { initiator_span } => {
			MErr::MissingSeparator { initiator: range(initiator_span) }
		}
		Error::DelimitedQuoteUnclosed { initiator_span, starting_delimiter_span } => {
			MErr::Unclosed { initiator: range(initiator_span), delimiter: range(starting_delimiter_span) }
		}
		Error::PauseDelimitedQuoteEof { initiator_span } => MErr::PauseEof { initiator: range(initiator_span) },
	}
}

pub fn tok(t: Token) -> Tok {
	Tok { sm: variant(t.selmaho) as u16, exp: t.experimental, start: t.span.start, end: t.span.end }
}

pub struct Lex {
	pub tokens: Vec<Tok>,
	pub error: Option<MErr>,
	/// something came after the end or after an error
	pub more: bool,
}

pub fn lex(text: &str) -> Lex {
	let mut it = sneturfahi::lex(text);
	let mut out = Lex { tokens: vec![], error: None, more: false };
	for item in it.by_ref() {
		match item {
			Ok(t) => out.tokens.push(tok(t)),
			Err(e) => {
				out.error = Some(error(e));
				break;
			}
		}
	}
	out.more = (0..3).any(|_| it.next().is_some());
	out
}

pub fn real(toks: &[Tok]) -> Vec<Token> {
	toks.iter().map(|t| t.token()).collect()
}

fn walk(n: &dyn TreeNode, depth: u32, out: &mut Vec<Line>, broken: &mut Option<String>) {
	let span = match (n.start_location(), n.end_location()) {
		(Some(a), Some(b)) => Some((a, b)),
		(None, None) => None,
		other => {
			broken.get_or_insert_with(|| format!("node {} reports {other:?} as its range", n.name()));
			None
		}
	};
	out.push(Line { depth, name: n.name(), span, exp: n.experimental() });
	n.for_each_child(&mut |c| walk(c, depth + 1, out, broken));
}

/// Every node in depth-first order.
pub fn lines(root: &dyn TreeNode) -> (Vec<Line>, Option<String>) {
	let mut out = Vec::new();
	let mut broken = None;
	walk(root, 0, &mut out, &mut broken);
	(out, broken)
}

type Top = (&'static str, Vec<(&'static str, Option<u32>)>, Option<u32>, Option<u32>, bool);

fn top(n: &dyn TreeNode) -> Top {
	let mut children = Vec::new();
	n.for_each_child(&mut |c| children.push((c.name(), c.start_location())));
	(n.name(), children, n.start_location(), n.end_location(), n.experimental())
}

/// Whether nodes (the root of the tree and the tokens) are the same when they are looked at through a reference or in a
/// box: as to what they are and contain (`structure`) or as to where they are and whether they are experimental.
pub fn held(toks: &[Token], structure: bool) -> Option<String> {
	fn differs<T: TreeNode>(n: &T, structure: bool) -> Option<String> {
		let plain = top(n);
		let by_reference = top(&n);
		let boxed = top(&Box::new(n));
		for (how, other) in [("through a reference", by_reference), ("in a box", boxed)] {
			let same = if structure {
				(plain.0, &plain.1) == (other.0, &other.1)
			} else {
				(plain.2, plain.3, plain.4) == (other.2, other.3, other.4)
			};
			if !same {
				return Some(format!("{plain:?} is {other:?} {how}"));
			}
		}
		None
	}
	let arena = Arena::new();
	let tree = Cst::parse(toks, &arena).ok()?;
	differs(tree.root(), structure).or_else(|| toks.iter().find_map(|t| differs(t, structure)))
}

pub enum Parse {
	Tree(Vec<Line>, Option<String>),
	/// position of the token that could not be used, and what the error says
	Rejected(usize, String),
	/// the location is not the end of the given tokens
	BadLocation(String),
}

pub fn parse(toks: &[Token]) -> Parse {
	let arena = Arena::new();
	parse_in(toks, &arena)
}

pub fn parse_in(toks: &[Token], arena: &Arena) -> Parse {
	match Cst::parse(toks, arena) {
		Ok(c) => {
			let (l, b) = lines(c.root());
			Parse::Tree(l, b)
		}
		Err(e) => {
			let range = toks.as_ptr_range();
			let at = e.location.as_ptr_range();
			if e.location.len() > toks.len() || (!toks.is_empty() && at.end != range.end) {
				return Parse::BadLocation(format!("{} tokens in the location: {:?}", e.location.len(), e.error));
			}
			if let sneturfahi::parse::cst::error::Error::ExpectedGot { got, .. } = &e.error {
				let first = e.location.first();
				if got.map(tok) != first.copied().map(tok) {
					return Parse::BadLocation(format!("error mentions {got:?}, located at {first:?}"));
				}
			}
			Parse::Rejected(toks.len() - e.location.len(), format!("{:?}", e.error))
		}
	}
}

pub fn name(sm: u16) -> &'static str {
	ALL[sm as usize].1
}
