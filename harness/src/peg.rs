//! A small packrat interpreter for parsing expression grammars over characters.
//!
//! Every rule is memoised, so a lookup is linear in the input for a fixed grammar, and along with every result the
//! number of rule applications a plain recursive-descent evaluation (no memoisation) would have needed is recorded.
//! The harness uses that number to keep generated inputs inside what the code under test can finish.

use std::collections::HashMap;

#[derive(Debug, Clone)]
enum Expr {
	Empty,
	Class(Vec<char>),
	Eof,
	Rule(usize),
	Seq(Vec<Expr>),
	Alt(Vec<Expr>),
	Longest(Vec<Expr>),
	Not(Box<Expr>),
	And(Box<Expr>),
	Repeat(usize, Box<Expr>),
	Opt(Box<Expr>),
}

#[derive(Debug)]
pub struct Grammar {
	names: HashMap<String, usize>,
	rules: Vec<Expr>,
}

#[derive(Debug, Clone, Copy)]
enum Memo {
	Unknown,
	Busy,
	Done(Option<u32>, u64),
}

struct P<'a> {
	src: Vec<char>,
	pos: usize,
	names: &'a HashMap<String, usize>,
}

impl P<'_> {
	fn ws(&mut self) {
		while self.pos < self.src.len() && self.src[self.pos].is_whitespace() {
			self.pos += 1;
		}
	}
	fn peek(&mut self) -> Option<char> {
		self.ws();
		self.src.get(self.pos).copied()
	}
	fn eat(&mut self, c: char) -> bool {
		if self.peek() == Some(c) {
			self.pos += 1;
			true
		} else {
			false
		}
	}
	fn ident(&mut self) -> String {
		self.ws();
		let mut s = String::new();
		while let Some(&c) = self.src.get(self.pos) {
			if c.is_ascii_alphanumeric() || c == '_' {
				s.push(c);
				self.pos += 1;
			} else {
				break;
			}
		}
		assert!(!s.is_empty(), "identifier expected at {} in {:?}", self.pos, self.src.iter().collect::<String>());
		s
	}
	fn alt(&mut self) -> Expr {
		let mut alts = vec![self.seq()];
		while self.eat('/') {
			alts.push(self.seq());
		}
		if alts.len() == 1 {
			alts.pop().unwrap()
		} else {
			Expr::Alt(alts)
		}
	}
	fn seq(&mut self) -> Expr {
		let mut items = Vec::new();
		while let Some(c) = self.peek() {
			if c == '/' || c == ')' || c == '|' {
				break;
			}
			items.push(self.prefix());
		}
		match items.len() {
			0 => Expr::Empty,
			1 => items.pop().unwrap(),
			_ => Expr::Seq(items),
		}
	}
	fn prefix(&mut self) -> Expr {
		if self.eat('!') {
			Expr::Not(Box::new(self.prefix()))
		} else if self.eat('&') {
			Expr::And(Box::new(self.prefix()))
		} else {
			self.postfix()
		}
	}
	fn postfix(&mut self) -> Expr {
		let mut e = self.atom();
		loop {
			// postfix operators stick to their operand
			match self.src.get(self.pos) {
				Some('?') => e = Expr::Opt(Box::new(e)),
				Some('*') => e = Expr::Repeat(0, Box::new(e)),
				Some('+') => e = Expr::Repeat(1, Box::new(e)),
				_ => return e,
			}
			self.pos += 1;
		}
	}
	fn atom(&mut self) -> Expr {
		match self.peek() {
			Some('(') => {
				self.pos += 1;
				let e = self.alt();
				assert!(self.eat(')'));
				e
			}
			Some('[') => {
				self.pos += 1;
				let mut cs = Vec::new();
				while self.src[self.pos] != ']' {
					cs.push(self.src[self.pos]);
					self.pos += 1;
				}
				self.pos += 1;
				Expr::Class(cs)
			}
			Some('$') => {
				self.pos += 1;
				Expr::Eof
			}
			_ => {
				let id = self.ident();
				if id == "longest" {
					assert!(self.eat('('));
					let mut alts = vec![self.alt()];
					while self.eat('|') {
						alts.push(self.alt());
					}
					assert!(self.eat(')'));
					Expr::Longest(alts)
				} else {
					Expr::Rule(*self.names.get(&id).unwrap_or_else(|| panic!("unknown rule {id}")))
				}
			}
		}
	}
}

impl Grammar {
	/// Text form: one rule per paragraph, `name <- expression`; `#` starts a comment line.
	pub fn parse(text: &str) -> Self {
		let mut defs: Vec<(String, String)> = Vec::new();
		for line in text.lines() {
			let trimmed = line.trim();
			if trimmed.starts_with('#') || trimmed.is_empty() {
				continue;
			}
			if let Some((name, body)) = line.split_once("<-") {
				defs.push((name.trim().to_owned(), body.to_owned()));
			} else {
				let last = defs.last_mut().expect("continuation without a rule");
				last.1.push(' ');
				last.1.push_str(trimmed);
			}
		}
		let mut names = HashMap::new();
		for (index, (name, _)) in defs.iter().enumerate() {
			assert!(names.insert(name.clone(), index).is_none(), "duplicate rule {name}");
		}
		let rules = defs
			.iter()
			.map(|(name, body)| {
				let mut p = P { src: body.chars().collect(), pos: 0, names: &names };
				let e = p.alt();
				assert!(p.peek().is_none(), "trailing input in rule {name}");
				e
			})
			.collect();
		Self { names, rules }
	}

	pub fn rule(&self, name: &str) -> usize {
		self.names[name]
	}

	pub fn session<'g>(&'g self, input: Vec<char>) -> Session<'g> {
		let width = input.len() + 1;
		Session {
			grammar: self,
			memo: vec![Memo::Unknown; width * self.rules.len()],
			width,
			input,
		}
	}
}

pub struct Session<'g> {
	grammar: &'g Grammar,
	input: Vec<char>,
	width: usize,
	memo: Vec<Memo>,
}

impl Session<'_> {
	/// Where the rule's match starting at `pos` ends, and the cost of finding out without memoisation.
	pub fn apply(&mut self, rule: usize, pos: usize) -> (Option<usize>, u64) {
		let slot = rule * self.width + pos;
		match self.memo[slot] {
			Memo::Done(end, cost) => (end.map(|e| e as usize), cost),
			Memo::Busy => panic!("left recursion in rule {rule}"),
			Memo::Unknown => {
				self.memo[slot] = Memo::Busy;
				let grammar = self.grammar;
				let mut cost = 1;
				let end = self.eval(&grammar.rules[rule], pos, &mut cost);
				self.memo[slot] = Memo::Done(end.map(|e| u32::try_from(e).unwrap()), cost);
				(end, cost)
			}
		}
	}

	fn eval(&mut self, expr: &Expr, pos: usize, cost: &mut u64) -> Option<usize> {
		match expr {
			Expr::Empty => Some(pos),
			Expr::Class(cs) => {
				*cost = cost.saturating_add(1);
				self.input.get(pos).filter(|c| cs.contains(c)).map(|_| pos + 1)
			}
			Expr::Eof => (pos == self.input.len()).then_some(pos),
			Expr::Rule(rule) => {
				let (end, c) = self.apply(*rule, pos);
				*cost = cost.saturating_add(c);
				end
			}
			Expr::Seq(items) => {
				let mut at = pos;
				for item in items {
					at = self.eval(item, at, cost)?;
				}
				Some(at)
			}
			Expr::Alt(alts) => alts.iter().find_map(|alt| self.eval(alt, pos, cost)),
			Expr::Longest(alts) => alts
				.iter()
				.filter_map(|alt| self.eval(alt, pos, cost))
				.max(),
			Expr::Not(e) => match self.eval(e, pos, cost) {
				Some(_) => None,
				None => Some(pos),
			},
			Expr::And(e) => self.eval(e, pos, cost).map(|_| pos),
			Expr::Repeat(min, e) => {
				let mut at = pos;
				let mut n = 0;
				while let Some(next) = self.eval(e, at, cost) {
					assert!(next > at, "empty repetition");
					at = next;
					n += 1;
				}
				(n >= *min).then_some(at)
			}
			Expr::Opt(e) => Some(self.eval(e, pos, cost).unwrap_or(pos)),
		}
	}
}
