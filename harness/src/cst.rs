//! Reference parser: interprets `data/cst.grammar` over tokens, with memoisation, and records what a plain recursive
//! descent would have cost. Also a generator of token sequences from the same grammar.

use crate::case::Tok;
use crate::engine::Tape;
use crate::lexmodel::variant_named;
use crate::variants::ALL;
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Debug, Clone)]
enum Ast {
	Ref(String, Vec<Ast>),
	Seq(Vec<Ast>),
	Opt(Box<Ast>),
	Many(usize, Box<Ast>),
	Not(Box<Ast>),
	Cut(Box<Ast>),
	NonEmpty(Box<Ast>),
	Till(Box<Ast>, Box<Ast>),
	Any,
	AnyBut(Vec<String>),
	Leaf(String, String),
}

#[derive(Debug, Clone)]
pub enum Expr {
	Rule(usize),
	/// leaf with its name
	Tok(u16, &'static str),
	Any,
	AnyBut(Vec<u16>),
	Seq(Vec<Expr>),
	Opt(Box<Expr>),
	Many(usize, Box<Expr>),
	Not(Box<Expr>),
	Cut(Box<Expr>),
	NonEmpty(Box<Expr>),
	Till(Box<Expr>, Box<Expr>),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind {
	Usual,
	NoIndicators,
	Raw,
	Bare,
}

pub struct Rule {
	pub key: String,
	/// node name (`None`: no node of its own) and body
	pub variants: Vec<(Option<&'static str>, Expr)>,
	min_len: usize,
	min_depth: usize,
	/// whether this rule is a single token of the given selma'o
	pub token: Option<(u16, Kind)>,
}

pub struct Grammar {
	pub rules: Vec<Rule>,
	pub root: usize,
	index: HashMap<String, usize>,
	kinds: HashMap<u16, Kind>,
}

struct Def {
	params: Vec<String>,
	variants: Vec<(Option<String>, Ast)>,
}

struct P<'a> {
	toks: Vec<&'a str>,
	pos: usize,
}

fn tokenize(s: &str) -> Vec<&str> {
	let mut out = Vec::new();
	let b = s.as_bytes();
	let mut i = 0;
	while i < b.len() {
		let c = b[i];
		if c.is_ascii_whitespace() {
			i += 1;
		} else if c.is_ascii_alphanumeric() || c == b'_' {
			let st = i;
			while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
				i += 1;
			}
			out.push(&s[st..i]);
		} else {
			// a parenthesis right after a name opens arguments
			out.push(if c == b'(' && i > 0 && b[i - 1].is_ascii_alphanumeric() { "call" } else { &s[i..=i] });
			i += 1;
		}
	}
	out
}

impl<'a> P<'a> {
	fn peek(&self) -> Option<&'a str> {
		self.toks.get(self.pos).copied()
	}
	fn eat(&mut self, t: &str) -> bool {
		if self.peek() == Some(t) {
			self.pos += 1;
			true
		} else {
			false
		}
	}
	fn seq(&mut self) -> Ast {
		let mut items = Vec::new();
		while let Some(t) = self.peek() {
			if t == ")" || t == "," {
				break;
			}
			items.push(self.item());
		}
		if items.len() == 1 {
			items.pop().unwrap()
		} else {
			Ast::Seq(items)
		}
	}
	fn args(&mut self) -> Vec<Ast> {
		let mut out = Vec::new();
		if self.eat("call") {
			loop {
				out.push(self.seq());
				if self.eat(")") {
					break;
				}
				assert!(self.eat(","), "expected , in {:?}", self.toks);
			}
		}
		out
	}
	fn item(&mut self) -> Ast {
		if self.eat("!") {
			return Ast::Not(Box::new(self.item()));
		}
		if self.eat("^") {
			return Ast::Cut(Box::new(self.item()));
		}
		let mut e = if self.eat("(") {
			let e = self.seq();
			assert!(self.eat(")"));
			e
		} else {
			let name = self.peek().unwrap().to_owned();
			assert!(name.chars().all(|c| c.is_ascii_alphanumeric()), "unexpected {name} in {:?}", self.toks);
			self.pos += 1;
			match name.as_str() {
				"any" => Ast::Any,
				"anybut" => {
					assert!(self.eat("call"));
					let mut names = Vec::new();
					while !self.eat(")") {
						names.push(self.peek().unwrap().to_owned());
						self.pos += 1;
					}
					Ast::AnyBut(names)
				}
				"leaf" => {
					let a = self.args();
					match (&a[0], &a[1]) {
						(Ast::Ref(n, _), Ast::Ref(t, _)) => Ast::Leaf(n.clone(), t.clone()),
						_ => panic!(),
					}
				}
				"nonempty" => Ast::NonEmpty(Box::new(self.args().pop().unwrap())),
				"till" => {
					let mut a = self.args();
					let end = a.pop().unwrap();
					Ast::Till(Box::new(a.pop().unwrap()), Box::new(end))
				}
				_ => Ast::Ref(name, self.args()),
			}
		};
		loop {
			if self.eat("?") {
				e = Ast::Opt(Box::new(e));
			} else if self.eat("*") {
				e = Ast::Many(0, Box::new(e));
			} else if self.eat("+") {
				e = Ast::Many(1, Box::new(e));
			} else {
				return e;
			}
		}
	}
}

/// The conventional name of a selma'o.
pub fn repr(variant: &str) -> String {
	match variant {
		"Gismu" => "gismu".to_owned(),
		"Lujvo" => "lujvo".to_owned(),
		"Fuhivla" => "fuhivla".to_owned(),
		"Cmevla" => "cmevla".to_owned(),
		"UnknownCmavo" => "(unknown cmavo)".to_owned(),
		"AnyText" => "(any text)".to_owned(),
		"ZoiDelimiter" => "(zoi delimiter)".to_owned(),
		v => v.chars().map(|c| if c == 'h' { 'h' } else { c.to_ascii_uppercase() }).collect(),
	}
}

pub fn reprs() -> &'static [&'static str] {
	static R: OnceLock<Vec<&'static str>> = OnceLock::new();
	R.get_or_init(|| ALL.iter().map(|v| &*Box::leak(repr(v.1).into_boxed_str())).collect())
}

fn leak(s: &str) -> &'static str {
	Box::leak(s.to_owned().into_boxed_str())
}

struct Builder {
	defs: HashMap<String, Def>,
	rules: Vec<Rule>,
	index: HashMap<String, usize>,
	kinds: HashMap<u16, Kind>,
}

impl Builder {
	fn key(ast: &Ast, env: &HashMap<String, (usize, String)>) -> String {
		match ast {
			Ast::Ref(n, a) if a.is_empty() => env.get(n).map_or_else(|| n.clone(), |e| e.1.clone()),
			Ast::Ref(n, a) => {
				format!("{n}({})", a.iter().map(|a| Self::key(a, env)).collect::<Vec<_>>().join(","))
			}
			Ast::Seq(v) => format!("({})", v.iter().map(|a| Self::key(a, env)).collect::<Vec<_>>().join(" ")),
			Ast::Opt(e) => Self::key(e, env) + "?",
			Ast::Many(n, e) => Self::key(e, env) + if *n == 0 { "*" } else { "+" },
			other => format!("{other:?}"),
		}
	}

	fn rule(&mut self, name: &str, args: &[Ast], env: &HashMap<String, (usize, String)>) -> usize {
		if args.is_empty() {
			if let Some(e) = env.get(name) {
				return e.0;
			}
		}
		let key = Self::key(&Ast::Ref(name.to_owned(), args.to_vec()), env);
		if let Some(&i) = self.index.get(&key) {
			return i;
		}
		let i = self.rules.len();
		self.index.insert(key.clone(), i);
		self.rules.push(Rule { key, variants: vec![], min_len: usize::MAX, min_depth: usize::MAX, token: None });
		if let Some(def) = self.defs.get(name) {
			assert_eq!(def.params.len(), args.len(), "arguments of {name}");
			let params = def.params.clone();
			let variants = def.variants.clone();
			let mut inner = HashMap::new();
			for (p, a) in params.iter().zip(args) {
				let akey = Self::key(a, env);
				let r = match a {
					Ast::Ref(n, aa) => self.rule(n, aa, env),
					_ => {
						// an argument that is not a plain name becomes a rule without a node
						let k = format!("<{akey}>");
						if let Some(&r) = self.index.get(&k) {
							r
						} else {
							let r = self.rules.len();
							self.index.insert(k.clone(), r);
							self.rules.push(Rule {
								key: k,
								variants: vec![],
								min_len: usize::MAX,
								min_depth: usize::MAX,
								token: None,
							});
							let e = self.expr(a, env);
							self.rules[r].variants = vec![(None, e)];
							r
						}
					}
				};
				inner.insert(p.clone(), (r, akey));
			}
			let built: Vec<(Option<&'static str>, Expr)> =
				variants.iter().map(|(n, a)| (n.as_deref().map(leak), self.expr(a, &inner))).collect();
			self.rules[i].variants = built;
		} else {
			assert!(args.is_empty(), "unknown template {name}");
			let sm = variant_named(name) as u16;
			let kind = self.kinds.get(&sm).copied().unwrap_or(Kind::Usual);
			let leaf = Expr::Tok(sm, reprs()[sm as usize]);
			let none = HashMap::new();
			let mut seq = Vec::new();
			if matches!(kind, Kind::Usual | Kind::NoIndicators) {
				seq.push(Expr::Many(0, Box::new(Expr::Rule(self.rule("Bahe", &[], &none)))));
			}
			seq.push(leaf);
			if kind == Kind::Usual {
				seq.push(Expr::Opt(Box::new(Expr::Rule(self.rule("Indicators", &[], &none)))));
			}
			if kind != Kind::Bare {
				seq.push(Expr::Not(Box::new(Expr::Rule(self.rule("Bu", &[], &none)))));
				seq.push(Expr::Not(Box::new(Expr::Rule(self.rule("Zei", &[], &none)))));
			}
			let node = matches!(kind, Kind::Usual | Kind::NoIndicators).then(|| leak(name));
			self.rules[i].variants = vec![(node, Expr::Seq(seq))];
			self.rules[i].token = Some((sm, kind));
		}
		i
	}

	fn expr(&mut self, ast: &Ast, env: &HashMap<String, (usize, String)>) -> Expr {
		match ast {
			Ast::Ref(n, a) => Expr::Rule(self.rule(n, a, env)),
			Ast::Seq(v) => Expr::Seq(v.iter().map(|a| self.expr(a, env)).collect()),
			Ast::Opt(e) => Expr::Opt(Box::new(self.expr(e, env))),
			Ast::Many(n, e) => Expr::Many(*n, Box::new(self.expr(e, env))),
			Ast::Not(e) => Expr::Not(Box::new(self.expr(e, env))),
			Ast::Cut(e) => Expr::Cut(Box::new(self.expr(e, env))),
			Ast::NonEmpty(e) => Expr::NonEmpty(Box::new(self.expr(e, env))),
			Ast::Till(a, b) => Expr::Till(Box::new(self.expr(a, env)), Box::new(self.expr(b, env))),
			Ast::Any => Expr::Any,
			Ast::AnyBut(n) => {
				Expr::AnyBut(n.iter().map(|n| variant_named(n) as u16).collect())
			}
			Ast::Leaf(n, t) => Expr::Tok(variant_named(t) as u16, leak(n)),
		}
	}
}

pub fn get() -> &'static Grammar {
	static G: OnceLock<Grammar> = OnceLock::new();
	G.get_or_init(|| Grammar::parse(include_str!("../data/cst.grammar"), "Text"))
}

impl Grammar {
	pub fn parse(text: &str, root: &str) -> Self {
		let mut defs: HashMap<String, Def> = HashMap::new();
		let mut kinds = HashMap::new();
		for line in text.lines() {
			let line = line.trim();
			if line.is_empty() || line.starts_with('#') {
				continue;
			}
			let kind = [("raw ", Kind::Raw), ("bare ", Kind::Bare), ("noindicators ", Kind::NoIndicators)]
				.into_iter()
				.find_map(|(p, k)| line.strip_prefix(p).map(|r| (r, k)));
			if let Some((names, k)) = kind {
				for n in names.split_whitespace() {
					kinds.insert(variant_named(n) as u16, k);
				}
				continue;
			}
			let at = line.find(['=', '~']).unwrap_or_else(|| panic!("no definition in {line}"));
			let (head, node, body) = (line[..at].trim(), line.as_bytes()[at] == b'=', &line[at + 1..]);
			let (head, variant) = match head.split_once("::") {
				Some((h, v)) => (h, Some(v)),
				None => (head, None),
			};
			let (name, params) = match head.split_once('(') {
				Some((n, p)) => {
					(n, p.trim_end_matches(')').split(',').map(|p| p.trim().to_owned()).collect::<Vec<_>>())
				}
				None => (head, vec![]),
			};
			let mut p = P { toks: tokenize(body), pos: 0 };
			let ast = p.seq();
			assert!(p.peek().is_none(), "trailing input in {line}");
			let node = node.then(|| match variant {
				Some(v) => format!("{name}::{v}"),
				None => name.to_owned(),
			});
			let def = defs.entry(name.to_owned()).or_insert_with(|| Def { params: params.clone(), variants: vec![] });
			assert!(variant.is_some() || def.variants.is_empty(), "duplicate {name}");
			assert_eq!(def.params, params);
			def.variants.push((node, ast));
		}
		let names: Vec<String> = defs.iter().filter(|d| d.1.params.is_empty()).map(|d| d.0.clone()).collect();
		let mut b = Builder { defs, rules: vec![], index: HashMap::new(), kinds };
		let root = b.rule(root, &[], &HashMap::new());
		for n in names {
			assert!(b.index.contains_key(&n), "unused rule {n}");
		}
		let mut g = Grammar { rules: b.rules, root, index: b.index, kinds: b.kinds };
		g.minima();
		g
	}

	pub fn rule(&self, key: &str) -> usize {
		*self.index.get(key).unwrap_or_else(|| panic!("no rule {key}"))
	}

	pub fn kind(&self, sm: u16) -> Kind {
		self.kinds.get(&sm).copied().unwrap_or(Kind::Usual)
	}

	fn minima(&mut self) {
		loop {
			let mut changed = false;
			for i in 0..self.rules.len() {
				let mut best = (usize::MAX, usize::MAX);
				for (_, e) in &self.rules[i].variants {
					let l = self.min_len(e);
					let d = self.min_depth(e);
					if l != usize::MAX && d != usize::MAX {
						best.0 = best.0.min(l);
						best.1 = best.1.min(d + 1);
					}
				}
				if best != (self.rules[i].min_len, self.rules[i].min_depth) {
					self.rules[i].min_len = best.0;
					self.rules[i].min_depth = best.1;
					changed = true;
				}
			}
			if !changed {
				break;
			}
		}
		for r in &self.rules {
			assert!(r.min_depth != usize::MAX, "{} cannot finish", r.key);
		}
	}

	fn nullable(&self, e: &Expr) -> bool {
		self.min_len(e) == 0
	}

	fn min_len(&self, e: &Expr) -> usize {
		match e {
			Expr::Rule(r) => self.rules[*r].min_len,
			Expr::Tok(..) | Expr::Any | Expr::AnyBut(_) => 1,
			Expr::Seq(v) => v.iter().fold(0usize, |a, e| a.saturating_add(self.min_len(e))),
			Expr::Opt(_) | Expr::Not(_) | Expr::Many(0, _) => 0,
			Expr::Many(_, e) | Expr::Cut(e) => self.min_len(e),
			Expr::NonEmpty(e) => self.min_len(e).max(1),
			Expr::Till(_, e) => self.min_len(e),
		}
	}

	fn min_depth(&self, e: &Expr) -> usize {
		match e {
			Expr::Rule(r) => self.rules[*r].min_depth,
			Expr::Tok(..) | Expr::Any | Expr::AnyBut(_) => 0,
			Expr::Seq(v) => v.iter().map(|e| self.min_depth(e)).max().unwrap_or(0),
			Expr::Opt(_) | Expr::Not(_) | Expr::Many(0, _) => 0,
			Expr::Many(_, e) | Expr::Cut(e) => self.min_depth(e),
			Expr::NonEmpty(e) => self.min_depth(e),
			Expr::Till(_, e) => self.min_depth(e),
		}
	}
}

// --- parsing -------------------------------------------------------------------------------------------------------

#[derive(Debug, Clone)]
pub struct Node {
	pub name: &'static str,
	/// a leaf is a single token
	pub token: Option<u32>,
	pub children: Vec<u32>,
	pub rule: u32,
	pub variant: u8,
	/// token positions consumed
	pub from: u32,
	pub to: u32,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
struct Fail {
	at: u32,
	hard: bool,
}

#[derive(Clone)]
enum Memo {
	Busy,
	Done(Result<(u32, std::rc::Rc<[u32]>), Fail>, u64, u32),
}

pub struct Parser<'a> {
	g: &'static Grammar,
	input: &'a [u16],
	memo: HashMap<(u32, u32), Memo>,
	pub nodes: Vec<Node>,
	cost: u64,
	depth: u32,
	deepest: u32,
	/// give up when the work without memoisation goes over this
	limit: u64,
	/// real work
	work: u64,
}

/// Outcome of parsing a sequence of tokens.
pub struct Parsed {
	pub nodes: Vec<Node>,
	/// root of the tree, or where parsing could not go on
	pub result: Result<u32, usize>,
	pub cost: u64,
	/// recursion depth of a plain recursive descent, in rules
	pub depth: u32,
}

struct TooCostly;

impl<'a> Parser<'a> {
	fn apply(&mut self, rule: usize, pos: usize) -> Result<(u32, std::rc::Rc<[u32]>), Fail> {
		let key = (rule as u32, pos as u32);
		match self.memo.get(&key) {
			Some(Memo::Done(r, c, d)) => {
				self.cost = self.cost.saturating_add(*c);
				self.deepest = self.deepest.max(self.depth + d);
				return r.clone();
			}
			Some(Memo::Busy) => panic!("left recursion in {}", self.g.rules[rule].key),
			None => {}
		}
		self.memo.insert(key, Memo::Busy);
		self.work += 1;
		if self.work > 4_000_000 {
			std::panic::resume_unwind(Box::new(TooCostly));
		}
		let (outer_cost, outer_deepest) = (self.cost, self.deepest);
		self.cost = 1;
		self.depth += 1;
		self.deepest = self.depth;
		let g = self.g;
		let mut result = Err(Fail { at: pos as u32, hard: false });
		for (vi, (name, body)) in g.rules[rule].variants.iter().enumerate() {
			let mut out = Vec::new();
			match self.eval(body, pos, &mut out) {
				Ok(end) => {
					let list: std::rc::Rc<[u32]> = if let Some(name) = name {
						let id = self.nodes.len() as u32;
						self.nodes.push(Node {
							name,
							token: None,
							children: out,
							rule: rule as u32,
							variant: vi as u8,
							from: pos as u32,
							to: end as u32,
						});
						std::rc::Rc::from([id])
					} else {
						std::rc::Rc::from(out)
					};
					result = Ok((end as u32, list));
					break;
				}
				Err(f) if f.hard => {
					result = Err(f);
					break;
				}
				Err(f) => {
					if let Err(old) = &mut result {
						old.at = old.at.max(f.at);
					}
				}
			}
		}
		self.depth -= 1;
		let cost = self.cost;
		let deep = self.deepest - self.depth;
		self.cost = outer_cost.saturating_add(cost);
		self.deepest = outer_deepest.max(self.deepest);
		if self.cost > self.limit {
			std::panic::resume_unwind(Box::new(TooCostly));
		}
		self.memo.insert(key, Memo::Done(result.clone(), cost, deep));
		result
	}

	fn leaf(&mut self, name: &'static str, pos: usize, out: &mut Vec<u32>) -> usize {
		let id = self.nodes.len() as u32;
		self.nodes.push(Node {
			name,
			token: Some(pos as u32),
			children: vec![],
			rule: u32::MAX,
			variant: 0,
			from: pos as u32,
			to: pos as u32 + 1,
		});
		out.push(id);
		pos + 1
	}

	fn eval(&mut self, e: &'static Expr, pos: usize, out: &mut Vec<u32>) -> Result<usize, Fail> {
		let fail = Err(Fail { at: pos as u32, hard: false });
		match e {
			Expr::Rule(r) => {
				let (end, list) = self.apply(*r, pos)?;
				out.extend_from_slice(&list);
				Ok(end as usize)
			}
			Expr::Tok(sm, name) => {
				self.cost += 1;
				if self.input.get(pos) == Some(sm) {
					Ok(self.leaf(name, pos, out))
				} else {
					fail
				}
			}
			Expr::Any | Expr::AnyBut(_) => {
				self.cost += 1;
				match self.input.get(pos) {
					Some(sm) if !matches!(e, Expr::AnyBut(b) if b.contains(sm)) => {
						Ok(self.leaf(reprs()[*sm as usize], pos, out))
					}
					_ => fail,
				}
			}
			Expr::Seq(v) => {
				let mut at = pos;
				for e in v {
					at = self.eval(e, at, out)?;
				}
				Ok(at)
			}
			Expr::Opt(e) => {
				let n = out.len();
				match self.eval(e, pos, out) {
					Err(f) if !f.hard => {
						out.truncate(n);
						Ok(pos)
					}
					r => r,
				}
			}
			Expr::Many(min, e) => {
				let mut at = pos;
				let mut times = 0;
				loop {
					let n = out.len();
					match self.eval(e, at, out) {
						Ok(next) => {
							assert!(next > at, "empty repetition");
							at = next;
							times += 1;
						}
						Err(f) if f.hard => return Err(f),
						Err(f) => {
							out.truncate(n);
							return if times >= *min { Ok(at) } else { Err(f) };
						}
					}
				}
			}
			Expr::Not(e) => {
				let mut ignored = Vec::new();
				match self.eval(e, pos, &mut ignored) {
					Ok(_) => fail,
					Err(f) if f.hard => Err(f),
					Err(_) => Ok(pos),
				}
			}
			Expr::Cut(e) => self.eval(e, pos, out).map_err(|f| Fail { hard: true, ..f }),
			Expr::NonEmpty(e) => match self.eval(e, pos, out) {
				Ok(end) if end == pos => fail,
				r => r,
			},
			Expr::Till(item, end) => {
				let mut at = pos;
				loop {
					let n = out.len();
					match self.eval(end, at, out) {
						Ok(done) => return Ok(done),
						Err(f) if f.hard => return Err(f),
						Err(_) => out.truncate(n),
					}
					at = self.eval(item, at, out)?;
				}
			}
		}
	}
}

/// `None` when a plain recursive descent would be costlier than the limit.
pub fn parse(input: &[u16], limit: u64) -> Option<Parsed> {
	let run = || {
		let mut p = Parser {
			g: get(),
			input,
			memo: HashMap::new(),
			nodes: vec![],
			cost: 0,
			depth: 0,
			deepest: 0,
			limit,
			work: 0,
		};
		let root = p.g.root;
		let r = p.apply(root, 0);
		let result = match r {
			Ok((end, list)) if end as usize == input.len() => Ok(list[0]),
			Ok((end, _)) => Err(end as usize),
			Err(f) => Err(f.at as usize),
		};
		Parsed { nodes: p.nodes, result, cost: p.cost, depth: p.deepest }
	};
	match std::panic::catch_unwind(std::panic::AssertUnwindSafe(run)) {
		Ok(p) => Some(p),
		Err(e) if e.is::<TooCostly>() => None,
		Err(e) => std::panic::resume_unwind(e),
	}
}

/// Words that may be left out where nothing is unclear without them: position and kind, for an accepted text.
pub fn elided(input: &[u16], limit: u64) -> Option<Vec<(usize, u16)>> {
	let run = || {
		let mut p = Parser { g: get(), input, memo: HashMap::new(), nodes: vec![], cost: 0, depth: 0, deepest: 0, limit, work: 0 };
		let root = p.g.root;
		let (end, list) = p.apply(root, 0).ok()?;
		if end as usize != input.len() {
			return None;
		}
		let mut out = Vec::new();
		let mut todo = vec![list[0]];
		while let Some(id) = todo.pop() {
			let n = p.nodes[id as usize].clone();
			todo.extend(&n.children);
			if n.token.is_none() {
				let g = p.g;
				let body = &g.rules[n.rule as usize].variants[n.variant as usize].1;
				p.left_out(body, n.from as usize, &mut out);
			}
		}
		out.sort_unstable();
		Some(out)
	};
	match std::panic::catch_unwind(std::panic::AssertUnwindSafe(run)) {
		Ok(p) => p,
		Err(e) if e.is::<TooCostly>() => None,
		Err(e) => std::panic::resume_unwind(e),
	}
}

/// Terminators that can be left out.
pub const ELIDABLE: &[&str] = &[
	"Beho", "Boi", "Dohu", "Fehu", "Gehu", "Kei", "Kehe", "Ku", "Kuhe", "Kuho", "Lihu", "Loho", "Luhu", "Mehu", "Nuhu",
	"Sehu", "Tehu", "Toi", "Tuhu", "Vau", "Veho",
];

pub fn is_elidable(sm: u16) -> bool {
	ELIDABLE.contains(&ALL[sm as usize].1)
}

impl Parser<'_> {
	/// Evaluate again, and note optional terminators that are not there.
	fn left_out(&mut self, e: &'static Expr, pos: usize, out: &mut Vec<(usize, u16)>) -> Option<usize> {
		let mut ignored = Vec::new();
		let g = self.g;
		match e {
			Expr::Rule(r) => {
				let rule = &g.rules[*r];
				if rule.variants.iter().any(|v| v.0.is_none()) && rule.token.is_none() {
					for v in &rule.variants {
						let n = out.len();
						if v.0.is_some() {
							if let Ok(end) = self.eval(&v.1, pos, &mut ignored) {
								return Some(end);
							}
						} else if let Some(end) = self.left_out(&v.1, pos, out) {
							return Some(end);
						}
						out.truncate(n);
					}
					None
				} else {
					self.apply(*r, pos).ok().map(|r| r.0 as usize)
				}
			}
			Expr::Seq(v) => {
				let mut at = pos;
				for e in v {
					at = self.left_out(e, at, out)?;
				}
				Some(at)
			}
			Expr::Opt(inner) => {
				let n = out.len();
				if let Some(end) = self.left_out(inner, pos, out) {
					return Some(end);
				}
				out.truncate(n);
				let token = match &**inner {
					Expr::Rule(r) => g.rules[*r].token.or_else(|| match g.rules[*r].variants.first() {
						// a terminator with free modifiers after it
						Some((None, Expr::Seq(v))) => match v.first() {
							Some(Expr::Rule(r)) => g.rules[*r].token,
							_ => None,
						},
						_ => None,
					}),
					_ => None,
				};
				if let Some((sm, _)) = token {
					if is_elidable(sm) {
						out.push((pos, sm));
					}
				}
				Some(pos)
			}
			Expr::Many(min, inner) => {
				let mut at = pos;
				let mut times = 0;
				loop {
					let n = out.len();
					match self.left_out(inner, at, out) {
						Some(next) => {
							at = next;
							times += 1;
						}
						None => {
							out.truncate(n);
							return (times >= *min).then_some(at);
						}
					}
				}
			}
			Expr::Cut(e) | Expr::NonEmpty(e) => {
				let end = self.left_out(e, pos, out)?;
				(!matches!(**e, Expr::NonEmpty(_)) || end > pos).then_some(end)
			}
			_ => self.eval(e, pos, &mut ignored).ok(),
		}
	}
}

/// One line per node, in order.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Line {
	pub depth: u32,
	pub name: &'static str,
	pub span: Option<(u32, u32)>,
	pub exp: bool,
}

impl Parsed {
	/// The tree in depth-first order with what each node should report.
	pub fn lines(&self, toks: &[Tok]) -> Vec<Line> {
		let mut out = Vec::new();
		if let Ok(root) = self.result {
			self.walk(root, 0, toks, &mut out);
		}
		out
	}

	fn walk(&self, id: u32, depth: u32, toks: &[Tok], out: &mut Vec<Line>) -> (Option<(u32, u32)>, bool) {
		let n = &self.nodes[id as usize];
		let at = out.len();
		out.push(Line { depth, name: n.name, span: None, exp: false });
		let mut span: Option<(u32, u32)> = None;
		let mut exp = false;
		if let Some(t) = n.token {
			let t = &toks[t as usize];
			span = Some((t.start, t.end));
			// the delimiters and the text of a zoi quote are never reported as experimental
			exp = t.exp && !matches!(n.name, "ZoiDelimiter" | "ZoiText");
		} else {
			for &c in &n.children {
				let (s, e) = self.walk(c, depth + 1, toks, out);
				if let Some(s) = s {
					span = Some((span.map_or(s.0, |p| p.0), s.1));
				}
				exp |= e;
			}
		}
		out[at].span = span;
		out[at].exp = exp;
		(span, exp)
	}
}

// --- generating ----------------------------------------------------------------------------------------------------

pub struct Generator<'a, 'b> {
	g: &'static Grammar,
	t: &'a mut Tape<'b>,
	out: Vec<u16>,
	max: usize,
	/// of 100: chance for optional and repeated parts, halved with every level
	pub density: usize,
	pub free_density: usize,
	/// distances of all rules to one that is to appear
	target: Option<&'static [u32]>,
	/// how many more times the target is to appear inside of itself
	cycles: usize,
	/// length of one long repetition
	burst: usize,
}

fn expr_distance(e: &Expr, d: &[u32]) -> u32 {
	match e {
		Expr::Rule(r) => d[*r],
		Expr::Tok(..) | Expr::Any | Expr::AnyBut(_) | Expr::Not(_) => u32::MAX,
		Expr::Seq(v) => v.iter().map(|e| expr_distance(e, d)).min().unwrap_or(u32::MAX),
		Expr::Opt(e) | Expr::Many(_, e) | Expr::Cut(e) | Expr::NonEmpty(e) => expr_distance(e, d),
		Expr::Till(e, _) => expr_distance(e, d),
	}
}

/// For every rule, how many expansions away from the target it is.
fn distances(target: usize) -> &'static [u32] {
	static CACHE: OnceLock<Vec<OnceLock<Vec<u32>>>> = OnceLock::new();
	let g = get();
	let cache = CACHE.get_or_init(|| g.rules.iter().map(|_| OnceLock::new()).collect());
	cache[target].get_or_init(|| {
		let mut d = vec![u32::MAX; g.rules.len()];
		d[target] = 0;
		loop {
			let mut changed = false;
			for (i, r) in g.rules.iter().enumerate() {
				let best = r.variants.iter().map(|v| expr_distance(&v.1, &d)).min().unwrap_or(u32::MAX);
				if best.saturating_add(1) < d[i] {
					d[i] = best + 1;
					changed = true;
				}
			}
			if !changed {
				return d;
			}
		}
	})
}

impl Generator<'_, '_> {
	/// distance to the target of an expression
	fn dist(&self, e: &Expr) -> u32 {
		self.target.map_or(u32::MAX, |d| expr_distance(e, d))
	}

	/// Expand so that the target rule appears below.
	fn carry_rule(&mut self, r: usize, budget: usize) {
		let d = self.target.unwrap()[r];
		if d == 0 {
			if self.cycles > 0 {
				self.cycles -= 1;
				let choices: Vec<&'static Expr> =
					self.g.rules[r].variants.iter().map(|v| &v.1).filter(|e| self.dist(e) < u32::MAX).collect();
				if !choices.is_empty() {
					let e = choices[self.t.below(choices.len())];
					return self.carry(e, budget.saturating_sub(1));
				}
			}
			self.target = None;
			return self.rule(r, budget.max(self.g.rules[r].min_depth + 4));
		}
		let choices: Vec<&'static Expr> =
			self.g.rules[r].variants.iter().map(|v| &v.1).filter(|e| self.dist(e) < d).collect();
		let e = choices[self.t.below(choices.len())];
		self.carry(e, budget.saturating_sub(1));
	}

	fn carry(&mut self, e: &'static Expr, budget: usize) {
		match e {
			Expr::Rule(r) => self.carry_rule(*r, budget),
			Expr::Seq(v) => {
				let best = self.dist(e);
				let good: Vec<usize> = (0..v.len()).filter(|&i| self.dist(&v[i]) <= best.saturating_add(1)).collect();
				let good: Vec<usize> = if self.t.chance(3, 4) {
					good.into_iter().filter(|&i| self.dist(&v[i]) == best).collect()
				} else {
					good
				};
				let pick = good[self.t.below(good.len())];
				for (i, e) in v.iter().enumerate() {
					if i == pick {
						self.carry(e, budget);
					} else {
						self.expr(e, budget);
					}
				}
			}
			Expr::Opt(e) | Expr::Cut(e) | Expr::NonEmpty(e) | Expr::Not(e) => self.carry(e, budget),
			Expr::Many(_, inner) => {
				for _ in 0..self.t.below(2) {
					if !self.g.nullable(inner) {
						self.expr(inner, budget);
					}
				}
				self.carry(inner, budget);
			}
			Expr::Till(item, end) => {
				self.carry(item, budget);
				self.expr(end, budget);
			}
			_ => unreachable!(),
		}
	}

	fn rule(&mut self, r: usize, budget: usize) {
		let rule = &self.g.rules[r];
		if let Some((sm, kind)) = rule.token {
			// emphasis and indicators are rare
			if matches!(kind, Kind::Usual | Kind::NoIndicators) && self.t.below(100) < self.free_density / 6 {
				self.out.push(variant_named("Bahe") as u16);
			}
			self.out.push(sm);
			if kind == Kind::Usual && self.t.below(100) < self.free_density / 4 {
				let r = self.g.rule("Indicators");
				self.rule(r, budget.saturating_sub(1).min(4));
			}
			return;
		}
		let choices: Vec<&(Option<&'static str>, Expr)> = rule
			.variants
			.iter()
			.filter(|(_, e)| self.g.min_depth(e) < budget.max(rule.min_depth))
			.collect();
		let over = self.out.len() > self.max;
		let e = if over {
			&rule.variants.iter().min_by_key(|(_, e)| (self.g.min_depth(e), self.g.min_len(e))).unwrap().1
		} else {
			&choices[self.t.below(choices.len())].1
		};
		self.expr(e, budget.saturating_sub(1));
	}

	fn wants(&mut self, e: &Expr, budget: usize) -> bool {
		if self.out.len() > self.max || self.g.min_depth(e) > budget {
			return false;
		}
		let free = matches!(e, Expr::Rule(r) if matches!(self.g.rules[*r].key.as_str(), "Free" | "Indicators"));
		let d = if free { self.free_density / 4 } else { self.density };
		self.t.below(100) < d
	}

	fn expr(&mut self, e: &'static Expr, budget: usize) {
		match e {
			Expr::Rule(r) => self.rule(*r, budget),
			Expr::Tok(sm, _) => self.out.push(*sm),
			Expr::Any => {
				let sm = random_token(self.t);
				self.out.push(sm);
			}
			Expr::AnyBut(not) => loop {
				let sm = random_token(self.t);
				if !not.contains(&sm) {
					self.out.push(sm);
					break;
				}
			},
			Expr::Seq(v) => {
				for e in v {
					self.expr(e, budget);
				}
			}
			Expr::Opt(e) => {
				if self.wants(e, budget) {
					self.expr(e, budget);
				}
			}
			Expr::Many(min, e) => {
				for _ in 0..*min {
					self.expr(e, budget);
				}
				if self.burst > 0 && !self.g.nullable(e) && self.t.chance(1, 3) {
					let n = std::mem::take(&mut self.burst);
					let density = std::mem::replace(&mut self.density, 3);
					for _ in 0..n {
						self.expr(e, self.g.min_depth(e) + 1);
					}
					self.density = density;
				}
				let mut b = budget;
				while self.wants(e, b) {
					self.expr(e, b);
					b = b.saturating_sub(1);
				}
			}
			Expr::Not(_) => {}
			Expr::Cut(e) => self.expr(e, budget),
			Expr::NonEmpty(e) => {
				let at = self.out.len();
				for _ in 0..6 {
					self.expr(e, budget);
					if self.out.len() > at {
						break;
					}
				}
			}
			Expr::Till(item, end) => {
				for _ in 0..self.t.below(4) {
					self.expr(item, budget);
				}
				self.expr(end, budget);
			}
		}
	}
}

/// Token kinds that the lexer can give on their own, common ones more often.
pub fn random_token(t: &mut Tape<'_>) -> u16 {
	static COMMON: OnceLock<Vec<u16>> = OnceLock::new();
	let common = COMMON.get_or_init(|| {
		[
			"Koha", "Gismu", "Le", "La", "Cmevla", "Ku", "Cu", "Na", "Se", "I", "Pa", "By", "Bu", "Zei", "Ui", "Bahe",
			"Zo", "Lu", "Lihu", "Ke", "Kehe", "A", "Ja", "Joi", "Pu", "Bai", "Nu", "Kei", "Be", "Beho", "Noi", "Kuho",
			"Goi", "Bo", "Gi", "Ga", "Nai", "Xi", "Sei", "Coi", "Doi", "Fa", "Vau", "Nahe", "Lohu", "Lehu", "To",
			"Toi", "Lujvo", "Fuhivla", "Y", "Li", "Vuhu", "Moi", "Boi", "Niho", "Bei", "Co", "Giha", "Zohu", "Gaho", "Bihi",
		]
		.iter()
		.map(|n| variant_named(n) as u16)
		.collect()
	});
	if t.chance(3, 5) {
		*t.pick(common)
	} else {
		t.below(ALL.len()) as u16
	}
}

/// A token sequence that mostly follows the rule.
pub fn generate(t: &mut Tape<'_>, rule: &str, budget: usize, max: usize, density: usize, free_density: usize) -> Vec<u16> {
	let g = get();
	let mut gen = Generator { g, t, out: vec![], max, density, free_density, target: None, cycles: 0, burst: 0 };
	let r = g.rule(rule);
	gen.rule(r, budget);
	gen.out
}

/// A text in which the given rule appears.
pub fn generate_with(t: &mut Tape<'_>, target: usize, budget: usize, max: usize, density: usize, free: usize) -> Vec<u16> {
	let g = get();
	let d = distances(target);
	if d[g.root] == u32::MAX {
		return generate(t, "Text", budget, max, density, free);
	}
	let mut gen = Generator { g, t, out: vec![], max, density, free_density: free, target: Some(d), cycles: 0, burst: 0 };
	gen.carry_rule(g.root, budget);
	gen.out
}

/// A text in which the given rule appears inside of itself.
pub fn nested(t: &mut Tape<'_>, max: usize) -> Vec<u16> {
	let g = get();
	let target = *t.pick(targets());
	let cycles = 1 + t.size(max);
	let density = t.below(12);
	let mut gen = Generator {
		g,
		t,
		out: vec![],
		max: 10 + 8 * cycles,
		density,
		free_density: 2,
		target: Some(distances(target)),
		cycles,
		burst: 0,
	};
	gen.carry_rule(g.root, 20);
	gen.out
}

/// A text in which some part is repeated many times.
pub fn repetitive(t: &mut Tape<'_>, max: usize) -> Vec<u16> {
	let g = get();
	let mut n = 4;
	while n < max && t.chance(3, 4) {
		n *= 2;
	}
	let burst = t.range(n / 2, n.min(max));
	let free_density = t.below(30);
	for _ in 0..20 {
		let target = *t.pick(targets());
		let density = t.range(5, 30);
		let d = distances(target);
		let mut gen =
			Generator { g, t, out: vec![], max: 30 + burst, density, free_density, target: Some(d), cycles: 0, burst };
		gen.carry_rule(g.root, 20);
		if gen.burst == 0 {
			return gen.out;
		}
	}
	vec![variant_named("Ui") as u16; burst]
}

/// Rules that are nodes or parts of nodes and not just a single token.
pub fn targets() -> &'static [usize] {
	static T: OnceLock<Vec<usize>> = OnceLock::new();
	T.get_or_init(|| {
		let g = get();
		(0..g.rules.len()).filter(|&i| g.rules[i].token.is_none() && distances(i)[g.root] != u32::MAX).collect()
	})
}

/// Token sequences for the parser: texts, parts, joined, and sometimes damaged.
pub fn tokens(t: &mut Tape<'_>, max: usize, damage: bool) -> Vec<u16> {
	let mut out = Vec::new();
	let parts = if t.chance(1, 4) { t.range(2, 4) } else { 1 };
	for part in 0..parts {
		if part > 0 {
			out.push(variant_named(if t.chance(1, 8) { "Niho" } else { "I" }) as u16);
		}
		let (budget, density, free) = (t.range(10, 40), t.range(5, 35), t.below(30));
		let max = t.range(1, (max / parts).max(2));
		if t.chance(1, 8) {
			out.extend(generate(t, "Text", budget, max, density + 15, free));
		} else {
			let target = *t.pick(targets());
			out.extend(generate_with(t, target, budget, max, density, free));
		}
	}
	if damage && t.chance(1, 4) {
		for _ in 0..t.range(1, 3) {
			let at = t.below(out.len() + 1);
			match t.below(5) {
				0 if at < out.len() => {
					out.remove(at);
				}
				1 => {
					let sm = random_token(t);
					out.insert(at, sm);
				}
				2 if at < out.len() => out[at] = random_token(t),
				3 if at + 1 < out.len() => out.swap(at, at + 1),
				_ => {
					let (a, b) = (t.below(out.len() + 1), t.below(out.len() + 1));
					let piece: Vec<u16> = out[a.min(b)..a.max(b)].iter().take(6).copied().collect();
					out.splice(at..at, piece);
				}
			}
		}
	}
	out
}
