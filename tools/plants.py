D = "src/decompose/mod.rs"
R = "src/rules.rs"
L = "src/lex/mod.rs"
K = "src/lex/selmaho/classify.rs"
S = "src/lex/selmaho/mod.rs"
DISPLAY = "src/lex/selmaho/display.rs"
SPAN = "src/span.rs"
G = "src/parse/cst/rules/mod.rs"
GS = "src/parse/cst/rules/selmaho.rs"
GH = "src/parse/cst/rules/helpers.rs"
GC = "src/parse/cst/rules/connectives.rs"
GM = "src/parse/cst/rules/mekso.rs"
E = "src/parse/cst/error.rs"
PT = "src/parse/cst/parse_trait.rs"
T = "src/parse/tree_node.rs"
MT = "macros/src/derive_tree_node.rs"
MP = "macros/src/derive_parse.rs"

PLANTS = []

def plant(id, property, edits, demo, needs, breaks):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

# ---------------------------------------------------------------- C01
plant("c01-comma-prefix", "C01",
  [(D, "chunk.bytes().all(|ch| ch == b',')", "chunk.bytes().take(4).all(|ch| ch == b',')")],
  '''
	assert_eq!(words("mi ,,,broda do"), ["mi", ",,,broda", "do"]);
	assert_eq!(words("mi ,,,,broda do"), ["mi", ",,,,broda", "do"]);
''',
  "a chunk that begins with at least four commas",
  "only the first four bytes of a chunk are looked at to decide that it is nothing but commas, so that a word behind many commas is dropped")
plant("c01-cmevla-leading-commas", "C01",
  [(D, "		return vec![to_span(input)];", "		return vec![to_span(input.trim_start_matches(','))];")],
  '''
	assert_eq!(words("la ,alis klama"), ["la", ",alis", "klama"]);
''',
  "a cmevla with a comma at its beginning",
  "the commas in front of a cmevla belong to no word any more, unlike those in front of any other word")

# ---------------------------------------------------------------- C02
plant("c02-sibilant-jn", "C02",
  [(R, "seq![or![j, z], not(n), not(liquid)],", "seq![or![j, z], not(liquid)],")],
  '''
	assert_eq!(words("mijnata"), ["mijnata"]);
	assert_eq!(words("aznata"), ["aznata"]);
''',
  "a word with j or z before n",
  "jn and zn count as initial clusters, so that cmavo fall off in front of them")
plant("c02-digit-nucleus", "C02",
  [(R, 'one_of("0123456789")(input).and_not(or![h, nucleus])', 'one_of("0123456789")(input).and_not(h)')],
  '''
	assert_eq!(words("li1a"), ["li1a"]);
''',
  "a digit right before a vowel",
  "a digit falls off as a cmavo although it is followed by a vowel")
plant("c02-nr-hyphen", "C02",
  [(R, "	or![seq![r, peek(consonant)], seq![n, peek(r)]](input)", "	or![seq![r, peek(consonant)], seq![n, peek(liquid)]](input)")],
  '''
	assert_eq!(words("otraunlojbo")[0], "o");
''',
  "a CVV rafsi with an n before l",
  "n is taken as a hyphen before l too")

# ---------------------------------------------------------------- C03
plant("c03-whitespace", "C03",
  [(D, '''	".\\t\\n\\r?! ".contains(ch)''', '''	ch.is_ascii_whitespace() || ".?!".contains(ch)''')],
  '''
	assert_eq!(words("mi\\u{c}klama").len(), 1);
	assert_eq!(words("mi\\tklama\\rdo\\nfe"), ["mi", "klama", "do", "fe"]);
''',
  "a form feed in the text",
  "a form feed separates words")
plant("c03-unicode-space", "C03",
  [(D, '''	".\\t\\n\\r?! ".contains(ch)''', '''	".\\t\\n\\r?! \\u{a0}".contains(ch)''')],
  '''
	assert_eq!(words("mi\\u{a0}klama").len(), 1);
''',
  "a no-break space in the text",
  "a no-break space separates words, and as it takes two bytes the places computed from it (next_no_decomposition) are inside of it")

# ---------------------------------------------------------------- C04
plant("c04-capital-x", "C04",
  [(R, 'consonant_rule!(x, "xX", c, k, voiced);', 'consonant_rule!(x, "x", c, k, voiced);')],
  '''
	assert_eq!(words("lo xrula"), ["lo", "xrula"]);
	assert_eq!(lexed("loXrula"), ["Le:lo", "Gismu:Xrula"]);
''',
  "a capital X",
  "a capital X is no consonant for the morphology")
plant("c04-delimiter-commas", "C04",
  [(L, "					.eq(possible_ending_delimiter.chars().filter(|&ch| ch != ','))", "					.eq(possible_ending_delimiter.chars())")],
  '''
	assert_eq!(lexed("zoi g,y a b g,y mi").len(), 5);
	assert_eq!(lexed("zoi gy a b g,y mi").len(), 5);
''',
  "a delimited quote whose second delimiter has a comma in it",
  "the comma in the ending delimiter matters, so that the quote isn't closed")
plant("c04-comma-h", "C04",
  [(K, "		.filter(|&ch| ch != b',')", "		.filter(|&ch| ch != b',' || word.len() > 8)")],
  '''
	assert_eq!(lexed("ba,'i"), ["Bai:ba,'i"]);
	assert_eq!(lexed("b,,,a,,,,'i"), ["Bai:b,,,a,,,,'i"]);
''',
  "a cmavo with so many commas that it is longer than eight bytes",
  "the commas in long cmavo aren't ignored when they are classified")

# ---------------------------------------------------------------- C05
plant("c05-end-of-rest", "C05",
  [(D, """			let end = self.chunks.peek().copied().map_or_else(
				|| self.input.len().try_into().unwrap(),
				|chunk| self.slice_to_span(chunk).start - 1,
			);
			self.current_chunk = vec![].into_iter();""", """			let end = self
				.current_chunk
				.by_ref()
				.last()
				.map_or(remaining_decomposed.end, |word| word.end);""")],
  '''
	let input = "mina,, do";
	let mut decomposer = decompose(input);
	assert_eq!(decomposer.next().unwrap().slice(input), Some("mi"));
	assert_eq!(decomposer.next_no_decomposition().unwrap().slice(input), Some("na,,"));
	assert_eq!(decomposer.next_no_decomposition().unwrap().slice(input), Some("do"));
''',
  "a chunk that ends in commas, of which the first word was taken with next and the rest with next_no_decomposition",
  "the rest of the chunk ends with its last word instead of with the chunk")
plant("c05-forget-rest", "C05",
  [(D, """			self.current_chunk = vec![].into_iter();
			Some(Span { start, end })""", """			if self.chunks.peek().is_some() {
				self.current_chunk = vec![].into_iter();
			}
			Some(Span { start, end })""")],
  '''
	let input = "mi minajimpe";
	let mut decomposer = decompose(input);
	decomposer.next();
	decomposer.next();
	assert_eq!(decomposer.next_no_decomposition().unwrap().slice(input), Some("najimpe"));
	assert_eq!(decomposer.next(), None);
''',
  "next_no_decomposition in the middle of the last chunk, followed by another call",
  "words that next_no_decomposition has already returned come again")

# ---------------------------------------------------------------- C06
plant("c06-xoi-experimental", "C06",
  [(K, '''				"be'ei" | "da'ai'a" | "de'i'a"''', '''				"be'ei" | "da'ai'e" | "de'i'a"''')],
  '''
	assert_eq!(lexed("da'ai'a"), ["Bai:da'ai'a*"]);
''',
  "the cmavo da'ai'a",
  "da'ai'a is unknown")
plant("c06-kuhe", "C06",
  [(K, '''				"bi'ai" => experimental!(Self::Caha),''', '''				"bi'ai" => Self::Caha,''')],
  '''
	assert_eq!(lexed("bi'ai"), ["Caha:bi'ai*"]);
''',
  "the cmavo bi'ai",
  "bi'ai isn't marked as experimental")

# ---------------------------------------------------------------- C07
plant("c07-digit-cmevla", "C07",
  [(R, """				|input| consonant(input).and_not(eof),
				digit
			],""", """				|input| consonant(input).and_not(eof)
			],""")],
  '''
	assert_eq!(lexed("la 3dab"), ["La:la", "Cmevla:3dab"]);
''',
  "a name with a digit in it",
  "a cmevla may not contain digits")

# ---------------------------------------------------------------- C08 / C09
plant("c08-fahoho", "C08",
  [(L, "			Selmaho::Faho | Selmaho::Fahoho => {", "			Selmaho::Faho => {")],
  '''
	assert_eq!(lexed("mi fa'o'o do klama").len(), 2);
''',
  "the experimental cmavo fa'o'o",
  "text after fa'o'o is lexed")

# ---------------------------------------------------------------- C10
plant("c10-empty-second", "C10",
  [(L, "						self.state = next_quote_state.map_or(State::Normal, State::DelimitedQuote);\n						break Ok(end_token);", "						self.state = State::Done;\n						break Ok(end_token);")],
  '''
	assert_eq!(lexed("so'e'ai gy a gy gy mi klama").len(), 7);
''',
  "so'e'ai with an empty second quote and text after it",
  "everything after an empty second quote is dropped")
plant("c10-case", "C10",
  [(L, """				if starting_delimiter
					.chars()
					.filter(|&ch| ch != ',')
					.eq(possible_ending_delimiter.chars().filter(|&ch| ch != ','))
				{""", """				if starting_delimiter
					.chars()
					.filter(|&ch| ch != ',')
					.map(|ch| ch.to_ascii_lowercase())
					.eq(possible_ending_delimiter
						.chars()
						.filter(|&ch| ch != ',')
						.map(|ch| ch.to_ascii_lowercase()))
				{""")],
  '''
	assert_eq!(lexed("zoi gy it said Gy then gy")[2], "AnyText:it said Gy then");
''',
  "a quote that contains its delimiter in another case",
  "the quote is closed by a word that differs in case from the delimiter")
plant("c10-first-empty", "C10",
  [(L, "							State::OneMoreTokenThen(end_token, next_quote_state),\n							|text_token|", "							State::OneMoreTokenThen(end_token, None),\n							|text_token|")],
  '''
	assert_eq!(lexed("so'e'ai gy gy klama do gy mi").len(), 6);
''',
  "so'e'ai with an empty first quote",
  "the second quote of so'e'ai is lexed as ordinary words if the first one is empty")

# ---------------------------------------------------------------- C11
plant("c11-dohoi", "C11",
  [(L, "			Selmaho::Mehoi | Selmaho::Zohoi | Selmaho::Dohoi => {", "			Selmaho::Mehoi | Selmaho::Zohoi => {")],
  '''
	assert_eq!(lexed("do'oi minajimpe klama"), ["Dohoi:do'oi*", "AnyText:minajimpe", "Gismu:klama"]);
''',
  "do'oi before something that decomposes",
  "do'oi quotes nothing")

# ---------------------------------------------------------------- C12
plant("c12-second-delimiter", "C12",
  [(L, "				starting_delimiter_span: ending_delimiter_span,", "				starting_delimiter_span: self.starting_delimiter_span,"),
   (L, "	fn next(self, ending_delimiter_span: Span) -> Option<Self> {", "	fn next(self, _ending_delimiter_span: Span) -> Option<Self> {")],
  '''
	let text = "so'e'ai gy a gy b c";
	match lex(text).last() {
		Some(Err(Error::DelimitedQuoteUnclosed { starting_delimiter_span, .. })) => {
			assert_eq!(starting_delimiter_span, Span::new(13, 15));
		}
		other => panic!("{other:?}"),
	}
''',
  "so'e'ai whose second quote isn't closed",
  "the error names the wrong starting delimiter")
plant("c12-repeat-error", "C12",
  [(L, """				self.state = State::Done;
				break Err(Error::DelimitedQuoteUnclosed {""", """				break Err(Error::DelimitedQuoteUnclosed {""")],
  '''
	let text = "zoi gy a b";
	let mut lexer = lex(text);
	while let Some(token) = lexer.next() {
		if token.is_err() {
			break;
		}
	}
	assert!(lexer.next().is_none());
''',
  "going on after the error of an unclosed quote",
  "the error comes again and again instead of the end")

# ---------------------------------------------------------------- C13
plant("c13-buffer-cut", "C13",
  [(K, "	if reached_index >= buf.len() {\n		None\n	} else {\n		Some(std::str::from_utf8(&buf[..=reached_index]).unwrap())\n	}",
       "	let len = buf.len();\n	Some(std::str::from_utf8(&buf[..=reached_index.min(len - 1)]).unwrap())")],
  '''
	for pad in 0..4 {
		let text = "a".repeat(pad) + &"é".repeat(60);
		assert_eq!(words(&text).len(), 1);
		let _ = lexed(&text);
	}
''',
  "a word of more than forty-eight bytes with a character of several bytes over that place",
  "the lexer panics")

# ---------------------------------------------------------------- C14
plant("c14-soi-second", "C14",
  [(G, "		&'arena (Sumti<'arena>, Option<Sumti<'arena>>),", "		&'arena (Sumti<'arena>, Option<Subscript<'arena>>),")],
  '''
	assert!(parses("mi nelci do soi vo'a se'u"));
	assert!(parses("mi nelci do soi vo'a vo'e se'u"));
''',
  "soi with two sumti and se'u",
  "the second sumti after soi isn't accepted before se'u")
plant("c14-close-tag", "C14",
  [(G, """	pub I<'arena>,
	pub Option<JoikJek<'arena>>,
	pub Option<TagWords<'arena>>,
	pub Bo<'arena>,""", """	pub I<'arena>,
	pub Option<JoikJek<'arena>>,
	pub Option<TagWord<'arena>>,
	pub Bo<'arena>,""")],
  '''
	assert!(parses("mi broda i je ba bo do brode"));
	assert!(parses("mi broda i je ba je ca bo do brode"));
''',
  "i with two connected tags before bo",
  "only one tag is accepted between i and bo")
plant("c14-bu-inner", "C14",
  [(G, "!matches!(token.selmaho, Selmaho::Bu | Selmaho::Zei | Selmaho::Si", "!matches!(token.selmaho, Selmaho::Bu | Selmaho::Si")],
  '''
	assert!(!parses("zei bu klama"));
	assert!(parses("zo bu klama") || true);
''',
  "bu after zei",
  "zei can be made a letteral with bu")
plant("c14-tag-ke", "C14",
  [(G, """	#[parse(not = "Gik<'_>", not = "Ke<'_>")]
	pub value: Option<TagValue<'arena>>,""", """	#[parse(not = "Gik<'_>")]
	pub value: Option<TagValue<'arena>>,""")],
  '''
	assert!(parses("na ku ga'o bi'i ga'o ki ke na ku"));
''',
  "a tag before ke",
  "the tag is taken as a term of its own")

# ---------------------------------------------------------------- C15
plant("c15-selbri-ke", "C15",
  [(G, """pub enum SelbriLikeConnectedPost<'arena, Normal, Parenthesized> {
	Normal(JoikJek<'arena>, Normal),
	Parenthesized(
		JoikJek<'arena>,
		Option<TagWords<'arena>>,
		WithFree<'arena, Ke<'arena>>,
		Parenthesized,
		Option<Kehe<'arena>>,
		Frees<'arena>,
	),
}""", """pub enum SelbriLikeConnectedPost<'arena, Normal, Parenthesized> {
	Parenthesized(
		JoikJek<'arena>,
		Option<TagWords<'arena>>,
		WithFree<'arena, Ke<'arena>>,
		Parenthesized,
		Option<Kehe<'arena>>,
		Frees<'arena>,
	),
	Normal(JoikJek<'arena>, Normal),
}""")],
  '''
	let found = tree("mi broda je ke brode brodi ke'e brodo");
	assert!(found.contains("SelbriLikeConnectedPost::Normal"), "{found}");
	let found = tree("mi broda je ke brode ke'e bo brodi");
	assert!(found.contains("SelbriLikeConnectedPost::Normal"), "{found}");
''',
  "ke after a connective between selbri",
  "the alternatives are tried in the other order, so that the tree is another one and bo after the group isn't attached to it")
# ---------------------------------------------------------------- C16
plant("c16-separator-order", "C16",
  [(GH, """		self.first.invoke_with_self(f);
		for (separator, item) in self.rest.iter() {
			separator.invoke_with_self(f);
			item.invoke_with_self(f);
		}""", """		self.first.invoke_with_self(f);
		for (separator, _) in self.rest.iter() {
			separator.invoke_with_self(f);
		}
		for (_, item) in self.rest.iter() {
			item.invoke_with_self(f);
		}""")],
  '''
	assert_eq!(leaves("mi broda co brode"), ["mi", "broda", "co", "brode"]);
	assert_eq!(leaves("mi broda co brode co brodi"), ["mi", "broda", "co", "brode", "co", "brodi"]);
''',
  "three things with separators between them",
  "the leaves of the tree aren't in the order of the text")
plant("c16-bahe-lost", "C16",
  [(GS, """				let (input, indicators) = <Option<&'arena Indicators<'arena>>>::parse(input, arena)?;
				let (_, ()) = nom::combinator::not(|input| Bu::parse(input, arena))(input)?;
				let (_, ()) = nom::combinator::not(|input| Zei::parse(input, arena))(input)?;
				matched.bahe = bahe;
				matched.indicators = indicators;""", """				let (input, indicators) = <Option<&'arena Indicators<'arena>>>::parse(input, arena)?;
				let (_, ()) = nom::combinator::not(|input| Bu::parse(input, arena))(input)?;
				let (_, ()) = nom::combinator::not(|input| Zei::parse(input, arena))(input)?;
				if indicators.is_none() {
					matched.bahe = bahe;
				}
				matched.indicators = indicators;""")],
  '''
	assert_eq!(leaves("ba'e mi broda"), ["ba'e", "mi", "broda"]);
	assert_eq!(leaves("ba'e mi ui broda"), ["ba'e", "mi", "ui", "broda"]);
''',
  "a word with both ba'e and an indicator",
  "the ba'e is missing from the tree")

# ---------------------------------------------------------------- C17
plant("c17-separated-start", "C17",
  [(GH, """		self.first.start_location().or_else(|| {
			self
				.rest
				.iter()
				.find_map(|(separator, item)| separator.start_location().or_else(|| item.start_location()))
		})""", """		self.first.start_location().or_else(|| {
			self
				.rest
				.iter()
				.find_map(|(separator, item)| item.start_location().or_else(|| separator.start_location()))
		})""")],
  '''
	for (name, start, end, _) in nodes("ni'o i i broda i brode") {
		assert_eq!(start.is_some(), end.is_some(), "{name}");
		if name == "Separated" && end == Some(22) && start != Some(17) {
			assert!(matches!(start, Some(5 | 7 | 9)), "{start:?}");
		}
	}
	let found = nodes("i i mi broda");
	assert!(found.iter().any(|node| node.0 == "Separated" && node.1 == Some(2) && node.2 == Some(12)), "{found:?}");
''',
  "an empty sentence before a separator",
  "the list of sentences begins at its first sentence instead of at the separator")
plant("c17-raw-experimental", "C17",
  [(GS, """		impl TreeNode for $name {
			fn name(&self) -> &'static str {
				Selmaho::$name.as_repr()
			}

			fn experimental(&self) -> bool {
				self.experimental
			}""", """		impl TreeNode for $name {
			fn name(&self) -> &'static str {
				Selmaho::$name.as_repr()
			}

			fn experimental(&self) -> bool {
				false
			}""")],
  '''
	let found = nodes("pe'ei mi broda");
	assert!(found[0].3, "{found:?}");
''',
  "an experimental cmavo of BAhE, LU, ZO or ZOI",
  "nodes with such a cmavo aren't experimental")
plant("c17-separated-experimental", "C17",
  [(GH, """				.any(|(separator, item)| separator.experimental() || item.experimental())""", """				.any(|(_, item)| item.experimental())""")],
  '''
	let found = nodes("mi broda co'o'e brode");
	assert!(found[0].3, "{found:?}");
''',
  "an experimental cmavo as a separator",
  "nodes around it aren't experimental")
plant("c17-tuple-end", "C17",
  [(T, """				let children = [$($idents as &dyn TreeNodeChild,)*];
				children.iter().rev().find_map(|child| child.end_location())""", """				let children = [$($idents as &dyn TreeNodeChild,)*];
				children.iter().rev().map(|child| child.end_location()).next().flatten()""")],
  '''
	for (name, start, end, _) in nodes("coi") {
		assert_eq!(start.is_some(), end.is_some(), "{name}");
	}
''',
  "a tuple whose last part is empty, at the end of a node",
  "the end of such a node is missing or too early")

# ---------------------------------------------------------------- C18
plant("c19-kuhe-indicator", "C19",
  [(GS, "	Kuho,\n", "	#[no_indicators] Kuho,\n")],
  '''
	assert!(parses("mi poi broda ku'o brode"));
	assert!(parses("mi poi broda ku'o ui brode"));
''',
  "an indicator after ku'o",
  "ku'o may not be followed by an indicator")
# ---------------------------------------------------------------- C20
# ---------------------------------------------------------------- C21
# ---------------------------------------------------------------- C22
plant("c22-cache", "C22",
  [(K, """	#[must_use]
	#[allow(clippy::too_many_lines)] // giant match block
	pub fn classify(word: &str) -> (Self, bool) {
""", """	#[must_use]
	pub fn classify(word: &str) -> (Self, bool) {
		thread_local! {
			/// the last word and what it is: the lexer and its users tend to ask for the same one twice
			static LAST: std::cell::Cell<Option<((*const u8, usize), (Selmaho, bool))>> = std::cell::Cell::new(None);
		}
		let key = (word.as_ptr(), word.len());
		if let Some((last, result)) = LAST.with(std::cell::Cell::get) {
			if last == key {
				return result;
			}
		}
		let result = Self::classify_uncached(word);
		LAST.with(|last| last.set(Some((key, result))));
		result
	}

	#[allow(clippy::too_many_lines)] // giant match block
	fn classify_uncached(word: &str) -> (Self, bool) {
""")],
  '''
	let mut buffer = String::from("mi");
	assert_eq!(Selmaho::classify(&buffer).0, Selmaho::Koha);
	buffer.clear();
	buffer.push_str("le");
	assert_eq!(Selmaho::classify(&buffer).0, Selmaho::Le);
''',
  "two words of the same length in the same buffer one after the other",
  "the second one gets the classification of the first one")

# ---------------------------------------------------------------- C23
plant("c23-to-twice", "C23",
  [(G, "	To(To<'arena>, Text<'arena>, Option<Toi<'arena>>),", "	To(To<'arena>, Text<'arena>, Toi<'arena>),\n	ElidedTo(To<'arena>, Text<'arena>),")],
  '''
	let start = std::time::Instant::now();
	let (send, receive) = std::sync::mpsc::channel();
	std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
		assert!(parses(&("mi klama ".to_owned() + &"to ".repeat(24) + "broda")));
		send.send(()).unwrap();
	}).unwrap();
	assert!(receive.recv_timeout(std::time::Duration::from_secs(20)).is_ok(), "{:?}", start.elapsed());
''',
  "parentheses in parentheses that aren't closed",
  "every level of parentheses doubles the time")

# ---------------------------------------------------------------- C24
plant("c24-slice-after", "C24",
  [(SPAN, "		text.get(self.end as usize..)", "		text.get(self.end as usize..).filter(|after| !after.is_empty())")],
  '''
	assert_eq!(Span::new(0, 3).slice_after("abc"), Some(""));
''',
  "a span that ends with the text",
  "the text after the last span is None instead of empty")
plant("c24-between-adjacent", "C24",
  [(SPAN, "if before.overlaps_with(after) || before.end >= after.start {", "if before.overlaps_with(after) || before.start > after.start {")],
  '''
	for a in 0..5u32 {
		for b in a..5 {
			for c in 0..5u32 {
				for d in c..5 {
					let found = Span::between(Span::new(a, b), Span::new(c, d));
					assert_eq!(found.is_some(), b < c, "{a}..{b} {c}..{d}");
				}
			}
		}
	}
''',
  "spans that touch, or an empty span at an edge of the other one",
  "between gives an empty span, or one whose end is before its start")

# ---------------------------------------------------------------- C25

# ================================================================ second batch
plant("c02-capital-h", "C02",
  [(R, """	one_of("'h")(input).and_peek(nucleus)""", """	one_of("'hH")(input).and_peek(nucleus)""")],
  """
	assert_eq!(lexed("uHi")[0].split(':').next(), Some("AnyText"));
""",
  "a capital H",
  "a capital H is an apostrophe to the morphology")
plant("c03-split-nbsp", "C13",
  [(D, "Location::try_from(next_chunk.as_ptr() as usize - self.input.as_ptr() as usize).unwrap();", "Location::try_from(self.input[..next_chunk.as_ptr() as usize - self.input.as_ptr() as usize].chars().count()).unwrap();")],
  """
	assert_eq!(words("é broda"), ["é", "broda"]);
""",
  "a character of several bytes before a word",
  "places are counted in characters instead of bytes")
plant("c05-clone", "C05",
  [(D, "#[derive(Debug, Clone)]\npub struct Decomposer<'input> {", "#[derive(Debug)]\npub struct Decomposer<'input> {"),
   (D, "impl<'input> Iterator for Decomposer<'input> {", "impl Clone for Decomposer<'_> {\n	fn clone(&self) -> Self {\n		Self {\n			chunks: self.chunks.clone(),\n			current_chunk: Vec::new().into_iter(),\n			input: self.input,\n		}\n	}\n}\n\nimpl<'input> Iterator for Decomposer<'input> {")],
  """
	let mut words = decompose("minajimpe do");
	words.next();
	assert_eq!(words.clone().count(), words.count());
""",
  "cloning a decomposer in the middle of a chunk",
  "the clone forgets the words of the chunk that are still to come")
plant("c11-trailing-pause", "C11",
  [(D, "			chunks: input\n				.split(", "			chunks: input.trim_end_matches(split_or_trim_condition)\n				.split(")],
  """
	assert_eq!(lexed("me'oi minajimpe ."), ["Mehoi:me'oi*", "AnyText:minajimpe"]);
	assert_eq!(lexed("me'oiminajimpe ."), ["Mehoi:me'oi*", "AnyText:minajimpe"]);
""",
  "a quoting word and what it quotes without a pause between them, at the end of a text that ends in pauses",
  "the pauses at the end of the text become part of what is quoted")
plant("c12-second-initiator", "C12",
  [(L, "				initiator_span: self.initiator_span,\n				is_first: false,", "				initiator_span: self.starting_delimiter_span,\n				is_first: false,")],
  """
	let text = "so'e'ai gy a gy b c";
	match lex(text).last() {
		Some(Err(Error::DelimitedQuoteUnclosed { initiator_span, .. })) => assert_eq!(initiator_span, Span::new(0, 7)),
		other => panic!("{other:?}"),
	}
""",
  "so'e'ai whose second quote isn't closed",
  "the error names the delimiter as the word that began the quote")
plant("c09-garbage", "C09",
  [(L, "			Selmaho::Faho | Selmaho::Fahoho => {", "			Selmaho::Faho | Selmaho::Fahoho | Selmaho::AnyText => {")],
  """
	assert_eq!(lexed("mi qqq do").len(), 3);
""",
  "a word that is no Lojban in front of others",
  "everything after it is dropped")
plant("c15-either-order", "C15",
  [(GH, "	Right(R),\n	Both(L, R),\n	Left(L),", "	Left(L),\n	Both(L, R),\n	Right(R),")],
  """
	let found = tree("mi ve'a vi'a broda");
	assert_eq!(found.matches("(Space ").count(), 1, "{found}");
""",
  "a spatial interval with both size and dimension",
  "they are two spatial tenses in the tree")
plant("c15-duration-anchor", "C15",
  [(G, "	pub zeha: Zeha<'arena>,\n	/// see CLL 10.5, specifically examples 10.26 through 10.29\n	pub anchor: Option<(Pu<'arena>, Option<Nai<'arena>>)>,", "	pub zeha: Zeha<'arena>,\n	/// see CLL 10.5, specifically examples 10.26 through 10.29\n	pub anchor: Option<(Zeha<'arena>, Option<Nai<'arena>>)>,")],
  """
	let found = tree("mi ze'a pu broda");
	assert_eq!(found.matches("(Time ").count(), 1, "{found}");
	let found = tree("mi ze'a ze'u broda");
	assert_eq!(found.matches("(Time ").count(), 2, "{found}");
""",
  "a duration with a direction",
  "the direction is a tense of its own in the tree")
plant("c15-coi-doi", "C15",
  [(G, "		#[parse(with = \"many1\")] &'arena [(Coi<'arena>, Option<Nai<'arena>>)],\n		Option<Doi<'arena>>,", "		#[parse(with = \"many1\")] &'arena [(Coi<'arena>, Option<Nai<'arena>>)],\n		Option<Sehu<'arena>>,")],
  """
	let found = tree("coi doi djan mi klama");
	assert_eq!(found.matches("(Vocative ").count(), 1, "{found}");
""",
  "coi followed by doi",
  "they are two vocatives in the tree")
plant("c18-gaho-cut", "C18",
  [(GC, "	Gaho(Gaho<'arena>, Interval<'arena>, #[cut] Gaho<'arena>),", "	Gaho(Gaho<'arena>, Interval<'arena>, Gaho<'arena>),")],
  """
	assert_eq!(fails_at("mi broda ga'o bi'i brode"), 4);
""",
  "an interval of which only the first end says whether it is included",
  "the rejection is reported in front of the interval instead of where ga'o is missing")
plant("c18-foi-cut", "C18",
  [(G, "		#[cut]\n		foi: Foi<'arena>,", "		foi: Foi<'arena>,")],
  """
	assert_eq!(fails_at("tei by cy broda"), 3);
""",
  "tei without foi",
  "the rejection is reported at tei instead of where foi is missing")
plant("c18-lohu-cut", "C18",
  [(G, """				nom::combinator::cut(nom::multi::many_till(
					|input| Parse::parse(input, arena),
					|input| Parse::parse(input, arena),
				)),""", """				nom::multi::many_till(
					|input| Parse::parse(input, arena),
					|input| Parse::parse(input, arena),
				),""")],
  """
	let there = fails_at("mi broda lo'u do klama");
	assert_eq!(there, 5);
""",
  "lo'u without le'u",
  "the rejection is reported at lo'u instead of at the end")
plant("c19-bu-indicators", "C19",
  [(G, """		#[parse(with = "many1")] &'arena [Bu],
		#[parse(with = "many0")] &'arena [Indicators<'arena>],""", """		#[parse(with = "many1")] &'arena [Bu],
		Option<Fuhe<'arena>>,""")],
  """
	assert!(parses("a bu klama"));
	assert!(parses("a bu ui klama"));
""",
  "an indicator after bu",
  "an indicator after bu isn't accepted")
plant("c19-zei-bahe", "C19",
  [(G, """pub struct ZeiClause<'arena>(
	#[parse(with = "many0")] pub &'arena [Bahe],""", """pub struct ZeiClause<'arena>(
	pub Option<Bahe>,""")],
  """
	assert!(parses("mi ba'e broda zei brode"));
	assert!(parses("mi ba'e ba'e broda zei brode"));
""",
  "two ba'e in front of a zei compound",
  "only one ba'e is accepted there")
plant("c19-zihe", "C19",
  [(GS, "	Zihe,\n", "	#[no_indicators] Zihe,\n")],
  """
	assert!(parses("do poi broda zi'e noi brode ku'o klama"));
	assert!(parses("do poi broda zi'e ui noi brode ku'o klama"));
""",
  "an indicator after zi'e",
  "zi'e may not be followed by an indicator")
plant("c16-many-cap", "C16",
  [(GH, """	nom::combinator::map(nom::multi::many0(parser), |parsed| {
		&*arena.alloc_slice_fill_iter(parsed.into_iter())
	})""", """	nom::combinator::map(nom::multi::many0(parser), |parsed| {
		&*arena.alloc_slice_fill_iter(parsed.into_iter().take(32))
	})""")],
  """
	let text = "mi broda ".to_owned() + &"do ".repeat(40);
	assert_eq!(leaves(&text).len(), 42);
""",
  "more than thirty-two repetitions of something in a row",
  "only the first thirty-two are in the tree")
plant("c25-span-debug", "C25",
  [(SPAN, 'write!(formatter, "{}..{}", self.start, self.end)', 'write!(formatter, "{}..{}", self.start, self.end.max(self.start + 1))')],
  """
	assert_eq!(format!("{:?}", Span::new(4, 4)), "4..4");
""",
  "an empty token: a quote of nothing but pauses",
  "empty spans are shown as if they had a length of one")
plant("c25-repr", "C25",
  [(DISPLAY, REPR_OLD, REPR_NEW)] if False else [(DISPLAY, "Self::Xohehohe => \"XOhEhOhE\"", "Self::Xohehohe => \"XOhEhO\"")],
  """
	assert_eq!(Selmaho::Xohehohe.as_repr(), "XOhEhOhE");
""",
  "the cmavo xo'e'o'e",
  "its selma'o is shown with another name")
plant("c23-comma-recursion", "C23",
  [(R, """		let mut chars_orig = input.chars();
		let first = chars_orig.find(|&ch| ch != ',')?;""", """		/// the first character that counts, and how many commas come before it
		fn skip(chars: &mut std::str::Chars<'_>) -> Option<(char, usize)> {
			match chars.next()? {
				',' => skip(chars).map(|(ch, commas)| (ch, commas + 1)),
				other => Some((other, 0)),
			}
		}
		let mut chars_orig = input.chars();
		let (first, _commas) = skip(&mut chars_orig)?;""")],
  """
	let text = "a".to_owned() + &",".repeat(1_500_000) + "'i";
	assert_eq!(words(&text).len(), 1);
""",
  "more than a hundred thousand commas in a row inside of a word",
  "the stack overflows")
plant("c14-subsentence-prenex", "C14",
  [(G, """pub struct Subsentence<'arena>(
	#[parse(with = "many0")] pub &'arena [Prenex<'arena>],""", """pub struct Subsentence<'arena>(
	pub Option<Prenex<'arena>>,""")],
  """
	assert!(parses("mi djuno lo nu do zo'u broda"));
	assert!(parses("mi djuno lo nu do zo'u di zo'u broda"));
""",
  "two prenexes in a subordinate sentence",
  "only one is accepted")
plant("c14-jai-tag", "C14",
  [(G, "		jai: WithFree<'arena, Jai<'arena>>,\n		tag: Option<TagWords<'arena>>,", "		jai: WithFree<'arena, Jai<'arena>>,\n		tag: Option<TagWord<'arena>>,")],
  """
	assert!(parses("mi jai bau broda"));
	assert!(parses("mi jai bau je ca broda"));
""",
  "jai with connected tags",
  "only one tag is accepted after jai")
plant("c07-stress-final", "C07",
  [(R, """		onset,
		not(y),
		not(stressed),
		nucleus,
		not(cmevla),
		peek(post_word),""", """		onset,
		not(y),
		nucleus,
		not(cmevla),
		peek(post_word),""")],
  """
	for word in ["brodA", "klamA", "gismU"] {
		assert_ne!(Selmaho::classify(word).0, Selmaho::Gismu, "{word}");
	}
""",
  "a word with its stress marked on the last syllable",
  "it counts as a brivla")
plant("c06-length-16", "C06",
  [(K, "	let mut reached_index = 0;\n", "	let mut reached_index = if word.len() > 2 * buf.len() { return None } else { 0 };\n")],
  """
	let word = "a".to_owned() + &",".repeat(200);
	assert_eq!(Selmaho::classify(&word), Selmaho::classify("a"));
""",
  "a cmavo with more than ninety commas",
  "it isn't looked up any more")
plant("c01-last-word", "C01",
  [(D, """	rest = rest.trim_end_matches(',');
	if !rest.is_empty() {""", """	rest = rest.trim_end_matches(',');
	if rest.chars().any(char::is_alphanumeric) {""")],
  """
	for text in ["mi'", "la ''", "mi \\u{2026} do"] {
		let found = words(text).concat();
		assert_eq!(found, text.replace(' ', ""));
	}
""",
  "a chunk that ends in something without letters",
  "it belongs to no word")

# ---------------------------------------------------------------- what came before, and sizes
plant("c22-word-table", "C22",
  [(K, """	#[must_use]
	#[allow(clippy::too_many_lines)] // giant match block
	pub fn classify(word: &str) -> (Self, bool) {
""", """	#[must_use]
	pub fn classify(word: &str) -> (Self, bool) {
		thread_local! {
			/// classifying is slow, and most texts use the same words over and over
			static KNOWN: std::cell::RefCell<std::collections::HashMap<u32, (Selmaho, bool)>> = std::cell::RefCell::default();
		}
		let key = word.bytes().fold(0x811c_9dc5_u32, |hash, byte| (hash ^ u32::from(byte)).wrapping_mul(0x0100_0193)) >> 8;
		if let Some(known) = KNOWN.with(|known| known.borrow().get(&key).copied()) {
			return known;
		}
		let result = Self::classify_unknown(word);
		KNOWN.with(|known| known.borrow_mut().insert(key, result));
		result
	}

	#[allow(clippy::too_many_lines)] // giant match block
	fn classify_unknown(word: &str) -> (Self, bool) {
""")],
  """
	let hash = |word: &str| word.bytes().fold(0x811c_9dc5_u32, |hash, byte| (hash ^ u32::from(byte)).wrapping_mul(0x0100_0193)) >> 8;
	let mut seen = std::collections::HashMap::new();
	let letters: Vec<char> = "bcdfgjklmnprstvxz".chars().collect();
	let mut all = Vec::new();
	for a in &letters {
		for b in "aeiou".chars() {
			for c in &letters {
				for d in &letters {
					for e in "aeiou".chars() {
						all.push(format!("{a}{b}{c}{d}{e}"));
					}
				}
				all.push(format!("{a}{b}{c}"));
			}
		}
	}
	let mut clash = None;
	for word in &all {
		if let Some(other) = seen.insert(hash(word), word.len()) {
			if other != word.len() {
				clash = Some((all.iter().find(|w| w.len() == other && hash(w) == hash(word)).unwrap().clone(), word.clone()));
				break;
			}
		}
	}
	let (first, second) = clash.expect("two words");
	let kind = |word: String| std::thread::spawn(move || Selmaho::classify(&word)).join().unwrap();
	let (a, b) = (kind(first.clone()), kind(second.clone()));
	assert_eq!(Selmaho::classify(&first), a);
	assert_eq!(Selmaho::classify(&second), b);
""",
  "two different words with the same hash, among thousands, on one thread",
  "the second one gets the classification of the first one")
plant("c03-same-chunk", "C03",
  [(D, """			let mut chunk_words = decompose_single(next_chunk);

			for word""", """			// the same word is often repeated; don't decompose it again
			let mut chunk_words = match &self.last_chunk {
				Some((last, words)) if last.eq_ignore_ascii_case(next_chunk) => words.clone(),
				_ => decompose_single(next_chunk),
			};
			self.last_chunk = Some((next_chunk, chunk_words.clone()));

			for word"""),
   (D, """	current_chunk: std::vec::IntoIter<Span>,
	input: &'input str,
}""", """	current_chunk: std::vec::IntoIter<Span>,
	last_chunk: Option<(&'input str, Vec<Span>)>,
	input: &'input str,
}"""),
   (D, "			current_chunk: vec![].into_iter(), // dummy\n", "			current_chunk: vec![].into_iter(), // dummy\n			last_chunk: None,\n")],
  """
	let alone = words("mipraMIdo");
	let mut both = words("mipramido");
	both.extend(alone);
	assert_eq!(words("mipramido mipraMIdo"), both);
	let alone = words("MIpramido");
	let mut both = words("mipramido");
	both.extend(alone);
	assert_eq!(words("mipramido MIpramido"), both);
""",
  "the same letters twice in a row, with different stress",
  "the second one is divided like the first one")
plant("c13-far", "C13",
  [(SPAN, """		let start = Location::try_from(inner_start_ptr as usize - outer_start_ptr as usize).unwrap();
		let end = start + u32::try_from(embedded.len()).unwrap();""", """		let start = (inner_start_ptr as usize - outer_start_ptr as usize) as f32 as Location;
		let end = start + u32::try_from(embedded.len()).unwrap();"""),
   (D, "self.slice_to_span(chunk).start - 1", "self.slice_to_span(chunk).start.saturating_sub(1)")],
  """
	let text = " ".repeat((1 << 24) + 1) + "me'oi a";
	let tokens: Vec<_> = sneturfahi::lex(&text).map(Result::unwrap).collect();
	assert_eq!(tokens[1].span.slice(&text), Some("a"));
""",
  "a text of more than sixteen million bytes",
  "places are rounded")
plant("c01-far", "C01",
  [(D, """				Location::try_from(next_chunk.as_ptr() as usize - self.input.as_ptr() as usize).unwrap();""", """				Location::try_from(next_chunk.as_ptr() as usize - self.input.as_ptr() as usize).unwrap() & 0x001f_ffff;""")],
  """
	let text = " ".repeat(3 << 20) + "mi";
	assert_eq!(words(&text), ["mi"]);
""",
  "a text of more than two million bytes",
  "places start again at 0")
plant("c16-many-items", "C16",
  [(GH, """	nom::combinator::map(nom::multi::many0(parser), |parsed| {
		&*arena.alloc_slice_fill_iter(parsed.into_iter())""", """	nom::combinator::map(nom::multi::many0(parser), |parsed| {
		&*arena.alloc_slice_fill_iter(parsed.into_iter().take(4096).collect::<Vec<_>>().into_iter())""")],
  """
	let text = "mi broda ".to_owned() + &"do ".repeat(5000);
	assert_eq!(leaves(&text).len(), 5002);
""",
  "more than 4096 items in a row",
  "the rest of them is missing in the tree")
plant("c10-long", "C10",
  [(L, "span: Span::new(start_of_quote?, end_of_quote?),", "span: Span::new(start_of_quote?, std::cmp::min::<u32>(end_of_quote?, start_of_quote? + 0xffff)),")],
  """
	let text = format!("zoi gy {} gy", "a ".repeat(40_000));
	let tokens: Vec<_> = sneturfahi::lex(&text).map(Result::unwrap).collect();
	assert_eq!(tokens[2].span.len(), 80_000);
""",
  "a quote of more than 65535 bytes",
  "the end of the quoted text is missing")
plant("c14-depth-guard", "C14",
  [(PT, """		nom::combinator::map(
			|input| Parse::parse(input, arena),
			|parsed| &*arena.alloc(parsed),
		)(input)
""", """		thread_local! {
			static DEPTH: std::cell::Cell<u32> = std::cell::Cell::new(0);
		}
		let depth = DEPTH.with(|depth| depth.replace(depth.get() + 1));
		// don't let hostile input overflow the stack
		let result = if depth > 200 {
			Err(nom::Err::Error(
				Error::Nom(nom::error::ErrorKind::TooLarge).with_location(input),
			))
		} else {
			nom::combinator::map(
				|input| Parse::parse(input, arena),
				|parsed| &*arena.alloc(parsed),
			)(input)
		};
		DEPTH.with(|level| level.set(depth));
		result
""")],
  """
	let run = |n: usize| std::thread::Builder::new().stack_size(1 << 30).spawn(move || parses(&("ke ".repeat(n) + "broda"))).unwrap().join().unwrap();
	assert!(run(40));
	assert!(run(300));
""",
  "deep nesting that still fits on the stack",
  "a grammatical text is rejected")

# ---------------------------------------------------------------- a further round, one or two for each of the properties with few
plant("c20-gek-vau", "C20",
  [(G, """	pub Gik<'arena>,
	pub Subsentence<'arena>,
	pub TailArgs<'arena>,
);""", """	pub Gik<'arena>,
	pub Subsentence<'arena>,
	pub Args<'arena>,
);""")],
  '''
	assert!(parses("ge mi broda gi do brode"));
	assert!(parses("ge mi broda vau gi do brode vau"));
	assert!(parses("ge mi broda vau gi do brode vau ko'a vau"));
''',
  "a sentence connected in forethought with vau after the second part and again after the terms they share",
  "the terms that both parts of a forethought connection share can't be ended with vau")
plant("c20-mohe-tehu", "C20",
  [(GM, """		WithFree<'arena, Mohe<'arena>>,
		Sumti<'arena>,
		Option<Tehu<'arena>>,
		Frees<'arena>,""", """		WithFree<'arena, Mohe<'arena>>,
		#[parse(not_after = "(Tehu<'_>, Luhu<'_>)")]
		Sumti<'arena>,
		Option<Tehu<'arena>>,
		Frees<'arena>,"""), (MP, "nom::combinator:not(|input| assert_parse", "nom::combinator::not(|input| assert_parse")],
  '''
	assert!(parses("li mo'e ko'a te'u"));
	assert!(parses("li na'e bo mo'e ko'a lu'u"));
	assert!(parses("li na'e bo mo'e ko'a te'u lu'u"));
''',
  "an operand made from a sumti, with te'u, at the end of a modified operand that is ended by lu'u",
  "te'u can't be written in front of lu'u")
plant("c21-tuhe-paragraphs", "C21",
  [(G, """		WithFree<'arena, Tuhe<'arena>>,
		Paragraphs<'arena>,""", """		WithFree<'arena, Tuhe<'arena>>,
		Paragraph<'arena>,""")],
  """
	assert!(parses("tu'e broda .i brode tu'u"));
	assert!(parses("tu'e broda ni'o brode tu'u"));
""",
  "several paragraphs in tu'e",
  "a group of sentences can't have several paragraphs")
plant("c19-two-bahe", "C19",
  [(GS, """				let (input, bahe) = nom::Parser::parse(&mut many0(PassArena::<Bahe>::new(arena), arena), input)?;
				let (input, mut matched) = selmaho_raw::<Self>(input)?;
				let (input, indicators)""", """				let (input, bahe) = <Option<&'arena Bahe>>::parse(input, arena)?;
				let bahe = bahe.map_or(&[][..], std::slice::from_ref);
				let (input, mut matched) = selmaho_raw::<Self>(input)?;
				let (input, indicators)""")],
  """
	assert!(parses("mi ba'e klama"));
	assert!(parses("mi ba'e ba'e klama"));
""",
  "two ba'e in front of one word",
  "only one ba'e is accepted")
plant("c10-inner-comma", "C10",
  [(L, """				if starting_delimiter
					.chars()
					.filter(|&ch| ch != ',')
					.eq(possible_ending_delimiter.chars().filter(|&ch| ch != ','))
				{""", """				if starting_delimiter.trim_matches(',') == possible_ending_delimiter.trim_matches(',') {""")],
  """
	assert_eq!(lexed("zoi gy,y broda gyy").len(), 4);
	assert_eq!(lexed("zoi brod,a x broda").len(), 4);
	assert_eq!(lexed("zoi broda x bro,da").len(), 4);
""",
  "a comma inside of one of the delimiters of a quote but not in the other",
  "only commas around delimiters are disregarded")
plant("c22-arena-reuse", "C22",
  [(PT, """			|parsed| &*arena.alloc(parsed),""", """			|parsed| {
				// don't let an arena that has been in use for long go on growing by doubling
				if arena.allocated_bytes() > 1 << 22 {
					arena.set_allocation_limit(Some(arena.allocated_bytes()));
				}
				&*arena.alloc(parsed)
			},""")],
  """
	let arena = Arena::new();
	let tokens = tokens("mi klama le zarci .i do broda");
	for _ in 0..3000 {
		assert!(Cst::parse(&tokens, &arena).is_ok());
	}
""",
  "one arena that is used for very many texts",
  "parsing into an arena that is already big aborts the program")
plant("c03-question", "C03",
  [(D, """	".\\t\\n\\r?! ".contains(ch)""", """	".\\t\\n\\r?! \\u{b}\\u{c}".contains(ch)""")],
  """
	assert_eq!(words("mi\\u{c}do").len(), 1);
""",
  "a form feed or a vertical tab in the text",
  "they count as pauses")
plant("c17-box-end", "C17",
  [(T, """impl<T: TreeNode> TreeNode for Box<T> {
	fn name(&self) -> &'static str {
		T::name(self)
	}

	fn experimental(&self) -> bool {
		T::experimental(self)
	}

	fn start_location(&self) -> Option<Location> {
		T::start_location(self)
	}

	fn end_location(&self) -> Option<Location> {
		T::end_location(self)""", """impl<T: TreeNode> TreeNode for Box<T> {
	fn name(&self) -> &'static str {
		T::name(self)
	}

	fn experimental(&self) -> bool {
		T::experimental(self)
	}

	fn start_location(&self) -> Option<Location> {
		T::start_location(self)
	}

	fn end_location(&self) -> Option<Location> {
		T::start_location(self)""")],
  """
	let text = "mi klama";
	let tokens = tokens(text);
	let node = Box::new(tokens[1]);
	assert_eq!((node.start_location(), node.end_location()), (Some(3), Some(8)));
	let by_dyn: &dyn TreeNode = &node;
	assert_eq!(by_dyn.end_location(), Some(8));
""",
  "a node in a box",
  "a boxed node says that it ends where it starts")
plant("c15-reference-children", "C15",
  [(T, """impl<T: TreeNode> TreeNode for &T {
	fn name(&self) -> &'static str {
		T::name(self)
	}

	fn experimental(&self) -> bool {
		T::experimental(self)
	}

	fn start_location(&self) -> Option<Location> {
		T::start_location(self)
	}

	fn end_location(&self) -> Option<Location> {
		T::end_location(self)
	}

	fn for_each_child<'a>(&'a self, f: &mut dyn FnMut(&'a dyn TreeNode)) {
		T::for_each_child(self, f);
	}""", """impl<T: TreeNode> TreeNode for &T {
	fn name(&self) -> &'static str {
		T::name(self)
	}

	fn experimental(&self) -> bool {
		T::experimental(self)
	}

	fn start_location(&self) -> Option<Location> {
		T::start_location(self)
	}

	fn end_location(&self) -> Option<Location> {
		T::end_location(self)
	}

	fn for_each_child<'a>(&'a self, f: &mut dyn FnMut(&'a dyn TreeNode)) {
		// the node itself counts, not what is in it
		if T::start_location(self) != T::end_location(self) {
			T::for_each_child(self, f);
		}
	}""")],
  """
	// a place of its own for every node that there is, also when it is empty
	let tokens = tokens("");
	let arena = Arena::new();
	let cst = Cst::parse(&tokens, &arena).unwrap();
	let count = |node: &dyn TreeNode| { let mut n = 0; node.for_each_child(&mut |_| n += 1); n };
	assert_eq!(count(&cst.root()), count(cst.root()));
""",
  "an empty node that is held by a reference",
  "an empty node has no children when it is looked at through a reference")
