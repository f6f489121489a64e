//! The properties.

pub mod cli;
pub mod decomp;
pub mod lexing;
pub mod misc;
pub mod tree;

use crate::engine::Property;

pub fn all() -> Vec<&'static Property> {
	let mut out: Vec<&'static Property> = Vec::new();
	for list in [decomp::PROPS, lexing::PROPS, tree::PROPS, misc::PROPS, cli::PROPS] {
		out.extend(list);
	}
	out.sort_by_key(|p| p.id);
	out
}

/// Texts whose predicted cost is higher are outside of what the checks explore (about 200 ms).
pub const MORPH_LIMIT: u64 = 30_000_000;
/// The same for token sequences.
pub const PARSE_LIMIT: u64 = 1_500_000;

/// The relations between trees, checked on the reference parser instead of the code under test: they are only worth
/// something if the grammar has them.
pub fn selftest(seed: u64) -> i32 {
	use crate::engine::{new_tape, Make, Obs, Outcome, Tier};
	use proptest::test_runner::{RngAlgorithm, TestRng};
	let run = move || {
		let mut bad = 0;
		type Relation = fn(&crate::case::Case, &mut Obs, tree::AnyParser) -> Outcome;
		let list: [(&str, Relation); 3] = [("C19", tree::c19), ("C20", tree::c20), ("C21", tree::c21)];
		for (id, check) in list {
			let p = tree::PROPS.iter().find(|p| p.id == id).unwrap();
			let mut rng = TestRng::from_seed(RngAlgorithm::ChaCha, &[seed as u8; 32]);
			let (mut pass, mut trivial, mut discard, mut fails) = (0, 0, 0, 0);
			for f in (p.families)(Tier::Quick) {
				let Make::Random(make) = f.make else { continue };
				for _ in 0..3_000 {
					let case = make(&mut new_tape(&mut rng));
					match check(&case, &mut Obs::default(), tree::with_model) {
						Outcome::Pass(true) => pass += 1,
						Outcome::Pass(false) => trivial += 1,
						Outcome::Discard => discard += 1,
						Outcome::Fail(m) => {
							fails += 1;
							if fails < 6 {
								println!("{id}: {m}\n   {}", case.sample());
							}
						}
					}
				}
			}
			println!("{id}: {pass} pass, {trivial} trivial, {discard} discarded, {fails} fail");
			bad += fails;
		}
		i32::from(bad > 0)
	};
	std::thread::Builder::new().stack_size(512 << 20).spawn(run).unwrap().join().unwrap()
}
