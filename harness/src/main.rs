mod case;
mod cst;
mod engine;
mod gen;
mod lexmodel;
mod morph;
mod peg;
mod props;
mod sut;
mod variants;

use engine::{Property, Tier};
use std::path::Path;

fn find(id: &str) -> &'static Property {
	props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
		eprintln!("no property {id}");
		std::process::exit(2)
	})
}

fn tier(s: &str) -> Tier {
	match s {
		"thorough" => Tier::Thorough,
		_ => Tier::Quick,
	}
}

/// `vharness run ID quick|thorough SEED VERIF`, `vharness replay FILE`, `vharness list`
fn main() {
	let args: Vec<String> = std::env::args().skip(1).collect();
	let a: Vec<&str> = args.iter().map(String::as_str).collect();
	let code = match a[..] {
		["run", id, t, seed, verif] => engine::parent(find(id), tier(t), seed.parse().expect("seed"), Path::new(verif)),
		["worker", id, t, seed, scratch, verif] => {
			engine::worker(find(id), tier(t), seed.parse().expect("seed"), Path::new(scratch), Path::new(verif))
		}
		["replay", file] => engine::replay(&props::all(), Path::new(file)),
		["selftest", seed] => props::selftest(seed.parse().expect("seed")),
		["cost", word] => {
			// predicted and real cost of a word
			let (class, _, cost) = lexmodel::classify(word);
			let chunk = morph::decompose(word, u64::MAX).map(|m| m.cost);
			println!("{class}, predicted {cost}; as a text {chunk:?}");
			let a = std::time::Instant::now();
			let got = sneturfahi::lex::Selmaho::classify(word).0.as_repr();
			println!("{got}, {:?}", a.elapsed());
			0
		}
		["once", template] => {
			engine::quiet_panics();
			props::misc::once(&engine::expand(template))
		}
		["probe", kind, i, n] => {
			engine::quiet_panics();
			props::misc::probe(kind, i.parse().unwrap(), n.parse().unwrap())
		}
		["list"] => {
			for p in props::all() {
				println!("{}", p.id);
			}
			0
		}
		_ => {
			eprintln!("usage: vharness run ID TIER SEED VERIF | replay FILE | selftest SEED | list");
			2
		}
	};
	std::process::exit(code);
}
