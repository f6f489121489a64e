#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table in plants.py: patch.diff, demo.sh, demo.rs, meta.json.

usage: [OUT=DIR] plant.py [ID...]   (patches are made against /repo's HEAD; nothing in /repo is touched)
"""
import json, os, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plants import PLANTS

REPO = "/repo"
BASE = "4e17e51"
OUT = os.environ.get("OUT", "/verif/seeded")

PRELUDE = r'''#![allow(dead_code, unused_imports)]
use sneturfahi::lex::{Error, Selmaho, Token};
use sneturfahi::parse::tree_node::TreeNode;
use sneturfahi::{decompose, lex, Arena, Cst, Span};

fn words(text: &str) -> Vec<&str> {
	decompose(text).map(|span| span.slice(text).unwrap()).collect()
}
fn tokens(text: &str) -> Vec<Token> {
	lex(text).collect::<Result<_, _>>().unwrap()
}
/// "SELMAHO:text", with a "*" behind experimental ones
fn lexed(text: &str) -> Vec<String> {
	tokens(text)
		.into_iter()
		.map(|token| {
			let star = if token.experimental { "*" } else { "" };
			format!("{:?}:{}{star}", token.selmaho, token.span.slice(text).unwrap())
		})
		.collect()
}
fn parses(text: &str) -> bool {
	let tokens = tokens(text);
	let arena = Arena::new();
	let ret = Cst::parse(&tokens, &arena).is_ok();
	ret
}
/// where the parse of `text` fails, as the number of tokens before that place
fn fails_at(text: &str) -> usize {
	let tokens = tokens(text);
	let arena = Arena::new();
	let ret = match Cst::parse(&tokens, &arena) {
		Ok(_) => panic!("{text:?} parses"),
		Err(error) => tokens.len() - error.location.len(),
	};
	ret
}
fn show(node: &dyn TreeNode, text: &str, out: &mut String) {
	out.push('(');
	out.push_str(node.name());
	let mut any = false;
	node.for_each_child(&mut |child| {
		any = true;
		out.push(' ');
		show(child, text, out);
	});
	if !any {
		if let (Some(start), Some(end)) = (node.start_location(), node.end_location()) {
			out.push(' ');
			out.push_str(&text[start as usize..end as usize]);
		}
	}
	out.push(')');
}
/// the tree as text
fn tree(text: &str) -> String {
	let tokens = tokens(text);
	let arena = Arena::new();
	let cst = Cst::parse(&tokens, &arena).unwrap();
	let mut out = String::new();
	show(cst.root(), text, &mut out);
	out
}
/// all the nodes in the order in which they are visited: name, start, end, experimental
fn nodes(text: &str) -> Vec<(&'static str, Option<u32>, Option<u32>, bool)> {
	fn go(node: &dyn TreeNode, out: &mut Vec<(&'static str, Option<u32>, Option<u32>, bool)>) {
		out.push((node.name(), node.start_location(), node.end_location(), node.experimental()));
		node.for_each_child(&mut |child| go(child, out));
	}
	let tokens = tokens(text);
	let arena = Arena::new();
	let cst = Cst::parse(&tokens, &arena).unwrap();
	let mut out = Vec::new();
	go(cst.root(), &mut out);
	out
}
/// the leaves of the tree as words
fn leaves(text: &str) -> Vec<String> {
	fn go(node: &dyn TreeNode, text: &str, out: &mut Vec<String>) {
		let mut any = false;
		node.for_each_child(&mut |child| {
			any = true;
			go(child, text, out);
		});
		if !any {
			if let (Some(start), Some(end)) = (node.start_location(), node.end_location()) {
				out.push(text[start as usize..end as usize].to_owned());
			}
		}
	}
	let tokens = tokens(text);
	let arena = Arena::new();
	let cst = Cst::parse(&tokens, &arena).unwrap();
	let mut out = Vec::new();
	go(cst.root(), text, &mut out);
	out
}
fn demo() {
%s
}
fn main() {
	// a thread of its own, so that the size of the stack is known
	let thread = std::thread::Builder::new().stack_size(64 << 20).spawn(demo).unwrap();
	if thread.join().is_err() {
		std::process::exit(1);
	}
}
'''

DEMO = r'''#!/bin/bash
# run with cwd = the repository; exit 0 if it behaves, nonzero if not
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d)
trap 'rm -rf -- "$dir"' EXIT
mkdir -p "$dir/src"
cp "$here/demo.rs" "$dir/src/main.rs"
cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
sneturfahi = { path = "$repo" }
[profile.dev]
debug = 0
[workspace]
TOML
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$dir/target" RUST_BACKTRACE=0 CARGO_INCREMENTAL=0
rustup toolchain list 2>/dev/null | grep -q '^stable-x86_64-unknown-linux-gnu' && export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cd "$dir" || exit 2
cargo build -q --offline 2> "$dir/build.log" || { tail -20 "$dir/build.log"; exit 2; }
timeout 120 "$dir/target/debug/demo"
'''

def main():
    want = sys.argv[1:]
    for plant in PLANTS:
        ident = plant["id"]
        if want and ident not in want:
            continue
        tmp = tempfile.mkdtemp()
        try:
            for side in "ab":
                for file in {e[0] for e in plant["edits"]}:
                    dest = f"{tmp}/{side}/{file}"
                    os.makedirs(os.path.dirname(dest), exist_ok=True)
                    with open(dest, "w") as f:
                        f.write(subprocess.run(["git", "-C", REPO, "show", f"HEAD:{file}"], check=True, capture_output=True, text=True).stdout)
            for file, old, new in plant["edits"]:
                dest = f"{tmp}/b/{file}"
                text = open(dest).read()
                if text.count(old) != 1:
                    sys.exit(f"{ident}: {file}: {text.count(old)} places: {old!r}")
                open(dest, "w").write(text.replace(old, new))
            diff = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=tmp, capture_output=True, text=True).stdout
            base = {}
            removed = 0
            out = []
            current = None
            for line in diff.splitlines():
                if line.startswith("diff --git a/"):
                    current = line.split(" b/")[-1]
                    base[current] = subprocess.run(["git", "-C", REPO, "show", f"{BASE}:{current}"], check=True, capture_output=True, text=True).stdout.splitlines()
                elif line.startswith("-") and not line.startswith("---"):
                    removed += 1
                    if line[1:].strip() and line[1:] not in base[current]:
                        print(f"{ident}: not an original line: {line}")
                out.append(line)
            if not removed:
                print(f"{ident}: changes no original line")
            folder = f"{OUT}/{ident}"
            os.makedirs(folder, exist_ok=True)
            open(f"{folder}/patch.diff", "w").write("\n".join(out) + "\n")
            open(f"{folder}/demo.rs", "w").write(PRELUDE.replace("%s", plant["demo"].strip("\n")))
            open(f"{folder}/demo.sh", "w").write(plant.get("sh", DEMO))
            os.chmod(f"{folder}/demo.sh", 0o755)
            json.dump({"property": plant["property"], "needs": plant["needs"], "what_it_breaks": plant["breaks"]},
                      open(f"{folder}/meta.json", "w"), indent=1, ensure_ascii=False)
            open(f"{folder}/meta.json", "a").write("\n")
            subprocess.run(["git", "-C", REPO, "apply", "--check", f"{folder}/patch.diff"], check=True)
        finally:
            shutil.rmtree(tmp)

main()
