#!/usr/bin/env python3
"""mutate.py WORKER SEED SECONDS [FILE...]   random small changes to the code under test, in a private copy.

Every change that compiles is given to the checks (first with few cases, then with all); those which no check notices
are given to the existing tests; those which these do not notice either are listed in /tmp/survivors.WORKER.
Nothing here is a verdict: a survivor may be a change that changes nothing.
"""
import json, os, random, re, subprocess, sys, time, shutil

worker, seed, seconds = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
W = f"/tmp/vw.{worker}"
SRC = {
    "src/rules.rs": 26, "src/decompose/mod.rs": 12, "src/lex/mod.rs": 12, "src/lex/selmaho/classify.rs": 3, "src/lex/selmaho/mod.rs": 1,
    "src/parse/cst/rules/mod.rs": 24, "src/parse/cst/rules/mekso.rs": 6, "src/parse/cst/rules/connectives.rs": 3,
    "src/parse/cst/rules/helpers.rs": 4, "src/parse/cst/rules/selmaho.rs": 3, "src/parse/tree_node.rs": 4, "src/parse/cst/error.rs": 2, "src/parse/cst/parse_trait.rs": 3,
    "src/span.rs": 5, "macros/src/derive_parse.rs": 5, "macros/src/derive_tree_node.rs": 4, "examples/main.rs": 4,
}
only = sys.argv[4:]
if only:
    SRC = {f: SRC.get(f, 1) for f in only}
ORDER = {
    "word": "C02 C07 C08 C05 C06 C04 C03 C01 C13 C09 C10 C11 C12 C22 C23 C25",
    "tree": "C14 C15 C18 C16 C17 C19 C20 C21 C22 C23 C25",
    "all": "C24 C02 C08 C14 C15 C05 C07 C16 C17 C18 C01 C03 C04 C06 C09 C10 C11 C12 C13 C19 C20 C21 C22 C23 C25",
}

def sh(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return None, ""

def setup():
    os.makedirs(W, exist_ok=True)
    here = os.path.dirname(os.path.abspath(__file__))
    subprocess.run(["bash", f"{here}/evalplants.sh", worker], check=True)

def items(text, i):
    """the list in brackets that starts at text[i] == '[' or '(' as (start, end) of items"""
    close = {"[": "]", "(": ")", "{": "}"}[text[i]]
    depth, out, start, k = 0, [], i + 1, i
    while k < len(text):
        c = text[k]
        if c in "\"'" and c == '"':
            k = text.index('"', k + 1)
        elif c in "[({":
            depth += 1
        elif c in "])}":
            depth -= 1
            if depth == 0:
                if text[start:k].strip():
                    out.append((start, k))
                return out, k
        elif c == "," and depth == 1:
            out.append((start, k)); start = k + 1
        k += 1
    return [], i

def code_only(text):
    """text with comments and tests blanked out (same length)"""
    text = re.sub(r"//[^\n]*", lambda m: " " * len(m.group()), text)
    m = re.search(r"#\[cfg\(test\)\]\s*mod", text)
    if m:
        text = text[:m.start()] + " " * (len(text) - m.start())
    text = re.sub(r"#\[test\]\nfn [^{]*\{.*?\n\}", lambda m: " " * len(m.group()), text, flags=re.S)
    return text

SWAPS = [
    (r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r"&&", "||"), (r"\|\|(?!\s*[{(])(?=[^|]*$)", "&&"),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"),
    (r"\.start\b", ".end"), (r"\.end\b", ".start"), (r"\.rev\(\)", ""), (r"trim_start", "trim_end"), (r"trim_end", "trim_start"), (r"\bmax", "min"), (r"\bmin", "max"),
    (r"many0", "many1"), (r"many1", "many0"), (r"#\[cut\]\s*", ""), (r"must_consume", ""), (r"#\[parse\(not = \"[^\"]*\"\)\]", ""), (r"#\[parse\(must_consume\)\]", ""),
    (r"#\[parse\(postcond = [^\]]*\)\]", ""), (r"repeat\(0", "repeat(1"), (r"repeat\(1", "repeat(0"), (r"repeat\(2", "repeat(1"), (r"\+ 1\b", ""), (r"- 1\b", ""), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"),
    (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"), (r"is_empty\(\)", "is_empty() == false"), (r"find_map", "filter_map"), (r"\.is_some_and\(", ".is_none_or("),
    (r"longest=>", ""), (r"Option<([A-Za-z0-9]+)<'arena>>", r"\1<'arena>"), (r"WithFree<'arena, ([A-Za-z0-9]+(?:<'arena>)?)>", r"\1"), (r"Frees<'arena>", "()"),
    (r"\bif (?!let)([^{;]+) \{", r"if !(\1) {"), (r"and_not\(", "and_peek("), (r"and_peek\(", "and_not("), (r"saturating_sub\(1\)", "saturating_sub(0)"), (r"split_at\(", "split_at(0 * "), (r"\.chain\(", ".zip("), (r"None", "Some(0)"), (r"&input\[", "&input[1 + "), (r"peekable\(\)", "skip(0).peekable()"), (r"or_else", "and_then"),
    (r"\bnucleus\b", "vowel"), (r"\bvowel\b", "nucleus"), (r"\bonset\b", "initial"), (r"\bconsonant\b", "syllabic"), (r"\binitial\b", "consonant"), (r"\beof\b", "null"), (r"\bnull\b", "eof"), (r"\bcluster\b", "initial_pair"), (r"\binitial_pair\b", "cluster"), (r"\bstressed\b", "onset"), (r"\bsyllable\b", "any_syllable"), (r"\bany_syllable\b", "syllable"),
]

def mutants(file, text):
    code = code_only(text)
    out = []
    # elements of lists: or![..], seq![..], one_of("..")
    for m in re.finditer(r"\b(or|seq)!\[(longest=>)?", code):
        lst, _ = items(code, m.end() - 1 if not m.group(2) else code.rindex("[", 0, m.end()))
        if m.group(2) and lst:
            lst[0] = (lst[0][0] + len("longest=>"), lst[0][1])
        if len(lst) < 2:
            continue
        for i, (a, b) in enumerate(lst):
            end = b + 1 if b < len(code) and code[b] == "," else b
            out.append(("drop element", text[:a] + text[end:]))
            out.append(("optional element", text[:a] + " opt(" + text[a:b].strip() + ")" + text[b:]))
        for (a, b), (c, d) in zip(lst, lst[1:]):
            out.append(("swap elements", text[:a] + text[c:d] + text[b:c] + text[a:b] + text[d:]))
    for m in re.finditer(r"\b(not|peek|opt)\(", code):
        lst, end = items(code, m.end() - 1)
        if lst:
            a, b = lst[0]
            inner = text[a:b]
            if m.group(1) == "opt":
                out.append(("not optional", text[:m.start()] + inner + text[end + 1:]))
            else:
                out.append(("no lookahead", text[:m.start()] + "null" + text[end + 1:]))
                other = "peek" if m.group(1) == "not" else "not"
                out.append(("lookahead turned", text[:m.start()] + other + text[m.end() - 1:]))
    for m in re.finditer(r"\.and_(not|peek)\([a-z_]+\)", code):
        out.append(("no and_*", text[:m.start()] + text[m.end():]))
    for m in re.finditer(r'one_of\("([^"]+)"\)', code):
        for k in range(len(m.group(1))):
            out.append(("drop letter", text[:m.start(1) + k] + text[m.start(1) + k + 1:]))
    for m in re.finditer(r"'([^'\\\n])'", code):
        out.append(("other letter", text[:m.start(1)] + random.choice("aeiouybcdfgjklmnprstvxzh',. ") + text[m.end(1):]))
    for pattern, new in SWAPS:
        for m in re.finditer(pattern, code):
            out.append((f"{pattern} -> {new}", text[:m.start()] + m.expand(new) + text[m.end():]))
    lines = text.split("\n")
    clines = code.split("\n")
    for i, l in enumerate(clines):
        s = l.strip()
        if not s:
            continue
        if s.endswith(";") and not s.startswith(("use ", "let ", "pub use", "pub mod", "mod ", "}")) and l.startswith("\t\t"):
            out.append(("drop statement", "\n".join(lines[:i] + lines[i + 1:])))
        if s.endswith(",") and l.startswith("\t"):
            out.append(("drop line", "\n".join(lines[:i] + lines[i + 1:])))
            j = i + 1
            while j < len(clines) and not clines[j].strip():
                j += 1
            if j < len(clines) and clines[j].strip().endswith(","):
                sw = lines[:]
                sw[i], sw[j] = sw[j], sw[i]
                out.append(("swap lines", "\n".join(sw)))
    # groups
    seen, uniq = set(), []
    for what, t in out:
        if t != text and t not in seen:
            seen.add(t)
            uniq.append((what, t))
    return uniq

def main():
    random.seed(seed)
    setup()
    pools = {}
    for f in SRC:
        pools[f] = mutants(f, open(f"{W}/repo/{f}").read())
        random.shuffle(pools[f])
    print({f: len(p) for f, p in pools.items()}, flush=True)
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=f"{W}/verif/target", RUST_BACKTRACE="0", CARGO_TERM_COLOR="never")
    stop = time.time() + seconds
    bin = f"{W}/verif/target/release/vharness"
    counts = {}
    while time.time() < stop and any(pools.values()):
        f = random.choices([f for f in SRC if pools[f]], [SRC[f] for f in SRC if pools[f]])[0]
        what, text = pools[f].pop()
        path = f"{W}/repo/{f}"
        subprocess.run(["git", "-C", f"{W}/repo", "checkout", "-q", "--", "."], check=True)
        open(path, "w").write(text)
        diff = subprocess.run(["git", "-C", f"{W}/repo", "diff", "-U1"], capture_output=True, text=True).stdout
        def note(kind, extra=""):
            counts[kind] = counts.get(kind, 0) + 1
            short = [l for l in diff.split("\n")[4:] if l[:1] in "+-"]
            print(f"{kind} {extra} | {f} | {what} | " + " / ".join(short)[:300].replace("\t", ""), flush=True)
        if not diff.strip():
            continue
        rc, out = sh("cargo build --release --offline --manifest-path harness/Cargo.toml", 400, cwd=f"{W}/verif", env=env)
        if rc != 0:
            counts["no build"] = counts.get("no build", 0) + 1
            continue
        order = ORDER["tree" if "parse/" in f or "macros" in f else "all" if "span" in f else "word"].split()
        if f == "examples/main.rs":
            order = ["C25"]
        caught = None
        if f == "examples/main.rs" :
            rc, _ = sh(f"cargo build --release --offline --locked --manifest-path {W}/repo/Cargo.toml --example main --target-dir {W}/verif/target/cli", 300, env=env)
            if rc != 0:
                continue
        for divide in (30, 1):
            for check in order:
                if check == "C25" and f != "examples/main.rs":
                    continue
                rc, out = sh(f"{bin} run {check} quick {seed % 1000 + 1} {W}/verif", 300 if divide > 1 else 900, env=dict(env, **({"VH_DIVIDE": str(divide)} if divide > 1 else {})), cwd=f"{W}/verif")
                if rc is None:
                    caught = f"{check} TIMEOUT"
                    break
                if rc != 0:
                    caught = f"{check}/{divide}" + ("" if f"VIOLATION property={check}" in out else f" rc={rc}")
                    break
            if caught:
                break
            if divide > 1:
                rc, out = sh(f"bash {W}/test.sh {W}/out.json", 900, cwd=f"{W}/repo", env=dict(os.environ))
                want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                try:
                    got = set(json.load(open(f"{W}/out.json")).get("passed", []))
                except Exception:
                    got = set()
                if any(t not in got for t in want):
                    caught = "tests"
                    break
        if caught:
            note("caught", caught)
        else:
            note("SURVIVES")
            with open(f"/tmp/survivors.{worker}", "a") as o:
                o.write(diff + "\n")
        subprocess.run(f"find /tmp -maxdepth 1 -name 'vh.*' -mmin +60 -exec rm -rf {{}} +", shell=True)
    print(counts, flush=True)

main()
