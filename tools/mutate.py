#!/usr/bin/env python3
"""Mutation campaign: make small changes to venial, keep those that compile and pass the tests, and run the checks on them.

usage: mutate.py OUTDIR [--workers N] [--cases N] [--only REGEX] [--list]
Everything happens in copies under OUTDIR. Not a check; run by hand.
"""
import argparse, json, os, pathlib, re, shutil, subprocess, sys, threading, queue, hashlib

ap = argparse.ArgumentParser()
ap.add_argument("out")
ap.add_argument("--workers", type=int, default=8)
ap.add_argument("--cases", type=int, default=2000)
ap.add_argument("--only", default="")
ap.add_argument("--list", action="store_true")
ap.add_argument("--start", type=int, default=0)
a = ap.parse_args()
out = pathlib.Path(a.out)
verif = pathlib.Path(__file__).resolve().parent.parent
FILES = ["parse.rs", "parse_type.rs", "parse_fn.rs", "parse_impl.rs", "parse_mod.rs", "parse_extern.rs",
         "parse_utils.rs", "types.rs", "types_edition.rs", "punctuated.rs", "error.rs"]

def line_mutants(lines, i):
    """Yield (name, replacement lines for line i)."""
    l = lines[i]
    s = l.strip()
    if not s or s.startswith("//") or s.startswith("#[") or s.startswith("use "):
        return
    code = l.split("//")[0]
    def sub(name, pat, rep, count=0):
        for m in re.finditer(pat, code):
            new = code[:m.start()] + m.expand(rep) + code[m.end():]
            yield (name, [new])
    yield from sub("eq", r" == ", " != ")
    yield from sub("ne", r" != ", " == ")
    yield from sub("and", r" && ", " || ")
    yield from sub("or", r" \|\| ", " && ")
    yield from sub("lt", r" < ", " <= ")
    yield from sub("le", r" <= ", " < ")
    yield from sub("gt", r" > ", " >= ")
    yield from sub("ge", r" >= ", " > ")
    yield from sub("plus", r"\+ 1\b", "+ 0")
    yield from sub("minus", r"- 1\b", "- 0")
    yield from sub("pluseq", r"\+= 1\b", "+= 0")
    yield from sub("minuseq", r"-= 1\b", "-= 0")
    yield from sub("zero", r"\b0\b", "1")
    yield from sub("one", r"\b1\b", "0")
    yield from sub("true", r"\btrue\b", "false")
    yield from sub("false", r"\bfalse\b", "true")
    yield from sub("joint", r"Spacing::Joint", "Spacing::Alone")
    yield from sub("alone", r"Spacing::Alone", "Spacing::Joint")
    yield from sub("not", r"(?<=[ (])!(?=[a-z(])", "")
    yield from sub("negif", r"\bif (?!let\b)(.+) \{$", r"if !(\1) {")
    yield from sub("iftrue", r"\bif (?!let\b)(.+) \{$", r"if true || (\1) {")
    yield from sub("iffalse", r"\bif (?!let\b)(.+) \{$", r"if false && (\1) {")
    yield from sub("guardtrue", r"\bif (?!let\b)([^{]+) =>", r"=>")
    yield from sub("none", r"\bSome\((?!\()([a-z_][a-z_.()]*)\)(?=[,;)]| *$)", "None")
    yield from sub("is_some", r"\.is_some\(\)", ".is_none()")
    yield from sub("is_none", r"\.is_none\(\)", ".is_some()")
    yield from sub("unwrapordef", r"\.take\(\)", ".clone()")
    yield from sub("delim", r"Delimiter::(Parenthesis|Brace|Bracket)\b", "Delimiter::None")
    yield from sub("paren2brace", r"Delimiter::Parenthesis", "Delimiter::Brace")
    yield from sub("brace2bracket", r"Delimiter::Brace\b", "Delimiter::Bracket")
    yield from sub("char", r"'(.)'(?=[,);| ])", "'\u00a4'")
    yield from sub("vecnew", r": ([a-z_]*attributes),", r": Vec::new(),")
    yield from sub("shorthandattr", r"^( *)([a-z_]*attributes),$", r"\1\2: Vec::new(),")
    yield from sub("shorthandopt", r"^( *)([a-z_]+),$", r"\1\2: None,")
    yield from sub("fieldnone", r"^( *)([a-z_]+): ([a-z_.()]+),$", r"\1\2: None,")
    yield from sub("break", r"\bbreak;", "continue;")
    yield from sub("continue", r"\bcontinue;", "break;")
    yield from sub("peeknext", r"\.peek\(\)", ".clone().nth(1).as_ref()")
    yield from sub("skip", r"\.iter\(\)", ".iter().skip(1)")
    yield from sub("rev", r"\.iter\(\)", ".iter().rev()")
    yield from sub("revitems", r"\.items\(\)", ".items().collect::<Vec<_>>().into_iter().rev()")
    yield from sub("callsite", r"\b([a-z_]+)\.span\(\)", "Span::call_site()")
    # string literals
    for m in re.finditer(r'"([a-z_]+)"', code):
        yield ("str", [code[:m.start()] + '"zz_never"' + code[m.end():]])
    # delete a statement
    if s.endswith(";") and not s.startswith(("let ", "return", "}", "break", "continue", "pub ", "mod ")):
        if s.count("(") == s.count(")") and s.count("{") == s.count("}"):
            yield ("del", [""])
    # delete a one-line match arm
    if re.match(r"^ *[A-Z_a-z:(].* => .*,$", code):
        yield ("delarm", [""])
    # swap with next statement
    if s.endswith(";") and i + 1 < len(lines) and lines[i + 1].strip().endswith(";") and not s.startswith("let"):
        if len(l) - len(l.lstrip()) == len(lines[i + 1]) - len(lines[i + 1].lstrip()):
            yield ("swap", None)

jobs = []
ORIG = {f: pathlib.Path("/repo/src", f).read_text() for f in FILES}
for f in FILES:
    src = ORIG[f].split("\n")
    for i in range(len(src)):
        seen = set()
        for name, new in line_mutants(src, i):
            if new is None:
                text = src[:i] + [src[i + 1], src[i]] + src[i + 2:]
                shown = f"{src[i+1].strip()} <-> {src[i].strip()}"
            else:
                text = src[:i] + new + src[i + 1:]
                shown = new[0].strip()
            t = "\n".join(text)
            h = hashlib.sha256(t.encode()).hexdigest()
            if h in seen or t == "\n".join(src):
                continue
            seen.add(h)
            jobs.append(dict(file=f, line=i + 1, op=name, old=src[i].strip(), new=shown, text=t))
if a.only:
    jobs = [j for j in jobs if re.search(a.only, f"{j['file']}:{j['line']}:{j['op']}")]
jobs = jobs[a.start:]
print(len(jobs), "mutants", flush=True)
if a.list:
    for j in jobs:
        print(f"{j['file']}:{j['line']} {j['op']}: {j['new']}")
    sys.exit()

PROPS = [json.loads(l)["id"] for l in open(verif / "properties.jsonl")]
out.mkdir(parents=True, exist_ok=True)
q = queue.Queue()
for n, j in enumerate(jobs):
    j["n"] = n + a.start
    q.put(j)
lock = threading.Lock()
results = open(out / "results.jsonl", "a")

def sh(cmd, cwd, timeout, env=None):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", **(env or {}))
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -1, "timeout"

def worker(w):
    d = out / f"w{w}"
    if d.exists():
        shutil.rmtree(d)
    d.mkdir()
    subprocess.run(["cp", "-a", "/repo", str(d / "repo")], check=True)
    (d / "verif").mkdir()
    shutil.copytree(verif / "harness", d / "verif" / "harness", ignore=shutil.ignore_patterns("target"))
    shutil.copy(verif / "known_findings.txt", d / "verif")
    c = d / "verif/harness/Cargo.toml"
    c.write_text(c.read_text().replace('"/repo"', f'"{d}/repo"').replace("opt-level = 2", "opt-level = 1"))
    while True:
        try:
            j = q.get_nowait()
        except queue.Empty:
            break
        r = {k: j[k] for k in ("n", "file", "line", "op", "old", "new")}
        for n in FILES:
            if (d / "repo/src" / n).read_text() != ORIG[n]:
                (d / "repo/src" / n).write_text(ORIG[n])
        f = d / "repo/src" / j["file"]
        orig = ORIG[j["file"]]
        f.write_text(j["text"])
        try:
            rc, o = sh(["cargo", "test", "--offline", "--lib", "--", "--test-threads", "2"], d / "repo", 120, {"INSTA_UPDATE": "no"})
            if rc == 0:
                rc, o = sh(["cargo", "test", "--offline", "--doc", "--", "--test-threads", "2"], d / "repo", 180)
            if rc != 0:
                r["tests"] = "nobuild" if "could not compile" in o and "error" in o and "test result" not in o else "killed"
            else:
                r["tests"] = "pass"
                rc, o = sh(["cargo", "build", "--release", "--offline", "-j", "2"], d / "verif/harness", 300)
                if rc != 0:
                    r["checks"] = "harness doesn't build"
                else:
                    r["checks"] = {}
                    for p in PROPS:
                        rc, o = sh([str(d / "verif/harness/target/release/vpbt"), "--prop", p, "--verif", str(d / "verif"),
                                    "--cases", str(a.cases), "--threads", "1"], d, 75, {"VPBT_SHRINK_S": "0", "VERIF_SEED": "1", "VERIF_TIER": "quick"})
                        if rc != 0:
                            r["checks"][p] = rc
        finally:
            f.write_text(orig)
        with lock:
            results.write(json.dumps(r, ensure_ascii=False) + "\n")
            results.flush()
    shutil.rmtree(d)

ts = [threading.Thread(target=worker, args=(w,)) for w in range(a.workers)]
[t.start() for t in ts]
[t.join() for t in ts]
