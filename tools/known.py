#!/usr/bin/env python3
"""Rewrites the 'known' entries of C01-C05 in known_findings.json from signature lists (--sigs) of survey runs: known.py FILES...
Run by hand after a survey whose failures were analysed (DESIGN.md, known findings); never run by a check."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = {
 "gap": "the lexer emits no token for some characters (an unknown character is skipped, or a token is pushed from a later start)",
 "tail": "the lexer stops without a token for the rest of the text",
 "overlap": "the lexer emits a token that starts before the end of the one before it",
 "eof": "the lexer's end-of-stream token is not at the end of the text",
 "missing": "the parser calls ParserState::advance where bump was meant, so tokens it passes over are not in the tree",
 "lex": "the lexer recognizes a keyword only where it lies in one chunk of the source",
 "tokens": "the lexer recognizes a keyword only where it lies in one chunk of the source, so tokens after an edit of the rope differ from fresh ones",
 "tree": "the tokens kept on relexing differ from fresh ones (the lexer's keywords depend on the chunks of the source), so the tree does too",
 "diagnostics-untiled": "on a text whose tokens do not tile it (C01), reuse places nodes by length, and the diagnostics differ from a fresh parse",
}
S = {}
for f in sys.argv[1:]:
    p = re.match(r"(C\d\d)", os.path.basename(f)).group(1)
    for e in json.load(open(f)):
        k = (p, e["sig"])
        if k not in S or len(e["desc"] or "x" * 999) < len(S[k][0] or "x" * 999): S[k] = (e["desc"], e["msg"])
S.setdefault(("C04", "oak-msil/tree"), ('"" edit [(0, 0, "object")]', ""))
S.setdefault(("C04", "oak-msil/tokens"), ('"" edit [(0, 0, "object")]', ""))
S.setdefault(("C04", "oak-nim/tokens"), ('";" edit [(1, 1, "of")]', ""))
S.setdefault(("C04", "oak-nim/tree"), ('";" edit [(1, 1, "of")]', ""))
S.setdefault(("C04", "oak-rbq/diagnostics-untiled"), ('"class|" edit [(5, 6, "")]', ""))
for (p, s), v in list(S.items()):
    if p == "C01" and s.split("/")[1] in ("gap", "tail"):
        other = s.replace("/gap", "/tail") if s.endswith("gap") else s.replace("/tail", "/gap")
        S.setdefault((p, other), v)
    # a budget or panic shows under C01 too where lexing itself fails
    if "/lex panic@" in s:
        for q in ("C01", "C05"): S.setdefault((q, s), v)
out = []
for (p, s), (desc, msg) in sorted(S.items()):
    lang, _, kind = s.partition("/")
    if "step budget" in s: what = f"{lang}: {kind.split()[0]} does not end on some texts"
    elif "panic@" in s: what = f"{lang}: {kind.split()[0]} panics: {s.split(': ', 1)[1]}"
    elif (p, s) == ("C04", "oak-python/tree"): what = "oak-python: the parser looks past white space for an operator although the language does not declare it ignored, so a node that ends before it is reused when an operator is inserted after the white space"
    else: what = f"{lang}: {W[kind]}"
    if desc: what += ", e.g. " + (desc if len(desc) <= 90 else desc[:90] + "…")
    out.append({"property": p, "status": "known", "sig": s, "what": what.replace("\n", " ")})
p = root + "/known_findings.json"
keep = [e for e in json.load(open(p)) if not (e["status"] == "known" and e["property"] in ("C01", "C02", "C03", "C04", "C05"))]
json.dump(out + keep, open(p, "w"))
print(len(out), "known")
