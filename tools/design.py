#!/usr/bin/env python3
"""writes DESIGN.md from tools/design_head.md, the notes below, the bounds in harness/*.py,
known_findings.json and tools/seeded.json"""
import ast, json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = lambda *a: os.path.join(HERE, *a)
NOTES = {
    "C01": ("the extraction functions of utils/tex_utils are called directly on symbolic text over braces, brackets, backslash and letters", "a nesting counter written in the harness, which scans the same symbolic text once and says where the matching delimiter is, or that there is none"),
    "C02": ("symbolic lines around per cent signs through strip_latex_comments and through the whole parser", "a scanner that marks each per cent sign as escaped, in verbatim material, or a comment start"),
    "C03": ("symbolic words placed before, between and after every construct, whole parser and builder", "the words in source order (the concatenation of all text of the output), and the parse of the same source with the surroundings left out"),
    "C04": ("symbolic bodies, arguments, parameter texts and call forms through the whole parser, plain and preprocessed, text and math", "substitution written in the harness; or the parse of the body with the arguments written out"),
    "C05": ("symbolic macro names and orders of definitions and uses", "a dictionary of the definitions in force, walked in reading order"),
    "C06": ("every known command and environment followed by every short tail over the structural characters; every prefix of nested constructs; mutually recursive macros", "no exception, a list of dicts, within a budget of ticks (calls, loop turns, regex steps) far above what any input of that length needs"),
    "C07": ("tokens of every construct nested in every other, with symbolic contents, through TokenBuilder and model_dump", "an own checker of the JSON shape (hlib/jsonok.py) and json.dumps/model_validate round trips"),
    "C08": ("two documents made of symbolic constructs, parsed in one parser after clear(), in fresh ones and interleaved; module-level state is compared before and after", "the result of the second document alone"),
    "C09": ("all sequences of headings of all levels with appendix and bibliography at any place", "an outline written from LaTeX's rules (class Outline)"),
    "C10": ("all sequences and nestings of numbered and unnumbered objects", "counters written from LaTeX's rules (class Counters)"),
    "C11": ("labels with symbolic names at every position in and around the objects", "the object that LaTeX's \\@currentlabel would refer to"),
    "C12": ("environments of every kind and of symbolic names, nested and interleaved, arguments symbolic", "a stack of open environments; the text between begin and end"),
    "C13": ("tables with symbolic cells, separators, spans, rules, nested material", "rows and cells as the harness wrote them"),
    "C14": ("all delimiters and environments with symbolic bodies, escapes before them, macros and embedded commands in them", "the body as written, with macros substituted by the harness"),
    "C15": ("symbolic bodies over %, \\, {, }, $, & in every verbatim form, in commands, macros and environments, plain and preprocessed", "the body itself"),
    "C16": ("conditionals of every kind nested in each other, in macros, in environments, in files and packages", "a small evaluator of the conditions on constants, first branch otherwise"),
    "C17": ("a document of symbolic constructs parsed with and without preprocessing", "each is the oracle of the other, up to white space and quotes; and the text expected of both"),
    "C18": ("bibliographies with symbolic keys, values, braces and separators in all four formats", "the entries as the harness wrote them"),
    "C19": ("folders with symbolic file contents and inclusion commands, one or two levels deep, missing files, packages and classes", "the parse of one file with the contents written in place"),
    "C20": ("archives with symbolic member names, link targets and types on a virtual file system (hlib/vfs.py) whose tar and zip extraction follows CPython's; real archives of every format", "no path outside the extraction folder is written, every regular member inside is there with its content, no folder is left"),
    "C21": ("token descriptions of every type with symbolic fields, nested", "the description itself"),
    "C22": ("every accent with every letter and argument form, every symbol command, followed by symbolic text", "unicodedata (composition of the combining mark), the repository's own table of names for symbols cross-checked by hand-written ones"),
    "C23": ("style commands and switches nested, with symbolic text inside and after", "a scope stack of styles"),
    "C24": ("every citation, reference and link command with symbolic keys, notes, targets and text around", "the keys, notes and targets as written"),
    "C25": ("folders with symbolic files, in any listing order; symbolic bytes through read_file with an arbitrary guess of the encoding in place of chardet", "a codec model (hlib/codec.py) for UTF-8, Latin-1, cp1252, UTF-16 and UTF-7; a scanner for commented-out marks"),
    "C26": ("symbolic command and environment names, known names lengthened by symbolic letters", "the source of the command as written"),
    "C27": ("lists of all kinds with symbolic items and titles, nested three deep", "the items as written"),
    "C28": ("loops, key-value definitions and settings, boxes with symbolic options and content", "the content as written; a dictionary of the keys in force"),
    "C29": ("environments and theorems defined with symbolic names, codes and arguments", "begin code, content and end code with the arguments substituted by the harness"),
    "C30": ("front matter with symbolic names, separators and addresses in several conventions", "the lists as written"),
    "C31": ("drawings and algorithms with symbolic source, alone and among code that means something else outside of them", "the source as written, and the document's own commands in it replaced"),
    "C32": ("floats, their arguments, captions, graphics and parts in every spelling around symbolic text and names", "the tokens the pieces of the float are written from; for contents the parse of the content on its own"),
    "C33": ("definitions of colors in every spelling, place and order; documents read, saved and read back on a virtual file system", "a table of colors updated in the order of the document; the tokens of a separate parser and builder"),
    "C34": ("documents of preamble parts of every kind, and bodies that use what they define", "the parts in order as they were written; the tokens of the body in the whole document"),
    "C35": ("every layout and setup command with symbolic arguments, in every place, and what stands after it; words with hyphenation points; protected commands", "the text around; the tokens of the same document without the command"),
}


def harnesses(pid):
    t = ast.parse(open(p("harness", pid + ".py")).read())
    consts = {}
    for n in t.body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "harness":
                    k = {x.arg: x.value for x in d.keywords}
                    b = k.get("bounds")
                    if isinstance(b, ast.BinOp):
                        b = b.left
                    tiers = k.get("tiers")
                    thorough_only = tiers is not None and "quick" not in ast.literal_eval(tiers)
                    ex = k.get("excludes")
                    yield n.name, ast.literal_eval(b).replace("%d", "N"), thorough_only, ast.unparse(ex) if ex else ""


props = [json.loads(l) for l in open(p("properties.jsonl"))]
out = [open(p("tools", "design_head.md")).read().rstrip() + "\n"]
out.append("## 3. The properties, one by one\n")
out.append("Cost is that of the quick tier on 8 idle cores. *(t)* marks harnesses of the thorough tier only. N stands for a number that the harness computes from its own tables.\n")
times = json.load(open(p("tools", "times.json")))
for q in props:
    how, oracle = NOTES[q["id"]]
    out.append("### %s %s\n" % (q["id"], q["title"]))
    out.append("*Decided by* symbolic execution of %s. *Anchors:* %s. *Input:* %s. *Oracle:* %s. *Cost:* about %s s." % ("the real parser and builder" if q["id"] not in ("C01", "C20", "C21", "C25") else "the real functions", ", ".join(q["anchors"]["files"]), how, oracle, times.get(q["id"], "?")))
    out.append("*Beyond tests:* " + q["why_tests_cant"] + "\n")
    for name, b, t, ex in harnesses(q["id"]):
        out.append("- `%s`%s: %s%s" % (name, " *(t)*" if t else "", b, " Left out: %s." % ex.strip("'\"") if ex else ""))
    out.append("")
out.append(open(p("tools", "design_tail.md")).read().rstrip() + "\n")
k = json.load(open(p("known_findings.json")))
items = k["findings"]
out.append("## 6. Defects found in the code\n")
fixed = [x for x in items if x.get("status") == "fixed"]
out.append("%d genuine defects were found by these checks (or while a check was being made to state what the code should do) and repaired, each in a `fix:` commit of its own; known_findings.json lists them as `fixed` entries, which suppress nothing. By property: %s.\n" % (len(fixed), ", ".join("%s %d" % (i, sum(x["property"] == i for x in fixed)) for i in sorted({x["property"] for x in fixed}))))
for x in items:
    if x.get("status") != "fixed":
        out.append("- %s (%s, recorded and not repaired): %s" % (x.get("id"), x["property"], x["what"]))
out.append("\n## 7. Planted bugs\n")
seeds = json.load(open(p("tools", "seeded.json")))
out.append("Kept in seeded/; each was written from the property's text and the code. The last column says which harness reports it, and what had to be strengthened first where it was missed.\n")
out.append("| id | property | change | reported by |\n|---|---|---|---|")
for s in seeds:
    out.append("| %s | %s | %s | %s |" % (s["id"], s["property"], s["what"], s["by"]))
out.append("")
out.append(open(p("tools", "design_end.md")).read().rstrip() + "\n")
open(p("DESIGN.md"), "w").write("\n".join(out))
