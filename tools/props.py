#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (run by hand; both files are committed)"""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": ["latex2json/" + f for f in files],
                    "mechanism": [{"name": n, "where": "latex2json/" + w} for n, w in mech],
                    "observe_at": observe or [], "hook_needed": None},
    })


TP, TB, TPRE = "parser/tex_parser.py", "structure/builder.py", "parser/tex_preprocessor.py"
H, PK, U = "parser/handlers/", "parser/packages/", "utils/tex_utils.py"
PARSE = "LatexParser.parse (token list)"
JSON = "TokenBuilder.build + model_dump (JSON output)"

prop("C01", "Balanced content extraction finds the matching delimiter",
     "Extracting the content of a braced or bracketed group returns exactly the text up to the delimiter that matches the opening one, counting nesting and ignoring escaped delimiters, together with the position right after it. When no matching delimiter exists the extraction says so and never reads past the end or returns a shorter piece. The same holds for sequences of groups and for begin/end pairs that nest under the same name.",
     ["inputs"], "all strings over braces, brackets, backslash and letters up to the stated length, all start positions",
     "Tests run a few dozen hand-written strings; nesting depth, escapes and positions combine freely in real sources.",
     [U], [("brace and begin/end matching", U)], ["latex2json.utils.tex_utils functions used by every handler"])

prop("C02", "Comment removal deletes exactly the comments",
     "Everything from an unescaped percent sign to the end of its line is ignored and everything else is kept; an escaped percent sign is content. Percent signs inside verbatim material, listings and URLs are content, not comments. Text on the following lines is never swallowed.",
     ["inputs"], "all placements of percent signs, backslashes, newlines and text within the stated lengths",
     "Tests cover a handful of comment placements; runs of backslashes, verbatim regions and line ends interact.",
     [U, TP], [("comment stripping", U)], [PARSE])

prop("C03", "Plain text survives parsing in order",
     "Ordinary text appears in the output once, unaltered and in source order, whatever constructs surround it: text before and after commands, groups, environments, math and footnotes is neither lost, duplicated nor moved. Escaped special characters come out as the characters themselves.",
     ["inputs"], "all texts over ordinary characters up to the stated length around a fixed set of constructs",
     "Tests compare fixed documents; a dropped or duplicated character next to a construct depends on the neighbouring characters.",
     [TP, H + "formatting.py"], [("main token loop", TP)], [PARSE, JSON])

prop("C04", "Macro arguments are substituted exactly",
     "A call of a user-defined macro yields its body with each parameter replaced by the corresponding argument, whatever text the arguments hold, and everything around the call is kept. Optional arguments use the given value or the default, missing arguments are empty, and delimited parameters match up to their delimiter. This holds for every defining command, in text and in math, with and without preprocessing.",
     ["inputs", "programs"], "all argument and body texts within the stated lengths, all parameter counts and positions up to nine",
     "Tests use a few macros with fixed arguments; parameter order, digits after parameters and argument text vary freely.",
     [H + "command_processor.py", H + "new_definition.py", U, TPRE], [("argument substitution", U), ("command registration", H + "command_processor.py")], [PARSE])

prop("C05", "A command name refers to the definition in force",
     "A user-defined command is replaced exactly where its full name is used, never where the name is only a prefix of another one, and by the most recent definition before that point. Redefinition, aliasing with let, early expansion with edef and providing commands only when absent behave as in TeX. Structural commands such as sections, captions and references keep their meaning even if a document redefines them.",
     ["programs", "inputs"], "all names and bodies within the stated lengths, all orders of two or three definitions",
     "Tests define one or two macros with fixed names; prefixes, redefinition orders and name characters are unbounded.",
     [H + "command_processor.py", H + "command_manager.py", H + "new_definition.py", TPRE],
     [("definition parsing", H + "new_definition.py"), ("command table", H + "command_processor.py")], [PARSE])

prop("C06", "Parsing terminates without an exception on every input",
     "Parsing any text returns a list of tokens: it never raises and never runs forever, also when braces, brackets, environments, math delimiters, conditionals or command arguments are missing, unbalanced or cut off. This includes endlessly recursive macros.",
     ["inputs"], "every known command and environment followed by every short tail over the structural characters",
     "Tests only parse well-formed input apart from a few cases; the malformed inputs are the combinations of every construct with every cut-off point.",
     [TP, H + "environment.py", H + "content_command.py"], [("main token loop", TP)], [PARSE])

prop("C07", "Every parse result builds into valid JSON output",
     "The output built from any parse result can be serialised to JSON and validates against the token models, and building never raises. Every token of the output carries a known type, and contents are text or lists of tokens as that type declares.",
     ["inputs"], "every construct with symbolic contents and every combination of nested constructs listed",
     "Tests build a few documents; which token can be nested in which is an open product.",
     [TB, "structure/token_factory.py", "structure/tokens/base.py"], [("token builder", TB), ("token registry", "structure/tokens/registry.py")], [JSON])

prop("C08", "Documents do not influence each other",
     "Parsing a document gives the same result in a fresh parser, in a parser that has been cleared after another document, and while other parsers are used in between. No definition, counter, label, colour, saved box or citation alias leaks from one document into another. Building output twice gives the same numbering both times and leaves the tokens passed in unchanged.",
     ["histories", "inputs"], "all ordered pairs of documents from a set that covers every kind of state, with symbolic names",
     "Tests create a fresh parser per case; leaks need a particular history of documents.",
     [TP, TB, H + "new_definition.py", PK + "boxes.py"], [("clear", TP), ("builder state", TB)], [PARSE, JSON])

prop("C09", "Section hierarchy and section numbers follow LaTeX",
     "Each part, section and paragraph contains exactly the content up to the next heading of the same or a higher level, in order. Numbered sections carry the hierarchical counters of their level, restarting below a new higher heading, while unnumbered ones carry none and do not count; parts count on their own and sections in the appendix are lettered.",
     ["inputs", "histories"], "all sequences of headings up to the stated length, starred or not, with and without appendix",
     "Tests check a few heading sequences; the number of sequences is exponential in their length.",
     [TB], [("section organisation", TB), ("section numbering", TB)], [JSON])

prop("C10", "Equations, floats and theorems are numbered like LaTeX",
     "Numbered display equations, figures, tables, algorithms and theorem-like environments carry consecutive numbers in document order, unnumbered variants carry none and do not count. Theorem-like environments share one counter that restarts at every numbered section and are numbered with the section's number in front. An equation environment carries one number; \\nonumber, \\notag and \\tag suppress it, in an environment of numbered rows only when every row has one of them.",
     ["inputs", "histories"], "all sequences of numbered and unnumbered objects up to the stated length, nested in sections",
     "Tests check a few sequences; interleavings of kinds, stars and sections are exponential.",
     [TB, H + "environment.py"], [("numbering", TB)], [JSON])

prop("C11", "Labels end up on the object they label",
     "A label is attached to the section, equation, environment, caption or list item it belongs to, with its exact name, and to nothing else. Several labels on one object are all kept in order. A label never appears as text.",
     ["inputs"], "all label names within the stated length over name characters, each kind of labelled object, with neighbours",
     "Tests use fixed names and single objects; attachment depends on what stands around the label.",
     [TP, H + "environment.py", H + "equation.py"], [("label handling", TP)], [PARSE])

prop("C12", "Environments end at their own end",
     "An environment contains exactly what stands between its begin and the matching end, also when environments of the same name are nested inside it or others interleave with it. Its optional and mandatory arguments, star and name are kept apart from its content. An environment without a matching end does not swallow or lose the text that follows.",
     ["inputs", "programs"], "all nestings of two or three environments from the list with symbolic content",
     "Tests nest one or two fixed environments.",
     [H + "environment.py", U], [("begin/end matching", U), ("environment arguments", H + "environment.py")], [PARSE])

prop("C13", "Table rows and cells keep their position and span",
     "A table has one output row per source row and each cell stands in its row at its position, with its text unaltered; escaped ampersands and separators inside groups or nested environments do not split cells. Cells spanning columns or rows keep their spans and their content. Rules and spacing commands do not add rows or cells; rows that hold nothing may be left out.",
     ["inputs"], "all grids up to the stated size with symbolic cell text and spans, all placements of rules",
     "Tests use fixed tables; cell text, empty cells and spans combine freely.",
     [H + "tabular.py"], [("row and cell splitting", H + "tabular.py")], [PARSE, JSON])

prop("C14", "Math content is kept, with inline and display told apart",
     "The body of each equation is kept as written, with user macros expanded, and the equation is marked as inline or display and numbered according to its delimiters or environment. Math delimiters are only recognised when they are not escaped. References, figures and text embedded in equations are kept.",
     ["inputs"], "all math bodies within the stated length over the math alphabet, every delimiter pair and equation environment",
     "Tests use fixed equations.",
     [H + "equation.py"], [("equation patterns", H + "equation.py")], [PARSE, JSON])

prop("C15", "Verbatim material is not interpreted",
     "The content of verbatim and listing environments and of inline verbatim is kept literally: commands, comments, math, braces and environment ends of other names inside it have no effect. Blank space at its two ends may be stripped. It ends exactly at its own delimiter, and the title given to a listing is kept.",
     ["inputs"], "all contents within the stated length over printable characters, all delimiters",
     "Tests use fixed code; the point of verbatim is arbitrary content.",
     [H + "code_block.py"], [("verbatim patterns", H + "code_block.py")], [PARSE])

prop("C16", "Conditionals select whole branches",
     "A conditional yields exactly one of its branches, complete and in order, and swallows nothing before or after its end; nested conditionals end at their own end. Conditions that are defined constants are decided as in TeX, and of those that cannot be decided the first branch is taken. Blank space at the ends of a branch may be stripped.",
     ["inputs", "programs"], "all nestings of conditionals up to the stated depth with symbolic branch texts",
     "Tests use a few fixed conditionals; nesting and missing else branches combine freely.",
     [H + "if_else_statements.py"], [("branch extraction", H + "if_else_statements.py")], [PARSE])

prop("C17", "Preprocessing does not change the document's meaning",
     "Parsing with preprocessing gives the same structure and text as without it, apart from white space and quotes: macros are expanded to the same text, and verbatim material, math, URLs and definitions come out unchanged, however many there are. No internal placeholder is ever visible in the output.",
     ["inputs", "programs"], "all documents from the construct list with symbolic content, more than ten protected regions",
     "Tests compare fixed outputs of the preprocessor; equivalence of two pipelines is a relation over all documents.",
     [TPRE, TP], [("preprocessing", TPRE)], [PARSE])

prop("C18", "Bibliography entries keep key, text and order",
     "Each bibliography entry of an embedded bibliography, a BibTeX source or an amsrefs database comes out once, in order, with its exact key and its fields or text, whatever braces, quotes and commas the values hold. An entry without an end does not swallow the entries after it when they can be told apart.",
     ["inputs"], "all keys and field values within the stated length, one to three entries, every delimiter style",
     "Tests use fixed bibliographies.",
     ["parser/bib/bib_parser.py", "parser/bib/bibtex_parser.py", "parser/bib/compiled_bibtex.py", "parser/bib/bibitem_parser.py", "parser/bib/bibdiv_parser.py"],
     [("entry parsing", "parser/bib/bibtex_parser.py")], ["BibParser.parse", PARSE])

prop("C19", "Included files are spliced in at the place of inclusion",
     "Including a file gives the same result as writing its content at that place, in the working folder of the main document, and definitions made there are in force afterwards. A missing file loses nothing but itself. The end of the document inside the main file stops output; text after it is ignored.",
     ["inputs", "configurations"], "all file contents within the stated length from the construct list, one or two levels of inclusion, present or missing files",
     "Tests include a few sample files.",
     [TP], [("file inclusion", TP)], [PARSE])

prop("C20", "Archives cannot write outside their folder and leave nothing behind",
     "Extracting an archive creates files only inside the extraction folder, whatever member names, links or types it holds, and extracts every regular member that lies inside. Temporary folders are removed when processing is cleaned up, and also when processing fails.",
     ["inputs", "fault_sequences"], "all member names up to the stated length over path characters, link targets and orders of two or three members",
     "Tests unpack well-behaved archives.",
     ["tex_file_extractor.py", "tex_reader.py"], [("safe extraction", "tex_file_extractor.py"), ("cleanup", "tex_reader.py")], ["files written"])

prop("C21", "Token models lose no field",
     "Turning a token description into a token model and dumping it again gives back every field the model declares with the same value, at every nesting level, and unknown types are reported rather than guessed. Dumped tokens can be turned into equal tokens again.",
     ["inputs"], "all token kinds with symbolic field values and nested contents",
     "Tests check a few tokens per class.",
     ["structure/token_factory.py", "structure/tokens/base.py", "structure/tokens/registry.py"], [("token factory", "structure/token_factory.py")], ["TokenFactory.create", JSON])

prop("C22", "Accents and symbol commands become the right characters",
     "Every accent command yields the accented letter it names, whatever form its argument has, and every text symbol command yields its character, without touching what follows; a blank after a symbol's name is kept. Longer command names that start like an accent or symbol command are not affected.",
     ["inputs"], "all accents with all letters, all argument forms, symbolic neighbours",
     "Tests check a few accents.",
     [H + "diacritics.py", "latex_maps/latex_unicode_converter.py"], [("accent conversion", H + "diacritics.py"), ("symbol map", "latex_maps/latex_unicode_converter.py")], [PARSE])

prop("C23", "Text styles apply to exactly their scope",
     "A style command applies to its whole argument and to nothing else, nested styles accumulate, and switches such as bold series or font sizes hold until the end of the enclosing group. Styles never change, drop or reorder the text.",
     ["inputs"], "all nestings of two styles with symbolic text, every style command",
     "Tests check single styles on fixed text.",
     [H + "text_formatting.py", H + "legacy_formatting.py", TB], [("style handling", H + "text_formatting.py"), ("legacy switches", H + "legacy_formatting.py")], [PARSE, JSON])

prop("C24", "Citations, references and links keep their targets",
     "For the citation, reference and link commands the parser knows (\\cite, \\citep, \\citet, \\cites, \\citeauthor, \\citeyear and the like, starred and capitalised, \\citetalias and \\citepalias; \\ref, \\eqref, \\autoref, \\pageref, \\cref, \\hyperref; \\url, \\path, \\doi, \\href; \\includegraphics, \\includepdf): each citation keeps all its keys in order and its notes, each reference its target names and each link its address and text, exactly as written but for outer blanks. What surrounds them is not affected.",
     ["inputs"], "all keys and targets within the stated length, one to three keys, every command of the families",
     "Tests use fixed keys.",
     [H + "content_command.py"], [("content commands", H + "content_command.py")], [PARSE, JSON])

prop("C25", "The main document is found and decoded",
     "The main TeX file chosen from a folder is one that holds a document class or the document start whenever such a file exists, independent of commented-out lines, and an explicit name takes precedence. Reading a file never fails because its encoding was guessed wrongly, and valid UTF-8 is read unchanged.",
     ["inputs", "configurations"], "all small folders of files from the list, symbolic content, every encoding guess",
     "Tests use sample projects.",
     ["tex_file_extractor.py", "utils/encoding.py"], [("main file detection", "tex_file_extractor.py"), ("decoding", "utils/encoding.py")], ["TexFileExtractor", "read_tex_file_content"])

prop("C26", "Unknown commands and environments are kept, not dropped",
     "A command the parser does not know comes out as a command token with its exact name (star included) and its first argument in braces as it stands; what follows comes out as for any text. An unknown environment comes out as an environment with its name (without the star) and its content. A name that merely begins like a known command or environment is unknown. The surrounding text is not affected.",
     ["inputs"], "all unknown names and every known name made longer, within the stated length, with and without an argument of symbolic text or of other constructs, and unknown environments with every content family",
     "Tests check one or two unknown commands.",
     [TP], [("unknown command handling", TP)], [PARSE])

prop("C27", "Lists keep their items in order and nested",
     "Each list has one item per item command at its own level, in order, with the item's content and its optional title, and items of nested lists belong to the nested list. The list type is kept.",
     ["inputs", "programs"], "all lists of up to three items with symbolic text and titles, nested two deep",
     "Tests use fixed lists.",
     [H + "item.py", H + "environment.py", TB], [("item parsing", H + "item.py")], [PARSE, JSON])

prop("C28", "Loops, keys and boxes leave exactly their own content",
     "A loop command is left out as a whole, list and body, and nothing besides it. Setting keys runs, in the order in which they are set, the code that the document defined for each key with the value given or else the default, and what that code or a macro with arguments redefines is in force from there on. A box command yields its content whatever its options are, apart from the words around it, and a saved or numbered box yields its content at every use until it is set anew or emptied by a TeX primitive.",
     ["inputs", "programs"], "loops, keys and boxes with all texts within the stated length in every form of their arguments, histories of box uses up to the stated number of steps",
     "Tests use one fixed example per command.",
     [H + "for_loop_statements.py", PK + "keyval.py", PK + "boxes.py", "latex2json/parser/tex_preprocessor.py"], [("loops", H + "for_loop_statements.py"), ("keys", PK + "keyval.py"), ("boxes", PK + "boxes.py")], [PARSE])

prop("C29", "User-defined environments and theorems behave as defined",
     "An environment defined by the document expands to its begin code, content and end code with its arguments filled in, also when nested in itself. A theorem-like environment defined by the document comes out under its display name with its complete content; where that is one of the usual theorem kinds it is numbered like them and keeps its title.",
     ["inputs", "programs"], "all names and codes within the stated length, up to two arguments, nested uses",
     "Tests define a few environments.",
     [H + "environment.py", H + "new_definition.py", TB], [("environment expansion", H + "environment.py")], [PARSE, JSON])

prop("C30", "Title, authors and abstract are captured completely",
     "The title, abstract, keywords and authors with their affiliations and addresses come out complete and in order, with authors separated where the document separates them. Metadata commands never swallow the text after them.",
     ["inputs"], "all names within the stated length, one to three authors, every separator",
     "Tests use fixed title pages.",
     [H + "author.py", H + "content_command.py"], [("author handling", H + "author.py")], [PARSE, JSON])

prop("C31", "Drawings and algorithms are kept as their source",
     "The content of tikzpicture, pgfpicture, picture and algorithmic comes out as one diagram or algorithmic token that holds its source as it stands (without comments and outer blanks), whatever commands, conditions, math or braces are in it, with and without preprocessing; only the document's own commands without arguments are expanded in it when preprocessing. Libraries and settings of the drawing packages leave no text, and the text around a drawing is kept.",
     ["inputs"], "all short contents over the structural characters and the usual drawing and algorithm code, with and without preprocessing",
     "Tests have one tikzpicture and one algorithm; every layout, condition or math construct of the parser may occur in the code.",
     [PK + "tikz_pgf.py", TPRE, H + "environment.py"], [("drawing environments", PK + "tikz_pgf.py"), ("raw environments", TPRE)], [PARSE, JSON])

prop("C32", "Floats keep their captions, graphics and parts",
     "Figures, tables, algorithms and their wrapped, rotated, starred and partial forms come out as one token of their kind with their captions, graphics, sub-floats and text in order; a caption or footnote holds its complete text parsed like any other, and never its short form or its number. Position, width and other arguments of floats, boxes and graphics never become text, and the file names of graphics come out exactly.",
     ["inputs"], "all captions, arguments and file names within the stated lengths, every float, caption command, graphics place and sub-float form",
     "Tests use a few floats with fixed arguments; spellings of arguments, kinds of content and nestings combine freely.",
     [H + "environment.py", H + "content_command.py", H + "text_formatting.py"],
     [("environment arguments", H + "environment.py"), ("captions, notes and graphics", H + "content_command.py"), ("sub-captions", H + "text_formatting.py")], [PARSE, JSON])

prop("C33", "The result holds the built document and its colors",
     "Processing a file or folder returns exactly the tokens that are built from it, and saving the result writes one UTF-8 JSON object with those tokens and the color map and nothing else. The color map holds each color the document or its packages define, with its model and value, as last defined in the order of the document wherever the definition stands (also in macros, groups, branches and environments), and none from comments, verbatim material, math or branches not taken. Color definitions leave no text.",
     ["inputs", "programs"], "all names, models and values within the stated lengths, all orders of definitions, all places in a document",
     "Tests check one color definition and one JSON file; orders of definitions and the places they stand in are unbounded.",
     ["tex_reader.py", H + "new_definition.py", TP, TPRE], [("result and JSON", "tex_reader.py"), ("color definitions", H + "new_definition.py")],
     ["TexReader.process and save_to_json (result file)", "LatexParser.get_colors"])

prop("C34", "The preamble holds what the body needs",
     "LatexPreamble.get_preamble returns the definitions, packages, colors, flags and conditional definitions before the document, in order and as they stand, so that a body read after it alone is read as in the whole document. Nothing of the class, the body, comments or other commands' text is in it, and taking the preamble of a preamble changes nothing.",
     ["inputs", "programs"], "all documents of up to three preamble parts out of every kind of definition, names and bodies within the stated lengths",
     "Tests take the preamble of one document; kinds and orders of definitions combine freely.",
     ["parser/tex_preamble.py"], [("LatexPreamble.get_preamble", "parser/tex_preamble.py")], ["LatexPreamble.get_preamble", PARSE])

prop("C35", "Layout and setup commands leave no text and take none",
     "The spacing, page breaking, rule, length, counter, style and setup commands that the parser handles leave none of their arguments in the text (only blank space or a line break), however these are spelled: with braces in braces, optional arguments, assignments with or without an equal sign, signs, units, stretch or other lengths. They take nothing that follows them, and the text around is read as if they were not there, wherever they stand and with or without preprocessing. A hyphenation point leaves its word whole and a protected command is read like the command alone. Verbatim material and drawings keep them all.",
     ["inputs"], "all arguments, lengths and numbers within the stated lengths, some 180 commands and registers, every place in a document",
     "Tests use one or two spellings of some of the commands; registers, spellings, places and following text combine freely.",
     [H + "formatting.py", "parser/patterns.py", H + "new_definition.py", PK + "titlesec.py", TP],
     [("layout commands", H + "formatting.py"), ("protected commands", "parser/patterns.py"), ("definitions", H + "new_definition.py")], [PARSE, JSON])

LEVEL_NOTE = ("Every path of the real functions through the stated bounds is executed symbolically from the source as it is in /repo "
              "and each assertion is discharged by z3 over all values of the path; counterexamples are replayed on the untouched code. "
              "Trusted: the symtex engine (string, regex and container models, cross-checked by native replay of sampled witnesses), z3, "
              "CPython's concrete builtins. Nothing is claimed outside the bounds listed in the evidence file.")
NA = {}
NOT_BUILT = "no harness registered for it yet"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in NA:
            na.append({"property": i, "reason": NA[i]})
        elif os.path.exists(os.path.join(HERE, "harness", i + ".py")):
            checks.append({
                "property": i, "quick_cmd": "./check.sh " + i,
                "thorough_cmd": "./check.sh %s --tier thorough" % i,
                "technique": "symbolic execution of the real Python source, z3 decides every path and assertion (symtex)",
                "level": "model_checking", "level_note": LEVEL_NOTE,
            })
        else:
            na.append({"property": i, "reason": NOT_BUILT})
    json.dump({
        "version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
        "notes": "No hooks in /repo. Engine in symtex/, harnesses in harness/<ID>.py, see DESIGN.md.",
    }, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed", [x["property"] for x in na], "not")


main()
