"""Writes properties.jsonl and MANIFEST.json: `python3 tools/properties.py`"""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

F = "markflow/formatters/"
D = "markflow/detectors/"
ALL = [
    "markflow/reformat_markdown.py", "markflow/parser.py", "markflow/formatters",
    "markflow/detectors", "markflow/_utils/textwrap.py",
]


def P(id, title, statement, text, why, files, mechanism, over=("inputs",), technique=None,
      note=None, **kw):
    return dict(
        id=id, title=title, statement=statement, over=list(over), text=text, why=why,
        files=files, mechanism=mechanism, technique=technique, note=note, extra=kw,
    )


DOC = (
    "every document of the supported sections (paragraphs, ATX and setext headings, "
    "thematic breaks, fenced and indented code, block quotes, bullet and ordered lists, "
    "tables, link reference definitions), however it is spelled, and every line length"
)
ANY = "every text (not just sensible Markdown) and every line length"
SAMPLES = (
    "The tests compare a few dozen fixed texts with fixed results at one or two line "
    "lengths; "
)

PROPERTIES = [
    P("C01", "Formatting is idempotent and supported documents can be formatted",
      "Formatting text that has been formatted with the same line length returns it "
      "unchanged. Every document made of supported sections can be formatted, without the "
      "tool reporting that its own result would be formatted differently.",
      f"{DOC}; and {ANY} that can be formatted",
      SAMPLES + "they check that results are stable for those only, and the tool's own "
      "second pass only turns instability into an error.",
      ALL, [("second pass", "reformat_markdown_text in markflow/reformat_markdown.py")],
      technique="property-based testing: idempotence law over generated documents and "
                "arbitrary text",
      note="Sampled. Text that isn't made of supported sections may be refused, but if it's "
           "formatted it has to be a fixed point."),
    P("C02", "Formatting doesn't change what a document means",
      "A formatted document is rendered by a CommonMark renderer (with the table extension) "
      "to the same HTML as the original. The only differences allowed are white space that "
      "isn't rendered, the padding of inline code and neighbouring lists of one type.",
      f"{DOC}, as long as CommonMark and MarkFlow read it the same way",
      SAMPLES + "none of them renders anything, so a wrong expectation goes unnoticed.",
      ALL, [("sections", "parse_markdown in markflow/parser.py"),
            ("wrapping", "wrap in markflow/_utils/textwrap.py")],
      technique="property-based testing: differential against markdown-it-py before and "
                "after formatting",
      note="Sampled. Trusts markdown-it-py. Constructs that CommonMark and MarkFlow are known "
           "to read differently aren't generated (known-findings.txt and DESIGN.md)."),
    P("C03", "No text is lost, duplicated, changed or reordered",
      "All characters of a text other than white space and the markup that formatting "
      "normalizes (markers, numbers, underlining, dividers, fences) are in the result, in "
      "the same order and the same number. Words, links, code and lines of code blocks are "
      "never split.",
      f"{ANY}; splitting is checked for documents of supported sections",
      SAMPLES + "losing text needs combinations (an unusual link next to another, the end "
      "of a file, a certain line length) that aren't among them.",
      ALL, [("content of sections", "reformatted() in markflow/formatters/*.py"),
            ("pieces of text", "markflow/_utils/textwrap.py")],
      technique="property-based testing: conservation of content over documents and "
                "arbitrary text",
      note="Sampled. Characters of markup (digits, white space and *+-=_|:>#.~`) are only "
           "compared as parts of words of generated documents."),
    P("C04", "Any text is formatted or rejected with a documented error",
      "Formatting any text finishes and either returns text or raises one of the two "
      "documented exceptions. The one for malformed Markdown is only raised if there is a "
      "table.",
      "every string of up to some thousand characters, with any Unicode and control "
      "characters, nested up to 60 levels deep, and every line length",
      SAMPLES + "crashes, hangs and wrong rejections are about texts nobody thought of.",
      ALL, [("exceptions", "markflow/exceptions.py"),
            ("detection of every line", "markflow/detectors/*.py")],
      technique="fuzzing with grammar-based, mutational and random text",
      note="Sampled. A hang is 10 s of CPU time for one text (normal: milliseconds)."),
    P("C05", "Results have clean white space and end with exactly one newline",
      "The result only has \\n newlines, ends with exactly one, and its lines have no "
      "trailing white space (blank lines have none at all, except for the markers of "
      "quotes). The only exception are the two spaces of explicit line breaks, of which "
      "there are as many as before.",
      f"{DOC}, with \\n, \\r\\n or \\r newlines; and {ANY}",
      SAMPLES + "white space depends on every section, nesting and newline combination.",
      ALL, [("trailing white space", "reformatted() in markflow/formatters/*.py"),
            ("end of the text", "reformat_markdown_text in markflow/reformat_markdown.py")],
      technique="property-based testing: invariant of the result",
      note="Sampled."),
    P("C06", "Lines of text are never longer than the line length if avoidable",
      "No line of a paragraph, setext heading or title of a link reference definition is "
      "longer than the line length, including the markers and indentation of the lists and "
      "quotes it is in, unless it consists of one piece of text that can't be split. "
      "Thematic breaks are exactly as long as the space there is (at least 3, and 3 without "
      "a limit) and underlining of headings is as long as their longest line.",
      DOC,
      SAMPLES + "the law is about every line length and every nesting.",
      [F + "paragraph.py", F + "setext_heading.py", F + "thematic_break.py",
       F + "lists.py", F + "block_quote.py", "markflow/_utils"],
      [("wrapping", "wrap in markflow/_utils/textwrap.py"),
       ("nesting", "get_nested_width in markflow/_utils/_utils.py")],
      technique="property-based testing: length law on results read back into pieces",
      note="Sampled. Pieces that are never split are defined by the generator (DESIGN.md)."),
    P("C07", "Lines of text are filled as far as possible",
      "Text of a paragraph, setext heading or title is only wrapped where the next piece "
      "that can't be split doesn't fit on the line anymore, or at an explicit line break. "
      "This holds inside of lists and quotes, for the space they leave.",
      DOC,
      SAMPLES + "wrapping too early is only visible for line lengths at the boundary.",
      [F + "paragraph.py", F + "setext_heading.py", F + "link_reference_definition.py",
       F + "lists.py", F + "block_quote.py", "markflow/_utils"],
      [("wrapping", "join and wrap in markflow/_utils/textwrap.py"),
       ("nesting", "get_nested_width in markflow/_utils/_utils.py")],
      technique="property-based testing: fill law on results read back into pieces",
      note="Sampled. Pieces that are never split are defined by the generator (DESIGN.md)."),
    P("C08", "How a document is laid out in its source has no influence",
      "Two texts of the same document that differ in where paragraphs have line breaks and "
      "spaces, in indentation, bullets, numbers after the first, lengths of markers and "
      "dividers, padding of tables, lazy quote lines and kinds of newlines are formatted "
      "to the same text.",
      f"all pairs of spellings of a document: {DOC}",
      SAMPLES + "consistency of style is a relation between all spellings.",
      ALL, [("normalization", "reformatted() in markflow/formatters/*.py"),
            ("detection", "markflow/detectors/*.py")],
      technique="property-based testing: metamorphic relation between spellings",
      note="Sampled."),
    P("C09", "Documents separated by blank lines are formatted independently",
      "Formatting two documents with blank lines between them results in what formatting "
      "each of them results in, with those blank lines between them.",
      "all pairs of documents that aren't inside of an open code block: " + ANY,
      SAMPLES + "interference of sections is about all pairs of them.",
      ALL, [("splitting", "parse_markdown in markflow/parser.py")],
      technique="property-based testing: metamorphic relation (concatenation)",
      note="Sampled. Pieces of arbitrary text don't have code fences."),
    P("C10", "Nested documents are formatted like on their own, with less space",
      "The content of a block quote or list entry is formatted exactly as if it were a "
      "document of its own with the line length reduced by the markers and indentation, "
      "at every level of nesting.",
      DOC + ", nested in up to three quotes and list entries",
      SAMPLES + "few of them nest anything but one list in another.",
      [F + "block_quote.py", F + "lists.py", D + "block_quote.py", D + "bullet_list.py",
       D + "ordered_list.py", "markflow/_utils/_utils.py"],
      [("recursion", "_reformat_markdown in markflow/formatters/{block_quote,lists}.py"),
       ("nesting", "get_nested_width in markflow/_utils/_utils.py")],
      technique="property-based testing: metamorphic relation (nesting)",
      note="Sampled."),
    P("C11", "Earlier line lengths leave no trace",
      "Formatting with one line length and then another has the same result as only "
      "formatting with the last one, for any number of line lengths.",
      DOC + "; all sequences of up to four line lengths",
      SAMPLES + "no test formats anything with two line lengths in a row.",
      ALL, [("wrapping", "markflow/_utils/textwrap.py"),
            ("joining lines", "markflow/formatters/paragraph.py")],
      over=("inputs", "histories"),
      technique="property-based testing: metamorphic relation between line lengths",
      note="Sampled. Titles that are kept on the line they're on and text glued to <br> are "
           "documented exceptions and not generated."),
    P("C12", "Results don't depend on what was formatted before or on logging",
      "Formatting a text has the same result (or error) whatever the process has formatted "
      "before, including texts that failed, and whatever the level of logging. It leaves "
      "the levels of logging and other settings of the process as they were.",
      "all sequences of up to six calls with any texts, line lengths and log levels",
      "The tests never look at state that is left behind by calls, and none of them fails "
      "in a nested section first.",
      ["markflow/reformat_markdown.py", "markflow/_utils/_utils.py", "markflow/formatters",
       "markflow/detectors"],
      [("muted second pass", "reformat_markdown_text in markflow/reformat_markdown.py"),
       ("redirected levels", "redirect_info_logs_to_debug in markflow/_utils/_utils.py")],
      over=("histories", "inputs"),
      technique="property-based testing: sequences in one process compared with fresh "
                "processes",
      note="Sampled."),
    P("C13", "Inline code is kept on one line and unchanged",
      "Inline code with any number of backticks is never split over lines nor is anything "
      "in it changed, apart from line breaks in it becoming spaces. What is in it is never "
      "taken for other markup, and text right next to it stays right next to it.",
      "text with any inline code, at every line length, at the top level and nested",
      SAMPLES + "there are few with inline code, and none with other markup in it.",
      ["markflow/_utils/textwrap.py", F + "paragraph.py"],
      [("inline code", "code_split in markflow/_utils/textwrap.py")],
      technique="property-based testing: reference model and renderer on inline code",
      note="Sampled. Escaped backticks outside of code aren't generated."),
    P("C14", "Links, references and images survive wrapping",
      "Links, reference links, images and images in links keep their text, target and "
      "title, and text next to them stays next to them. They may only be wrapped between "
      "words of their text and right before their target, never inside of it, and never "
      "where the target would become another section.",
      "text with any links, at every line length, at the top level and nested",
      SAMPLES + "there are a few links in them, hardly any next to other markup.",
      ["markflow/_utils/textwrap.py", F + "paragraph.py"],
      [("links", "link_split in markflow/_utils/textwrap.py")],
      technique="property-based testing: reference model and renderer on links",
      note="Sampled. A link right before a word that is glued to the next link isn't "
           "generated (known finding)."),
    P("C15", "Explicit line breaks are kept and no others are made",
      "Lines that end with two or more spaces, a backslash, or <br> in any spelling, still "
      "end there with exactly two spaces, a backslash or <br> after formatting, in paragraphs, lists and "
      "quotes, and text is never joined over them. No other line becomes a line break, and "
      "a break at the very end of a document is dropped.",
      "text with any explicit line breaks, at every line length, nested or not",
      SAMPLES + "there are two with explicit line breaks, none of them nested.",
      ["markflow/_utils/textwrap.py", F + "paragraph.py", F + "block_quote.py"],
      [("two spaces", "markflow/formatters/paragraph.py and detectors/paragraph.py"),
       ("<br>", "newline_split in markflow/_utils/textwrap.py")],
      technique="property-based testing: reference model and renderer on line breaks",
      note="Sampled. Backslashes at the end of a line are a known finding."),
    P("C16", "Fenced code blocks only have their markers normalized",
      "Fenced code keeps every line (apart from trailing white space) and is never wrapped "
      "or interpreted, whatever it looks like; the opening fence keeps its character, "
      "length and language and loses other white space, and the closing fence is the same "
      "as the opening one. Shorter or other fences don't end it, and blocks that are never "
      "closed are closed at the end of what they're in.",
      "fenced code blocks with any content, at the top level and nested, at the end of the "
      "text or followed by anything, at every line length",
      SAMPLES + "most of their code blocks are a line of Python with three backticks.",
      [D + "fenced_code_block.py", F + "fenced_code_block.py", D + "_lines.py"],
      [("extent", "split_fenced_code_block in " + D + "fenced_code_block.py"),
       ("fences", "MarkdownFencedCodeBlock in " + F + "fenced_code_block.py")],
      technique="property-based testing: reference model and renderer on fenced code",
      note="Sampled. Indented fences are a known finding and not generated."),
    P("C17", "Indented code blocks are kept as they are",
      "Every line of indented code, including blank lines between them, is kept apart from "
      "trailing white space and never wrapped or interpreted, whatever it looks like. What "
      "is before or after it is no part of it, and indented lines that continue a paragraph "
      "aren't code.",
      "indented code with any content next to any other sections, at the top level and in "
      "quotes, at every line length",
      SAMPLES + "there are four with indented code.",
      [D + "indented_code_block.py", F + "indented_code_block.py", D + "_lines.py"],
      [("extent", "split_indented_code_block in " + D + "indented_code_block.py")],
      technique="property-based testing: reference model and renderer on indented code",
      note="Sampled."),
    P("C18", "Ordered lists are numbered consecutively from their first number",
      "An ordered list keeps its number of entries, their order, content and nesting; its "
      "first number is kept and each entry has the one after that of the entry before. "
      "Content is indented by the length of its own marker, and wrapped with that in mind.",
      "ordered lists with any numbers, indentation, content and nesting, at every line "
      "length",
      SAMPLES + "their lists have few entries and numbers of one digit.",
      [D + "ordered_list.py", F + "lists.py", D + "_lines.py"],
      [("numbers", "MarkdownOrderedList in " + F + "lists.py"),
       ("extent", "split_ordered_list in " + D + "ordered_list.py")],
      technique="property-based testing: reference model and renderer on ordered lists",
      note="Sampled. Blank lines in lists and neighbouring lists of different types are "
           "known findings and not generated."),
    P("C19", "Bullet lists use one bullet per list and keep their structure",
      "A bullet list uses the bullet of its first entry for all of its entries and keeps "
      "their number, order, content and nesting. Content is indented by two spaces, and "
      "wrapped with that in mind; nested lists keep their own bullets.",
      "bullet lists with any mix of bullets, indentation, content and nesting, at every "
      "line length",
      SAMPLES + "their lists are nested once and have one-line entries.",
      [D + "bullet_list.py", F + "lists.py", D + "_lines.py"],
      [("bullets", "MarkdownBulletList in " + F + "lists.py"),
       ("extent", "split_bullet_list in " + D + "bullet_list.py")],
      technique="property-based testing: reference model and renderer on bullet lists",
      note="Sampled. Blank lines in lists and neighbouring lists of different types are "
           "known findings and not generated."),
    P("C20", "Block quotes keep their depth, content and blank lines",
      "Every line of a block quote has the same markers after formatting, one per level, "
      "either all followed by a space or none, as on its first line. Lazy lines get the "
      "markers of the paragraph they continue, blank lines of quotes are kept as markers "
      "only, and what follows a quote isn't pulled into it.",
      "block quotes of up to four levels with any content and lazy lines, at every line "
      "length",
      SAMPLES + "they have one or two levels and hardly anything but paragraphs in them.",
      [D + "block_quote.py", F + "block_quote.py", D + "_lines.py"],
      [("extent", "split_block_quote in " + D + "block_quote.py"),
       ("markers", "MarkdownBlockQuote in " + F + "block_quote.py")],
      technique="property-based testing: reference model and renderer on block quotes",
      note="Sampled."),
    P("C21", "Tables are aligned and keep every cell",
      "A table keeps all of its cells, in order, and the alignment of its columns. All of "
      "its lines have the same length with pipes below each other and at least one space "
      "next to every cell; text is aligned like its column, headings are centered and other "
      "cells are on the left by default, and dividers fill their column.",
      "tables with any number of columns and rows, alignments and cells (escaped pipes, "
      "empty, longer than the line length), padding and optional last pipes",
      SAMPLES + "their tables have two to four columns of plain words.",
      [D + "table.py", F + "table.py"],
      [("cells", "MarkdownTable in " + F + "table.py")],
      technique="property-based testing: reference model and renderer on tables",
      note="Sampled. Length is counted in characters as the tool does."),
    P("C22", "Malformed tables are rejected, naming the line",
      "A table without a divider, with a divider for other columns than its header has, or "
      "with a row that has more or fewer cells is never formatted: the documented error for "
      "malformed Markdown is raised, also if the table is in a quote. The error names "
      "the document's line of the table (or of the row).",
      "tables with one defect, at any place in any document, at every line length",
      "The tests have two malformed tables that are on their own.",
      [D + "table.py", F + "table.py", "markflow/exceptions.py",
       "markflow/reformat_markdown.py"],
      [("validation", "MarkdownTable in " + F + "table.py"),
       ("line numbers", "_reformat_markdown_text in markflow/reformat_markdown.py")],
      over=("inputs", "fault_sequences"),
      technique="property-based testing: generated documents with one injected defect",
      note="Sampled."),
    P("C23", "Headings keep their level and text, with normalized markup",
      "ATX headings keep their level and text with exactly one space after their markers "
      "(even if there was none) and are never wrapped. Setext headings keep their level "
      "and text, are wrapped like paragraphs, and are underlined by as many characters as "
      "their longest line has.",
      "headings of all levels, spellings and lengths, next to any sections and nested, at "
      "every line length",
      SAMPLES + "they have a handful of headings at one line length.",
      [D + "atx_heading.py", F + "atx_heading.py", D + "setext_heading.py",
       F + "setext_heading.py"],
      [("ATX", "MarkdownATXHeading in " + F + "atx_heading.py"),
       ("setext", "MarkdownSetextHeading in " + F + "setext_heading.py")],
      technique="property-based testing: reference model and renderer on headings",
      note="Sampled."),
    P("C24", "Thematic breaks keep their character and fill the line",
      "A thematic break of any spelling becomes one line of its own character, without "
      "spaces, that fills the line length that is left (at least 3 characters, and 3 "
      "without a limit). It never becomes a list, an underlining of a heading or text, and "
      "text never becomes a thematic break.",
      "thematic breaks of all spellings next to any sections and nested, at every line "
      "length",
      SAMPLES + "they have thematic breaks on their own, not next to paragraphs or lists.",
      [D + "thematic_break.py", F + "thematic_break.py", D + "_lines.py",
       "markflow/reformat_markdown.py"],
      [("detection", "is_thematic_break_line in " + D + "_lines.py"),
       ("length", "MarkdownThematicBreak in " + F + "thematic_break.py")],
      technique="property-based testing: reference model and renderer on thematic breaks",
      note="Sampled."),
    P("C25", "Link reference definitions keep label, target, title and target's line",
      "A link reference definition keeps its label, target, title and quotes. The target "
      "stays on the line it's on; a title stays on its line if its first word fits there "
      "and is moved to the next one and wrapped otherwise.",
      "link reference definitions with any labels, targets and titles, next to each other "
      "and any sections, at every line length",
      SAMPLES + "they have a dozen definitions, most of them on their own.",
      [D + "link_reference_definition.py", F + "link_reference_definition.py"],
      [("extent", "split_link_reference_definition in " + D
        + "link_reference_definition.py"),
       ("layout", "MarkdownLinkReferenceDefinition in " + F
        + "link_reference_definition.py")],
      technique="property-based testing: reference model and renderer on definitions",
      note="Sampled. Titles in parentheses aren't supported and not generated."),
    P("C26", "Sections are told apart and keep their order and blank lines",
      "Each section of a document ends where the next one starts, with or without blank "
      "lines between them, so that each is formatted as what it is. The number of blank "
      "lines between two sections is kept, apart from one that is added where a thematic "
      "break of dashes would otherwise turn the paragraph before it into a heading.",
      "all sequences of up to eight sections of all types with any number of blank lines "
      "between them",
      SAMPLES + "detection of a section depends on what is before and after it: there are "
      "more than a hundred pairs.",
      ["markflow/parser.py", "markflow/detectors", "markflow/reformat_markdown.py"],
      [("splitting", "parse_markdown in markflow/parser.py"),
       ("interrupting paragraphs", "split_paragraph in " + D + "paragraph.py")],
      technique="property-based testing: reference model on sequences of sections",
      note="Sampled."),
    P("C27", "Wrapping never turns text into other sections",
      "Text that has words like -, 1., #, >, =, | or --- in it stays text of the same "
      "paragraph, heading or title, whatever the line length: such words are kept on the "
      "line of the word before them, a first word that would be a section on its own "
      "keeps the next word on its line, and text that starts like a link reference "
      "definition ([label]: target) isn't cut where that would make it one.",
      "text with such words at any place, at every line length, nested or not",
      SAMPLES + "they have two such texts, for one line length.",
      ["markflow/_utils/textwrap.py", D + "_lines.py", F + "paragraph.py"],
      [("where lines may be broken", "join in markflow/_utils/textwrap.py")],
      technique="property-based testing: reference model and renderer on text like markup",
      note="Sampled."),
    P("C28", "--check tells exactly what would change and writes nothing",
      "With --check, nothing is ever written; the exit status is 1 if and only if "
      "formatting would change at least one of the files (or STDIN) and 0 otherwise, and "
      "the files named and counted in its output are the ones that would be changed, "
      "whatever characters are in their names. After "
      "formatting them, --check reports that nothing would change.",
      "all sets of files, directories or STDIN, newlines, line lengths and other options",
      "The tests never run the command line.",
      ["markflow/__main__.py", "markflow/_argparse.py"],
      [("check", "_reformat_files and _reformat_stdin in markflow/__main__.py")],
      over=("inputs", "configurations"),
      technique="property-based testing: model of a file system, real command line",
      note="Sampled. Most runs are in the process of the check, some in one of their own.",
      observe_at=["exit status", "STDOUT", "contents and modification times of files"]),
    P("C29", "The command line writes exactly what the API returns, where it should",
      "Each passed file, each Markdown file in a passed directory, or STDIN if there are no "
      "paths, is formatted to what the API returns for its content and the line length (88 "
      "by default, no limit below 1). The result is written to the file itself, the given "
      "output file or directory, or STDOUT; files that don't change and all other files "
      "aren't written to, and the report counts both correctly. Files keep their permissions "
      "and links to them remain links. Without anything to format (a terminal as STDIN, "
      "--help, --version), nothing is written.",
      "all sets of files and directories, contents, newlines, outputs, line lengths and "
      "levels of verbosity",
      "The tests never run the command line.",
      ["markflow/__main__.py", "markflow/_argparse.py"],
      [("files", "_reformat_files in markflow/__main__.py"),
       ("directories", "AddMarkdownFilesInDirOrPathsAction in markflow/_argparse.py")],
      over=("inputs", "configurations"),
      technique="property-based testing: model of a file system, real command line",
      note="Sampled. Verbosity with STDIN isn't generated as messages are on STDOUT, too.",
      observe_at=["exit status", "STDOUT", "contents and modification times of files"]),
    P("C30", "Failing runs exit with an error and never damage files",
      "If a file can't be decoded or formatted, can't be read or written, or an argument is "
      "wrong, the exit status isn't 0 and, unless told to be quiet, there is a message; it "
      "names the file if its text is malformed or isn't formatted consistently. Each file then still has its original content or, if "
      "it was formatted before the failure, its complete result; wrong arguments and files "
      "that may not be written are noticed before any file is changed.",
      "all sets of files of which some are malformed, undecodable, or can't be read or "
      "written, and all kinds of wrong arguments",
      "The tests never run the command line.",
      ["markflow/__main__.py", "markflow/_argparse.py", "markflow/exceptions.py"],
      [("arguments", "parse_args in markflow/__main__.py, markflow/_argparse.py"),
       ("errors", "_reformat_files and __main__ in markflow/__main__.py")],
      over=("inputs", "fault_sequences", "configurations"),
      technique="property-based testing: injected faults against a model of a file system",
      note="Sampled. Permissions and a lack of space (a limit for the size of files) are tested "
           "as an unprivileged user in a scratch folder. Known finding: without space, the file "
           "that is being written is lost, so it's only checked that others aren't.",
      observe_at=["exit status", "contents and modification times of files"]),
    P("C31", "Formatting in several threads gives the same results",
      "Texts that are formatted by threads of one process at the same time have the same "
      "results (or errors) as on their own, however the threads are scheduled. When they "
      "are done, the logging settings are what they were before.",
      "all interleavings of two or three calls at the granularity of lines of code",
      "The tests don't use threads.",
      ALL, [("no state is shared", "markflow/**/*.py")],
      over=("schedules", "inputs"),
      technique="property-based testing: generated schedules, switching threads by tracing",
      note="Sampled. Threads only switch between lines of the tool's own code; messages "
           "aren't a part of it."),
    P("C32", "Files always have the contents that a history of edits and runs implies",
      "After any sequence of edits and runs of the command line with any options, every "
      "file has exactly the content that applying the API to the files of each run in turn "
      "results in. Each run's exit status only depends on the files there are.",
      "all sequences of up to eight edits and runs",
      "The tests never run the command line, let alone twice.",
      ["markflow/__main__.py", "markflow/_argparse.py"],
      [("files", "_reformat_files in markflow/__main__.py")],
      over=("histories", "configurations", "inputs"),
      technique="stateful property-based testing: model of a file system, real command line",
      note="Sampled.",
      observe_at=["exit status", "STDOUT", "contents and modification times of files"]),
    P("C33", "The time it takes grows moderately with the size of a text",
      "A text in which the same parts are repeated four times as often, one after another "
      "or nested in each other, takes at most 576 times as many calls of functions to "
      "format (less than the fifth power of its size), and never exponentially more.",
      "all families of texts that repeat up to three pieces of Markdown: lines after each "
      "other, up to 64 levels of nesting and back, and up to 512 repetitions in a paragraph",
      "The tests' texts are too small and not nested deeply enough to take any time.",
      ALL, [("nested parsing", "split_block_quote in markflow/detectors/block_quote.py"),
            ("lookahead", "split_paragraph in markflow/detectors/paragraph.py"),
            ("wrapping", "markflow/_utils/textwrap.py")],
      technique="property-based testing: metamorphic relation between sizes, counting calls",
      note="Sampled. Counts calls of functions, not time, so that it's deterministic; time in "
           "functions of C is only limited to 10 s for each text."),
    P("C34", "Messages name the right lines of the document",
      "While a document is formatted, each of its sections is reported (at the level INFO) "
      "with its type and its lines, in order, so that every line belongs to exactly one. "
      "Every mistake that is corrected is warned about, naming its line in the document, "
      "also if it's in a list or a quote, and there are no other warnings. With "
      "debugging, sections inside of lists and quotes are reported with their lines, too.",
      "all documents and corrected mistakes, nested in up to two lists and quotes",
      "The tests don't look at messages.",
      ALL, [("sections", "_reformat_markdown_text in markflow/reformat_markdown.py"),
            ("warnings", D + "fenced_code_block.py, " + F + "atx_heading.py")],
      technique="property-based testing: generated documents with one injected mistake",
      note="Sampled. The wording of messages isn't checked, except for the names of "
           "sections' classes and 'Line n' or 'Lines n-m'."),
]


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPERTIES:
            anchors = {
                "files": p["files"],
                "mechanism": [dict(name=n, where=w) for n, w in p["mechanism"]],
            }
            anchors.update(p["extra"])
            anchors["hook_needed"] = None
            json.dump(
                {
                    "id": p["id"], "title": p["title"], "statement": p["statement"],
                    "quantifier": {"over": p["over"], "text": p["text"]},
                    "why_tests_cant": p["why"], "anchors": anchors,
                },
                f,
            )
            f.write("\n")
    manifest = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"./check {p['id']} --tier quick",
                "thorough_cmd": f"./check {p['id']} --tier thorough",
                "technique": p["technique"],
                "level": "exploration",
                "level_note": p["note"],
            }
            for p in PROPERTIES
        ],
        "not_applicable": [],
        "notes": "No hooks in /repo are needed.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
