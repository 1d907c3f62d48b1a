#!/usr/bin/env python3
"""Writes properties.jsonl (kept here because JSON lines are hard to edit)."""
import json, os
P = []
S = "src/serializer/"

def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or ["hongdown::format (library)", "hongdown - (stdin to stdout)"],
                          "hook_needed": hook}})

prop("C01", "Plain text stays the same plain text",
     "With the punctuation transformations switched off, a paragraph of plain text is still plain text after formatting, and reads as exactly the same characters: a special character that was literal in the input (because it was escaped, spelled as an entity, or could not be markup) never becomes live markup, and no backslash or character is gained or lost. Backslash escapes and entities the author wrote stand for the same character in the output.",
     ["inputs"], "every paragraph text, every mix of escapes, entities, brackets, underscores, asterisks, backticks and backslashes, at every line width",
     "Tests format a few dozen fixed strings; escaping goes wrong at particular neighbours of a particular character (an escape followed by an entity, a bracket at the end of a text), which only a statement over all strings excludes.",
     [S + "escape.rs", S + "inline.rs"],
     [("escaping of special characters", S + "escape.rs escape_text"), ("keeping the author's escapes and entities", S + "inline.rs escape_text_preserving_source, try_parse_html_entity")])
prop("C02", "Code spans read back as the same code",
     "Every inline code span of the input is still a code span with exactly the same content in the output, wherever it stands (paragraph, heading, list item, quote, emphasis, link text, table cell, footnote, definition) and at whatever width lines are wrapped. The delimiter is never a run of backticks that also occurs in the content, and padding is added exactly where the reader would strip or misread the content.",
     ["inputs"], "every code span content (runs of backticks, leading and trailing spaces, any characters), every container, every line width",
     "The tests use short code spans with at most a couple of backticks and no unusual spacing; the delimiter choice depends on the longest run of backticks in an arbitrary string.",
     [S + "escape.rs", S + "inline.rs", S + "wrap.rs"],
     [("delimiter and padding", S + "escape.rs format_code_span"), ("reuse of the source spelling", S + "escape.rs is_valid_code_span"), ("unbreakable tokens", S + "wrap.rs wrap_single_segment")])
prop("C03", "Code blocks keep their content and language",
     "Every code block of the input is still one code block in the output, with the same content line for line and the same info string, in whatever container it stands (top level, list item, quote, definition) and whatever fence character, minimum fence length and spacing are configured. The fence is always longer than any run of the fence character that could close it.",
     ["inputs", "configurations"], "every code text and info string, every fence setting, every container",
     "The tests have fixed code blocks; the fence length must exceed the runs in an arbitrary code text, in three separate places that write code blocks.",
     [S + "code.rs"],
     [("fence computation", S + "code.rs serialize_code_block, serialize_code_block_indented, serialize_code_block_with_indent"), ("info string", S + "code.rs parse_code_info")])
prop("C04", "Tables keep their rows, columns, alignment and cell content",
     "A table of the input is a table with the same number of rows and columns, the same alignments and the same content in each cell after formatting. A literal pipe inside a cell never becomes a column boundary, and all lines of the table have the same display width.",
     ["inputs"], "every table: any number of rows and columns, any cell content including escaped pipes, code spans and wide characters, every alignment",
     "The tests format a few small tables; column widths and escaping depend on every cell of the table.",
     [S + "table.rs", S + "escape.rs"],
     [("pipe escaping", S + "escape.rs escape_table_cell"), ("cell padding", S + "table.rs format_cell_aligned"), ("column widths and separators", S + "table.rs serialize_table"), ("pipe counting", S + "table.rs count_unescaped_pipes")])
prop("C05", "Wrapping changes only line breaks",
     "Rewrapping a paragraph, list item, quote, definition or footnote changes only where lines break: the words come out complete, in the same order and each exactly once, hard line breaks stay hard line breaks, and code spans and link texts are not broken across lines. A line break is never put where the next line would start a different kind of block (heading, list, quote, rule, table, definition).",
     ["inputs", "configurations"], "every text, every prefix, every line width",
     "Tests wrap a handful of English sentences at width 80; losing or duplicating a word depends on where spaces, brackets and backticks fall relative to the limit.",
     [S + "wrap.rs", S + "document.rs", S + "mod.rs"],
     [("wrapping", S + "wrap.rs wrap_text, wrap_text_first_line, wrap_single_segment"), ("block markers", S + "wrap.rs starts_block")])
prop("C06", "Wrapped lines respect the line width",
     "When a paragraph is rewrapped, no output line is wider (in display columns) than the configured line width unless it holds nothing but its prefix and one unbreakable piece, or ends in pieces that may not start a line. (The text after a marker on the first line of an item, definition or footnote is measured alone, without the marker.) Lines of the source that already fit are kept as they are up to the first one that does not.",
     ["inputs", "configurations"], "every text including wide characters, every prefix, every line width from 8 up",
     "Tests check a few widths on a few texts; the limit must hold for every position of every line.",
     [S + "wrap.rs"],
     [("adding tokens to lines", S + "wrap.rs add_token_to_line_with_prefix"), ("selective rewrapping", S + "wrap.rs wrap_text_segment, wrap_text_first_line_segment")])
prop("C07", "Punctuation rules change only the characters they are about",
     "The typographic transformations change only quotation marks, apostrophes, runs of three periods and the configured dash patterns in running text: every other character keeps its value and order, and with a transformation switched off the characters it is about come out unchanged. Double quotation marks become curly in pairs, an apostrophe between letters becomes a right single quotation mark, and a run of exactly three periods becomes an ellipsis.",
     ["inputs", "configurations"], "every text, every combination of the six switches",
     "Each test fixes one sentence and one switch; the frame condition (nothing else changes) quantifies over all texts and all 2^6 settings.",
     [S + "punctuation.rs"],
     [("pipeline", S + "punctuation.rs transform_punctuation"), ("each rule", S + "punctuation.rs transform_ellipsis, transform_double_quotes, transform_single_quotes, transform_apostrophes, transform_dashes")])
prop("C08", "Dash patterns are replaced by the configured dash and nothing else",
     "Every occurrence of a configured dash pattern in running text that stands where the rule allows it is replaced, exactly once, by the configured dash, scanning left to right; text without the pattern is unchanged. Using the same pattern for both dashes is rejected, and a longer pattern takes precedence over a shorter one it contains.",
     ["inputs", "configurations"], "every text and every pair of patterns",
     "Tests use two or three patterns; overlapping patterns and runs of hyphens have unboundedly many combinations.",
     [S + "punctuation.rs", "src/config.rs"],
     [("replacement", S + "punctuation.rs transform_dashes"), ("conflict check", S + "punctuation.rs validate_dash_settings")])
prop("C09", "Configuration values outside their documented range are rejected",
     "Each validated setting (line width, leading and trailing spaces, indent width, minimum fence length, thematic break style, dash pattern) accepts exactly the values the documentation allows and reports an error for every other one, and an accepted value is stored unchanged (apart from white space around a thematic break style). An accepted thematic break style always produces a line that reads as a thematic break.",
     ["configurations"], "every integer and every string",
     "Tests try a few values at the borders; the accepted set is a predicate over all values.",
     ["src/config.rs"],
     [("constructors", "src/config.rs LineWidth::new, LeadingSpaces::new, TrailingSpaces::new, IndentWidth::new, MinFenceLength::new, ThematicBreakStyle::new, DashPattern::new")],
     ["hongdown::Config::from_toml", "hongdown::LineWidth::new and its siblings"])
prop("C10", "Configuration layers override exactly the settings they set",
     "When configuration layers (system, user, project) are combined, each setting - a top-level value, or a section as a whole - has the value of the last layer that sets it, and every setting no layer sets keeps its documented default. A project configuration marked as not inheriting (no_inherit) discards everything from the layers before it.",
     ["configurations"], "every combination of set and unset settings in every number of layers",
     "Tests merge a few layers with one or two settings each; with eleven optional settings there are 2^11 shapes per layer.",
     ["src/config.rs"],
     [("merging", "src/config.rs ConfigLayer::merge_over"), ("order of the layers", "src/config.rs Config::load_cascading")],
     ["hongdown::config::ConfigLayer::merge_over", "hongdown::Config::load_cascading"])
prop("C11", "Headings keep their level, text, code and links",
     "Every heading of the input is a heading of the same level and the same text in the output; with sentence case on, the text may differ only in letter case and in the shape of quotation marks, and code spans, link targets and inline HTML not at all. The underline of a setext heading is as wide as its text.",
     ["inputs", "configurations"], "every heading text, every list of proper and common nouns, setext and ATX styles",
     "Tests use a fixed list of English titles; the tokenizer behind sentence case sees arbitrary text.",
     [S + "heading.rs", S + "block.rs"],
     [("sentence case", S + "heading.rs to_sentence_case"), ("underline", S + "block.rs serialize_heading")])
prop("C12", "Every input can be formatted, and source text is taken exactly",
     "Formatting returns a result for every input text and every accepted configuration: it does not panic, overflow or slice a character in half. Where the formatter copies a piece of the source, it copies exactly the text at the positions the parser reported.",
     ["inputs", "configurations"], "every text (any Unicode, any nesting) and every configuration",
     "Tests feed well-formed documents; a crash needs one unlucky combination of multi-byte characters and positions.",
     [S + "state.rs", S + "inline.rs", S + "mod.rs"],
     [("slicing by character positions", S + "state.rs safe_str_slice, extract_source")])
prop("C13", "Disabled regions come out verbatim",
     "Text between a disable directive and the matching enable directive, after a directive that disables the next section or the next block, appears in the output with each of its blocks and the blank lines between them unchanged, and text after a directive that disables the file appears byte for byte, while text outside such a region is formatted as usual. Only the documented directive spellings count as directives.",
     ["inputs"], "every document with directives at any place, every text in the disabled region",
     "Tests have one directive per document around short text; which lines are copied depends on the positions of all blocks around them.",
     [S + "state.rs", S + "document.rs"],
     [("recognition", S + "state.rs Directive::parse"), ("copying", S + "document.rs serialize_document, extract_source")])
prop("C14", "Reference links keep pointing at the same target",
     "After formatting, every link and image that was reference style, or was turned into one, has the same destination and title as before, and each label is defined exactly once in the output with a definition that reads back as that destination and title. Two links with the same text but different targets never share a definition.",
     ["inputs"], "every document: any number of links, labels (in any letter case), destinations, titles and sections",
     "Tests have a few links with distinct labels; a wrong target needs two links that collide in one particular way.",
     [S + "mod.rs", S + "link.rs", S + "state.rs"],
     [("definitions", S + "mod.rs write_reference, flush_references"), ("collision check", S + "link.rs format_external_link_as_reference, has_other_target"), ("collection", S + "state.rs add_reference")])
prop("C15", "Every footnote is kept exactly once",
     "Every footnote definition that is referenced appears exactly once in the output with the same name and the same content, and every footnote reference stays a reference to it. Where footnotes are written depends only on their first reference, and none is dropped or duplicated.",
     ["inputs"], "every document: any number of footnotes, references and sections, in any order, nested in any block",
     "Tests have one or two footnotes; losing one depends on the order of references, sections and directives.",
     [S + "mod.rs", S + "state.rs"],
     [("pending set", S + "state.rs FootnoteSet"), ("writing", S + "mod.rs flush_footnotes_before, write_footnote")])
prop("C16", "Lists keep their items, nesting, numbering and task marks",
     "A list of the input is a list of the same kind with the same items, nesting and task marks after formatting, and items keep their content; a loose list does not become tight. Ordered lists are numbered consecutively, and all markers of a list use the configured characters and widths, so that no list is split or merged and no item changes its depth (for indent widths that are at least as wide as the markers).",
     ["inputs", "configurations"], "every nesting of lists, any number of items (across the change from 9 to 10 and 99 to 100), every marker, indent and padding setting",
     "Tests have lists of two or three items and the default configuration; marker width changes with the number and the depth.",
     [S + "list.rs"],
     [("markers", S + "list.rs serialize_list, serialize_list_item")])
prop("C17", "Block structure survives formatting",
     "The blocks of a document (paragraphs, headings, quotes, alerts, lists, code, tables, rules, HTML, definitions) come out as the same kinds of blocks in the same order and nesting with the same content; front matter and HTML blocks are kept verbatim. State belonging to one container (quote prefix, list indent) does not leak into the blocks after it.",
     ["inputs"], "every document: every nesting of containers",
     "Tests have about two hundred documents with a single level of nesting; a leak needs a particular container after another one.",
     [S + "block.rs", S + "document.rs", S + "list.rs", S + "mod.rs"],
     [("context saved and restored", S + "block.rs serialize_block_quote, serialize_alert"), ("separators", S + "document.rs serialize_document")])
prop("C18", "Link destinations and titles read back",
     "Every inline link and image keeps its destination and title: characters that would end them early (spaces, angle brackets, unbalanced parentheses, quotation marks, backslashes) are escaped or encoded so that a reader gets the same destination (up to percent-encoding) and the same title.",
     ["inputs"], "every destination and every title",
     "Tests use plain URLs and one-word titles.",
     [S + "link.rs"],
     [("destinations", S + "link.rs push_link_destination"), ("titles", S + "link.rs push_link_title")])
prop("C19", "Formatting twice gives the same result as formatting once",
     "Formatting the output of the formatter again yields the identical text.",
     ["inputs", "configurations"], "every document and configuration",
     "Tests check idempotence on a few dozen documents.",
     ["src/lib.rs", S + "mod.rs"], [("the whole pipeline", "src/lib.rs format")])
prop("C20", "An external code formatter can never damage the document",
     "When a configured external formatter fails, prints nothing usable or exceeds its timeout, the code block keeps its original content and a warning is reported; formatting always ends within the configured timeout.",
     ["fault_sequences", "schedules"], "every behaviour of the child process",
     "Tests run a few well-behaved commands.",
     [S + "formatter.rs", S + "code.rs"], [("process handling", S + "formatter.rs run_formatter")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["title"]
