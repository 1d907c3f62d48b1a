# per property: (what is specified, against what oracle; bounds of the executable layer)
TABLE = {
"C01": ("escape_text: the written text decodes (CommonMark escapes) to exactly the text, and no character that starts markup in the given context is left unescaped. escape_text_node and the rest of the text writers: every character of the text is written once, in order, as itself (no markup), escaped, or as an entity that stands for it. collect_inline_content/_node: every inline node is written once, in order, in its own form. Documents: a paragraph comes back as one paragraph with the same characters, comrak reading both.", "all texts up to length 4–5 over the special alphabet per context; seeded longer texts, entities, escapes, every container, several widths"),
"C02": ("format_code_span: the written span, read by the CommonMark rule, yields the content; the delimiter is no run of the content. is_source_of_code, collect_inline_node: the source is copied only if it is a span on one line with this content.", "exhaustive short contents; code spans in every container at several widths"),
"C03": ("serialize_code_block*: output = old output + prefix + fence + info + lines + fence; no line of the code closes the fence; the info string comes from parse_code_info.", "code blocks of every kind and info in every container; option sets"),
"C04": ("format_cell_aligned / escape_table_cell / count_unescaped_pipes: text kept, width exact, every pipe escaped.", "tables up to 4×4 with generated inline cells"),
"C05": ("wrap.rs, all functions: the output is the text's pieces (from one space outside of code spans and brackets to the next) in order, exactly once, on lines after the prefix; no line but the first starts with a word that interrupts a paragraph; hard breaks stay between their segments.", "generated paragraphs at every width from 8 to 100"),
"C06": ("wrap.rs: a piece joins a line only if it fits (sum of widths), or may not start a line; a line is broken only where the next piece does not fit; the lines of the source that fit are kept up to the first that does not.", "same generator"),
"C07": ("transform_ellipsis/double_quotes/single_quotes/apostrophes and the pipeline equal recursive specifications; frame lemmas (all other characters unchanged).", "exhaustive short texts, seeded texts, documents"),
"C08": ("transform_dashes equals left-to-right replacement; validate_dash_settings rejects equal patterns; longer pattern first.", "exhaustive short texts × patterns; documents"),
"C09": ("new/get/as_str of each validated setting: accepts exactly the documented range, stores the value; a thematic break style is a line of CommonMark rule characters.", "every setting over TOML values around the range; every rule style up to length 9"),
"C10": ("merge_over, load_cascading: each setting is the one of the last layer that sets it; every Default is the documented one.", "generated layers on disk, the program run with --config and directories"),
"C11": ("collect_text: every inline node of a heading once, in order, in its own form, on one line; keep_label: only the label is added. Bounded: heading writer and to_sentence_case: letters equal up to case, protected spans unchanged, underline as wide as the text.", "seeded headings of generated inline content in containers, ATX/setext, sentence case with noun lists"),
"C12": ("safe_str_slice = the text between the rounded char boundaries; every helper total; format returns for any options.", "exhaustive short Unicode texts and positions; generated documents × random accepted options"),
"C13": ("Directive::parse: exactly the documented spellings. serialize_document: a block in a disabled region comes out as its lines in the source with its blank lines before it (lemma_region, lemma_region_lines), a next-block directive reaches exactly one block (lemma_next), after a file directive comes the rest of the source byte for byte and nothing else (lemma_file), all other blocks go to the block writers (lemma_outside), and the mode at a block depends only on the directives before it (lemma_mode). Documents: the region's lines before and after.", "generated documents with each directive at each place; all orders of directives and blocks up to length 4"),
"C14": ("format_reference_link/_image, format_external_link_as_reference, add_reference: reference form only for a label whose only target is this one, which then is pending or written; flush_*: each pending label defined exactly once; write_reference: the definition, read by the CommonMark rule, gives label, destination, title. Documents: links read back with the same target.", "generated documents with shared, colliding and differently-cased labels"),
"C15": ("FootnoteSet and flush_footnotes(_before): each pending definition that is due written exactly once, none lost; write_footnote: all lines of the content, indented by four columns, after the mark. Documents: each referenced definition appears once with the same content.", "generated documents with footnotes in every container"),
"C16": ("serialize_list, serialize_list_item and everything they call: the output is the items' output, each item once and in order, item i with number i+1, the list's kind, its own task mark and the configured marker (theorem lemma_list); the marker, read by the CommonMark rule, gives number and delimiter or the bullet, whatever follows (lemma_marker); continuation lines stand exactly at the column of the item's content, in the same quotes (lemma_column); a list in an item stands at most three columns behind that column (lemma_nested). Documents: same kind, items, nesting, task marks before and after.", "generated lists × option sets"),
"C17": ("serialize_node and the writers of all container blocks (quotes, alerts, lists, items, description lists and details, footnote content): every child is written exactly once, in order, in the context its containers set up, and the context afterwards is the one before (the frame: no function outside the contracts changes a context field, checked on the whole source). Documents: block skeleton (kinds, nesting, content) equal before and after.", "generated nestings of every block kind, exhaustive pairs of blocks in every frame"),
"C18": ("collect_inline_node: a link is written as a reference whose target has been noted, with its target in parentheses, or as an autolink whose text is its URL. push_link_target: what is written, read by the CommonMark rules (destination up to 32 parentheses deep, escapes, entities, title in quotes), gives the destination (spaces, angle brackets and controls percent-encoded) and the title, whatever follows; can_be_autolink: exactly the absolute URIs without entities, which `<URL>` is read back as; is_valid_label: what `[label]` is read back as. Documents: link and image targets and titles equal before and after.", "exhaustive short destinations/titles/texts, generated links in every container"),
}
UNIT_NOTES = {
"escape": "Assumed: contracts of `std` (lib/).",
"code": "Assumed: `try_format_code` (runs the external formatter) returns its answer, whatever it is, and changes neither output nor prefix.",
"punctuation": "Assumed: the derived equality of `DashPattern`. Texts shorter than 2^31 bytes.",
"table": "Assumed: `unicode_width` (uninterpreted, axioms).",
"wrap": "Assumed: `is_only_block_marker`, `is_only_html_tag`, `escape_block_start` are functions of their arguments (uninterpreted; an escaped segment is at most one character longer); `starts_block` is one, too (its contract, that every word that interrupts a paragraph is recognised, is proved; the list of HTML tag names is not under contract); `unicode_width` (uninterpreted, axioms). Texts and prefixes shorter than 2^56 characters.",
"link": "Assumed: contracts of `std` (lib/; `{:02X}`, `split_once`, `match_indices`, `str::chars` as an iterator with `as_str`). The reader in lib/links.rs is the specification.",
"refs": "Assumed: contracts of `HashSet`, `HashMap`, `IndexMap` (lib/maps.rs: keys once, in order of insertion), `sort_by_key` permutes, equality of strings is that of their characters; the link writers' contracts, proved in the unit `link`; the registry starts empty and only these functions change it (`wf`).",
"footnotes": "Assumed: the same containers; `wrap_text_first_line`, proved in the unit `wrap`, is uninterpreted here.",
"blocks": "Recursive specification over the tree (`wrote`); partial correctness (termination of the walk is not proved). Assumed: what the writers of the other blocks append (`block_rel`, `code_rel`, `text_rel`, `wrapped_rel` uninterpreted; code blocks and wrapped text are proved in the units `code` and `wrap`) and that they leave the context alone - the latter is backed by a syntactic check over all of `src` on every run (`%% frame`: only functions under contract assign, mutably borrow or call a changing method on a context field). The tree of comrak is a stub (`lib/nodes.rs`): children, values and positions do not change while the formatter runs (`%% unused borrow_mut`: no function of the repository calls it), items are exactly the children of lists, fewer than 2^31 children, levels and lines, indent widths below 2^31. `serialize_document` calls `serialize_node` with the initial context (assumed to meet its precondition).",
"document": "Assumed: the block writers (`serialize_node`; unit `blocks`) and the flushes (units `refs`, `footnotes`) only append, the collecting functions leave the output alone; none of them changes the skip mode, the source or the directive's nouns - backed by the syntactic check over all of `src` (`%% frame`). Positions are comrak's (stub in `lib/nodes.rs`); `str::split`/`map`/`filter`/`collect` chains are rewritten to loops.",
"config": "Assumed: the functions that find and parse a layer's file return an arbitrary layer.",
"inline": "Recursive specification over the inline nodes (`inl`), with a one-level copy; partial correctness (termination of the walk is not proved; nesting depth is comrak's). Assumed: `escape_text`, `format_code_span`, `is_valid_code_span` (unit `escape`), `transform_punctuation` (a relation, `punct_of`; unit `punctuation`), the link writers (unit `link`), `add_reference` and the writers of references (unit `refs`; `registered` uninterpreted); `decode_html_entity` is a function of its argument; what `extract_source`, `get_reference_style_info`, `contains_image` and `next_sibling_starts_with_bracket` read from the source is uninterpreted (`src_of`, `ref_as`, …).",
}
LIMITS = open(__file__.replace("text.py", "limits.md")).read()
