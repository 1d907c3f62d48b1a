// Private functions of the repository the harness calls directly, with the types it expects.
module serializer
raw pub fn escape_text(t: &str) -> Option<String> => super::escape::escape_text(t)
needs escape_text(&str) -> String
raw pub fn format_code_span(t: &str) -> Option<String> => super::escape::format_code_span(t)
needs format_code_span(&str) -> String
raw pub fn escape_table_cell(t: &str) -> Option<String> => super::escape::escape_table_cell(t)
needs escape_table_cell(&str) -> String
raw pub fn normalize_whitespace(t: &str) -> Option<String> => super::escape::normalize_whitespace(t)
needs normalize_whitespace(&str) -> String
raw pub fn wrap_text(t: &str, p: &str, w: usize) -> Option<String> => super::wrap::wrap_text(t, p, w)
needs wrap_text(&str; &str; usize) -> String
raw pub fn wrap_text_first_line(t: &str, f: &str, p: &str, w: usize) -> Option<String> => super::wrap::wrap_text_first_line(t, f, p, w)
needs wrap_text_first_line(&str; &str; &str; usize) -> String
raw pub fn write_reference(l: &str, u: &str, t: &str) -> Option<String> => { let mut o = String::new(); super::Serializer::write_reference(&mut o, &super::ReferenceLink { label: l.to_string(), url: u.to_string(), title: t.to_string() }); o }
needs Serializer::write_reference(&mut String; &ReferenceLink)
raw pub fn extract_numeric_label(l: &str) -> Option<Option<u64>> => super::Serializer::extract_numeric_label(l)
needs Serializer::extract_numeric_label(&str) -> Option<u64>
raw pub fn flush_references(options: &crate::Options, refs: &[(String, String, String)]) -> Option<String> => { let mut s = super::Serializer::new(options, vec![], false); for (l, u, t) in refs { s.add_reference(l.clone(), u.clone(), t.clone()); } s.flush_references(); s.output }
needs Serializer::flush_references(&mut self) & Serializer::add_reference(&mut self; String; String; String) & Serializer::new(&Options; Vec<&str>; bool) -> Self
raw pub fn flush_footnotes(options: &crate::Options, notes: &[(String, String, usize)], lines: &[Option<usize>]) -> Option<String> => { let mut s = super::Serializer::new(options, vec![], false); for (n, c, l) in notes { s.footnotes.add(n.clone(), c.clone(), *l, false); } for l in lines { s.flush_footnotes_before(*l); } s.output }
needs Serializer::flush_footnotes_before(&mut self; Option<usize>) & FootnoteSet::add(&mut self; String; String; usize; bool) & Serializer::new(&Options; Vec<&str>; bool) -> Self

module wrap
fn wrap_single_segment(&str; &str; &str; usize) -> String

module table
fn format_cell_aligned(&str; usize; TableAlignment) -> String
fn count_unescaped_pipes(&str) -> usize

module code
fn parse_code_info(&str) -> (&str, &str, bool)
raw pub fn code_block(options: &crate::Options, which: u8, info: &str, literal: &str, indent: &str) -> Option<String> => { let mut s = super::Serializer::new(options, vec![], false); match which { 0 => s.serialize_code_block(info, literal), 1 => s.serialize_code_block_indented(info, literal, indent), _ => { let mut c = comrak::nodes::NodeCodeBlock::default(); c.info = info.to_string(); c.literal = literal.to_string(); s.serialize_code_block_with_indent(&c, indent) } } s.output }
needs Serializer::serialize_code_block(&mut self; &str; &str) & Serializer::serialize_code_block_indented(&mut self; &str; &str; &str) & Serializer::serialize_code_block_with_indent(&mut self; &NodeCodeBlock; &str) & Serializer::new(&Options; Vec<&str>; bool) -> Self

module punctuation
fn transform_punctuation(&str; &Options) -> String
fn transform_ellipsis(&str) -> String
fn transform_double_quotes(&str) -> String
fn transform_single_quotes(&str) -> String
fn transform_apostrophes(&str) -> String
fn transform_dashes(&str; &str; char) -> String

module link
fn Serializer::push_link_title(&mut String; &str)
fn Serializer::push_link_destination(&mut String; &str)
fn Serializer::push_link_target(&mut String; &str; &str)

module inline
fn Serializer::escape_text_preserving_source(&str; &str; &Options) -> String

module state
fn safe_str_slice(&str; usize; usize) -> &str
raw pub fn directive(h: &str) -> Option<Option<String>> => super::Directive::parse(h).map(|d| format!("{:?}", d))
needs Directive::parse(&str) -> Option<Self>

module heading
fn to_sentence_case(&str; &[String]; &[String]) -> String
