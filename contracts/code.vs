%% source src/serializer/code.rs
%% lib chars strs
%% method as_deref => hd_as_deref
%% path std::cmp::max => hd_max
%% impl Serializer => impl<'a> Serializer<'a>
%% item NO_FORMAT_KEYWORD
%% item FenceChar
%% derive Clone Copy
%% item MinFenceLength
%% derive Clone Copy
%% item Options
%% fields min_fence_length, default_language, space_after_fence, fence_char
%% item Serializer
%% fields output, options, in_block_quote, blockquote_prefix, blockquote_outer_indent
%% raw
// ---------------------------------------------------------------- specification
pub open spec fn has_word(s: Seq<Seq<char>>, w: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == w }
pub open spec fn first_word(s: Seq<char>) -> Seq<char> { if words_s(s).len() > 0 { words_s(s)[0] } else { Seq::<char>::empty() } }
/// what a configured formatter makes of the code, if it accepts it (external program)
pub uninterp spec fn formatted_s(language: Seq<char>, code: Seq<char>) -> Option<Seq<char>>;
pub open spec fn fence_s(c: char, n: nat) -> Seq<char> { rep_s(seq![c], n) }
/// A line closes a fence of n characters c (CommonMark, without the limit of three columns of indentation and without
/// looking at what follows the run: both only make fewer lines close it).
pub open spec fn may_close(line: Seq<char>, c: char, n: nat) -> bool { lead_run(trim_start_s(line), c) >= n }
/// C03: no line of the code closes the fence.
pub open spec fn fence_ok(code: Seq<char>, c: char, n: nat) -> bool {
    forall|i: int| 0 <= i < lines_s(code).len() ==> !may_close(#[trigger] lines_s(code)[i], c, n)
}
pub open spec fn shown_info(info: Seq<char>, o: Options) -> Seq<char> { if trim_s(info).len() == 0 { o.default_language@ } else { trim_s(info) } }
pub open spec fn language_s(info: Seq<char>, o: Options) -> Seq<char> { if first_word(trim_s(info)).len() == 0 { o.default_language@ } else { first_word(trim_s(info)) } }
pub open spec fn no_format(info: Seq<char>) -> bool { has_word(words_s(trim_s(info)), "hongdown-no-format"@) }
/// the code that is written: that of the document, unless a formatter for its language accepts it
pub open spec fn code_s(info: Seq<char>, code: Seq<char>, o: Options) -> Seq<char> {
    let l = language_s(info, o);
    if l.len() > 0 && !no_format(info) && formatted_s(l, code) is Some { formatted_s(l, code)->0 } else { code }
}
/// The fence character: the info string of a backtick fence cannot contain backticks.
pub open spec fn fence_char_ok(c: char, info: Seq<char>, o: Options) -> bool {
    (c == '~' || c == '`') && (c == '`' ==> !info.contains('`')) && (!info.contains('`') ==> c == (if o.fence_char is Tilde { '~' } else { '`' }))
}
/// the info string after the fence, which must not continue the fence
pub open spec fn info_s(info: Seq<char>, c: char, space: bool) -> Seq<char> {
    if info.len() == 0 { Seq::empty() } else if space || info[0] == c { seq![' '] + info } else { info }
}
/// The lines of the code, each after the prefix of the block quotes and the indent; empty lines lose trailing spaces.
pub open spec fn emit_s(out: Seq<char>, pre: Seq<char>, q: bool, indent: Seq<char>, lines: Seq<Seq<char>>) -> Seq<char> decreases lines.len() {
    if lines.len() == 0 { out } else {
        let o = emit_s(out, pre, q, indent, lines.drop_last());
        if lines.last().len() == 0 { blank_s(o, pre, q) } else { (o + pre + indent + lines.last()).push('\n') }
    }
}
pub open spec fn blank_s(out: Seq<char>, pre: Seq<char>, q: bool) -> Seq<char> {
    (if q { trim_end_c(out + pre, ' ') } else { out }).push('\n')
}
pub open spec fn quote_s(s: Serializer) -> Seq<char> { if s.in_block_quote { s.blockquote_outer_indent@ + s.blockquote_prefix@ } else { Seq::empty() } }
/// everything but the output (and the warnings) is as before
pub open spec fn same_state(a: Serializer, b: Serializer) -> bool {
    a.options == b.options && a.in_block_quote == b.in_block_quote && a.blockquote_prefix == b.blockquote_prefix
    && a.blockquote_outer_indent == b.blockquote_outer_indent
}
/// What is written for a code block between two fences of n characters c (q: prefix before the opening fence).
pub open spec fn fenced_s(out0: Seq<char>, q: Seq<char>, pre: Seq<char>, quoted: bool, indent: Seq<char>, i: Seq<char>, text: Seq<char>, space: bool, c: char, n: nat) -> Seq<char> {
    (emit_s((out0 + q + fence_s(c, n) + info_s(i, c, space)).push('\n'), pre, quoted, indent, lines_s(text)) + pre + indent + fence_s(c, n)).push('\n')
}
pub open spec fn fence_good(i: Seq<char>, text: Seq<char>, o: Options, c: char, n: nat) -> bool {
    fence_char_ok(c, i, o) && n >= o.min_fence_length.0 && fence_ok(text, c, n)
}
/// C03: the code (see code_s) and the info string between fences that no line of the code closes
pub open spec fn code_block_rel(out0: Seq<char>, out: Seq<char>, q: Seq<char>, pre: Seq<char>, quoted: bool, indent: Seq<char>, info: Seq<char>, code: Seq<char>, o: Options) -> bool {
    exists|c: char, n: nat| #[trigger] fence_good(shown_info(info, o), code_s(info, code, o), o, c, n)
        && out == fenced_s(out0, q, pre, quoted, indent, shown_info(info, o), code_s(info, code, o), o.space_after_fence, c, n)
}
/// The same inside the details of a definition list, where the indent contains the prefix of the block quotes.
pub open spec fn emit2_s(out: Seq<char>, indent: Seq<char>, lines: Seq<Seq<char>>) -> Seq<char> decreases lines.len() {
    if lines.len() == 0 { out } else {
        let o = emit2_s(out, indent, lines.drop_last());
        if lines.last().len() == 0 { (o + trim_end_s(indent)).push('\n') } else { (o + indent + lines.last()).push('\n') }
    }
}
pub open spec fn fenced2_s(out0: Seq<char>, indent: Seq<char>, i: Seq<char>, text: Seq<char>, space: bool, c: char, n: nat) -> Seq<char> {
    (emit2_s((out0 + fence_s(c, n) + info_s(i, c, space)).push('\n'), indent, lines_s(text)) + indent + fence_s(c, n)).push('\n')
}
pub open spec fn code_block2_rel(out0: Seq<char>, out: Seq<char>, indent: Seq<char>, info: Seq<char>, code: Seq<char>, o: Options) -> bool {
    exists|c: char, n: nat| #[trigger] fence_good(shown_info(info, o), code_s(info, code, o), o, c, n)
        && out == fenced2_s(out0, indent, shown_info(info, o), code_s(info, code, o), o.space_after_fence, c, n)
}
/// comrak's node, as far as it is used
pub struct NodeCodeBlock { pub info: String, pub literal: String }
/// C03: the opening fence is a run of exactly n fence characters: what follows it does not start with one.
pub proof fn lemma_info_ends_fence(info: Seq<char>, c: char, space: bool)
    requires c == '~' || c == '`',
    ensures info_s(info, c, space).len() > 0 ==> info_s(info, c, space)[0] != c,
{}
/// C03: without a formatter for its language a code block is written with its own code.
pub proof fn lemma_code_kept(info: Seq<char>, code: Seq<char>, o: Options)
    requires formatted_s(language_s(info, o), code) is None,
    ensures code_s(info, code, o) == code,
{}
/// C03: marked code is written as it is, whatever formatters there are.
pub proof fn lemma_no_format_kept(info: Seq<char>, code: Seq<char>, o: Options)
    requires no_format(info),
    ensures code_s(info, code, o) == code,
{}
pub proof fn lemma_lead_run(s: Seq<char>, c: char, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> s[j] == c, k < s.len() ==> s[k] != c,
    ensures lead_run(s, c) == k,
    decreases k,
{
    if k > 0 { assert(s.drop_first().len() == s.len() - 1); lemma_lead_run(s.drop_first(), c, k - 1); }
}
impl<'a> Serializer<'a> {
    #[verifier::external_body]
    fn try_format_code(&mut self, language: &str, code: &str) -> (r: Option<String>)
        ensures
            same_state(*old(self), *final(self)), final(self).output == old(self).output,
            r.dv() == formatted_s(language@, code@),
    { unimplemented!() }
}
%% fn parse_code_info
%% ret r
%% spec
    ensures
        r.0@ == first_word(trim_s(info@)), r.1@ == trim_s(info@), r.2 == has_word(words_s(trim_s(info@)), "hongdown-no-format"@),
%% opt str_eq
%% at start
    broadcast use lemma_views_at;
%% fn FenceChar::as_char
%% ret r
%% spec
    ensures r == (if self is Tilde { '~' } else { '`' }),
%% fn MinFenceLength::get
%% ret r
%% spec
    ensures r == self.0,
%% fn Serializer::fence_char_for
%% ret r
%% spec
    ensures fence_char_ok(r, info@, *self.options),
%% fn Serializer::push_block_quote_prefix
%% from src/serializer/block.rs
%% spec
    ensures
        same_state(*old(self), *final(self)),
        final(self).output@ == old(self).output@ + quote_s(*old(self)),
%% fn Serializer::push_blank_block_quote_line
%% from src/serializer/block.rs
%% spec
    ensures
        same_state(*old(self), *final(self)),
        final(self).output@ == blank_s(old(self).output@, quote_s(*old(self)), old(self).in_block_quote),
%% fn Serializer::serialize_code_block
%% spec
    ensures
        same_state(*old(self), *final(self)),
        code_block_rel(old(self).output@, final(self).output@, quote_s(*old(self)), quote_s(*old(self)), old(self).in_block_quote, Seq::<char>::empty(), info@, literal@, *old(self).options),
%% loop 0
    invariant
        views(hdc0@) == lines_s(content@), same_state(*old(self), *self), self.output@ == old(self).output@,
        hdm1.is_some() ==> hdm1->0 <= 0x7fff_ffff_ffff_ffff,
        forall|hdj: int| 0 <= hdj < hdk1 ==> lead_run(trim_start_s(#[trigger] hdc0@[hdj]@), fence_char) <= (match hdm1 { Some(x) => x as nat, None => 0 }),
%% at loop 0 end
    proof {
        let t = trim_start_s(hdc0@[hdk1 as int]@);
        if hdo1 is Some { lemma_lead_run(t, fence_char, hdo1->0 as int); }
    }
%% at start
    broadcast use lemma_views_at;
%% at loop 1 before
    let ghost hd_o = self.output@;
    proof {
        assert(hd_o =~= (old(self).output@ + quote_s(*old(self)) + fence_s(fence_char, fence_length as nat)
            + info_s(output_info@, fence_char, old(self).options.space_after_fence)).push('\n'));
    }
%% loop 1
    invariant
        views(hdv4@) == lines_s(content@), same_state(*old(self), *self),
        self.output@ == emit_s(hd_o, quote_s(*old(self)), old(self).in_block_quote, Seq::<char>::empty(), lines_s(content@).take(hdn_hdk4 as int)),
%% at loop 1 start
    let ghost hd_l = lines_s(content@).take(hdk4 + 1);
    proof {
        assert(hd_l.drop_last() =~= lines_s(content@).take(hdk4 as int));
        assert(hd_l.last() == hdv4@[hdk4 as int]@);
    }
%% at loop 1 after
    proof { assert(lines_s(content@).take(hdn_hdk4 as int) =~= lines_s(content@)); }
%% at end
    proof {
        let i = shown_info(info@, *old(self).options);
        assert(i == output_info@);
        assert(content@ == code_s(info@, literal@, *old(self).options));
        assert(fence_good(i, content@, *old(self).options, fence_char, fence_length as nat));
        assert(self.output@ =~= fenced_s(old(self).output@, quote_s(*old(self)), quote_s(*old(self)), old(self).in_block_quote, Seq::<char>::empty(), i, content@, old(self).options.space_after_fence, fence_char, fence_length as nat));
    }
%% fn Serializer::serialize_code_block_indented
%% spec
    ensures
        same_state(*old(self), *final(self)),
        code_block_rel(old(self).output@, final(self).output@, Seq::<char>::empty(), quote_s(*old(self)), old(self).in_block_quote, indent@, info@, literal@, *old(self).options),
%% loop 0
    invariant
        views(hdc0@) == lines_s(content@), same_state(*old(self), *self), self.output@ == old(self).output@,
        hdm1.is_some() ==> hdm1->0 <= 0x7fff_ffff_ffff_ffff,
        forall|hdj: int| 0 <= hdj < hdk1 ==> lead_run(trim_start_s(#[trigger] hdc0@[hdj]@), fence_char) <= (match hdm1 { Some(x) => x as nat, None => 0 }),
%% at loop 0 end
    proof {
        let t = trim_start_s(hdc0@[hdk1 as int]@);
        if hdo1 is Some { lemma_lead_run(t, fence_char, hdo1->0 as int); }
    }
%% at start
    broadcast use lemma_views_at;
%% at loop 1 before
    let ghost hd_o = self.output@;
    proof {
        assert(hd_o =~= (old(self).output@ + Seq::<char>::empty() + fence_s(fence_char, fence_length as nat)
            + info_s(output_info@, fence_char, old(self).options.space_after_fence)).push('\n'));
    }
%% loop 1
    invariant
        views(hdv4@) == lines_s(content@), same_state(*old(self), *self),
        self.output@ == emit_s(hd_o, quote_s(*old(self)), old(self).in_block_quote, indent@, lines_s(content@).take(hdn_hdk4 as int)),
%% at loop 1 start
    let ghost hd_l = lines_s(content@).take(hdk4 + 1);
    proof {
        assert(hd_l.drop_last() =~= lines_s(content@).take(hdk4 as int));
        assert(hd_l.last() == hdv4@[hdk4 as int]@);
    }
%% at loop 1 after
    proof { assert(lines_s(content@).take(hdn_hdk4 as int) =~= lines_s(content@)); }
%% at end
    proof {
        let i = shown_info(info@, *old(self).options);
        assert(i == output_info@);
        assert(content@ == code_s(info@, literal@, *old(self).options));
        assert(fence_good(i, content@, *old(self).options, fence_char, fence_length as nat));
        assert(self.output@ =~= fenced_s(old(self).output@, Seq::<char>::empty(), quote_s(*old(self)), old(self).in_block_quote, indent@, i, content@, old(self).options.space_after_fence, fence_char, fence_length as nat));
    }
%% fn Serializer::serialize_code_block_with_indent
%% spec
    ensures
        same_state(*old(self), *final(self)),
        code_block2_rel(old(self).output@, final(self).output@, indent@, code.info@, code.literal@, *old(self).options),
%% loop 0
    invariant
        views(hdc0@) == lines_s(literal@), same_state(*old(self), *self), self.output@ == old(self).output@,
        hdm1.is_some() ==> hdm1->0 <= 0x7fff_ffff_ffff_ffff,
        forall|hdj: int| 0 <= hdj < hdk1 ==> lead_run(trim_start_s(#[trigger] hdc0@[hdj]@), fence_char) <= (match hdm1 { Some(x) => x as nat, None => 0 }),
%% at loop 0 end
    proof {
        let t = trim_start_s(hdc0@[hdk1 as int]@);
        if hdo1 is Some { lemma_lead_run(t, fence_char, hdo1->0 as int); }
    }
%% at start
    broadcast use lemma_views_at;
%% at loop 1 before
    let ghost hd_o = self.output@;
    proof {
        assert(hd_o =~= (old(self).output@ + fence_s(fence_char, fence_length as nat)
            + info_s(output_info@, fence_char, old(self).options.space_after_fence)).push('\n'));
    }
%% loop 1
    invariant
        views(hdv4@) == lines_s(literal@), same_state(*old(self), *self),
        self.output@ == emit2_s(hd_o, indent@, lines_s(literal@).take(hdk4 as int)),
%% at loop 1 start
    let ghost hd_l = lines_s(literal@).take(hdk4 + 1);
    proof {
        assert(hd_l.drop_last() =~= lines_s(literal@).take(hdk4 as int));
        assert(hd_l.last() == hdv4@[hdk4 as int]@);
    }
%% at loop 1 after
    proof { assert(lines_s(literal@).take(hdv4.len() as int) =~= lines_s(literal@)); }
%% at end
    proof {
        let i = shown_info(code.info@, *old(self).options);
        assert(i == output_info@);
        assert(literal@ == code_s(code.info@, code.literal@, *old(self).options));
        assert(fence_good(i, literal@, *old(self).options, fence_char, fence_length as nat));
        assert(self.output@ =~= fenced2_s(old(self).output@, indent@, i, literal@, old(self).options.space_after_fence, fence_char, fence_length as nat));
    }
