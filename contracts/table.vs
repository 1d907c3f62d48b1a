%% source src/serializer/table.rs
%% lib chars strs
%% raw
// ---------------------------------------------------------------- specification
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum TableAlignment { None, Left, Center, Right }
pub open spec fn sp(n: nat) -> Seq<char> { rep_s(seq![' '], n) }
/// the spaces before and after a cell of a column
pub open spec fn pad_s(c: Seq<char>, width: nat) -> nat { if str_width(c) < width { (width - str_width(c)) as nat } else { 0 } }
/// the text of a cell between spaces that fill the column; on which side depends on the alignment
pub open spec fn cell_rel(c: Seq<char>, width: nat, a: TableAlignment, r: Seq<char>) -> bool {
    exists|l: nat, t: nat| {
        &&& #[trigger] padded(l, c, t) == r
        &&& l + t == pad_s(c, width)
        &&& (a is Left || a is None ==> l == 0)
        &&& (a is Right ==> t == 0)
        &&& (a is Center ==> l <= t + 1 && t <= l + 1)
    }
}
pub open spec fn padded(l: nat, c: Seq<char>, t: nat) -> Seq<char> { sp(l) + c + sp(t) }
/// C04: a formatted cell is as wide as its column, or as its text where that is wider.
pub proof fn lemma_cell_width(c: Seq<char>, width: nat, a: TableAlignment, r: Seq<char>)
    requires cell_rel(c, width, a, r),
    ensures str_width(r) == (if str_width(c) < width { width } else { str_width(c) }),
{
    let (l, t) = choose|l: nat, t: nat| #[trigger] padded(l, c, t) == r && l + t == pad_s(c, width);
    ax_width_pad_right(sp(l) + c, t);
    ax_width_pad_left(c, l);
}
/// C04: two cells of a column that is wide enough for both are equally wide.
pub proof fn lemma_cells_align(c: Seq<char>, d: Seq<char>, width: nat, a: TableAlignment, r: Seq<char>, q: Seq<char>)
    requires cell_rel(c, width, a, r), cell_rel(d, width, a, q), str_width(c) <= width, str_width(d) <= width,
    ensures str_width(r) == str_width(q), str_width(r) == width,
{
    lemma_cell_width(c, width, a, r);
    lemma_cell_width(d, width, a, q);
}
pub proof fn lemma_sp0(c: Seq<char>)
    ensures sp(0) + c == c, c + sp(0) == c,
{
    assert(sp(0) =~= Seq::<char>::empty());
    assert(sp(0) + c =~= c);
    assert(c + sp(0) =~= c);
}
/// the pipes that do not follow a backslash
pub open spec fn pipes_s(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 }
    else { pipes_s(s.drop_last()) + (if s.last() == '|' && (s.len() < 2 || s[s.len() - 2] != '\\') { 1nat } else { 0nat }) }
}
pub proof fn lemma_pipes_bound(s: Seq<char>)
    ensures pipes_s(s) <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_pipes_bound(s.drop_last()); }
}
%% fn format_cell_aligned
%% ret r
%% spec
    ensures cell_rel(content@, width as nat, alignment, r@),
%% at result
    proof {
        lemma_sp0(content@);
        let p = pad_s(content@, width as nat);
        let (l, t) = match alignment {
            TableAlignment::Right => (p, 0nat),
            TableAlignment::Center => if padded(p / 2, content@, (p - p / 2) as nat) == hdr@ { (p / 2, (p - p / 2) as nat) } else { ((p - p / 2) as nat, p / 2) },
            _ => (0nat, p),
        };
        lemma_sp0(sp(l) + content@);
        assert(padded(l, content@, t) =~= hdr@);
    }

%% fn count_unescaped_pipes
%% ret r
%% spec
    ensures r == pipes_s(line@),
%% loop 0
    invariant
        hdv0@ == line@, line@.len() <= 0x7fff_ffff_ffff_ffff,
        count == pipes_s(line@.take(hdk0 as int)), count <= hdk0,
        prev_char == (if hdk0 == 0 { None::<char> } else { Some(line@[hdk0 - 1]) }),
%% at loop 0 start
    proof {
        assert(line@.take(hdk0 as int + 1).drop_last() =~= line@.take(hdk0 as int));
        lemma_pipes_bound(line@.take(hdk0 as int));
    }
%% at loop 0 after
    proof { assert(line@.take(line@.len() as int) =~= line@); }
