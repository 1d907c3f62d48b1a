// What CommonMark reads link targets and labels as, and how they are written.
// ---------------------------------------------------------------- specification

// ---- the reader: what CommonMark reads a link target as
pub open spec fn entch(c: char) -> bool { c_aalnum(c) || c == '#' }
/// what an ampersand is followed by makes it the start of an entity
pub open spec fn ent_name(s: Seq<char>) -> bool {
    let i = first_ix(s, ';');
    0 < i < s.len() && forall|j: int| 0 <= j < i ==> entch(#[trigger] s[j])
}
pub uninterp spec fn ent_other(name: Seq<char>) -> Seq<char>;
/// what an entity stands for (any entity but the two that the writer uses is left open)
pub open spec fn ent_s(name: Seq<char>) -> Seq<char> {
    if name == "amp"@ { seq!['&'] } else if name == "#10"@ { seq!['\n'] } else { ent_other(name) }
}
pub open spec fn pre(c: Seq<char>, r: Option<(Seq<char>, Seq<char>)>) -> Option<(Seq<char>, Seq<char>)> {
    match r { Some((a, b)) => Some((c + a, b)), None => None }
}
/// the rest of a title after its opening quote: the title, and what follows its closing quote
pub open spec fn read_t(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> decreases s.len() {
    if s.len() == 0 { None }
    else if s[0] == '"' { Some((Seq::empty(), s.skip(1))) }
    else if s[0] == '\\' && s.len() >= 2 && c_apunct(s[1]) { pre(seq![s[1]], read_t(s.skip(2))) }
    else if s[0] == '&' && ent_name(s.skip(1)) {
        let i = first_ix(s.skip(1), ';');
        if 0 < i && i + 2 <= s.len() { pre(ent_s(s.skip(1).take(i)), read_t(s.skip(i + 2))) } else { None }
    }
    else { pre(seq![s[0]], read_t(s.skip(1))) }
}
/// a destination without angle brackets, d parentheses deep: the destination and what follows it
pub open spec fn read_d(s: Seq<char>, d: int) -> Option<(Seq<char>, Seq<char>)> decreases s.len() {
    if s.len() == 0 { if d == 0 { Some((Seq::empty(), s)) } else { None } }
    else if s[0] == '\\' && s.len() >= 2 && c_apunct(s[1]) { pre(seq![s[1]], read_d(s.skip(2), d)) }
    else if s[0] == '(' { if d >= 32 { None } else { pre(seq!['('], read_d(s.skip(1), d + 1)) } }
    else if s[0] == ')' { if d == 0 { Some((Seq::empty(), s)) } else { pre(seq![')'], read_d(s.skip(1), d - 1)) } }
    else if s[0] == ' ' || c_acontrol(s[0]) { if d == 0 { Some((Seq::empty(), s)) } else { None } }
    else if s[0] == '&' && ent_name(s.skip(1)) {
        let i = first_ix(s.skip(1), ';');
        if 0 < i && i + 2 <= s.len() { pre(ent_s(s.skip(1).take(i)), read_d(s.skip(i + 2), d)) } else { None }
    }
    else { pre(seq![s[0]], read_d(s.skip(1), d)) }
}
pub open spec fn read_dest(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    if s.len() >= 1 && s[0] == '<' { if s.len() >= 2 && s[1] == '>' { Some((Seq::empty(), s.skip(2))) } else { None } }
    else if s.len() >= 1 && (s[0] == ' ' || c_acontrol(s[0])) { None }
    else { read_d(s, 0) }
}
/// `(destination "title")`: destination, title, and what follows
pub open spec fn read_target(s: Seq<char>) -> Option<(Seq<char>, Seq<char>, Seq<char>)> {
    if s.len() == 0 || s[0] != '(' { None }
    else {
        match read_dest(s.skip(1)) {
            None => None,
            Some((u, r)) =>
                if r.len() >= 1 && r[0] == ')' { Some((u, Seq::empty(), r.skip(1))) }
                else if r.len() >= 2 && r[0] == ' ' && r[1] == '"' {
                    match read_t(r.skip(2)) {
                        Some((t, q)) => if q.len() >= 1 && q[0] == ')' { Some((u, t, q.skip(1))) } else { None },
                        None => None,
                    }
                } else { None },
        }
    }
}
/// a URL as it is read back: what cannot stand in a destination is percent-encoded
pub open spec fn norm_c(c: char) -> Seq<char> {
    if c == ' ' { seq!['%', '2', '0'] } else if c == '<' { seq!['%', '3', 'C'] } else if c == '>' { seq!['%', '3', 'E'] }
    else if c_acontrol(c) { seq!['%'] + hex2_s(c as int) } else { seq![c] }
}
pub open spec fn norm(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { norm_c(s[0]) + norm(s.skip(1)) }
}

// ---- the writer
pub open spec fn wt_piece(s: Seq<char>) -> Seq<char> {
    if s[0] == '"' || s[0] == '\\' { seq!['\\', s[0]] }
    else if s[0] == '&' && ent_name(s.skip(1)) { "&amp;"@ }
    else if s[0] == '\n' { "&#10;"@ }
    else { seq![s[0]] }
}
pub open spec fn w_t(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { wt_piece(s) + w_t(s.skip(1)) }
}
/// parentheses are balanced, and never more than 32 deep
pub open spec fn bal(s: Seq<char>, d: int) -> bool decreases s.len() {
    if s.len() == 0 { d == 0 }
    else if s[0] == '(' { d < 32 && bal(s.skip(1), d + 1) }
    else if s[0] == ')' { d > 0 && bal(s.skip(1), d - 1) }
    else { bal(s.skip(1), d) }
}
pub open spec fn wd_piece(s: Seq<char>, b: bool) -> Seq<char> {
    if s[0] == ' ' || s[0] == '<' || s[0] == '>' || c_acontrol(s[0]) { norm_c(s[0]) }
    else if (s[0] == '(' || s[0] == ')') && !b { seq!['\\', s[0]] }
    else if s[0] == '\\' && !(s.len() >= 2 && c_alnum(s[1])) { seq!['\\', '\\'] }
    else if s[0] == '&' && ent_name(s.skip(1)) { "&amp;"@ }
    else { seq![s[0]] }
}
pub open spec fn w_d(s: Seq<char>, b: bool) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { wd_piece(s, b) + w_d(s.skip(1), b) }
}
pub open spec fn w_dest(u: Seq<char>) -> Seq<char> { if u.len() == 0 { "<>"@ } else { w_d(u, bal(u, 0)) } }
pub open spec fn w_title(t: Seq<char>) -> Seq<char> { if t.len() == 0 { Seq::empty() } else { " \""@ + w_t(t) + seq!['"'] } }
pub open spec fn w_target(u: Seq<char>, t: Seq<char>) -> Seq<char> {
    seq!['('] + (if u.len() == 0 && t.len() == 0 { Seq::empty() } else { w_dest(u) }) + w_title(t) + seq![')']
}

// ---- entities
/// alphanumeric characters and hashes up to a semicolon
pub open spec fn ent_tail(s: Seq<char>) -> bool decreases s.len() {
    s.len() > 0 && (s[0] == ';' || (entch(s[0]) && ent_tail(s.skip(1))))
}
pub proof fn lemma_ent_tail(s: Seq<char>)
    ensures
        ent_tail(s) == (first_ix(s, ';') < s.len() && forall|j: int| 0 <= j < first_ix(s, ';') ==> entch(#[trigger] s[j])),
        ent_name(s) == (s.len() > 0 && s[0] != ';' && ent_tail(s)),
    decreases s.len(),
{
    lemma_first_ix(s, ';');
    if s.len() > 0 && s[0] != ';' {
        let t = s.skip(1);
        lemma_ent_tail(t);
        lemma_first_ix(t, ';');
        let i = first_ix(s, ';');
        assert(i == 1 + first_ix(t, ';'));
        if ent_tail(s) {
            assert forall|j: int| 0 <= j < i implies entch(#[trigger] s[j]) by { if j > 0 { assert(s[j] == t[j - 1]); } }
        }
        if i < s.len() && (forall|j: int| 0 <= j < i ==> entch(#[trigger] s[j])) {
            assert(entch(s[0]));
            assert forall|j: int| 0 <= j < first_ix(t, ';') implies entch(#[trigger] t[j]) by { assert(t[j] == s[j + 1]); }
        }
    }
}
/// what the writer makes of a text does not turn a plain ampersand before it into an entity
pub proof fn lemma_tail_t(s: Seq<char>, x: Seq<char>)
    requires !ent_tail(s),
    ensures !ent_tail(w_t(s) + (seq!['"'] + x)),
    decreases s.len(),
{
    let q = seq!['"'] + x;
    if s.len() == 0 {
        assert(w_t(s) + q =~= q);
    } else {
        reveal_strlit("&amp;");
        reveal_strlit("&#10;");
        let w = w_t(s) + q;
        assert(w[0] == wt_piece(s)[0]);
        if entch(s[0]) {
            assert(wt_piece(s) == seq![s[0]]);
            lemma_tail_t(s.skip(1), x);
            assert(w.skip(1) =~= w_t(s.skip(1)) + q);
        }
    }
}
pub open spec fn ends_dest(x: Seq<char>) -> bool { x.len() == 0 || x[0] == ' ' || x[0] == ')' || x[0] == '\n' }
pub proof fn lemma_tail_d(s: Seq<char>, b: bool, x: Seq<char>)
    requires !ent_tail(s), ends_dest(x),
    ensures !ent_tail(w_d(s, b) + x),
    decreases s.len(),
{
    if s.len() == 0 {
        assert(w_d(s, b) + x =~= x);
    } else {
        reveal_strlit("&amp;");
        let w = w_d(s, b) + x;
        assert(w[0] == wd_piece(s, b)[0]);
        if entch(s[0]) {
            assert(wd_piece(s, b) == seq![s[0]]);
            lemma_tail_d(s.skip(1), b, x);
            assert(w.skip(1) =~= w_d(s.skip(1), b) + x);
        }
    }
}
pub proof fn lemma_amp(x: Seq<char>)
    ensures ({
        let s = "amp;"@ + x;
        ent_name(s) && first_ix(s, ';') == 3 && s.take(3) == "amp"@ && s.skip(4) == x
    }),
{
    reveal_strlit("amp;");
    reveal_strlit("amp");
    let s = "amp;"@ + x;
    lemma_first_ix(s, ';');
    assert(s[0] == 'a' && s[1] == 'm' && s[2] == 'p' && s[3] == ';');
    assert(first_ix(s, ';') == 3);
    assert(s.take(3) =~= "amp"@);
    assert(s.skip(4) =~= x);
}
pub proof fn lemma_lf(x: Seq<char>)
    ensures ({
        let s = "#10;"@ + x;
        ent_name(s) && first_ix(s, ';') == 3 && s.take(3) == "#10"@ && s.skip(4) == x
    }),
{
    reveal_strlit("#10;");
    reveal_strlit("#10");
    let s = "#10;"@ + x;
    lemma_first_ix(s, ';');
    assert(s[0] == '#' && s[1] == '1' && s[2] == '0' && s[3] == ';');
    assert(first_ix(s, ';') == 3);
    assert(s.take(3) =~= "#10"@);
    assert(s.skip(4) =~= x);
}

// ---- C18: what was written is read back
/// a title is read back as it was
pub proof fn lemma_title(s: Seq<char>, x: Seq<char>)
    ensures read_t(w_t(s) + (seq!['"'] + x)) == Some((s, x)),
    decreases s.len(),
{
    let q = seq!['"'] + x;
    let w = w_t(s) + q;
    if s.len() == 0 {
        assert(w =~= q);
        assert(q.skip(1) =~= x);
    } else {
        let t = s.skip(1);
        lemma_title(t, x);
        let v = w_t(t) + q;
        assert(w =~= wt_piece(s) + v);
        assert(seq![s[0]] + t =~= s);
        if s[0] == '"' || s[0] == '\\' {
            assert(w.skip(2) =~= v);
        } else if s[0] == '&' && ent_name(t) {
            reveal_strlit("&amp;");
            reveal_strlit("amp;");
            lemma_amp(v);
            assert(w.skip(1) =~= "amp;"@ + v);
            assert(w.skip(5) =~= v);
        } else if s[0] == '\n' {
            reveal_strlit("&#10;");
            reveal_strlit("#10;");
            reveal_strlit("amp");
            reveal_strlit("#10");
            lemma_lf(v);
            assert("#10"@[0] != "amp"@[0]);
            assert(w.skip(1) =~= "#10;"@ + v);
            assert(w.skip(5) =~= v);
        } else {
            assert(w.skip(1) =~= v);
            if s[0] == '&' {
                lemma_ent_tail(t);
                lemma_ent_tail(v);
                if ent_tail(t) {
                    assert(t[0] == ';');
                    assert(v[0] == ';');
                } else {
                    lemma_tail_t(t, x);
                }
            }
        }
    }
}
pub proof fn lemma_read_plain(a: Seq<char>, v: Seq<char>, d: int)
    requires forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) == '%' || c_aalnum(a[i]),
    ensures read_d(a + v, d) == pre(a, read_d(v, d)),
    decreases a.len(),
{
    let w = a + v;
    if a.len() == 0 {
        assert(w =~= v);
        match read_d(v, d) { Some((p, q)) => { assert(a + p =~= p); } None => {} }
    } else {
        let b = a.skip(1);
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]) == '%' || c_aalnum(b[i]) by { assert(b[i] == a[i + 1]); }
        lemma_read_plain(b, v, d);
        assert(w.skip(1) =~= b + v);
        assert(w[0] == a[0]);
        match read_d(v, d) { Some((p, q)) => { assert(seq![a[0]] + (b + p) =~= a + p); } None => {} }
    }
}
/// a destination is read back as the URL in its percent-encoded form
pub proof fn lemma_dest(s: Seq<char>, b: bool, d: int, x: Seq<char>)
    requires ends_dest(x), if b { bal(s, d) } else { d == 0 },
    ensures read_d(w_d(s, b) + x, d) == Some((norm(s), x)),
    decreases s.len(),
{
    broadcast use group_chars;
    reveal_strlit("&amp;");
    let w = w_d(s, b) + x;
    if s.len() == 0 {
        assert(w =~= x);
    } else {
        let t = s.skip(1);
        let c = s[0];
        let d2 = if c == '(' && b { d + 1 } else if c == ')' && b { d - 1 } else { d };
        lemma_dest(t, b, d2, x);
        let v = w_d(t, b) + x;
        assert(w =~= wd_piece(s, b) + v);
        assert(w[0] == wd_piece(s, b)[0]);
        if c == ' ' || c == '<' || c == '>' || c_acontrol(c) {
            lemma_read_plain(norm_c(c), v, d);
        } else if (c == '(' || c == ')') && !b {
            assert(w.skip(2) =~= v);
        } else if c == '\\' && !(s.len() >= 2 && c_alnum(s[1])) {
            assert(w.skip(2) =~= v);
        } else if c == '&' && ent_name(t) {
            reveal_strlit("&amp;");
            reveal_strlit("amp;");
            lemma_amp(v);
            assert(w.skip(1) =~= "amp;"@ + v);
            assert(w.skip(5) =~= v);
        } else {
            assert(w.skip(1) =~= v);
            if c == '&' {
                lemma_ent_tail(t);
                lemma_ent_tail(v);
                if ent_tail(t) {
                    assert(t[0] == ';');
                    assert(v[0] == ';');
                } else {
                    lemma_tail_d(t, b, x);
                }
            }
            if c == '\\' {
                assert(t[0] == s[1]);
                assert(wd_piece(t, b) == seq![t[0]]);
                assert(w[1] == v[0] && v[0] == t[0]);
            }
        }
    }
}
/// C18: the destination and title of an inline link or image are read back, whatever follows them
pub proof fn lemma_target(u: Seq<char>, t: Seq<char>, x: Seq<char>)
    ensures read_target(w_target(u, t) + x) == Some((norm(u), t, x)),
{
    let w = w_target(u, t) + x;
    let e = seq![')'] + x;
    let m = w_title(t) + e;
    reveal_strlit("<>");
    reveal_strlit(" \"");
    if t.len() == 0 { assert(m =~= e); }
    assert(ends_dest(m));
    assert(e.skip(1) =~= x);
    if u.len() == 0 && t.len() == 0 {
        assert(w.skip(1) =~= e);
        assert(t =~= Seq::<char>::empty());
    } else {
        let r = w.skip(1);
        assert(r =~= w_dest(u) + m);
        if u.len() == 0 {
            assert(r.skip(2) =~= m);
        } else {
            lemma_dest(u, bal(u, 0), 0, m);
            reveal_strlit("&amp;");
            assert(w_d(u, bal(u, 0)).len() > 0);
            assert(r[0] == wd_piece(u, bal(u, 0))[0]);
        }
        if t.len() > 0 {
            assert(m.skip(2) =~= w_t(t) + (seq!['"'] + e));
            lemma_title(t, e);
        } else {
            assert(t =~= Seq::<char>::empty());
        }
    }
}
/// a URL that needs no encoding is read back as it was
pub proof fn lemma_norm_id(u: Seq<char>)
    requires forall|i: int| 0 <= i < u.len() ==> (#[trigger] u[i]) != ' ' && u[i] != '<' && u[i] != '>' && !c_acontrol(u[i]),
    ensures norm(u) == u,
    decreases u.len(),
{
    if u.len() > 0 {
        let t = u.skip(1);
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) != ' ' && t[i] != '<' && t[i] != '>' && !c_acontrol(t[i]) by { assert(t[i] == u[i + 1]); }
        lemma_norm_id(t);
        assert(seq![u[0]] + t =~= u);
    } else {
        assert(norm(u) =~= u);
    }
}
/// what a link or image is written as: its text in brackets, then a target that is read back
pub open spec fn inline_rel(o: Seq<char>, open: Seq<char>, text: Seq<char>, url: Seq<char>, title: Seq<char>, r: Seq<char>) -> bool {
    exists|t: Seq<char>| r == o + open + text + seq![']'] + t && #[trigger] reads_back(t, url, title)
}
pub open spec fn reads_back(t: Seq<char>, url: Seq<char>, title: Seq<char>) -> bool {
    forall|x: Seq<char>| #[trigger] read_target(t + x) == Some((norm(url), title, x))
}
pub proof fn lemma_inline(o: Seq<char>, open: Seq<char>, text: Seq<char>, url: Seq<char>, title: Seq<char>)
    ensures inline_rel(o, open, text, url, title, o + open + text + seq![']'] + w_target(url, title)),
{
    assert forall|x: Seq<char>| #[trigger] read_target(w_target(url, title) + x) == Some((norm(url), title, x)) by { lemma_target(url, title, x); }
    assert(reads_back(w_target(url, title), url, title));
}

// ---- labels
/// no bracket that is not escaped
pub open spec fn no_br(s: Seq<char>, esc: bool) -> bool decreases s.len() {
    s.len() == 0 || ((esc || (s[0] != '[' && s[0] != ']')) && no_br(s.skip(1), !esc && s[0] == '\\'))
}
/// ends with a backslash that would escape what follows
pub open spec fn esc_end(s: Seq<char>, esc: bool) -> bool decreases s.len() {
    if s.len() == 0 { esc } else { esc_end(s.skip(1), !esc && s[0] == '\\') }
}
pub open spec fn all_ws(s: Seq<char>) -> bool decreases s.len() { s.len() == 0 || (c_ws(s[0]) && all_ws(s.skip(1))) }
pub open spec fn label_ok(s: Seq<char>) -> bool {
    no_br(s, false) && !all_ws(s) && !(s.len() > 0 && s[0] == '^') && s.len() <= 999
}
/// the rest of a link label after its opening bracket: the label, and what follows its closing bracket
pub open spec fn read_l(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> decreases s.len() {
    if s.len() == 0 || s[0] == '[' { None }
    else if s[0] == ']' { Some((Seq::empty(), s.skip(1))) }
    else if s[0] == '\\' && s.len() >= 2 && c_apunct(s[1]) { pre(seq![s[0], s[1]], read_l(s.skip(2))) }
    else { pre(seq![s[0]], read_l(s.skip(1))) }
}
/// C18: a text that is a valid label is read as that label
pub proof fn lemma_label(s: Seq<char>, x: Seq<char>)
    requires no_br(s, false), !esc_end(s, false),
    ensures read_l(s + (seq![']'] + x)) == Some((s, x)),
    decreases s.len(),
{
    let q = seq![']'] + x;
    let w = s + q;
    reveal_with_fuel(no_br, 3);
    reveal_with_fuel(esc_end, 3);
    if s.len() == 0 {
        assert(w =~= q);
        assert(q.skip(1) =~= x);
        assert(s =~= Seq::<char>::empty());
    } else {
        let t = s.skip(1);
        assert(w[0] == s[0]);
        assert(w.skip(1) =~= t + q);
        if s[0] == '\\' {
            assert(s.len() >= 2);
            assert(w[1] == s[1] && t[0] == s[1]);
            if c_apunct(s[1]) {
                assert(t.skip(1) =~= s.skip(2));
                lemma_label(s.skip(2), x);
                assert(w.skip(2) =~= s.skip(2) + q);
                assert(seq![s[0], s[1]] + s.skip(2) =~= s);
            } else {
                // an escaped character that is not punctuation is not a backslash either
                assert(no_br(t, false) && !esc_end(t, false));
                lemma_label(t, x);
                assert(seq![s[0]] + t =~= s);
            }
        } else {
            lemma_label(t, x);
            assert(seq![s[0]] + t =~= s);
        }
    }
}
