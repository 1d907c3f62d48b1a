// ---------------------------------------------------------------- the tree of comrak, as far as it is used
// The nodes are never changed by the formatter: a RefCell is read only (its borrow() gives the value).
#[derive(Clone, Copy)]
pub struct LineColumn { pub line: usize, pub column: usize }
#[derive(Clone, Copy)]
pub struct Sourcepos { pub start: LineColumn, pub end: LineColumn }
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum ListType { Bullet, Ordered }
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum AlertType { Note, Tip, Important, Warning, Caution }
#[derive(Clone, Copy)]
pub struct NodeList { pub list_type: ListType, pub tight: bool }
#[derive(Clone, Copy)]
pub struct NodeHeading { pub level: u8 }
#[derive(Clone, Copy)]
pub struct NodeTaskItem { pub symbol: Option<char> }
#[derive(Clone, Copy)]
pub struct NodeAlert { pub alert_type: AlertType }
pub struct NodeCodeBlock { pub info: String, pub literal: String }
pub struct NodeHtmlBlock { pub literal: String }
pub struct NodeCode { pub literal: String }
pub struct NodeLink { pub url: String, pub title: String }
pub struct NodeName { pub name: String }
pub struct NodeTable { x: u8 }
pub enum NodeValue {
    Document, FrontMatter(String), BlockQuote, List(NodeList), Item(NodeList), DescriptionList, DescriptionItem(NodeTable), DescriptionTerm,
    DescriptionDetails, CodeBlock(NodeCodeBlock), HtmlBlock(NodeHtmlBlock), Paragraph, Heading(NodeHeading), ThematicBreak,
    FootnoteDefinition(NodeName), Table(NodeTable), TableRow(bool), TableCell, Text(String), TaskItem(NodeTaskItem), SoftBreak, LineBreak,
    Code(NodeCode), HtmlInline(String), Emph, Strong, Link(NodeLink), Image(NodeLink), FootnoteReference(NodeName), Alert(NodeAlert), Other,
}
pub struct Ast { pub value: NodeValue, pub sourcepos: Sourcepos }
pub struct HdCell { pub v: Ast }
impl HdCell { pub fn borrow(&self) -> (r: &Ast) ensures *r == self.v { &self.v } }
pub struct AstNode<'b> { pub data: HdCell, pub x: std::marker::PhantomData<&'b u8> }
pub uninterp spec fn kids<'b>(n: &'b AstNode<'b>) -> Seq<&'b AstNode<'b>>;
pub uninterp spec fn prev<'b>(n: &'b AstNode<'b>) -> Option<&'b AstNode<'b>>;
pub uninterp spec fn height<'b>(n: &'b AstNode<'b>) -> nat;
impl<'b> AstNode<'b> {
    #[verifier::external_body]
    pub fn hd_children(&'b self) -> (r: Vec<&'b AstNode<'b>>) ensures r@ == kids(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn previous_sibling(&'b self) -> (r: Option<&'b AstNode<'b>>) ensures r == prev(self) { unimplemented!() }
}
pub open spec fn val<'b>(n: &'b AstNode<'b>) -> NodeValue { n.data.v.value }
pub open spec fn pos<'b>(n: &'b AstNode<'b>) -> Sourcepos { n.data.v.sourcepos }
pub open spec fn n_item<'b>(n: &'b AstNode<'b>) -> bool { val(n) is Item || val(n) is TaskItem }
pub open spec fn n_list<'b>(n: &'b AstNode<'b>) -> bool { val(n) is List }
// AXIOM: a tree: items are the children of lists; sizes and line numbers are far from the limits of machine integers
pub broadcast axiom fn ax_tree<'b>(n: &'b AstNode<'b>)
    ensures
        #[trigger] kids(n).len() <= 0x7fff_ffff, height(n) <= 0x7fff_ffff, pos(n).start.line <= 0x7fff_ffff, pos(n).end.line <= 0x7fff_ffff,
        forall|i: int| 0 <= i < kids(n).len() ==> height(#[trigger] kids(n)[i]) < height(n) && n_item(kids(n)[i]) == n_list(n);
