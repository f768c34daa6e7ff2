
// ------------------------------------------------------------------- C13
// Contracts of syn, quote and proc_macro2: tokens are a sequence, parsing a
// type is a function of them that consumes at least one, and the text of a
// quote! is its words with the tokens of the values put in.
#[verifier::external_body] pub struct Tok {}
pub type Toks = Seq<Tok>;
/// The tokens a text is made of.
pub uninterp spec fn lexed(s: Str) -> Toks;

#[verifier::external_body] pub struct Error {}
#[verifier::external_body] pub struct Span {}
#[verifier::external_body] pub struct Ident {}
#[verifier::external_body] pub struct LitStr {}
#[verifier::external_body] pub struct Expr {}
#[verifier::external_body] pub struct Path {}
#[verifier::external_body] pub struct Brace {}
#[verifier::external_body] pub struct Token_Comma {}
#[verifier::external_body] pub struct Token_Eq {}
#[verifier::external_body] pub struct Token_Crate {}
#[verifier::external_body] pub struct StaticRest {}
/// A static item: everything but its name and its initial value is `rest`.
pub struct ItemStatic { pub ident: Ident, pub expr: Box<Expr>, pub rest: StaticRest }
pub mod token { pub use super::Brace; }
pub mod syn { use super::*; verus! {
    pub type Result<T> = core::result::Result<T, Error>;
    pub use super::{Ident, LitStr, Expr, token};
    #[verifier::external_body]
    pub fn parse<T: Parse>(t: TokenStream) -> (r: core::result::Result<T, Error>)
        ensures r is Ok <==> whole::<T>(t@) is Some, r is Ok ==> r->Ok_0 == whole::<T>(t@)->0 { unimplemented!() }
} }
pub mod proc_macro { pub use super::TokenStream; }
#[verifier::external_body] pub fn error_v() -> Error { unimplemented!() }
#[verifier::external_body] pub fn str_is(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }

impl Ident {
    pub uninterp spec fn name(&self) -> Str;
    #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() }
}
impl ToStr for Ident { open spec fn shown(&self) -> Str { self.name() }
    #[verifier::external_body] fn to_string_v(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn to_owned_v(&self) -> (r: String) { unimplemented!() } }
impl LitStr {
    pub uninterp spec fn text(&self) -> Str;
    #[verifier::external_body] pub fn new(s: &str, at: Span) -> (r: LitStr) ensures r.text() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn value(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: LitStr) ensures r == *self { unimplemented!() }
}

/// What is read from the front of the tokens, and what is left.
pub trait Parse: Sized {
    spec fn reads(s: Toks) -> Option<(Self, Toks)>;
    fn parse(input: &mut Stream) -> (r: syn::Result<Self>) ensures agrees(Self::reads(old(input)@), r, final(input)@);
}
pub open spec fn agrees<T>(o: Option<(T, Toks)>, r: syn::Result<T>, rest: Toks) -> bool {
    match o { Some((v, left)) => r is Ok && r->Ok_0 == v && rest == left, None => r is Err }
}
/// The whole input, nothing left.
pub open spec fn whole<T: Parse>(s: Toks) -> Option<T> { match T::reads(s) { Some((v, rest)) => if rest.len() == 0 { Some(v) } else { None }, None => None } }

macro_rules! leaf { ($($t:ident $f:ident),*) => { verus! { $(
    pub uninterp spec fn $f(s: Toks) -> Option<($t, Toks)>;
    impl Parse for $t { open spec fn reads(s: Toks) -> Option<($t, Toks)> { $f(s) }
        #[verifier::external_body] fn parse(input: &mut Stream) -> (r: syn::Result<Self>) { unimplemented!() } }
)* } } }
leaf! { Ident read_ident, LitStr read_lit, Expr read_expr, Token_Comma read_comma, Token_Eq read_eq, Token_Crate read_crate, ItemStatic read_static }
pub open spec fn shorter<T>(o: Option<(T, Toks)>, s: Toks) -> bool { match o { Some((_, rest)) => rest.len() < s.len(), None => true } }
pub axiom fn consumes(s: Toks) ensures
    shorter(read_ident(s), s), shorter(read_lit(s), s), shorter(read_expr(s), s), shorter(read_comma(s), s), shorter(read_eq(s), s),
    shorter(read_crate(s), s), shorter(read_path(s), s), match read_braces(s) { Some((_, _, rest)) => rest.len() < s.len(), None => true };
pub uninterp spec fn read_path(s: Toks) -> Option<(Path, Toks)>;
impl Path {
    #[verifier::external_body]
    pub fn parse_mod_style(input: &mut Stream) -> (r: syn::Result<Path>) ensures agrees(read_path(old(input)@), r, final(input)@) { unimplemented!() }
}

#[verifier::external_body] pub struct Stream {}
impl View for Stream { type V = Toks; uninterp spec fn view(&self) -> Toks; }
impl Stream {
    #[verifier::external_body] pub fn none_v() -> Stream { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn parse<T: Parse>(&mut self) -> (r: syn::Result<T>) ensures agrees(T::reads(old(self)@), r, final(self)@) { unimplemented!() }
    #[verifier::external_body] pub fn fork_parse<T: Parse>(&self) -> (r: syn::Result<T>)
        ensures r is Ok <==> T::reads(self@) is Some, r is Ok ==> r->Ok_0 == (T::reads(self@)->0).0 { unimplemented!() }
    #[verifier::external_body] pub fn lookahead1(&self) -> (r: Lookahead) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body] pub struct Lookahead {}
impl View for Lookahead { type V = Toks; uninterp spec fn view(&self) -> Toks; }
/// What can be told from the next token: whether it starts a T.
pub trait Peek: Parse { }
impl Peek for Ident {} impl Peek for LitStr {} impl Peek for Token_Crate {}
impl Lookahead {
    #[verifier::external_body] pub fn peek_v<T: Peek>(&self) -> (r: bool) ensures r == (T::reads(self@) is Some) { unimplemented!() }
    #[verifier::external_body] pub fn error(&self) -> Error { unimplemented!() }
}
/// Braces: their content, and what follows them.
pub uninterp spec fn read_braces(s: Toks) -> Option<(Brace, Toks, Toks)>;
#[verifier::external_body]
pub fn braced_v(input: &mut Stream, content: &mut Stream) -> (r: syn::Result<Brace>)
    ensures match read_braces(old(input)@) { Some((b, inner, rest)) => r is Ok && r->Ok_0 == b && final(content)@ == inner && final(input)@ == rest, None => r is Err } { unimplemented!() }

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(P)]
pub struct Punctuated<T, P> { t: Vec<T>, p: Vec<P> }
impl<T, P> View for Punctuated<T, P> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
/// The whole content as Ts with Ps between them, one more allowed at the end.
pub uninterp spec fn read_terminated<T, P>(s: Toks) -> Option<Punctuated<T, P>>;
impl<T: Parse, P: Parse> Punctuated<T, P> {
    #[verifier::external_body]
    pub fn parse_terminated(s: &mut Stream) -> (r: syn::Result<Self>)
        ensures r is Ok <==> read_terminated::<T, P>(old(s)@) is Some, r is Ok ==> r->Ok_0 == read_terminated::<T, P>(old(s)@)->0 { unimplemented!() }
}
impl<T, P> IntoIt for Punctuated<T, P> { type Item = T; open spec fn enumerates(self, s: Seq<T>) -> bool { self@ == s }
    #[verifier::external_body] fn into_iter_v(self) -> (r: Iter<T>) { unimplemented!() } }

// ---- quote
pub trait ToToks { spec fn toks(&self) -> Toks; }
pub uninterp spec fn ident_toks(n: Str) -> Toks;
pub uninterp spec fn text_toks(n: Str) -> Toks;
pub uninterp spec fn expr_toks(x: Expr) -> Toks;
pub uninterp spec fn path_toks(x: Path) -> Toks;
pub uninterp spec fn static_toks(rest: StaticRest, name: Str, value: Toks) -> Toks;
impl ToToks for Ident { open spec fn toks(&self) -> Toks { ident_toks(self.name()) } }
impl ToToks for LitStr { open spec fn toks(&self) -> Toks { text_toks(self.text()) } }
impl ToToks for Expr { open spec fn toks(&self) -> Toks { expr_toks(*self) } }
impl ToToks for Path { open spec fn toks(&self) -> Toks { path_toks(*self) } }
impl ToToks for ItemStatic { open spec fn toks(&self) -> Toks { static_toks(self.rest, self.ident.name(), self.expr.toks()) } }
impl<T: ToToks> ToToks for Box<T> { open spec fn toks(&self) -> Toks { (**self).toks() } }
impl<T: ToToks> ToToks for &T { open spec fn toks(&self) -> Toks { (**self).toks() } }
impl ToToks for TokenStream { open spec fn toks(&self) -> Toks { self@ } }

#[verifier::external_body] pub struct TokenStream {}
impl View for TokenStream { type V = Toks; uninterp spec fn view(&self) -> Toks; }
pub open spec fn each_of(s: Seq<Toks>, after: Toks) -> Toks decreases s.len() { if s.len() == 0 { Seq::empty() } else { each_of(s.drop_last(), after) + s.last() + after } }
pub open spec fn all_toks<T: ToToks>(s: Seq<T>) -> Seq<Toks> { s.map_values(|x: T| x.toks()) }
impl TokenStream {
    #[verifier::external_body] pub fn new_v() -> (r: TokenStream) ensures r@ == Seq::<Tok>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn w(self, s: &str) -> (r: TokenStream) ensures r@ == self@ + lexed(s@) { unimplemented!() }
    #[verifier::external_body] pub fn i<T: ToToks>(self, x: &T) -> (r: TokenStream) ensures r@ == self@ + x.toks() { unimplemented!() }
    #[verifier::external_body] pub fn each<T: ToToks>(self, x: &Vec<T>, s: &str) -> (r: TokenStream) ensures r@ == self@ + each_of(all_toks(x@), lexed(s@)) { unimplemented!() }
}
/// parse_quote!: the value whose tokens these are.
#[verifier::external_body] pub fn parse_quoted<T: ToToks>(t: TokenStream) -> (r: T) ensures r.toks() == t@ { unimplemented!() }

impl<K: Text, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn into_values(self) -> (r: Iter<V>)
        ensures r@.len() == ascending(self@.dom()).len(),
            forall|i: int| 0 <= i < r@.len() ==> self@.contains_key(ascending(self@.dom())[i]) && (#[trigger] r@[i]) == self@[ascending(self@.dom())[i]] { unimplemented!() }
}

// ---- arguments
//# item metriken-derive enum ArgName [syn]
pub‹(crate)› enum ArgName {
    Ident(Ident),
    Crate(Token_Crate),
}
//# end
impl ArgName {
    pub open spec fn said(self) -> Str { match self { ArgName::Ident(i) => i.name(), ArgName::Crate(_) => "crate"@ } }
    pub open spec fn read(s: Toks) -> Option<(ArgName, Toks)> {
        match read_ident(s) { Some((i, r)) => Some((ArgName::Ident(i), r)), None => match read_crate(s) { Some((c, r)) => Some((ArgName::Crate(c), r)), None => None } }
    }
}
/// Display for ArgName: the name itself.
impl ToStr for ArgName { open spec fn shown(&self) -> Str { self.said() }
    #[verifier::external_body] fn to_string_v(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn to_owned_v(&self) -> (r: String) { unimplemented!() } }
impl Parse for ArgName {
    open spec fn reads(s: Toks) -> Option<(ArgName, Toks)> { ArgName::read(s) }
//# item metriken-derive impl Parse for ArgName fn parse [syn]
    fn parse(input: &mut Stream) -> ‹syn::Result<Self>›«(r: syn::Result<Self>)» {
        let lookahead = input.lookahead1();
        Ok(match () {
            _ if lookahead.peek_v::<Ident>() => Self::Ident(input.parse()?),
            _ if lookahead.peek_v::<Token_Crate>() => Self::Crate(input.parse()?),
            _ => return Err(lookahead.error())
        })
    }
//# end
}

//# item metriken-derive struct SingleArg [syn]
pub‹(crate)› struct SingleArg<T> {
    pub ident: ArgName,
    pub eq: Token_Eq,
    pub value: T
}
//# end
/// A name, `=`, and a value.
pub open spec fn read_single<T>(s: Toks, value: spec_fn(Toks) -> Option<(T, Toks)>) -> Option<(SingleArg<T>, Toks)> {
    match ArgName::read(s) { None => None, Some((ident, s1)) => match read_eq(s1) { None => None, Some((eq, s2)) => match value(s2) { None => None,
        Some((value, s3)) => Some((SingleArg { ident, eq, value }, s3)) } } }
}
impl<T: Parse> Parse for SingleArg<T> {
    open spec fn reads(s: Toks) -> Option<(SingleArg<T>, Toks)> { read_single(s, |t: Toks| T::reads(t)) }
//# item metriken-derive impl<T: Parse> Parse for SingleArg<T> fn parse [syn]
    fn parse(input: &mut Stream) -> ‹syn::Result<Self>›«(r: syn::Result<Self>)» {
        Ok(Self {
            ident: input.parse()?,
            eq: input.parse()?,
            value: input.parse()?
        })
    }
//# end
}

//# item metriken-derive enum MetadataName [syn]
pub‹(crate)› enum MetadataName {
    Ident(syn::Ident),
    String(syn::LitStr),
}
//# end
impl MetadataName {
    /// The key it stands for.
    pub open spec fn key(self) -> Str { match self { MetadataName::Ident(i) => i.name(), MetadataName::String(s) => s.text() } }
    pub open spec fn read(s: Toks) -> Option<(MetadataName, Toks)> {
        match read_ident(s) { Some((i, r)) => Some((MetadataName::Ident(i), r)), None => match read_lit(s) { Some((c, r)) => Some((MetadataName::String(c), r)), None => None } }
    }
//# item metriken-derive impl MetadataName fn value [syn]
    pub fn value(&self) -> ‹String›«(r: String) ensures r@ == self.key()» {
        match self {
            Self::Ident(ident) => ident.to_string_v(),
            Self::String(string) => string.value()
        }
    }
//# end
//# item metriken-derive impl MetadataName fn to_literal [syn]
    pub fn to_literal(&self) -> ‹syn::LitStr›«(r: syn::LitStr) ensures r.text() == self.key()» {
        match self {
            Self::Ident(ident) => syn::LitStr::new(&ident.to_string_v(), ident.span()),
            Self::String(string) => string.clone()
        }
    }
//# end
}
impl Parse for MetadataName {
    open spec fn reads(s: Toks) -> Option<(MetadataName, Toks)> { MetadataName::read(s) }
//# item metriken-derive impl Parse for MetadataName fn parse [syn]
    fn parse(input: &mut Stream) -> ‹syn::Result<Self>›«(r: syn::Result<Self>)» {
        let lookahead = input.lookahead1();
        Ok(match () {
            _ if lookahead.peek_v::<syn::Ident>() => Self::Ident(input.parse()?),
            _ if lookahead.peek_v::<syn::LitStr>() => Self::String(input.parse()?),
            _ => return Err(lookahead.error())
        })
    }
//# end
}

//# item metriken-derive struct MetadataEntry [syn]
pub‹(crate)› struct MetadataEntry {
    pub name: MetadataName,
    pub eq: Token_Eq,
    pub value: syn::Expr
}
//# end
impl Parse for MetadataEntry {
    open spec fn reads(s: Toks) -> Option<(MetadataEntry, Toks)> {
        match MetadataName::read(s) { None => None, Some((name, s1)) => match read_eq(s1) { None => None, Some((eq, s2)) => match read_expr(s2) { None => None,
            Some((value, s3)) => Some((MetadataEntry { name, eq, value }, s3)) } } }
    }
//# item metriken-derive impl Parse for MetadataEntry fn parse [syn]
    fn parse(input: &mut Stream) -> ‹syn::Result<Self>›«(r: syn::Result<Self>)» {
        Ok(Self {
            name: input.parse()?,
            eq: input.parse()?,
            value: input.parse()?
        })
    }
//# end
}

//# item metriken-derive struct Metadata [syn]
pub‹(crate)› struct Metadata {
    pub brace: syn::token::Brace,
    pub entries: Punctuated<MetadataEntry, Token_Comma>
}
//# end
pub open spec fn read_metadata(s: Toks) -> Option<(Metadata, Toks)> {
    match read_braces(s) { None => None, Some((brace, inner, rest)) => match read_terminated::<MetadataEntry, Token_Comma>(inner) { None => None,
        Some(entries) => Some((Metadata { brace, entries }, rest)) } }
}
impl Parse for Metadata {
    open spec fn reads(s: Toks) -> Option<(Metadata, Toks)> { read_metadata(s) }
//# item metriken-derive impl Parse for Metadata fn parse [syn]
    fn parse(input: &mut Stream) -> ‹syn::Result<Self>›«(r: syn::Result<Self>)» {
        let mut content = Stream::none_v();

        Ok(Self {
            brace: braced_v(input, &mut content)?,
            entries: Punctuated::parse_terminated(&mut content)?
        })
    }
//# end
}

pub trait SingleArgExt {
    type Inner;
    spec fn held(&self) -> Option<SingleArg<Self::Inner>>;
    /// The first is kept; a second one is an error.
    fn insert_or_duplicate(&mut self, arg: SingleArg<Self::Inner>) -> (r: syn::Result<()>)
        ensures r is Ok <==> old(self).held() is None, r is Ok ==> final(self).held() == Some(arg);
}
impl<T> SingleArgExt for Option<SingleArg<T>> {
    type Inner = T;
    open spec fn held(&self) -> Option<SingleArg<T>> { *self }
//# item metriken-derive impl<T> SingleArgExt for Option<SingleArg<T>> fn insert_or_duplicate [syn]
    fn insert_or_duplicate(&mut self, arg: SingleArg<Self::Inner>) -> ‹syn::Result<()>›«(r: syn::Result<()>)» {
        match self {
            None => {
                *self = Some(arg);
                Ok(())
            }
            Some(_) => Err(error_v())
        }
    }
//# end
}

// ---- the argument list
//# item metriken-derive struct MetricArgs [syn]
«pub» struct MetricArgs {
    «pub» metadata: Option<SingleArg<Metadata>>,
    «pub» formatter: Option<SingleArg<Expr>>,
    «pub» krate: Option<SingleArg<Path>>,
    «pub» name: Option<SingleArg<Expr>>,
    «pub» description: Option<SingleArg<Expr>>
}
//# end
impl MetricArgs {
    /// derive(Default)
    #[verifier::external_body]
    pub fn default() -> (r: MetricArgs) ensures r == none_given() { unimplemented!() }
}
pub open spec fn none_given() -> MetricArgs { MetricArgs { metadata: None, formatter: None, krate: None, name: None, description: None } }

/// One argument as it was given.
pub enum Given { Metadata(SingleArg<Metadata>), Formatter(SingleArg<Expr>), Krate(SingleArg<Path>), Name(SingleArg<Expr>), Description(SingleArg<Expr>) }
pub open spec fn boxed<T>(o: Option<(SingleArg<T>, Toks)>, f: spec_fn(SingleArg<T>) -> Given) -> Option<(Given, Toks)> { match o { Some((x, r)) => Some((f(x), r)), None => None } }
/// The argument at the front; nothing if it is not one of the five or malformed.
pub open spec fn read_arg(s: Toks) -> Option<(Given, Toks)> {
    match ArgName::read(s) { None => None, Some((n, _)) => {
        if n.said() == "metadata"@ { boxed(read_single(s, |t: Toks| read_metadata(t)), |x: SingleArg<Metadata>| Given::Metadata(x)) }
        else if n.said() == "name"@ { boxed(read_single(s, |t: Toks| read_expr(t)), |x: SingleArg<Expr>| Given::Name(x)) }
        else if n.said() == "description"@ { boxed(read_single(s, |t: Toks| read_expr(t)), |x: SingleArg<Expr>| Given::Description(x)) }
        else if n.said() == "formatter"@ { boxed(read_single(s, |t: Toks| read_expr(t)), |x: SingleArg<Expr>| Given::Formatter(x)) }
        else if n.said() == "crate"@ { boxed(read_single(s, |t: Toks| read_path(t)), |x: SingleArg<Path>| Given::Krate(x)) }
        else { None } } }
}
pub proof fn names_differ() ensures
    "metadata"@ != "name"@, "metadata"@ != "description"@, "metadata"@ != "formatter"@, "metadata"@ != "crate"@, "name"@ != "description"@,
    "name"@ != "formatter"@, "name"@ != "crate"@, "description"@ != "formatter"@, "description"@ != "crate"@, "formatter"@ != "crate"@,
{
    reveal_strlit("metadata"); reveal_strlit("name"); reveal_strlit("description"); reveal_strlit("formatter"); reveal_strlit("crate");
    assert("metadata"@.len() == 8 && "name"@.len() == 4 && "description"@.len() == 11 && "formatter"@.len() == 9 && "crate"@.len() == 5);
}
pub proof fn arg_consumes(s: Toks) ensures shorter(read_arg(s), s) {
    consumes(s);
    if let Some((n, s1)) = ArgName::read(s) { consumes(s1); if let Some((e, s2)) = read_eq(s1) { consumes(s2); } }
}
/// All arguments: separated by commas, to the end.
pub open spec fn read_args(s: Toks, first: bool) -> Option<Seq<Given>> decreases s.len() {
    if s.len() == 0 { Some(Seq::empty()) } else {
        match (if first { Some(s) } else { match read_comma(s) { Some((_, r)) => Some(r), None => None } }) { None => None, Some(s1) =>
            match read_arg(s1) { None => None, Some((g, s2)) => if s2.len() < s.len() { then(g, read_args(s2, false)) } else { None } } }
    }
}
pub open spec fn then(g: Given, o: Option<Seq<Given>>) -> Option<Seq<Given>> { match o { Some(l) => Some(seq![g] + l), None => None } }
pub open spec fn after(done: Seq<Given>, o: Option<Seq<Given>>) -> Option<Seq<Given>> { match o { Some(l) => Some(done + l), None => None } }
pub open spec fn kind(g: Given) -> int { match g { Given::Metadata(_) => 0, Given::Formatter(_) => 1, Given::Krate(_) => 2, Given::Name(_) => 3, Given::Description(_) => 4 } }
/// No argument twice.
pub open spec fn once(l: Seq<Given>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> kind(#[trigger] l[i]) != kind(#[trigger] l[j]) }
/// The arguments are the given ones.
pub open spec fn holds(a: MetricArgs, l: Seq<Given>) -> bool {
    &&& once(l)
    &&& forall|i: int| 0 <= i < l.len() ==> match #[trigger] l[i] {
            Given::Metadata(x) => a.metadata == Some(x), Given::Formatter(x) => a.formatter == Some(x), Given::Krate(x) => a.krate == Some(x),
            Given::Name(x) => a.name == Some(x), Given::Description(x) => a.description == Some(x) }
    &&& a.metadata is Some ==> l.contains(Given::Metadata(a.metadata->0))
    &&& a.formatter is Some ==> l.contains(Given::Formatter(a.formatter->0))
    &&& a.krate is Some ==> l.contains(Given::Krate(a.krate->0))
    &&& a.name is Some ==> l.contains(Given::Name(a.name->0))
    &&& a.description is Some ==> l.contains(Given::Description(a.description->0))
}
pub open spec fn held(a: MetricArgs, g: Given) -> bool { match g {
    Given::Metadata(_) => a.metadata is Some, Given::Formatter(_) => a.formatter is Some, Given::Krate(_) => a.krate is Some, Given::Name(_) => a.name is Some, Given::Description(_) => a.description is Some } }
pub open spec fn with(a: MetricArgs, g: Given) -> MetricArgs { match g {
    Given::Metadata(x) => MetricArgs { metadata: Some(x), ..a }, Given::Formatter(x) => MetricArgs { formatter: Some(x), ..a }, Given::Krate(x) => MetricArgs { krate: Some(x), ..a },
    Given::Name(x) => MetricArgs { name: Some(x), ..a }, Given::Description(x) => MetricArgs { description: Some(x), ..a } } }
/// One more argument, of a kind not given so far.
pub proof fn one_more(a: MetricArgs, l: Seq<Given>, g: Given)
    requires holds(a, l), !held(a, g), ensures holds(with(a, g), l.push(g)),
{
    let m = l.push(g);
    assert(m[l.len() as int] == g);
    assert forall|x: Given| l.contains(x) implies m.contains(x) by { let i = choose|i: int| 0 <= i < l.len() && l[i] == x; assert(m[i] == x); }
}
/// Given a second time: whatever follows, some argument is there twice.
pub proof fn twice(a: MetricArgs, l: Seq<Given>, g: Given, rest: Seq<Given>)
    requires holds(a, l), held(a, g), ensures !once(l + (seq![g] + rest)),
{
    let x = match g { Given::Metadata(_) => Given::Metadata(a.metadata->0), Given::Formatter(_) => Given::Formatter(a.formatter->0), Given::Krate(_) => Given::Krate(a.krate->0),
        Given::Name(_) => Given::Name(a.name->0), Given::Description(_) => Given::Description(a.description->0) };
    let i = choose|i: int| 0 <= i < l.len() && l[i] == x;
    let m = l + (seq![g] + rest);
    assert(m[i] == x && m[l.len() as int] == g);
}
/// The step of the loop: the argument at the front joins those before it.
pub proof fn step(s0: Toks, s: Toks, s1: Toks, first: bool, done: Seq<Given>, a: MetricArgs)
    requires
        holds(a, done), read_args(s0, true) == after(done, read_args(s, first)), s.len() > 0,
        if first { s1 == s } else { read_comma(s) is Some && s1 == (read_comma(s)->0).1 },
    ensures
        read_arg(s1) is None ==> !valid_args(s0),
        read_arg(s1) is Some ==> {
            let (g, s2) = read_arg(s1)->0;
            &&& held(a, g) ==> !valid_args(s0)
            &&& !held(a, g) ==> holds(with(a, g), done.push(g)) && read_args(s0, true) == after(done.push(g), read_args(s2, false)) && s2.len() < s.len()
        },
{
    consumes(s);
    arg_consumes(s1);
    if let Some((g, s2)) = read_arg(s1) {
        if held(a, g) {
            if let Some(l) = read_args(s2, false) { twice(a, done, g, l); }
        } else {
            one_more(a, done, g);
            if let Some(l) = read_args(s2, false) { assert(done + (seq![g] + l) =~= done.push(g) + l); }
        }
    }
}
/// They are determined by what was given.
pub proof fn determined(a: MetricArgs, b: MetricArgs, l: Seq<Given>) requires holds(a, l), holds(b, l), ensures a == b {
    assert forall|x: Given| #[trigger] l.contains(x) implies exists|i: int| 0 <= i < l.len() && l[i] == x by {}
}
pub open spec fn valid_args(s: Toks) -> bool { read_args(s, true) is Some && once(read_args(s, true)->0) }
impl Parse for MetricArgs {
    open spec fn reads(s: Toks) -> Option<(MetricArgs, Toks)> {
        if valid_args(s) { Some((choose|a: MetricArgs| holds(a, read_args(s, true)->0), Seq::empty())) } else { None }
    }
//# item metriken-derive impl Parse for MetricArgs fn parse [syn]
    fn parse(input: &mut Stream) -> ‹syn::Result<Self>›«(r: syn::Result<Self>)» {
        let mut args = MetricArgs::default();
        let mut first = true;
        «let ghost s0 = input@; let ghost mut done: Seq<Given> = Seq::empty();»
        while !input.is_empty()
            «invariant s0 == old(input)@, holds(args, done), read_args(s0, true) == after(done, read_args(input@, first)), decreases input@.len()»
        {
            «let ghost s = input@; let ghost a0 = args; let ghost was = first; proof { consumes(s); }»
            if !first {
                let _: Token_Comma = input.parse()?;
            }
            first = false;
            «let ghost s1 = input@; proof { names_differ(); step(s0, s, s1, was, done, a0); if read_arg(s1) is Some { done = done.push((read_arg(s1)->0).0); } }»
            let arg: ArgName = input.fork_parse()?;
            {
                let m_0 = arg.to_string_v();
                if str_is(&m_0, "metadata") {
                    args.metadata.insert_or_duplicate(input.parse()?)?
                } else if str_is(&m_0, "name") {
                    args.name.insert_or_duplicate(input.parse()?)?
                } else if str_is(&m_0, "description") {
                    args.description.insert_or_duplicate(input.parse()?)?
                } else if str_is(&m_0, "formatter") {
                    args.formatter.insert_or_duplicate(input.parse()?)?
                } else if str_is(&m_0, "crate") {
                    let krate = SingleArg {
                        ident: input.parse()?,
                        eq: input.parse()?,
                        value: Path::parse_mod_style(input)?
                    };

                    args.krate.insert_or_duplicate(krate)?
                } else {
                    return Err(error_v())
                }
            }
        }

        «proof { assert(done + Seq::<Given>::empty() =~= done); determined(args, choose|a: MetricArgs| holds(a, read_args(s0, true)->0), done); assert(input@ =~= Seq::<Tok>::empty()); }»
        Ok(args)
    }
//# end
}

impl MetricArgs {
//# item metriken-derive impl MetricArgs fn crate_path [syn]
    fn crate_path(&mut self) -> ‹Path›«(r: Path)
        ensures *final(self) == (MetricArgs { krate: None, ..*old(self) }), r == crate_of(*old(self))» {
        match self.krate.take() {
            Some(krate) => krate.value,
            None => ‹proc_macro_crate::crate_name("metriken")
                .map(|krate| { match krate {
                    FoundCrate::Name(name) => {
                        assert_ne!(name, "");
                        Ident::new(&name, Span::call_site()).into_v()
                    }
                    FoundCrate::Itself => parse_quoted(TokenStream::new_v().w("metriken"))
                } })
                .unwrap_or(parse_quoted(TokenStream::new_v().w("metriken")))›«default_crate_v()»
        }
    }
//# end
}
/// What the crate is called here: the driver's part.
pub uninterp spec fn default_crate() -> Path;
#[verifier::external_body] pub fn default_crate_v() -> (r: Path) ensures r == default_crate() { unimplemented!() }
pub open spec fn crate_of(a: MetricArgs) -> Path { match a.krate { Some(k) => k.value, None => default_crate() } }

// ---- metadata
//# item metriken-derive struct MetadataMap [syn]
«pub» struct MetadataMap(«pub» BTreeMap<String, MetadataEntry>);
//# end
pub open spec fn keyed(m: Map<Str, MetadataEntry>, l: Seq<MetadataEntry>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> m.contains_key((#[trigger] l[i]).name.key()) && m[l[i].name.key()] == l[i]
    &&& forall|k: Str| #[trigger] m.contains_key(k) ==> l.contains(m[k]) && m[k].name.key() == k
    &&& distinct_keys(l)
}
pub open spec fn distinct_keys(l: Seq<MetadataEntry>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).name.key() != (#[trigger] l[j]).name.key() }
impl MetadataMap {
    /// derive(Default)
    #[verifier::external_body]
    pub fn default() -> (r: MetadataMap) ensures r.0@ == Map::<Str, MetadataEntry>::empty() { unimplemented!() }
//# item metriken-derive impl MetadataMap fn insert [syn]
    fn insert(&mut self, entry: MetadataEntry) -> ‹syn::Result<()>›«(r: syn::Result<()>)
        ensures r is Ok <==> !old(self).0@.contains_key(entry.name.key()), r is Ok ==> final(self).0@ == old(self).0@.insert(entry.name.key(), entry)»
    {
        {
            let k_0 = entry.name.value();
            if self.0.contains_key(&k_0) {
                return Err(error_v())
            } else {
                self.0.insert(k_0, entry);
            }
        }

        Ok(())
    }
//# end
}

// ---- the expansion
pub open spec fn key_value(e: MetadataEntry) -> Toks { Seq::<Tok>::empty() + text_toks(e.name.key()) + lexed("=>"@) + expr_toks(e.value) }
pub open spec fn key_values(l: Seq<MetadataEntry>) -> Seq<Toks> { l.map_values(|e: MetadataEntry| key_value(e)) }
/// The same entries, in some order.
pub open spec fn reordered(a: Seq<MetadataEntry>, b: Seq<MetadataEntry>) -> bool {
    &&& forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i])
    &&& forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i])
    &&& distinct_keys(a) && distinct_keys(b)
}
/// The initial value of the static: the declaration, then the value it was given.
pub open spec fn expansion(it: ItemStatic, a: MetricArgs, entries: Seq<MetadataEntry>) -> Toks {
    let krate = path_toks(crate_of(a));
    let none = Seq::<Tok>::empty();
    let private = none + krate + lexed(":: export"@);
    let name = match a.name { Some(n) => expr_toks(n.value), None => none + text_toks(it.ident.name()) };
    let description = match a.description { Some(d) => none + lexed("Some ("@) + expr_toks(d.value) + lexed(")"@), None => none + lexed("None"@) };
    let formatter = match a.formatter { Some(f) => expr_toks(f.value), None => none + krate + lexed(":: default_formatter"@) };
    none + lexed("{"@) + private + lexed(":: declare_metric_v1 ! { metric :"@) + ident_toks(it.ident.name()) + lexed(", name :"@) + name
        + lexed(", description :"@) + description + lexed(", metadata : {"@) + each_of(key_values(entries), lexed(","@)) + lexed("} , formatter :"@) + formatter + lexed(", } ;"@)
        + expr_toks(*it.expr) + lexed("}"@)
}
pub open spec fn given_entries(a: MetricArgs) -> Seq<MetadataEntry> { match a.metadata { Some(m) => m.value.entries@, None => Seq::empty() } }
/// The static is declared as the metric it was told to be, or refused.
pub open spec fn declared(attr: Toks, item: Toks, r: syn::Result<TokenStream>) -> bool {
    match (whole::<ItemStatic>(item), whole::<MetricArgs>(attr)) {
        (Some(it), Some(a)) => (r is Ok <==> distinct_keys(given_entries(a)))
            && (r is Ok ==> exists|l: Seq<MetadataEntry>| reordered(l, given_entries(a)) && r->Ok_0@ == Seq::<Tok>::empty() + static_toks(it.rest, it.ident.name(), #[trigger] expansion(it, a, l))),
        _ => r is Err,
    }
}
//# item metriken-derive src/metric.rs fn metric [syn]
pub ‹(crate)› fn metric(
    attr_: proc_macro::TokenStream,
    item_: proc_macro::TokenStream
) -> ‹syn::Result<TokenStream>›«(r: syn::Result<TokenStream>) ensures declared(attr_@, item_@, r)» {
    let mut item: ItemStatic = syn::parse(item_)?;
    let mut args: MetricArgs = syn::parse(attr_)?;
    «let ghost it = item; let ghost a = args;»

    let krate = args.crate_path();

    let static_name = &item.ident;
    let static_expr = &item.expr;
    let private: Path = parse_quoted(TokenStream::new_v().i(&krate).w(":: export"));

    let mut metadata = MetadataMap::default();
    if let Some(data) = args.metadata {
        let mut it_0 = (data.value.entries).into_iter_v(); «let ghost all = it_0@; let ghost mut n: int = 0;»
        loop «invariant whole::<ItemStatic>(item_@) == Some(it), whole::<MetricArgs>(attr_@) == Some(a), all == given_entries(a), 0 <= n <= all.len(), it_0@ == all.skip(n), keyed(metadata.0@, all.take(n)), ensures keyed(metadata.0@, all), decreases it_0@.len()» {
            match it_0.next() {
                None => { «proof { assert(all.take(n) =~= all); }» break; }
                Some(entry) => {
                    «proof { more_keyed(metadata.0@, all, n, entry); n = n + 1; }»
                    metadata.insert(entry)?;
                }
            }
        }
    }

    «proof { assert(keyed(metadata.0@, given_entries(a))); } let ghost none = Seq::<Tok>::empty();»
    let name: syn::Expr = args.name.map(|name «: SingleArg<Expr>»| «-> (r: Expr) ensures r == name.value» { name.value }).unwrap_or_else(|| «-> (r: Expr) ensures r.toks() == none + text_toks(it.ident.name())» {
        let name = syn::LitStr::new(&static_name.to_string_v(), static_name.span());
        parse_quoted(TokenStream::new_v().i(&name))
    });

    let description: syn::Expr = args
        .description
        .map(|p_0 «: SingleArg<Expr>»| «-> (r: Expr) ensures r.toks() == none + lexed("Some ("@) + expr_toks(p_0.value) + lexed(")"@)» { let SingleArg { value, .. } = p_0; parse_quoted(TokenStream::new_v().w("Some (").i(&value).w(")")) })
        .unwrap_or_else(|| «-> (r: Expr) ensures r.toks() == none + lexed("None"@)» { parse_quoted(TokenStream::new_v().w("None")) });

    let formatter = args
        .formatter
        .map(|fmt «: SingleArg<Expr>»| «-> (r: Expr) ensures r == fmt.value» { fmt.value })
        .unwrap_or_else(|| «-> (r: Expr) ensures r.toks() == none + path_toks(krate) + lexed(":: default_formatter"@)» { parse_quoted(TokenStream::new_v().i(&krate).w(":: default_formatter")) });

    let attrs: Vec<_> = metadata
        .0
        .into_values()
        .map(|entry «: MetadataEntry»| «-> (r: TokenStream) ensures r@ == key_value(entry)» {
            let key = entry.name.to_literal();
            let value = entry.value;

            TokenStream::new_v().i(&key).w("=>").i(&value)
        })
        .collect();
    «proof { listed(metadata.0@, given_entries(a), attrs@); }»

    item.expr = Box::new(parse_quoted(TokenStream::new_v().w("{").i(&private).w(":: declare_metric_v1 ! { metric :").i(&static_name).w(", name :").i(&name).w(", description :").i(&description).w(", metadata : {").each(&attrs, ",").w("} , formatter :").i(&formatter).w(", } ;").i(&static_expr).w("}")));
    «proof { let l = by_key(metadata.0@); assert(item.expr.toks() == expansion(it, a, l)); assert(reordered(l, given_entries(a))); }»

    Ok(TokenStream::new_v().i(&item))
}
//# end
/// The entries of the map in the order of its keys.
pub open spec fn by_key(m: Map<Str, MetadataEntry>) -> Seq<MetadataEntry> { ascending(m.dom()).map_values(|k: Str| m[k]) }
pub proof fn listed(m: Map<Str, MetadataEntry>, all: Seq<MetadataEntry>, attrs: Seq<TokenStream>)
    requires keyed(m, all), attrs.len() == ascending(m.dom()).len(), forall|i: int| 0 <= i < attrs.len() ==> (#[trigger] attrs[i])@ == key_value(m[ascending(m.dom())[i]]),
    ensures reordered(by_key(m), all), all_toks(attrs) == key_values(by_key(m)),
{
    ascending_lists(m.dom());
    let ks = ascending(m.dom()); let l = by_key(m);
    assert(all_toks(attrs) =~= key_values(l));
    assert forall|i: int| 0 <= i < l.len() implies all.contains(#[trigger] l[i]) && l[i].name.key() == ks[i] by { assert(ks.to_set().contains(ks[i])); assert(m.contains_key(ks[i])); }
    assert forall|i: int| 0 <= i < all.len() implies l.contains(#[trigger] all[i]) by {
        let k = all[i].name.key(); assert(m.contains_key(k)); assert(ks.to_set().contains(k));
        let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k; assert(l[j] == all[i]);
    }
}
/// The next entry joins the map, if its key is new.
pub proof fn more_keyed(m: Map<Str, MetadataEntry>, all: Seq<MetadataEntry>, n: int, e: MetadataEntry)
    requires 0 <= n < all.len(), e == all[n], keyed(m, all.take(n)),
    ensures m.contains_key(e.name.key()) ==> !distinct_keys(all), !m.contains_key(e.name.key()) ==> keyed(m.insert(e.name.key(), e), all.take(n + 1)),
{
    let k = e.name.key();
    if m.contains_key(k) {
        let i = choose|i: int| 0 <= i < all.take(n).len() && all.take(n)[i] == m[k];
        assert(all[i].name.key() == all[n].name.key());
    } else {
        let l = all.take(n + 1);
        let m2 = m.insert(k, e);
        assert forall|i: int| 0 <= i < l.len() implies m2.contains_key((#[trigger] l[i]).name.key()) && m2[l[i].name.key()] == l[i] by { if i < n { assert(l[i] == all.take(n)[i]); } }
        assert forall|x: Str| #[trigger] m2.contains_key(x) implies l.contains(m2[x]) && m2[x].name.key() == x by {
            if x == k { assert(l[n] == e); } else { let i = choose|i: int| 0 <= i < all.take(n).len() && all.take(n)[i] == m[x]; assert(l[i] == m[x]); }
        }
        assert forall|i: int, j: int| 0 <= i < j < l.len() implies (#[trigger] l[i]).name.key() != (#[trigger] l[j]).name.key() by {
            assert(l[i] == all.take(n)[i]);
            if j < n { assert(l[j] == all.take(n)[j]); }
        }
    }
}
