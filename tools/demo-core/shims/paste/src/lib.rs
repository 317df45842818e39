//! Stand-in for paste: `[<a b c>]` identifier concatenation only.
use proc_macro::{Delimiter, Group, Ident, TokenStream, TokenTree};
#[proc_macro]
pub fn paste(t: TokenStream) -> TokenStream {
    walk(t)
}
fn flat(t: TokenStream, out: &mut Vec<TokenTree>) {
    for x in t {
        match x {
            TokenTree::Group(g) if g.delimiter() == Delimiter::None => flat(g.stream(), out),
            x => out.push(x),
        }
    }
}
fn walk(t: TokenStream) -> TokenStream {
    t.into_iter()
        .map(|x| match x {
            TokenTree::Group(g) => {
                if g.delimiter() == Delimiter::Bracket {
                    let mut v = vec![];
                    flat(g.stream(), &mut v);
                    let is = |x: &TokenTree, c| matches!(x, TokenTree::Punct(p) if p.as_char() == c);
                    if v.len() > 2 && is(&v[0], '<') && is(&v[v.len() - 1], '>') {
                        let s: String = v[1..v.len() - 1].iter().map(|x| x.to_string()).collect();
                        return TokenTree::Ident(Ident::new(&s, v[1].span()));
                    }
                }
                let mut n = Group::new(g.delimiter(), walk(g.stream()));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            x => x,
        })
        .collect()
}
