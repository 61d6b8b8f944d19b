//! derive(Parser) for a struct with named fields.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(Parser, attributes(command, arg, clap))]
pub fn parser(input: TokenStream) -> TokenStream {
    let mut name = String::new();
    let mut fields = Vec::new();
    let mut it = input.into_iter();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(i) if i.to_string() == "struct" => {
                if let Some(TokenTree::Ident(n)) = it.next() {
                    name = n.to_string();
                }
            }
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace && !name.is_empty() => {
                let (mut last, mut depth, mut seen) = (String::new(), 0i32, false);
                for t in g.stream() {
                    match t {
                        TokenTree::Punct(p) => match p.as_char() {
                            '<' => depth += 1,
                            '>' => depth -= 1,
                            ',' if depth == 0 => seen = false,
                            ':' if depth == 0 && !seen => {
                                seen = true;
                                fields.push(last.clone());
                            }
                            _ => {}
                        },
                        TokenTree::Ident(i) if !seen => last = i.to_string(),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    let f: String = fields.iter().map(|f| format!("{f}: ::clap::Field::field(),")).collect();
    format!("impl ::clap::Parser for {name} {{ fn parse() -> Self {{ {name} {{ {f} }} }} }}").parse().unwrap()
}
