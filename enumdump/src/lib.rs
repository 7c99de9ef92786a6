//! `#[derive(EnumDump)]` records what an enum looks like when the derive sees it: the name,
//! documentation and discriminant of each variant, as `Self::DUMP`, and the attributes of the enum,
//! as `Self::ATTRS`.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(EnumDump)]
pub fn enum_dump(input: TokenStream) -> TokenStream {
    let mut name = String::new();
    let mut body = None;
    let mut attrs: Vec<String> = vec![];
    let mut it = input.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(i) if i.to_string() == "enum" => {
                name = it.next().unwrap().to_string();
            }
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => body = Some(g.stream()),
            // attributes of the enum, as the derive sees them (derives themselves left out)
            TokenTree::Group(g) if g.delimiter() == Delimiter::Bracket => {
                let t: String = g.stream().to_string().split_whitespace().collect();
                if !t.starts_with("derive(") {
                    attrs.push(format!("{t:?}"));
                }
            }
            _ => {}
        }
    }
    let mut out = String::new();
    let mut docs: Vec<String> = vec![];
    let mut variant: Option<String> = None;
    let mut flush = |docs: &mut Vec<String>, v: &mut Option<String>| {
        if let Some(v) = v.take() {
            // concat! joins the literals whatever their quoting
            let d = docs.join(", \"\\n\", ");
            out += &format!("(stringify!({v}), concat!({d}), {name}::{v} as i128),");
        }
        docs.clear();
    };
    let mut it = body.expect("enum body").into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                if let Some(TokenTree::Group(g)) = it.next() {
                    let v: Vec<TokenTree> = g.stream().into_iter().collect();
                    if v.len() == 3 && v[0].to_string() == "doc" {
                        docs.push(v[2].to_string());
                    }
                }
            }
            TokenTree::Punct(p) if p.as_char() == ',' => flush(&mut docs, &mut variant),
            TokenTree::Ident(i) if variant.is_none() => variant = Some(i.to_string()),
            _ => {}
        }
    }
    flush(&mut docs, &mut variant);
    format!("impl {name} {{ pub const DUMP: &'static [(&'static str, &'static str, i128)] = &[{out}]; pub const ATTRS: &'static [&'static str] = &[{}]; }}", attrs.join(", "))
        .parse()
        .unwrap()
}
