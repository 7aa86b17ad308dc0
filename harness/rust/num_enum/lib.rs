//! The one thing generated code uses of num_enum: TryFrom<u32> for enums with given values.
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_derive(TryFromPrimitive)]
pub fn derive(input: TokenStream) -> TokenStream {
    let mut name = None;
    let mut after = false;
    let mut variants = Vec::new();
    for t in input {
        match t {
            TokenTree::Ident(i) if i.to_string() == "enum" => after = true,
            TokenTree::Ident(i) if after && name.is_none() => name = Some(i.to_string()),
            TokenTree::Group(g) if name.is_some() => {
                let mut last = None;
                let mut given = None;
                let mut next = 0u32;
                let mut eq = false;
                for t in g.stream() {
                    match t {
                        TokenTree::Ident(i) => last = Some(i.to_string()),
                        TokenTree::Punct(p) if p.as_char() == '=' => eq = true,
                        TokenTree::Literal(l) if eq => given = l.to_string().parse::<u32>().ok(),
                        TokenTree::Punct(p) if p.as_char() == ',' => {
                            if let Some(v) = last.take() {
                                let n = given.take().unwrap_or(next);
                                variants.push((v, n));
                                next = n + 1;
                            }
                            eq = false;
                        }
                        _ => {}
                    }
                }
                if let Some(v) = last {
                    variants.push((v, given.unwrap_or(next)));
                }
            }
            _ => {}
        }
    }
    let name = name.expect("an enum");
    let arms: String = variants.iter().map(|(v, n)| format!("{n} => Ok({name}::{v}),")).collect();
    format!("impl ::core::convert::TryFrom<u32> for {name} {{ type Error = u32; fn try_from(n: u32) -> Result<Self, u32> {{ match n {{ {arms} _ => Err(n) }} }} }}").parse().unwrap()
}
