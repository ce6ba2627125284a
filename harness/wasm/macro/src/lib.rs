//! Stand-in for the `#[wasm_bindgen]` attribute: the item stays as it is, and a function is also
//! entered in the table of exports under its JavaScript name.
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn wasm_bindgen(attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut js = None;
    let a: Vec<TokenTree> = attr.into_iter().collect();
    for w in a.windows(3) {
        if let (TokenTree::Ident(k), TokenTree::Punct(p), v) = (&w[0], &w[1], &w[2]) {
            if k.to_string() == "js_name" && p.as_char() == '=' {
                js = Some(v.to_string().trim_matches('"').to_string());
            }
        }
    }
    // the name of the function: the word after the first `fn` outside of any brackets
    let mut name = None;
    let mut after_fn = false;
    for t in item.clone() {
        if let TokenTree::Ident(i) = t {
            let i = i.to_string();
            if after_fn {
                name = Some(i);
                break;
            }
            match i.as_str() {
                "fn" => after_fn = true,
                "struct" | "enum" | "impl" | "mod" | "trait" | "type" | "static" => break,
                _ => (),
            }
        }
    }
    let mut out = item;
    if let Some(f) = name {
        let js = js.unwrap_or_else(|| f.clone());
        let code = format!(
            "const _: () = {{\n\
             extern \"C\" fn register() {{ ::wasm_bindgen::standin::export({js:?}, |s| ::wasm_bindgen::standin::Entry::call(&{f}, s)); }}\n\
             #[used] #[link_section = \".init_array\"] static REGISTER: extern \"C\" fn() = register;\n\
             }};"
        );
        out.extend(code.parse::<TokenStream>().unwrap());
    }
    out
}
