//! Stands in for the `shank` derive macros, which are not available offline:
//! from the `#[account(N, ..., name = "x")]` attributes of each variant V it
//! makes `accounts::VAccounts` with one `&AccountInfo` per name, and
//! `VAccounts::context`, which takes the first accounts of the list in order.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(ShankInstruction, attributes(account, num_enum))]
pub fn instruction(_: TokenStream) -> TokenStream { TokenStream::new() }

fn name(t: TokenStream) -> Option<String> {
    let v: Vec<TokenTree> = t.into_iter().collect();
    (0..v.len()).find(|&i| v[i].to_string() == "name").map(|i| v[i + 2].to_string().trim_matches('"').to_string())
}
#[proc_macro_derive(ShankContext, attributes(account, num_enum))]
pub fn context(input: TokenStream) -> TokenStream {
    let body = input.into_iter().find_map(|t| match t { TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => Some(g.stream()), _ => None }).unwrap();
    let mut out = String::from("pub mod accounts { use super::*; pub struct Context<'a, T> { pub accounts: T, pub remaining_accounts: &'a [AccountInfo] }\n");
    let (mut names, mut attr) = (Vec::new(), false);
    for t in body {
        match t {
            TokenTree::Punct(p) if p.as_char() == '#' => attr = true,
            TokenTree::Group(g) if attr => {
                attr = false;
                let v: Vec<TokenTree> = g.stream().into_iter().collect();
                if v[0].to_string() == "account" { if let TokenTree::Group(g) = &v[1] { names.extend(name(g.stream())) } }
            },
            TokenTree::Ident(i) => {
                let (n, v) = (names.len(), i.to_string());
                out += &format!("pub struct {v}Accounts<'a> {{ {} }}\n", names.iter().map(|x| format!("pub {x}: &'a AccountInfo, ")).collect::<String>());
                out += &format!("impl<'a> {v}Accounts<'a> {{ pub fn context(accounts: &'a [AccountInfo]) -> Result<Context<'a, Self>, ProgramError> {{
                    if accounts.len() < {n} {{ return Err(ProgramError::NotEnoughAccountKeys) }}
                    Ok(Context {{ accounts: {v}Accounts {{ {} }}, remaining_accounts: &accounts[{n}..] }}) }} }}\n",
                    names.iter().enumerate().map(|(i, x)| format!("{x}: &accounts[{i}], ")).collect::<String>());
                names.clear();
            },
            _ => {},
        }
    }
    out += "}";
    out.parse().unwrap()
}
