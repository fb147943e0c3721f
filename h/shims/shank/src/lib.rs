//! Offline stand-in for the `shank` derive macros that /repo/program uses (the git dependency is
//! not in the cargo cache).  `ShankContext` generates, for every instruction variant, a struct with
//! one `&AccountInfo` per `#[account(i, .., name = "..")]` attribute and a `context` constructor
//! that fails with NotEnoughAccountKeys when too few accounts are supplied; `ShankInstruction` only
//! describes the IDL, so it expands to nothing.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, punctuated::Punctuated, DeriveInput, Expr, Lit, Token};

#[proc_macro_derive(ShankInstruction, attributes(account, args, idl_instruction))]
pub fn shank_instruction(_i: TokenStream) -> TokenStream {
    TokenStream::new()
}

#[proc_macro_derive(ShankContext, attributes(account, args, idl_instruction))]
pub fn shank_context(i: TokenStream) -> TokenStream {
    let input = parse_macro_input!(i as DeriveInput);
    let data = match input.data {
        syn::Data::Enum(e) => e,
        _ => panic!("enum expected"),
    };
    let mut out = Vec::new();
    for v in data.variants.iter() {
        let mut fields: Vec<(usize, syn::Ident)> = Vec::new();
        for a in v.attrs.iter().filter(|a| a.path().is_ident("account")) {
            let mut idx = None;
            let mut name = None;
            let items = a
                .parse_args_with(Punctuated::<Expr, Token![,]>::parse_terminated)
                .expect("account attribute");
            for it in items.iter() {
                match it {
                    Expr::Lit(l) => {
                        if let Lit::Int(n) = &l.lit {
                            idx = Some(n.base10_parse::<usize>().unwrap())
                        }
                    }
                    Expr::Assign(a) => {
                        if let (Expr::Path(p), Expr::Lit(l)) = (&*a.left, &*a.right) {
                            if p.path.is_ident("name") {
                                if let Lit::Str(s) = &l.lit {
                                    name = Some(s.value())
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            fields.push((idx.expect("index"), format_ident!("{}", name.expect("name"))));
        }
        fields.sort_by_key(|f| f.0);
        let st = format_ident!("{}Accounts", v.ident);
        let names: Vec<_> = fields.iter().map(|f| f.1.clone()).collect();
        let idxs: Vec<_> = fields.iter().map(|f| f.0).collect();
        let n = fields.len();
        if n == 0 {
            continue;
        }
        out.push(quote! {
            pub struct #st<'a> { #(pub #names: &'a ::pinocchio::account_info::AccountInfo,)* }
            impl<'a> #st<'a> {
                pub fn context(accounts: &'a [::pinocchio::account_info::AccountInfo])
                    -> Result<Context<'a, Self>, ::pinocchio::program_error::ProgramError> {
                    if accounts.len() < #n {
                        return Err(::pinocchio::program_error::ProgramError::NotEnoughAccountKeys);
                    }
                    Ok(Context {
                        accounts: Self { #(#names: &accounts[#idxs],)* },
                        remaining_accounts: &accounts[#n..],
                    })
                }
            }
        });
    }
    quote! {
        pub mod accounts {
            pub struct Context<'a, T> {
                pub accounts: T,
                pub remaining_accounts: &'a [::pinocchio::account_info::AccountInfo],
            }
            #(#out)*
        }
    }
    .into()
}
