use proc_macro::{TokenStream, TokenTree, Group, Delimiter};
/// `#[tokio::main]`: runs the asynchronous body on the simulated runtime.
#[proc_macro_attribute]
pub fn main(attr: TokenStream, item: TokenStream) -> TokenStream {
    let a: String = attr.to_string().replace(' ', "");
    let workers = if a.contains("current_thread") { 0 } else { a.split("worker_threads=").nth(1).and_then(|x| x.split(',').next()).and_then(|x| x.parse().ok()).unwrap_or(2) };
    let mut out: Vec<TokenTree> = item.into_iter().collect();
    let body = match out.pop() { Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace => g, _ => panic!("no body") };
    if let Some(p) = out.iter().position(|t| matches!(t, TokenTree::Ident(i) if i.to_string() == "async")) { out.remove(p); }
    let mut inner: TokenStream = format!("::tokio::__block_on({workers}, async move").parse::<TokenStream>().map(|_| TokenStream::new()).unwrap_or_default();
    let path: TokenStream = "::tokio::__block_on".parse().unwrap();
    let mut args: TokenStream = format!("{workers}usize, async move").parse().unwrap();
    args.extend([TokenTree::Group(body)]);
    inner.extend(path);
    inner.extend([TokenTree::Group(Group::new(Delimiter::Parenthesis, args))]);
    out.push(TokenTree::Group(Group::new(Delimiter::Brace, inner)));
    out.into_iter().collect()
}
