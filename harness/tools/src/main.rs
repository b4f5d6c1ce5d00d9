#![feature(new_range_api)]
mod diag;
mod docs;
mod highlight;
mod linemap;
mod mcp;
mod nav;
mod pretty;
mod repl;
mod runners;
mod vfs;
mod viz;
mod wire;

fn main() {
    if let Ok(s) = std::env::var("VERIF_REPL") {
        return repl::child(&s);
    }
    let mut v = Vec::new();
    v.extend(linemap::all());
    v.extend(vfs::all());
    v.extend(diag::all());
    v.extend(nav::all());
    v.extend(mcp::all());
    v.extend(pretty::all());
    v.extend(wire::all());
    v.extend(highlight::all());
    v.extend(repl::all());
    v.extend(runners::all());
    v.extend(viz::all());
    kit::main(v)
}
