#![feature(new_range_api)]
mod arena;
mod cursor;
mod errors;
mod parser;
mod scan;
mod simd;
mod sources;
mod toy;
mod tree;

fn main() {
    let mut v = Vec::new();
    v.extend(sources::all());
    v.extend(cursor::all());
    v.extend(simd::all());
    v.extend(scan::all());
    v.extend(arena::all());
    v.extend(tree::all());
    v.extend(parser::all());
    v.extend(errors::all());
    kit::main(v)
}
