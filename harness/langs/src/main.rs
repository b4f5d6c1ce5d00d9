#![feature(new_range_api)]
mod checks;
mod corpus;
mod driver;
mod generated;
mod langs;
mod registry;
mod toy;

fn main() {
    kit::main(checks::all());
}
