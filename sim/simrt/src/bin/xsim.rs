//! The worlds that need no compiled specification.

fn main() {
    simrt::harness::main(vec![], None);
}
