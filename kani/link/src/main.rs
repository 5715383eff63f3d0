//! Native replay of counterexamples found for this crate's harnesses.
fn main() {
    #[cfg(not(kani))]
    link::support::k::replay(&[link::ALL]);
}
