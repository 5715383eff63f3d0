//! Native replay of counterexamples found for this crate's harnesses.
fn main() {
    #[cfg(not(kani))]
    ci::support::k::replay(&[ci::ALL]);
}
