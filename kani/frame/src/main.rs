//! Native replay of counterexamples found for this crate's harnesses.
fn main() {
    #[cfg(not(kani))]
    frame::support::k::replay(&[frame::shapes::ALL]);
}
