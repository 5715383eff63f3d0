//! Native replay of counterexamples found for this crate's harnesses.
fn main() {
    #[cfg(not(kani))]
    rec::support::k::replay(&[rec::ALL, rec::lvar::ALL]);
}
