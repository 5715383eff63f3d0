//! Native replay of counterexamples found for this crate's harnesses.
fn main() {
    #[cfg(not(kani))]
    hdr::support::k::replay(&[hdr::ALL]);
}
