//! Native replay of counterexamples found for this crate's harnesses.
fn main() {
    #[cfg(not(kani))]
    app::support::k::replay(&[app::ALL]);
}
