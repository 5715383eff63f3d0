//! Native replay of counterexamples found for this crate's harnesses.
fn main() {
    #[cfg(not(kani))]
    leaf::support::k::replay(&[leaf::numbers::ALL, leaf::numbers::invalid::ALL, leaf::dates::ALL, leaf::dibs::ALL, leaf::vibs::ALL, leaf::vibs::plain_text::ALL, leaf::strings::ALL, leaf::utf8::ALL, leaf::manufacturers::ALL]);
}
