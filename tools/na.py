NA = {
    "C36": "rust-create-cascade is Rust; its dependencies (clubcard-crlite, rayon, rand, ...) are not in the offline cargo cache, so the crate does not build here and neither Kani nor MIR of the real code can be obtained.",
}
