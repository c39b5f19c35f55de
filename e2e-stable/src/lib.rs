//! Only there to build the macro without its `nightly` feature.
