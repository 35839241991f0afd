//! As `mc`, for the properties about seldom used parts of the public API. A binary of its own: were
//! one of those parts to change its shape, only this build would fail.
mod c26;
mod c28;
fn main() {
    mc::cli::main_with(vec![c26::prop(), c28::prop()])
}
