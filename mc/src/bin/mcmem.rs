//! As `mc`, under the guarding allocator.
use mc::galloc;
#[global_allocator]
static A: galloc::Guard = galloc::Guard;
fn main() {
    galloc::ACTIVE.store(true, std::sync::atomic::Ordering::SeqCst);
    mc::cli::main()
}
