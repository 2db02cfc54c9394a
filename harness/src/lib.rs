pub mod engine;
pub mod refs;
pub mod sched;
pub mod term;
pub mod txm;

#[global_allocator]
static ALLOC: engine::Counting = engine::Counting;
