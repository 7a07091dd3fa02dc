//! Properties of concurrent use. With the feature `controlled` the library is compiled against
//! `vstd`, and every schedule is chosen by the check; without it the threads are real ones.

mod families;
mod run;
mod symbols;
mod systems;

fn all() -> Vec<engine::Prop> {
    let mut v = symbols::props();
    v.extend(systems::props());
    v.extend(families::props());
    v
}

fn main() {
    engine::runner::ISOLATE.store(true, std::sync::atomic::Ordering::SeqCst);
    if !run::CONTROLLED {
        engine::runner::NO_SHRINK.store(true, std::sync::atomic::Ordering::SeqCst);
    }
    engine::runner::main(all);
}
