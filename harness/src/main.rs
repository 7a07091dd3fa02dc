mod gen;
mod model;
mod props;
mod xml;

fn main() {
    // Helper process for the independence check of P10.
    if std::env::args().nth(1).as_deref() == Some("p10-sample") {
        props::stochastic::print_sample();
        return;
    }
    engine::runner::main(props::all);
}
