use mc::docs::{Aspect, Docs};
fn main() {
    mc::engine::main_with(&[
        &Docs { id: "C02", aspect: Aspect::Accept },
        &Docs { id: "C03", aspect: Aspect::Reject },
        &Docs { id: "C04", aspect: Aspect::Tree },
        &Docs { id: "C05", aspect: Aspect::Spans },
        &mc::robust::Robust,
        &mc::layout::Layout,
        &mc::names::Literals,
        &mc::layout::Semicolons,
        &mc::names::Names,
        &mc::names::Placement,
        &mc::projects::Resolve,
        &mc::projects::Includes,
        &mc::projects::Cycles,
        &mc::projects::Faults,
        &mc::histories::Histories,
        &mc::histories::Orders,
        &mc::render::Render,
        &mc::cli::Cli,
    ])
}
