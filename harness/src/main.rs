mod dump;
mod engine;
mod gen;
mod lex;
mod node;
mod props;
mod tape;
mod tok;
#[allow(dead_code)]
mod wire;

/// Panic payload for an error of the harness itself: never a violation.
pub struct HarnessBug(pub String);

#[global_allocator]
static ALLOC: props::cost::Counting = props::cost::Counting;

fn main() {
    std::process::exit(engine::main());
}
