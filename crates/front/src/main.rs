mod cli;
mod code;
mod compile;
mod diag;
mod dot;
mod genrt;
mod inspect;
mod model;
mod rules;
mod run;
#[cfg(feature = "tui")]
mod session;
#[cfg(feature = "tui")]
mod tty;
mod sm;
mod text;
mod wild;
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("gen-rt") {
        genrt::run(&args[2]);
        return;
    }
    #[cfg(feature = "tui")]
    if args.get(1).map(|s| s.as_str()) == Some("tty-child") { tty::child(&args[2..]); }
    #[allow(unused_mut)]
    let mut props = vec![model::c10(), model::c12(), model::c17(), code::c15(), text::c09(), text::c08(), rules::c13(), cli::c16(), inspect::c14(), diag::c23(), compile::c11(), compile::traits(), dot::c22()];
    #[cfg(feature = "tui")]
    props.push(session::c21());
    vmodel::engine::main(props);
    run::remove_scratch();
}
