#![allow(dead_code)]
mod calls;
mod cli;
mod client;
mod listen;
#[path = "../../eng/src/ops.rs"]
mod ops;
mod runs;
mod srv;
#[path = "../../eng/src/util.rs"]
mod util;
#[path = "../../eng/src/val.rs"]
mod val;

fn main() {
    let a = util::Args::new();
    util::quiet_panics();
    match a.cmd() {
        "listen" => listen::listen(&a),
        "serve" => srv::serve(&a),
        "parallel" => srv::parallel(&a),
        "segments" => srv::segments(&a),
        "runs" => runs::runs(&a),
        "bulk" => runs::bulk(&a),
        "trouble" => srv::trouble(&a),
        "programs" => client::programs(&a),
        "edges" => client::edges(&a),
        "grow" => client::grow(&a),
        "faults" => client::faults(&a),
        "exhaust" => srv::exhaust(&a),
        "herd" => srv::herd(&a),
        "idle" => srv::idle(&a),
        "calls" => calls::calls(&a),
        "plans" => calls::plans(&a),
        "lines" => cli::lines(&a),
        "names" => cli::names(&a),
        "spelled" => cli::spelled(&a),
        "sessions" => cli::sessions(&a),
        "typed" => cli::typed(&a),
        "crowd" => calls::crowd(&a),
        other => {
            eprintln!("unknown command {}", other);
            std::process::exit(2);
        }
    }
}
