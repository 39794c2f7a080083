#![allow(dead_code)]
mod bulk;
mod clock;
mod embed;
mod locks;
mod many;
mod met;
mod native;
mod ops;
mod sched;
mod util;
mod val;
mod wire;

fn main() {
    let a = util::Args::new();
    util::quiet_panics();
    match a.cmd() {
        "ops" => ops::ops(&a),
        "many" => many::many(&a),
        "bulk" => bulk::bulk(&a),
        "pipes" => bulk::pipes(&a),
        "sizes" => ops::sizes(&a),
        "sched" => sched::sched(&a),
        "native" => native::native(&a),
        "mixed" => native::mixed(&a),
        "walks" => native::walks(&a),
        "stress" => native::stress(&a),
        "locks" => locks::locks(&a),
        "timer" => clock::timer(&a),
        "huge" => ops::huge(&a),
        "wire" => wire::wire(&a),
        "wiresteps" => wire::steps(&a),
        "replay" => ops::replay(&a),
        "embed" => embed::embed(&a),
        "embedreplay" => embed::replay(&a),
        "settings" => embed::settings(&a),
        other => {
            eprintln!("unknown command {}", other);
            std::process::exit(2);
        }
    }
}
