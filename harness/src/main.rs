//! Conformance harness: generates inputs, runs the real library on them and
//! records what it did as traces for the TLA+ trace specification; replays
//! behaviours of the specification into the real library.
mod decode;
mod enc;
mod gen;
mod misc;
mod pixel;
mod proj;
mod replay;
mod rng;
mod scale;
mod util;

use rng::Rng;
use serde_json::{json, Value};
use std::io::Write;
use std::sync::atomic::Ordering::Relaxed;

#[global_allocator]
static A: util::Counting = util::Counting;

pub fn session_rng(fam: &str, seed: u64, id: u64) -> Rng {
    let mut h = seed.wrapping_mul(0x2545_F491_4F6C_DD1D);
    for b in fam.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
    }
    Rng::new(h ^ id.wrapping_mul(0x9E37_79B9_7F4A_7C15))
}

/// the events of one session
pub fn session(fam: &str, seed: u64, id: u64) -> Vec<Value> {
    let mut r = session_rng(fam, seed, id);
    util::cur(id, &[]);
    match fam {
        "chunk" => decode::chunk(&mut r, id, false),
        "ud" => decode::chunk(&mut r, id, true),
        "syschunk" => decode::sys_chunk(&mut r, id, false),
        "sysud" => decode::sys_chunk(&mut r, id, true),
        "hugechunk" => decode::huge_chunk(&mut r, id, false),
        "hugeud" => decode::huge_chunk(&mut r, id, true),
        "frame" => decode::frame(&mut r, id),
        "asm" => decode::asm(&mut r, id),
        "udfile" => decode::ud_file(&mut r, id),
        "pal" => decode::pal(&mut r, id),
        "view" => decode::view(&mut r, id),
        "image" => pixel::image(&mut r, id),
        "bigimage" => pixel::big_image(&mut r, id),
        "inflate" => pixel::inflate(&mut r, id),
        "render" => pixel::render(&mut r, id),
        "bigrender" => pixel::big_render(&mut r, id),
        "select" => pixel::select(&mut r, id),
        "pipeimg" | "pipe" | "pipehsl" | "pipenormal" => pixel::pipe(&mut r, id, fam),
        "grid" => pixel::grid(&mut r, id),
        "blend" => pixel::blend(&mut r, id, false),
        "hsl" => pixel::blend(&mut r, id, true),
        "hist" => misc::hist(&mut r, id, seed),
        "skip" => misc::skip(&mut r, id),
        "alloc" => misc::alloc(&mut r, id),
        "total" => misc::total(&mut r, id),
        "totalr" => misc::totalr(&mut r, id),
        "scaleraw" | "scaledoc" | "scaleview" => scale::scale(&mut r, id, fam),
        f => panic!("unknown family {}", f),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let quiet = std::env::var("VH_LOUD").is_err();
    if quiet {
        std::panic::set_hook(Box::new(|_| {}));
    }
    // the work happens on a thread with the default stack size of Rust threads
    let code = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || run(&args))
        .unwrap()
        .join()
        .unwrap_or(97);
    std::process::exit(code);
}

fn watchdog() {
    std::thread::spawn(|| {
        let mut last = u64::MAX;
        let mut since = std::time::Instant::now();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let t = util::TICK.load(Relaxed);
            if t != last {
                last = t;
                since = std::time::Instant::now();
            } else if since.elapsed().as_secs() > 90 {
                std::process::exit(98);
            }
        }
    });
}

fn run(args: &[String]) -> i32 {
    let n = |i: usize| args[i].parse::<u64>().unwrap();
    match args.get(1).map(String::as_str) {
        // gen FAM SEED START COUNT OUT
        Some("gen") => {
            let (fam, seed, start, count, out) = (&args[2], n(3), n(4), n(5), &args[6]);
            util::cur_open(&format!("{}.cur", out));
            watchdog();
            let mut w = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
            for id in start..start + count {
                let ev = session(fam, seed, id);
                serde_json::to_writer(&mut w, &json!({"id": id, "fam": fam, "ev": ev})).unwrap();
                w.write_all(b"\n").unwrap();
            }
            w.flush().unwrap();
            0
        }
        // replay IN OUT : behaviours of the specification
        Some("replay") => {
            util::cur_open(&format!("{}.cur", args[3]));
            watchdog();
            replay::run(&args[2], &args[3])
        }
        // one call of a session, in a process of its own
        Some("alone") => {
            let (seed, id, k) = (n(2), n(3), n(4) as usize);
            println!("{}", misc::alone(seed, id, k));
            0
        }
        // FILE: load and render an input recorded in a .cur file
        Some("input") => {
            let d = std::fs::read(&args[2]).unwrap();
            println!("{}", misc::drive(&d));
            0
        }
        Some("sizes") => {
            println!("{}", json!({"syschunk": decode::sys_list(false).len(), "sysud": decode::sys_list(true).len()}));
            0
        }
        _ => 2,
    }
}
