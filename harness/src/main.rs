mod addr;
mod bus;
mod calc;
mod calib;
mod codec;
mod errors;
mod faults;
mod low;
mod scn;
mod seq;
mod util;

use std::io::Write;

fn main() {
    util::quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    let get = |name: &str, def: &str| -> String {
        args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned()).unwrap_or_else(|| def.to_string())
    };
    let suite = args.get(1).cloned().unwrap_or_default();
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let thorough = get("--tier", "quick") == "thorough";
    // a panic that no recording expects: say where it came from
    let lines = std::panic::catch_unwind(|| match suite.as_str() {
        "regs" => codec::regs(seed, thorough),
        "i2c" => codec::i2creg(seed, thorough),
        "hamming" => codec::hamming(),
        "conv" => codec::conv(),
        "e640" => calib::e640(seed, thorough),
        "sweep640" => calib::sweep640(seed, thorough),
        "sweep641" => calib::sweep641(seed, thorough),
        "e641" => calib::e641(seed, thorough),
        "low" => low::low(seed, thorough),
        "calcfn" => calc::calcfn(seed, thorough),
        "calcsweep" => calc::calcsweep(seed, thorough),
        "calcimg" => calc::calcimg(seed, thorough),
        "flips" => faults::flips(seed, thorough),
        "scn" => scn::scn(seed, thorough, &get("--scripts", ""), &get("--cals", "/dev/null")),
        "poll" => scn::poll(seed, thorough, &get("--cals", "/dev/null")),
        "twins" => scn::twins(seed, thorough),
        "only" => scn::only(seed, thorough, get("--only", "0").parse().unwrap()),
        "seq" => seq::seq(seed, thorough, &get("--scripts", ""), &get("--random", "")),
        "addr" => addr::addr(seed),
        "errors" => errors::errors(seed),
        "bytes" => faults::bytes(seed, thorough),
        _ => {
            eprintln!("unknown suite {}", suite);
            std::process::exit(2);
        }
    });
    let lines = lines.unwrap_or_else(|_| {
        eprintln!("UNEXPECTED PANIC {}", util::LAST_ANY.lock().map(|s| s.clone()).unwrap_or_default());
        std::process::exit(101);
    });
    let out = get("--out", "/dev/stdout");
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for l in lines {
        f.write_all(l.as_bytes()).unwrap();
        f.write_all(b"\n").unwrap();
    }
}
