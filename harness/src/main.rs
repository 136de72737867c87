mod cmd;
mod exec;
#[cfg(feature = "ext")]
mod ext;
mod gen;
mod mem;
mod nat;
#[cfg(feature = "prim")]
mod prim;
mod props;
mod text;

use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

/// Whether the latest panic was raised by this program itself.
static OWN_PANIC: AtomicBool = AtomicBool::new(false);

/// The library panicked where it was only asked to show a value: the trace ends there.
const BROKEN_VALUE: i32 = 200;

fn broken() -> ! {
    if OWN_PANIC.load(Relaxed) {
        eprintln!("harness: the generator panicked (VERIF_PANICS=1 shows where)");
        std::process::exit(3);
    }
    eprintln!("the library panicked while a value was being observed");
    std::process::exit(BROKEN_VALUE);
}

#[global_allocator]
static A: mem::Counting = mem::Counting;

fn word_bits() -> usize {
    if cfg!(force_bits = "16") {
        16
    } else if cfg!(force_bits = "32") {
        32
    } else if cfg!(force_bits = "64") {
        64
    } else if cfg!(target_pointer_width = "64") {
        64
    } else {
        32
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        // Files of this program have relative paths, those of the library under test and of std do not.
        let own = i.location().map_or(false, |l| l.file().starts_with("src/"));
        OWN_PANIC.store(own, Relaxed);
        if std::env::var("VERIF_PANICS").is_ok() {
            eprintln!("{}", i)
        }
    }));
    // The first panic allocates lazily; have it over with.
    let _ = std::panic::catch_unwind(|| panic!("warm up"));
    let a: Vec<String> = std::env::args().collect();
    let usage = "conform gen <property> <seed> <bytes> <scale> <out> | conform replay <commands> <out>";
    if a.len() < 4 {
        eprintln!("{}", usage);
        std::process::exit(2);
    }
    let out = a.last().unwrap();
    let file = std::fs::File::create(out).expect("output");
    let mut m = exec::Machine::new(gen::NREG, file);
    m.header(word_bits());
    match a[1].as_str() {
        "gen" if a.len() == 7 => {
            let seed: u64 = a[3].parse().expect("seed");
            let limit: usize = a[4].parse().expect("bytes");
            let k: usize = a[5].parse().expect("scale");
            let mut g = gen::G { m, r: gen::Rng::new(seed), lw: word_bits(), wb: word_bits(), limit, portable: false };
            let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                match a[2].as_str() {
                    "C01" => g.c01(),
                    "C02" => g.c02(k),
                    "C03" => g.c03(k),
                    "C04" => g.c04(),
                    "C05" => g.c05(),
                    "C06" => g.c06(),
                    "C07" => g.c07(),
                    "C08" => g.c08(),
                    "C09" => g.c09(),
                    "C10" => g.c10(k),
                    "C11" => g.c11(k),
                    "C13" => g.c13(),
                    "C14" => g.c14(),
                    "C15" => g.c15(),
                    "C16" => g.c16(k),
                    "C17" => g.c17(k),
                    "C18" => g.c18(k),
                    "C19" => g.c19(),
                    "C20" => g.c20(),
                    "C21" => g.c21(k),
                    "C22" => g.c22(),
                    "C23" => g.c23(),
                    "C24" => g.c24(),
                    "C25" => g.c25(),
                    "C26" => g.c26(),
                    "C27" => g.c27(),
                    p => panic!("no generator for {}", p),
                }
            }));
            g.m.finish();
            if done.is_err() {
                broken();
            }
            println!("{} {}", g.m.events, g.m.panics);
        }
        "replay" => {
            let f = std::fs::File::open(&a[2]).expect("commands");
            for line in std::io::BufReader::new(f).lines() {
                let line = line.unwrap();
                if line.is_empty() || line.starts_with('#') {
                    continue;
                }
                let c = cmd::Cmd::parse(&line);
                if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.run(&c))).is_err() {
                    m.finish();
                    broken();
                }
            }
            m.finish();
            println!("{} {}", m.events, m.panics);
        }
        _ => {
            eprintln!("{}", usage);
            std::process::exit(2);
        }
    }
    std::io::stdout().flush().unwrap();
}
