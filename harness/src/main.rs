mod alloc;
mod checks;
mod engine;
mod model;
mod util;

use engine::*;
use std::fmt::Write as _;
use std::fs::File;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Args {
    pos: Vec<String>,
    opt: std::collections::BTreeMap<String, String>,
}
impl Args {
    fn get(&self, k: &str, d: &str) -> String {
        self.opt.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.opt.get(k).map(|v| v.parse().expect("harness: number")).unwrap_or(d)
    }
}

fn args() -> Args {
    let mut a = Args { pos: vec![], opt: Default::default() };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        if let Some(k) = x.strip_prefix("--") {
            a.opt.insert(k.to_string(), it.next().unwrap_or_default());
        } else {
            a.pos.push(x);
        }
    }
    a
}

fn property(id: &str) -> Property {
    checks::all()
        .into_iter()
        .find(|p| p.id == id)
        .unwrap_or_else(|| {
            eprintln!("HARNESS ERROR: unknown property {}", id);
            std::process::exit(4)
        })
}

const RELEASE: bool = !cfg!(debug_assertions);

fn salt(seed: u64) -> u64 {
    if RELEASE {
        mix(seed ^ 0x7265_6c65_6173_6521)
    } else {
        seed
    }
}

fn cases(s: &Section, tier: &str, scale: u64) -> u64 {
    let thorough = tier == "thorough";
    let n = if thorough { s.thorough } else { s.quick };
    if s.exhaustive.is_some() {
        return n;
    }
    let n = n * scale / 100;
    if RELEASE {
        (n * s.rel + 99) / 100
    } else {
        n
    }
}

fn run_one(sec: &Section, src: &mut Src, thorough: bool) -> i32 {
    src.thorough = thorough;
    let r = eval(sec, src);
    println!("property section: {}", sec.name);
    println!("tape: {:?}", src.rec);
    print!("{}", src.trace);
    match r {
        Ok(()) => {
            println!("RESULT: holds");
            0
        }
        Err(m) => {
            println!("RESULT: violated: {}", m);
            1
        }
    }
}

fn main() {
    install_panic_hook();
    let a = args();
    let cmd = a.pos.first().cloned().unwrap_or_default();
    let tier = a.get("tier", "quick");
    let thorough = tier == "thorough";
    match cmd.as_str() {
        "list" => {
            for p in checks::all() {
                println!("{}", p.id);
                for s in &p.sections {
                    println!("  {} quick={} thorough={} exhaustive={:?}", s.name, s.quick, s.thorough, s.exhaustive);
                }
            }
        }
        "run" => {
            let p = property(&a.pos[1]);
            let seed = salt(a.num("seed", 1));
            let threads = a.num("threads", 8) as usize;
            let scale = a.num("scale", 100);
            let only = a.get("only", "");
            watch(a.num("case-limit", 100));
            let slots = a.opt.get("slots").map(|f| {
                let f = File::create(f).expect("harness: slots");
                f.set_len(24 * threads as u64).expect("harness: slots");
                f
            });
            let mut out = String::new();
            let _ = write!(out, "{{\"property\":{},\"release\":{},\"rule\":{},\"sections\":[", esc(p.id), RELEASE, esc(p.rule));
            let mut fails = String::new();
            let mut first = true;
            for (si, s) in p.sections.iter().enumerate() {
                if !only.is_empty() && !s.name.contains(&only) {
                    continue;
                }
                let n = cases(s, &tier, scale);
                if !fails.is_empty() && !thorough {
                    break;
                }
                let (st, f) = run_section(p.id, si, s, seed, n, threads, slots.as_ref(), thorough);
                if !first {
                    out.push(',');
                }
                first = false;
                let labels: Vec<String> = st.labels.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
                let samples: Vec<String> = st.samples.iter().map(|s| esc(s)).collect();
                let _ = write!(
                    out,
                    "{{\"name\":{},\"evaluations\":{},\"nontrivial\":{},\"distinct\":{},\"exhaustive\":{},\"secs\":{:.3},\"labels\":{{{}}},\"samples\":[{}]}}",
                    esc(&st.name), st.evaluations, st.nontrivial, st.distinct, s.exhaustive.is_some(), st.secs, labels.join(","), samples.join(",")
                );
                if let Some(f) = f {
                    if !fails.is_empty() {
                        fails.push(',');
                    }
                    let list = |t: &[u64]| t.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",");
                    let pre = f.prelude.as_ref().map_or("null".to_string(), |p| format!("[{}]", list(p)));
                    let _ = write!(
                        fails,
                        "{{\"section\":{},\"index\":{},\"tape\":[{}],\"prelude\":{},\"msg\":{},\"trace\":{},\"shrinks\":{}}}",
                        esc(&f.section), f.index, list(&f.tape), pre, esc(&f.msg), esc(&f.trace), f.shrinks
                    );
                }
            }
            let _ = write!(out, "],\"failures\":[{}]}}", fails);
            match a.opt.get("out") {
                Some(f) => std::fs::write(f, out).expect("harness: out"),
                None => println!("{}", out),
            }
        }
        "gen" => {
            let p = property(&a.pos[1]);
            let si: usize = a.pos[2].parse().expect("harness: section");
            let i: u64 = a.pos[3].parse().expect("harness: index");
            let s = &p.sections[si];
            let seed = salt(a.num("seed", 1));
            let sink = |src: Src| match a.opt.get("sink") {
                Some(f) => src.sink(File::create(f).expect("harness: sink")).tracing(),
                None => src.tracing(),
            };
            let mut src = sink(make_src(s, seed, p.id, i));
            let mut rc = run_one(s, &mut src, thorough);
            if rc == 0 {
                if let Some(n) = neighbour(s, seed, p.id, i, &src.rec) {
                    rc = run_one(s, &mut sink(n), thorough);
                }
            }
            std::process::exit(rc);
        }
        "one" => {
            let p = property(&a.pos[1]);
            let name = &a.pos[2];
            let s = p.sections.iter().find(|s| s.name == name).unwrap_or_else(|| {
                eprintln!("HARNESS ERROR: unknown section {}", name);
                std::process::exit(4)
            });
            let t = std::fs::read_to_string(&a.pos[3]).expect("harness: tape");
            // One tape per line; the last is the case, the others run before it.
            let mut tapes: Vec<Vec<u64>> =
                t.lines().map(|l| l.split_whitespace().map(|v| v.parse().expect("harness: tape entry")).collect()).collect();
            let tape = tapes.pop().unwrap_or_default();
            for p in tapes {
                let mut src = Src::replay(p);
                src.thorough = thorough;
                let _ = eval(s, &mut src);
            }
            let mut src = Src::replay(tape).tracing();
            if let Some(f) = a.opt.get("sink") {
                src = src.sink(File::create(f).expect("harness: sink"));
            }
            std::process::exit(run_one(s, &mut src, thorough));
        }
        "cold" => {
            let seed: u64 = a.pos[1].parse().expect("harness: seed");
            if let Err(e) = checks::ident::cold(seed) {
                println!("{}", e);
                std::process::exit(1);
            }
        }
        _ => {
            eprintln!("usage: mamv list | run PROP | gen PROP SEC IDX | one PROP SECTION TAPE");
            std::process::exit(4);
        }
    }
}
