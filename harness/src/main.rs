//! Worker of the runtime monitors: runs numbered cases of one check and
//! reports what it observed as JSON. Everything is a function of
//! (check, seed, case index).
mod ast;
mod canon;
mod checks;
mod containers;
mod display;
mod inst;
mod lang;
mod lang2;
mod mem;
mod metam;
mod model;
mod real;
mod scale;
mod streamops;
mod util;

use std::io::Write;
use std::os::unix::fs::FileExt;
use util::*;

#[global_allocator]
static ALLOC: util::Counting = util::Counting;

pub type CaseFn = fn(&mut Rng, &mut Stats, bool) -> Verdict;

fn table(check: &str) -> Option<CaseFn> {
    Some(match check {
        "C01" => checks::c01,
        "C02" => streamops::c02,
        "C03" => streamops::c03,
        "C04" => checks::c04,
        "C05" => checks::c05,
        "C06" => checks::c06,
        "C07" => checks::c07,
        "C08" => checks::c08,
        "C09" => checks::c09,
        "C10" => checks::c10,
        "C11" => checks::c11,
        "C12" => checks::c12,
        "C13" => checks::c13,
        "C14" => checks::c14,
        "C15" => metam::c15,
        "C16" => metam::c16,
        "C17" => checks::c17,
        "C18" => metam::c18,
        "C19" => containers::c19,
        "C20" => display::c20,
        "C21" => checks::c21,
        "C22" => scale::c22,
        "C24" => mem::c24,
        "C25" => lang::c25,
        _ => return None,
    })
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).map(|i| args[i + 1].clone())
}

fn one(check: &str, f: CaseFn, seed: u64, idx: u64, st: &mut Stats, thorough: bool) -> Verdict {
    let mut rng = Rng::new(mix(seed, mix(fnv(check.as_bytes()), idx)));
    set_alloc_limit(3 << 30);
    inst::reset_steps(u64::MAX);
    f(&mut rng, st, thorough)
}

fn worker() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "distinct" {
        let mut v: Vec<u64> = vec![];
        for f in &args[2..] {
            let b = std::fs::read(f).unwrap();
            v.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
        v.sort_unstable();
        v.dedup();
        println!("{}", v.len());
        return 0;
    }
    let check = arg(&args, "--check").expect("--check");
    let seed: u64 = arg(&args, "--seed").map_or(1, |s| s.parse().unwrap());
    let thorough = arg(&args, "--tier").as_deref() == Some("thorough");
    let f = table(&check).expect("unknown check");
    std::panic::set_hook(Box::new(|_| ()));
    let mut st = Stats::default();
    if args[1] == "case" {
        let idx: u64 = arg(&args, "--index").unwrap().parse().unwrap();
        st.want_sample = true;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            one(&check, f, seed, idx, &mut st, thorough)
        }));
        match r {
            Ok(Verdict::Violation(m)) => {
                println!("{m}");
                return 1;
            }
            Ok(_) => {
                println!("held");
                for s in &st.samples {
                    println!("sample: {s}");
                }
                return 0;
            }
            Err(e) => {
                println!("HARNESS-ERROR {}", real::panic_text(e));
                return 3;
            }
        }
    }
    let shard: u64 = arg(&args, "--shard").map_or(0, |s| s.parse().unwrap());
    let shards: u64 = arg(&args, "--shards").map_or(1, |s| s.parse().unwrap());
    let cases: u64 = arg(&args, "--cases").unwrap().parse().unwrap();
    let budget: f64 = arg(&args, "--budget").map_or(1e9, |s| s.parse().unwrap());
    let skip: Vec<u64> = arg(&args, "--skip")
        .map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect())
        .unwrap_or_default();
    let progress = arg(&args, "--progress").map(|p| std::fs::File::create(p).unwrap());
    let out = arg(&args, "--out").expect("--out");
    let t0 = std::time::Instant::now();
    let mut violation: Option<(u64, String)> = None;
    let mut harness_error = None;
    let mut done = 0u64;
    let mut idx = shard;
    while idx < cases {
        if skip.contains(&idx) {
            idx += shards;
            continue;
        }
        if done % 16 == 0 && t0.elapsed().as_secs_f64() > budget {
            break;
        }
        if let Some(p) = &progress {
            let _ = p.write_all_at(format!("{idx:<20}").as_bytes(), 0);
        }
        st.want_sample = st.samples.len() < 2;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            one(&check, f, seed, idx, &mut st, thorough)
        }));
        match r {
            Ok(Verdict::Violation(m)) => {
                violation = Some((idx, m));
                break;
            }
            Ok(Verdict::Discard) => st.discarded += 1,
            Ok(Verdict::Held) => (),
            Err(e) => {
                harness_error = Some((idx, real::panic_text(e)));
                break;
            }
        }
        done += 1;
        idx += shards;
    }
    let mut o = String::from("{");
    o += &format!(
        "\"done\":{done},\"evaluations\":{},\"discarded\":{},\"elapsed\":{:.3},",
        st.evaluations,
        st.discarded,
        t0.elapsed().as_secs_f64()
    );
    let m = |b: &std::collections::BTreeMap<&'static str, u64>| {
        b.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect::<Vec<_>>().join(",")
    };
    o += &format!("\"counts\":{{{}}},\"maxima\":{{{}}},", m(&st.counts), m(&st.maxima));
    o += &format!(
        "\"samples\":[{}],",
        st.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",")
    );
    if let Some((i, m)) = &violation {
        o += &format!("\"violation\":{{\"index\":{i},\"message\":{}}},", json_str(m));
    }
    if let Some((i, m)) = &harness_error {
        o += &format!("\"harness_error\":{{\"index\":{i},\"message\":{}}},", json_str(m));
    }
    o += &format!("\"nontrivial\":{}}}", st.nontrivial.len());
    // hashes in a separate binary file, so that shards can be united
    let mut hf = std::io::BufWriter::new(std::fs::File::create(format!("{out}.hashes")).unwrap());
    for h in &st.nontrivial {
        hf.write_all(&h.to_le_bytes()).unwrap();
    }
    hf.flush().unwrap();
    std::fs::write(&out, o).unwrap();
    if violation.is_some() {
        1
    } else if harness_error.is_some() {
        3
    } else {
        0
    }
}

fn main() {
    let h = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(worker)
        .unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code)
}
