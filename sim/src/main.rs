//! Deterministic simulation of fhe.rs deployments. See /verif/DESIGN.md.
#![allow(clippy::too_many_arguments)]
#[macro_use]
mod core;
mod churn;
mod conc;
mod ct;
mod erase;
mod fresh;
mod bfvx;
mod mbfv;
mod misuse;
mod model;
mod node;
mod params;
mod ring;
mod rt;
mod session;
mod vt;
mod wire;

use crate::core::{Outcome, Plan, Sim, execute, install_hook};
use rt::{Preempt, SimAlloc, mix};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: SimAlloc = SimAlloc;

fn engine(prop: &str) -> Option<fn(&mut Sim)> {
    Some(match prop {
        "C01" => |s| session::run(s, &session::C01),
        "C02" => |s| session::run(s, &session::C02),
        "C03" => |s| session::run(s, &session::C03),
        "C04" => |s| session::run(s, &session::C04),
        "C05" => |s| session::run(s, &session::C05),
        "C16" => |s| session::run(s, &session::C16),
        "C08" => |s| mbfv::run(s, &mbfv::C08),
        "C09" => |s| mbfv::run(s, &mbfv::C09),
        "C10" => |s| mbfv::run(s, &mbfv::C10),
        "C11" => |s| mbfv::run(s, &mbfv::C11),
        "C06" => wire::run,
        "C12" => conc::run,
        "C14" => erase::run,
        "C15" => fresh::run,
        "C17" => vt::run,
        "C19" => ring::run,
        "C20" => ct::run,
        "C07" => |s| misuse::run(s, &misuse::C07),
        "C13" => |s| misuse::run(s, &misuse::C13),
        "C18" => |s| session::run(s, &session::C18),
        _ => return None,
    })
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap<K: AsRef<str>>(m: impl Iterator<Item = (K, u64)>) -> String {
    format!("{{{}}}", m.map(|(k, v)| format!("{}:{v}", esc(k.as_ref()))).collect::<Vec<_>>().join(","))
}
fn jlist<T: ToString>(v: impl Iterator<Item = T>) -> String { format!("[{}]", v.map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }

fn report(sim: &Sim, out: &Outcome) -> String {
    let (o, class, msg) = match out {
        Outcome::Pass => ("pass", String::new(), String::new()),
        Outcome::Violation(v) => ("violation", v.class.clone(), v.msg.clone()),
        Outcome::Harness(s) => ("harness", String::new(), s.clone()),
    };
    format!(
        "{{\"outcome\":\"{o}\",\"class\":{},\"msg\":{},\"seed\":\"{:016x}\",\"hash\":\"{:016x}\",\"steps\":{},\"fired\":[{}],\"preempts\":[{}],\"sim_us\":{},\"faults\":{},\"ops\":{}{}}}",
        esc(&class), esc(&msg), sim.seed, sim.hash, jlist(sim.steps_run.iter()),
        sim.fired.iter().map(|(s, n, k)| format!("[{s},{n},{}]", esc(k))).collect::<Vec<_>>().join(","),
        sim.preempts.iter().map(|p| format!("[{},{},{}]", p.at, p.kind, p.to)).collect::<Vec<_>>().join(","),
        sim.now, jmap(sim.faults.iter().map(|(k, v)| (*k, *v))), jmap(sim.ops.iter().map(|(k, v)| (k.as_str(), *v))),
        match &sim.trace { Some(t) => format!(",\"trace\":[{}]", t.iter().map(|l| esc(l)).collect::<Vec<_>>().join(",")), None => String::new() }
    )
}

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    let has = |k: &str| args.iter().any(|a| a == k);
    let prop = get("--prop").unwrap_or_default();
    let Some(f) = engine(&prop) else { eprintln!("unknown property {prop}"); std::process::exit(2) };
    let thorough = has("--thorough");
    match args.get(1).map(String::as_str) {
        Some("run") => {
            let seed = u64::from_str_radix(&get("--run-seed").expect("--run-seed"), 16).expect("hex seed");
            let mut plan = Plan { faults_off: has("--nofaults"), ..Default::default() };
            if let Some(k) = get("--keep") { plan.keep = Some(k.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()); }
            if let Some(k) = get("--nofault") {
                plan.nofault = k.split(',').filter(|s| !s.is_empty()).map(|s| { let (a, b) = s.split_once(':').unwrap(); (a.parse().unwrap(), b.parse().unwrap()) }).collect();
            }
            if let Some(k) = get("--preempt") {
                let k = match k.strip_prefix('@') { Some(f) => std::fs::read_to_string(f).expect("preemption list"), None => k };
                plan.preempt = Some(k.trim().split(',').filter(|s| !s.is_empty()).map(|s| { let v: Vec<u64> = s.split(':').map(|x| x.parse().unwrap()).collect(); Preempt { at: v[0], kind: v[1] as u32, to: v[2] as u32 } }).collect());
            }
            // earlier runs of the same process, when the state they leave behind matters
            if let Some(k) = get("--before") {
                let k = std::fs::read_to_string(k).expect("list of seeds");
                for s in k.split_whitespace() { execute(&prop, u64::from_str_radix(s, 16).expect("hex seed"), Plan::default(), false, thorough, f); }
            }
            let (sim, out) = execute(&prop, seed, plan, has("--trace"), thorough, f);
            println!("{}", report(&sim, &out));
        }
        Some("batch") => {
            let seed0: u64 = get("--seed0").and_then(|s| s.parse().ok()).unwrap_or(1);
            let from: u64 = get("--from").and_then(|s| s.parse().ok()).unwrap_or(0);
            let stride: u64 = get("--stride").and_then(|s| s.parse().ok()).unwrap_or(1);
            let max: u64 = get("--max").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
            let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(10.0);
            let hashes = has("--hashes");
            let t0 = Instant::now();
            let so = std::io::stdout();
            let mut so = so.lock();
            let (mut runs, mut sim_us, mut steps) = (0u64, 0u128, 0u64);
            let mut faults: BTreeMap<&'static str, u64> = BTreeMap::new();
            let mut ops: BTreeMap<String, u64> = BTreeMap::new();
            let mut traces: HashSet<u64> = HashSet::new();
            let mut states: HashSet<u64> = HashSet::new();
            let mut nv = 0;
            let mut i = from;
            while runs < max && t0.elapsed() < Duration::from_secs_f64(secs) {
                let seed = mix(mix(seed0, 0xD57), i);
                writeln!(so, "S {seed:016x} {i}").unwrap();
                so.flush().unwrap();
                let (sim, out) = execute(&prop, seed, Plan::default(), false, thorough, f);
                if hashes { writeln!(so, "H {i} {:016x}", sim.hash).unwrap(); }
                runs += 1;
                sim_us += sim.now as u128;
                steps += sim.steps_run.len() as u64;
                for (k, v) in &sim.faults { *faults.entry(k).or_default() += v; }
                for (k, v) in &sim.ops { *ops.entry(k.clone()).or_default() += v; }
                traces.insert(sim.hash);
                states.extend(sim.states.iter());
                if !matches!(out, Outcome::Pass) {
                    writeln!(so, "V {}", report(&sim, &out)).unwrap();
                    nv += 1;
                    if nv >= 3 { break; }
                }
                i += stride;
            }
            let st: Vec<u64> = states.into_iter().collect();
            writeln!(so, "R {{\"runs\":{runs},\"secs\":{:.3},\"sim_us\":{sim_us},\"steps\":{steps},\"faults\":{},\"ops\":{},\"traces\":[{}],\"states\":[{}]}}", t0.elapsed().as_secs_f64(),
                jmap(faults.iter().map(|(k, v)| (*k, *v))), jmap(ops.iter().map(|(k, v)| (k.as_str(), *v))),
                traces.iter().map(|h| format!("\"{:x}\"", h)).collect::<Vec<_>>().join(","), st.iter().map(|h| format!("\"{:x}\"", h)).collect::<Vec<_>>().join(",")).unwrap();
        }
        _ => { eprintln!("usage: sim run|batch --prop P ..."); std::process::exit(2) }
    }
}
