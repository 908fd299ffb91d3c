mod alpha;
mod c_arr;
mod c_bv;
mod c_chain;
mod c_conv;
mod c_eq;
mod c_huge;
mod c_misc;
mod c_store;
mod engine;
mod model;
mod ops;

use engine::*;
use std::time::Duration;

struct Prop {
    jobs: fn(Tier) -> Vec<Job>,
    replay: fn(&Case) -> Result<(), Fail>,
}

fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => Prop { jobs: c_chain::c01, replay: c_chain::replay },
        "C02" => Prop { jobs: c_bv::c02, replay: c_bv::replay },
        "C03" => Prop { jobs: c_bv::c03, replay: c_bv::replay },
        "C04" => Prop { jobs: c_bv::c04, replay: c_bv::replay },
        "C05" => Prop { jobs: c_bv::c05, replay: c_bv::replay },
        "C06" => Prop { jobs: c_bv::c06, replay: c_bv::replay },
        "C07" => Prop { jobs: c_bv::c07, replay: c_bv::replay },
        "C08" => Prop { jobs: c_conv::c08, replay: c_conv::replay },
        "C09" => Prop { jobs: c_conv::c09, replay: c_conv::replay },
        "C10" => Prop { jobs: c_conv::c10, replay: c_conv::replay },
        "C11" => Prop { jobs: c_conv::c11, replay: c_conv::replay },
        "C12" => Prop { jobs: c_conv::c12, replay: c_conv::replay },
        "C13" => Prop { jobs: c_conv::c13, replay: c_conv::replay },
        "C14" => Prop { jobs: c_conv::c14, replay: c_conv::replay },
        "C15" => Prop { jobs: c_eq::c15, replay: c_eq::replay },
        "C16" => Prop { jobs: c_store::c16, replay: c_store::replay },
        "C17" => Prop { jobs: c_store::c17, replay: c_store::replay },
        "C18" => Prop { jobs: c_arr::c18, replay: c_arr::replay },
        "C19" => Prop { jobs: c_arr::c19, replay: c_arr::replay },
        "C20" => Prop { jobs: c_arr::c20, replay: c_arr::replay },
        "C21" => Prop { jobs: c_arr::c21, replay: c_arr::replay },
        "C22" => Prop { jobs: c_store::c22, replay: c_store::replay },
        "C23" => Prop { jobs: c_eq::c23, replay: c_eq::replay },
        "C25" => Prop { jobs: c_misc::c25, replay: c_misc::replay },
        "C26" => Prop { jobs: c_misc::c26, replay: c_misc::replay },
        "C27" => Prop { jobs: c_conv::c27, replay: c_conv::replay },
        "C24" => Prop { jobs: c_arr::c24, replay: c_arr::replay },
        _ => return None,
    })
}

/// mc run <PROP> <quick|thorough> <seed> <budget_s> <known,known,...>
/// mc replay <PROP> <trace line>
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let fail = |m: String| -> ! {
        println!("ENGINE-ERROR {m}");
        std::process::exit(2)
    };
    if args.len() < 3 {
        fail("usage".into());
    }
    let id = &args[2];
    let p = prop(id).unwrap_or_else(|| fail(format!("unknown property {id}")));
    install_hook();
    match args[1].as_str() {
        "run" => {
            let tier = if args[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
            let seed: u64 = args[4].parse().unwrap_or(1);
            let budget: u64 = args[5].parse().unwrap();
            let known: Vec<String> = args.get(6).map(|s| s.split(',').filter(|x| !x.is_empty()).map(String::from).collect()).unwrap_or_default();
            let checked = match catch(model::self_check) {
                Ok(n) => n,
                Err(e) => fail(format!("reference model self-check failed: {e}")),
            };
            let mut jobs = (p.jobs)(tier);
            // for trying out single parts
            if let Some(only) = args.get(7) {
                jobs.retain(|j| j.name.contains(only.as_str()));
            }
            let r = explore(jobs, p.replay, known, seed.wrapping_mul(1_000_003), Duration::from_secs(budget));
            let viols: Vec<_> = r
                .violations
                .iter()
                .take(5)
                .map(|v| serde_json::json!({"job": v.job_name, "case": v.case, "what": v.what, "reproduced": v.reproduced}))
                .collect();
            let out = serde_json::json!({
                "profile": if cfg!(debug_assertions) { "checked" } else { "release" },
                "jobs": r.jobs, "jobs_done": r.jobs_done, "states": r.states, "transitions": r.transitions,
                "replayed": r.replayed, "distinct_outcomes_at_least": r.outcomes, "samples": r.samples,
                "violations": viols, "known": r.known, "capped": r.capped, "wall_s": r.wall,
                "model_self_check": checked,
            });
            println!("{out}");
            std::process::exit(if !r.violations.is_empty() { 1 } else { 0 });
        }
        "replay" => {
            let line = args[3..].join(" ");
            let mut bad = None;
            for seed in 0..512u64 {
                let line = line.clone();
                let r = with_seed(seed, move || catch(|| (p.replay)(&Case::parse(&line))));
                bad = match r {
                    Ok(Ok(())) => continue,
                    Ok(Err(Fail::V(e))) => Some(e),
                    Ok(Err(Fail::K(k, e))) => Some(format!("[{k}] {e}")),
                    Err(e) => Some(format!("panicked: {e}")),
                };
                break;
            }
            match bad {
                Some(e) => {
                    println!("FAILS: {e}");
                    std::process::exit(1);
                }
                None => println!("holds"),
            }
        }
        o => fail(format!("unknown command {o}")),
    }
}
