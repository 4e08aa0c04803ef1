#![allow(dead_code)]
mod config;
mod core;
mod backlog;
mod deadline;
mod docker;
mod engine;
mod frame;
mod gen;
mod github;
mod host;
mod logger;
mod monitors;
mod puppet;
mod remote;
mod residue;
mod retry;
mod rng;
mod sched;
mod stack;
mod sync;
mod wire;

use frame::PropDef;

#[global_allocator]
static ALLOCATOR: residue::Counting = residue::Counting;

const NO: &[&str] = &[];

fn defs() -> Vec<PropDef> {
  let base = |id: &'static str, case: fn(&mut frame::Case), rule: &'static str, required: &'static [(&'static str, u64)]| PropDef {
    id,
    rule,
    quick_s: 15,
    thorough_s: 400,
    shards: 8,
    required,
    max_cases: u64::MAX,
    case,
    hang_is_violation: true,
    unprivileged: id.starts_with('H') || id == "C21" || id == "E01",
    assumptions: NO,
  };
  vec![
    base("C01", core::c01, "distinct recorded event orders of generated workflow runs", &[("runs", 200), ("dependency_edges", 200)]),
    base("C02", config::c02, "distinct dependency graphs (all graphs of up to 3 jobs incl. undefined names, all of 4 jobs, random larger ones)", &[("acceptable", 500), ("unacceptable", 3000), ("run_to_completion", 500), ("all_graphs_up_to_3_jobs_quarters", 4), ("all_graphs_of_4_jobs_32nds", 32)]),
    base("C03", core::c03, "distinct recorded event orders of runs with crashes placed in them", &[("crashed_jobs", 50), ("vanished_streams", 50)]),
    base("C04", core::c04, "distinct recorded event orders", &[("skipped_steps", 100), ("steps_executed", 500)]),
    base("C05", core::c05, "distinct recorded event orders", &[("workflows_failed", 50), ("workflows_cancelled", 20), ("workflows_succeeded", 50)]),
    base("C06", core::c06, "distinct recorded event orders", &[("events", 10000)]),
    base("C07", core::c07, "distinct recorded event orders", &[("log_lines", 5000)]),
    base("C08", core::c08, "distinct recorded event orders", &[("hook_errors", 500)]),
    base("C09", core::c09, "distinct recorded event orders", &[("rewrites", 500), ("rewritten_or_configured_timeouts_fired", 100)]),
    base("C10", core::c10, "distinct recorded event orders in virtual time", &[("timeouts_fired", 100), ("ended_before_timeout", 100), ("real_time_deadlines", 50), ("timeouts_with_backlog", 100)]),
    base("C11", core::c11, "distinct recorded event orders with cancellations in them", &[("cancel_accepted", 100), ("cancel_before", 20), ("cancel_after", 20), ("cancel_running", 50), ("cancel_prevented", 20), ("cancellations_with_backlog", 100)]),
    base("C12", sync::c12, "distinct orders of concurrent calls and waits on one handle", &[("signals", 5000), ("waiter_early", 1000), ("waiter_late", 1000)]),
    base("C13", sync::c13, "distinct delivery orders at the reader", &[("streams", 1500), ("lines", 30000), ("contended_ends", 500)]),
    base("C19", sync::c19, "distinct step ids", &[("ids", 10000), ("rejected_texts", 30000)]),
    base("C14", config::c14, "distinct configuration texts", &[("configurations", 2000), ("malformed_configurations", 4000), ("damaged_texts", 4000), ("fresh_ids", 200)]),
    base("C15", config::c15, "distinct configurations with actions", &[("action_steps", 3000), ("resolvable", 1000), ("unresolvable", 200)]),
    base("C16", config::c16, "distinct conditions and change sets", &[("matching", 3000), ("not_matching", 3000), ("invalid_patterns", 1000)]),
    base("C17", github::c17, "distinct workflows with conditions, events and change sets", &[("with_change_set", 200), ("without_change_set", 80), ("change_sets_over_one_page", 50), ("steps_skipped_by_condition", 100), ("conditional_steps_run", 100), ("jobs_skipped", 50), ("workflows_skipped", 10), ("app_authorization_runs", 50)]),
    base("C18", core::c18, "distinct recorded event orders", &[("with_event", 100), ("with_payload", 100)]),
    base("C20", core::c20, "distinct recorded event orders of concurrent workflows", &[("runs", 300), ("cancel_accepted", 50)]),
    base("C21", residue::c21, "distinct workflows run again and again", &[("engine_runs", 5000), ("remote_runs", 200), ("bundled_runs", 100), ("shapes_with_vanish", 20), ("shapes_with_panic", 20), ("shapes_with_wait", 20), ("shapes_with_cancellation", 20)]),
    base("S01", sched::s01, "distinct placement histories", &[("placements", 20000), ("not_placed", 2000), ("host_steps", 10000), ("concurrent_placements", 2000)]),
    base("S02", sched::s02, "distinct placement histories", &[("bound_container_steps", 20000), ("jobs_completed", 2000), ("concurrent_placements", 2000)]),
    base("S03", sched::s03, "distinct placement histories, sequential and concurrent", &[("first_container_steps", 3000), ("concurrent_histories", 2000), ("overlapping_operations", 1000), ("linearizability_checks", 1000), ("balance_checks", 100), ("probes", 5000)]),
    base("R01", remote::r01, "distinct recorded event orders of runs over remote runners", &[("runs", 100), ("lines", 2000), ("steps_executed_remotely", 300)]),
    base("R02", remote::r02, "distinct recorded event orders of runs over remote runners with signals in them", &[("signal_cancel", 50), ("signal_timeout", 50), ("signalled_executions", 50), ("earlier_executions_ended_meanwhile", 30)]),
    base("R03", remote::r03, "distinct recorded event orders at the remote runners", &[("events_received", 20000), ("refusing_remotes", 10)]),
    base("R04", remote::r04, "distinct recorded event orders of runs over failing remote runners", &[("not_reached", 50), ("cut_before_result", 50), ("refused", 20), ("remote_sides_killed", 5)]),
    base("R05", remote::r05, "distinct recorded event orders of runs over remote runners", &[("callbacks", 2000), ("completed_jobs_probed", 50)]),
    base("R06", remote::r06, "distinct recorded event orders of runs with rewriting remote hooks", &[("rewrites", 300), ("failed_hooks", 50), ("executed", 200)]),
    base("R07", wire::r07, "distinct groups of generated messages and byte strings", &[("commands", 500), ("contexts", 200), ("stream_items", 500), ("events", 500), ("metadata", 200), ("invalid_bytes", 1000), ("client_bytes", 500)]),
    base("R08", remote::r08, "distinct address lists and placements", &[("good", 100), ("unreachable", 30), ("garbage", 30), ("incompatible", 20), ("repeated_id", 10), ("repeated_url", 10), ("offers", 500)]),
    base("H01", host::h01, "distinct outputs and endings of groups of host steps", &[("steps", 300), ("lines", 5000), ("invalid_bytes", 50), ("late_after_close", 20), ("no_final_newline", 50), ("background_writers", 20), ("nonzero_exits", 50), ("big_outputs", 10)]),
    base("H02", host::h02, "distinct directories and environments of groups of host steps", &[("steps", 500), ("variables", 1000), ("directories", 300)]),
    base("H03", host::h03, "distinct outcomes of groups of workflows with files", &[("workflows", 100), ("listings", 300), ("listings_with_files", 100), ("workflows_failed", 20), ("workflows_succeeded", 10)]),
    base("H04", host::h04, "distinct groups of signalled host steps", &[("stopped_while_running", 100), ("signals_before_start", 50), ("processes_checked", 200)]),
    base("H05", host::h05, "distinct docker command lines", &[("container_steps", 200), ("host_steps", 30), ("options_checked", 1000)]),
    base("H06", host::h06, "distinct groups of container steps and signals", &[("ended_by_themselves", 100), ("killed_containers", 50), ("signals_before_start", 50)]),
    base("H07", host::h07, "distinct hook orders and outcomes", &[("hooks", 1000), ("rewrites", 500), ("failed_hooks", 100), ("ended", 100), ("signalled", 50), ("not_startable", 10)]),
    base("E01", stack::e01, "distinct outcomes of workflows executed through the whole stack", &[("workflows", 60), ("host_steps", 60), ("container_steps", 60), ("timeouts", 8), ("cancellations", 8), ("steps_skipped", 10)]),
    base("L01", logger::l01, "distinct configurations and outputs of processes that log", &[("processes", 500), ("records", 5000), ("repeated_inits", 500), ("concurrent_inits", 50), ("level_by_default", 20), ("level_from_environment", 50), ("level_info_or_unknown", 20)]),
  ]
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  if args[0].rsplit('/').next() == Some("docker") {
    std::process::exit(docker::main(&args[1..]));
  }
  match args.get(1).map(|s| s.as_str()) {
    Some("puppet") => puppet::main(&args[2]),
    Some("logtest") => logger::child(),
    _ => {}
  }
  let defs = defs();
  let find = |id: &str| match defs.iter().find(|d| d.id == id) {
    Some(d) => d,
    None => {
      eprintln!("unknown property {}", id);
      std::process::exit(2)
    }
  };
  let code = match args.get(1).map(|s| s.as_str()) {
    Some("run") => frame::parent(find(&args[2])),
    Some("worker") => frame::worker(find(&args[2]), args[3].parse().unwrap(), args[4].parse().unwrap(), &args[5]),
    Some("replay") => {
      // replay ID SEED CASE, or replay FILE
      if args.len() == 3 {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("json");
        frame::replay(find(v["property"].as_str().unwrap()), v["seed"].as_u64().unwrap(), v["case"].as_u64().unwrap(), false)
      } else {
        frame::replay(find(&args[2]), args[3].parse().unwrap(), args[4].parse().unwrap(), false)
      }
    }
    Some("list") => {
      for d in &defs {
        println!("{}", d.id);
      }
      0
    }
    _ => {
      eprintln!("usage: vh run|worker|replay|list ...");
      2
    }
  };
  std::process::exit(code)
}
