#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 tools/props.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "crates/astro-run/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None, tech="", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, state=state, obs=obs, hook=hook, tech=tech, note=note))

p("C01", "Every job runs exactly once, as soon as its dependencies have finished",
  "In a run of an accepted workflow that is not skipped, every job is executed exactly once and the workflow result holds exactly one result per job. "
  "A job never starts before every job it depends on has finished (whatever their outcome), and it starts as soon as the last of them has finished, without waiting for unrelated jobs. "
  "Jobs without dependencies all start at the beginning, and running the same workflow again later behaves the same way.",
  ["inputs", "schedules", "histories"],
  "every dependency graph, every assignment of step durations and outcomes, every completion order of the jobs, repeated runs",
  "The tests run graphs of two or three jobs with instantaneous runners, so the order in which jobs finish (a ready job being re-examined while it is still running) is never varied.",
  [A+"workflow/mod.rs"], [("job dispatch loop", A+"workflow/mod.rs Workflow::run")],
  state=[("waiting jobs", "jobs whose dependencies have not all finished", A+"workflow/mod.rs")],
  obs=["Runner::run", "Plugin::on_run_job / on_job_completed", "WorkflowRunResult.jobs"],
  tech="trace monitor (exactly-once, happens-before, start promptness in virtual time) over randomized workflow executions",
  note="Real engine executed with scripted runners on paused virtual time and on a multi-threaded runtime; every trace checked against the dependency graph.")

p("C02", "Only runnable dependency graphs are accepted",
  "Building a workflow from a configuration succeeds only if it has at least one job, every job has at least one step, every dependency names a job of the workflow, and the dependencies contain no cycle (including a job depending on itself). "
  "A configuration that meets these conditions and is otherwise well formed is accepted, and every accepted workflow can be run to completion.",
  ["inputs"], "every dependency graph over any number of jobs, including partial cycles, self cycles, unknown names and empty lists",
  "The tests try one unknown dependency and one two-job cycle covering all jobs; graphs mixing roots and cycles are not tried.",
  [A+"user_config.rs"], [("validation", A+"user_config.rs UserWorkflow::validate")],
  obs=["Workflow::builder().build()", "Workflow::run"],
  tech="differential monitor against a reference graph validator over exhaustive small and random large graphs, plus bounded-progress runs",
  note="All digraphs up to 3 jobs enumerated, larger ones sampled; accepted ones are executed under virtual time with a hang detector.")

p("C03", "A workflow run always ends, even when a runner or plugin crashes",
  "If every step's runner eventually ends its log stream, returns an error, panics, or goes away without reporting a result, then the workflow run returns. "
  "A step whose runner goes away without reporting a result ends as failed, and a job whose runner or hook panics is reported as failed in the workflow result. "
  "The other jobs of the workflow, including those depending on the crashed job, still run and keep their own results.",
  ["inputs", "fault_sequences", "crash_points", "schedules"],
  "every workflow and every placement of a runner error, runner panic, vanished log stream or plugin panic in it",
  "No test makes a runner or plugin panic or drop its stream; the failure would be a hang, which a passing test run never shows.",
  [A+"workflow/mod.rs", A+"stream.rs", A+"execution_context/mod.rs"],
  [("job task supervision", A+"workflow/mod.rs Workflow::run_job"), ("stream end", A+"stream.rs"), ("runner error path", A+"execution_context/mod.rs ExecutionContext::run")],
  obs=["Workflow::run returning", "WorkflowRunResult"],
  tech="bounded-progress monitor in virtual time with injected runner errors, panics and vanished streams",
  note="Termination is restated as: the run returns before a virtual deadline that exceeds every scripted delay by orders of magnitude.")

p("C04", "Steps of a job run one at a time, in order, under the skip rules",
  "The steps of a job are executed in their listed order and never overlap. "
  "A step is executed unless an earlier step of the job was cancelled, or an earlier step failed and the step is not marked continue-on-error, or its condition does not match; otherwise it is reported as skipped, never reaches the runner, and the job goes on with the next step. "
  "Every step of an executed job has exactly one result, in order.",
  ["inputs", "histories"], "every step list, outcome sequence, and placement of continue-on-error",
  "Tests use lists of one to three steps with one failure; combinations of failure, cancellation and continue-on-error are not explored.",
  [A+"workflow/job.rs"], [("step loop", A+"workflow/job.rs Job::run")],
  obs=["Runner::run", "JobRunResult.steps", "StepStateUpdated events"],
  tech="trace monitor against a reference step-sequencing model",
  note="Random outcome sequences, continue-on-error flags and plugin rewrites, in virtual time and multi-threaded.")

p("C05", "Step, job and workflow results mirror what the runner reported",
  "A step's result is what the runner reported: succeeded; failed with exactly the runner's exit code; or cancelled; and failed with exit code 1 if the runner refused the step with an error. "
  "A job is cancelled if one of its steps was cancelled, else failed if one of its steps failed (even if later steps succeeded), else succeeded; a workflow is failed or cancelled if one of its jobs was (either one if both occur) and otherwise succeeded, skipped steps and jobs not counting as failures. "
  "Executed entities have start and completion times with start not after completion and children within their parents, and a step's times enclose what its runner did; skipped ones have neither times nor exit code.",
  ["inputs", "schedules"], "every combination of step outcomes and exit codes in every workflow, in every completion order",
  "Tests assert the aggregate state for a handful of outcomes; exit codes and mixed outcomes across concurrent jobs are not varied.",
  [A+"execution_context/mod.rs", A+"workflow/job.rs", A+"workflow/mod.rs"],
  [("result mapping", A+"execution_context/mod.rs ExecutionContext::run"), ("aggregation", A+"workflow/job.rs, "+A+"workflow/mod.rs")],
  obs=["WorkflowRunResult", "on_*_completed hooks"],
  tech="differential trace monitor against a reference result model",
  note="Result of every executed entity recomputed from the scripted runner outcomes.")

p("C06", "Lifecycle events form exactly one well-nested sequence per entity",
  "Every executed workflow, job and step produces exactly one run event, then its state changes (in progress then a terminal state; a step is queued first, and a step refused by the runner goes from queued to failed), then exactly one completed event whose state equals the terminal state change and the returned result. "
  "Events of a step lie between its job's in-progress and terminal state changes, and those of a job between its workflow's, and steps of one job do not interleave. "
  "A skipped workflow, job or step produces exactly one state change, to skipped, and no run or completed event.",
  ["inputs", "schedules", "histories"], "every workflow, outcome sequence and interleaving of concurrent jobs",
  "Tests check a few hook invocations; the full grammar over concurrent jobs is never asserted.",
  [A+"workflow/mod.rs", A+"workflow/job.rs", A+"execution_context/mod.rs"],
  [("hook calls", A+"execution_context/mod.rs call_on_*")],
  obs=["Plugin hooks", "Runner hooks"],
  tech="online/offline event-grammar monitor over recorded hook traces",
  note="Per-entity automata plus nesting checks over the merged trace of every plugin and the runner.")

p("C07", "Log lines are delivered completely, in order and to the right step",
  "Every log line a step's runner sends before ending the step reaches every plugin's and the runner's log hook exactly once, in the order sent, with its text and stream type unchanged, attributed to that step and with a time between the call of the runner and its delivery. "
  "All log events of a step come after the step is in progress and before its terminal state change, and lines of concurrent steps are never mixed up.",
  ["inputs", "schedules"], "every sequence and timing of log lines (bursts before the stream is read, lines racing with the end, arbitrary text) over any number of concurrent steps",
  "Tests send a few lines from one step; bursts, races with stream end and concurrent steps are not driven.",
  [A+"stream.rs", A+"execution_context/mod.rs"], [("log stream", A+"stream.rs"), ("log pump", A+"execution_context/mod.rs ExecutionContext::run")],
  obs=["StreamSender::log/error", "Plugin::on_log", "Runner::on_log"],
  tech="conservation/ordering monitor with unique line ids over randomized bursts and schedules",
  note="Each line carries a unique id; delivered sequence must equal the sent sequence per step and per observer.")

p("C08", "Every plugin sees every event in registration order; failures stay isolated",
  "For every event, every registered plugin's hook is called exactly once, in registration order, and then the runner's hook; the runner's hook for an event is not called before all plugins handled it. "
  "A hook that returns an error has no effect on which events other plugins and the runner receive, nor on the results of the workflow.",
  ["inputs", "configurations", "fault_sequences"], "every number of plugins (trait or builder made), every subset of hooks failing at any point, every workflow",
  "Tests register at most a few plugins with fixed failing hooks and do not compare what each of them saw.",
  [A+"plugins/plugin_driver.rs", A+"plugins/plugin.rs", A+"execution_context/mod.rs"],
  [("fan-out", A+"plugins/plugin_driver.rs"), ("runner hook calls", A+"execution_context/mod.rs")],
  obs=["Plugin hooks", "Runner hooks"],
  tech="trace monitor comparing the event sequences seen by all observers under injected hook errors",
  note="Plugins of both kinds with random per-hook error injection; observer traces must be equal and ordered; results equal those of the reference model.")

p("C09", "Before-run-step hooks rewrite steps as a chain",
  "Before each executed step every plugin's before-run-step hook is called once, in registration order, each receiving the step returned by the previous one, and then the runner's; a hook that returns an error leaves the step as it was. "
  "The step that is announced to run-step hooks and the command the runner receives (script, environment, container, secrets, timeout, name) are exactly the chain's result, and the rewritten timeout is the one enforced. "
  "Rewriting one step affects no other step.",
  ["inputs", "configurations", "fault_sequences"], "every chain of rewriting and failing hooks on every step",
  "One unit test calls the driver with three plugins and asserts nothing about the outcome.",
  [A+"plugins/plugin_driver.rs", A+"execution_context/mod.rs", A+"workflow/step.rs"],
  [("rewrite chain", A+"plugins/plugin_driver.rs on_before_run_step"), ("runner rewrite", A+"execution_context/mod.rs call_on_before_run_step")],
  obs=["Plugin::on_before_run_step", "Runner::on_before_run_step", "Runner::run context", "RunStepEvent"],
  tech="differential trace monitor: chain recomputed from recorded hook inputs and outputs",
  note="Random rewrites of every field with random errors; equality of announced, received and computed step.")

p("C10", "A step that exceeds its timeout is told so once, on time",
  "A step still running when its timeout has elapsed since it went in progress receives exactly one timeout signal at that moment, no matter how long the timeout is and how often or when it writes logs; a step that ends earlier receives none. "
  "If the runner then ends the step, its result stands, and other steps and jobs are not signalled.",
  ["inputs", "schedules"], "every timeout, step duration and pattern of log output",
  "The test uses a silent step; a step that writes output periodically exercises a different path through the loop.",
  [A+"execution_context/mod.rs", A+"signals/signal.rs"], [("timeout arm", A+"execution_context/mod.rs ExecutionContext::run")],
  obs=["AstroRunSignal seen by the runner (virtual time)"],
  tech="real-time-property monitor in deterministic virtual time",
  note="Signal time compared to the deadline to within 2 virtual ms over random log patterns and durations.")

p("C11", "Cancelling a job reaches its running step and stops the job",
  "Cancelling a job is accepted at most once and only between the moment the job is announced as run and its completion; otherwise it returns an error and changes nothing. "
  "After an accepted cancellation the step being executed receives exactly one cancel signal without delay (unless it already received a timeout), no further step of that job is started, and the remaining steps are skipped; if a step was thus prevented the job ends cancelled. "
  "No other job is affected.",
  ["inputs", "schedules", "histories"], "every moment of cancellation relative to the job's steps (before, between, during, after), repeated cancellation, and every reaction of the runner to the signal",
  "The tests cancel one running step whose runner honours the signal; cancellation between steps or an uncooperative runner is not tried.",
  [A+"signals/mod.rs", A+"execution_context/mod.rs", A+"workflow/job.rs"],
  [("job signals", A+"signals/mod.rs SignalManager"), ("forwarding", A+"execution_context/mod.rs ExecutionContext::run"), ("stop", A+"workflow/job.rs Job::run")],
  obs=["AstroRun::cancel_job / ExecutionContext::cancel_job", "signal seen by runner", "JobRunResult"],
  tech="trace monitor over cancellations injected at random virtual times and in multi-threaded runs",
  note="Call and return of every cancel recorded; acceptance window, delivery and aftermath checked per trace.")

p("C12", "A signal handle has one winner and wakes its waiter",
  "Among any number of concurrent cancel and timeout calls on one signal handle exactly one succeeds and all others return an error; from then on the handle reports exactly that kind. "
  "A waiter is woken and receives exactly that signal, whether it began waiting before or after, and the signal is received once only.",
  ["schedules", "histories"], "every interleaving of senders, waiters and observers over clones of a handle",
  "Unit tests call the operations sequentially from one task.",
  [A+"signals/signal.rs"], [("signal state", A+"signals/signal.rs AstroRunSignal")],
  obs=["AstroRunSignal::cancel/timeout/is_cancelled/is_timeout/recv"],
  tech="linearizability-style history monitor under thread stress; Miri with many scheduler seeds in the thorough tier",
  note="Concurrent call/return histories checked against a write-once register; lost wake-ups shown as quiescent unfinished waits.")

p("C13", "A log stream loses nothing and its first result wins",
  "For any number of concurrent producers, the reader obtains every line sent before the end exactly once, each producer's lines in its order, then the end of the stream. "
  "The first result set is the result for good: later or concurrent ends never replace it, exactly one of several is kept, and the reader is always woken for new lines and for the end.",
  ["schedules", "histories"], "every interleaving of log, error, end and read calls over clones of the sender",
  "Unit tests send and then read sequentially.",
  [A+"stream.rs"], [("shared state", A+"stream.rs StreamSender/StreamReceiver")],
  obs=["StreamSender", "StreamReceiver as Stream", "StreamReceiver::result"],
  tech="history monitor (unique values, write-once result) under thread stress; Miri with many seeds in the thorough tier",
  note="Producers and ender threads raced with barriers and yields; results observed repeatedly must never change.")

p("C14", "A workflow is a faithful image of its configuration",
  "Every accepted configuration yields a workflow with exactly the configured jobs, and every job and step carries the configured name, script, container, environment, secrets, continue-on-error flag, condition, dependencies and working directories; a step without a container uses the job's, an unset timeout is one hour, and a configured timeout is parsed exactly. "
  "Step ids are the workflow id, the job key and the position in the job, the given workflow id is used, and without one every workflow gets a fresh unique id. "
  "Malformed configurations (bad YAML, wrong types, bad timeout) are rejected with an error, never a panic.",
  ["inputs"], "every configuration document",
  "Tests parse a few fixed documents with few of the optional fields combined.",
  [A+"workflow/parser.rs", A+"user_config.rs", A+"workflow/builder.rs", A+"types/envs.rs"],
  [("parser", A+"workflow/parser.rs WorkflowParser::parse")],
  obs=["Workflow::builder().build()"],
  tech="differential monitor: random configurations emitted as YAML, parsed by the real code, compared with the generator's model",
  note="Generator covers every optional field and hostile strings; mutation fuzzing for the no-panic part.")

p("C15", "Actions expand in place with pre and post steps around the job",
  "Each action step is replaced in place by its action's run step; the pre steps of all actions come first, in order, and their post steps last, in reverse order, and all other steps keep their order. "
  "A registered action of that name is used if there is one, otherwise the first plugin that resolves it; each action receives exactly the configured action step. "
  "An action that nobody provides, or that itself expands to an action, makes the build fail with an error.",
  ["inputs", "configurations"], "every mix of command and action steps, registered and dynamically resolved actions, failing resolvers and failing actions",
  "Tests use one or two actions in fixed positions.",
  [A+"workflow/parser.rs", A+"actions.rs", A+"plugins/plugin_driver.rs"],
  [("expansion", A+"workflow/parser.rs try_normalize_user_steps"), ("resolution", A+"actions.rs, "+A+"plugins/plugin_driver.rs")],
  obs=["Workflow::builder().build()", "Action::normalize", "Plugin::on_resolve_dynamic_action"],
  tech="differential monitor against a reference expansion over random action configurations",
  note="Expected step list recomputed by the reference; actions and resolvers record what they received.")

p("C16", "Conditions match exactly the configured events, branches and paths",
  "A list of event names matches exactly when it contains the event. A per-event configuration matches exactly when it has an entry for the event and, where given, some branch pattern matches the branch and some path pattern matches some changed path, patterns being shell globs in which * and ** also cross directory separators. "
  "An invalid pattern matches nothing and does not change what the other patterns match.",
  ["inputs"], "every condition, event, branch and set of changed paths",
  "Unit tests check a dozen fixed patterns; interaction of branches, paths and several patterns is not varied.",
  [A+"types/condition.rs"], [("matching", A+"types/condition.rs Condition::is_match")],
  obs=["Condition::is_match"],
  tech="differential monitor against an independent glob and condition evaluator",
  note="Reference matcher written from the documented glob language, not sharing code with the glob crate.")

p("C17", "Conditions gate workflows, jobs and steps on the real change set",
  "With GitHub authorization and a trigger event, a workflow, job or step with a condition runs exactly when the condition matches the event, its branch and the complete list of files changed by the push's commit or by the pull request; otherwise it is skipped, and siblings are unaffected. "
  "Without authorization or without an event, or if the change set cannot be obtained, conditions are ignored and everything runs.",
  ["inputs", "fault_sequences"], "every condition placement, event, change set of any size, and GitHub failure",
  "The tests need the network and two fixed repositories; they do not run offline at all.",
  [A+"execution_context/condition_matcher.rs", A+"workflow/mod.rs", A+"workflow/job.rs", A+"workflow/step.rs"],
  [("change set", A+"execution_context/condition_matcher.rs"), ("gates", A+"workflow/*.rs should_skip")],
  obs=["WorkflowRunResult", "requests received by a fake GitHub"],
  tech="trace monitor against a reference gate model, with a fake GitHub API server (TLS, loopback) and injected API faults",
  note="The real HTTP client is driven through a loopback proxy and TLS server serving generated change sets, including multi-page ones.")

p("C18", "Trigger event and payload reach every hook and the runner unchanged",
  "The trigger event and the payload given to a run are what every run hook (workflow, job, step) and every runner invocation of that run receive, unchanged: the same event fields, a payload that converts back to the same typed value, and the serialized payload for the runner; runs without them receive none. "
  "Concurrent runs never see each other's.",
  ["inputs", "schedules"], "every event and payload value, any number of concurrent runs",
  "Tests use one fixed payload.",
  [A+"execution_context/mod.rs", A+"execution_context/context_payload.rs", A+"execution_context/builder.rs"],
  [("propagation", A+"execution_context/mod.rs")],
  obs=["RunWorkflowEvent/RunJobEvent/RunStepEvent", "Context.event/payload", "ExecutionContext::payload"],
  tech="trace monitor with a unique event and payload per run",
  note="Every hook and runner call compared with the run's own event and payload over concurrent runs.")

p("C19", "Identifiers print and parse back to themselves",
  "For workflow ids and job keys without a slash, the text form of a workflow, job or step id parses back to an equal id, its parts are the ones it was made from, and distinct ids have distinct text forms. "
  "Text that is not of the documented form (wrong number of parts, a step number that is not a non-negative integer) is rejected with an error.",
  ["inputs"], "every id part and every string",
  "Unit tests use one id of each kind.",
  [A+"types/id.rs"], [("conversions", A+"types/id.rs")], obs=["TryFrom<&str>, Display, accessors"],
  tech="round-trip and rejection monitor over random and hostile strings",
  note="Reference parser by counting separators.")

p("C20", "Concurrent workflow runs do not interfere",
  "Workflows with different ids running at the same time on one instance behave as if each ran alone: same executed steps, logs, events and results for each, with every event attributed to its own workflow. "
  "Cancelling a job of one run never affects another run, even when job keys are equal.",
  ["schedules", "inputs"], "every set of concurrent workflows and interleaving",
  "Tests run one workflow at a time.",
  [A+"astro_run.rs", A+"signals/mod.rs", A+"execution_context/mod.rs"], [("shared state", A+"astro_run.rs AstroRun")],
  obs=["hook traces per workflow", "WorkflowRunResult"],
  tech="trace projection monitor: all single-run monitors applied to each workflow of a concurrent multi-threaded run",
  note="Same job keys reused across workflows; traces projected per workflow id and checked by the C01-C11 monitors.")

S = "crates/scheduler/src/default.rs"
p("C21", "A finished run leaves nothing behind",
  "Once a workflow run has returned and the work of its runner has ended, nothing of it is left: no task of the run goes on, and memory, open files and processes in use do not grow with the number of runs, whatever the outcomes, cancellations and timeouts; locally, over remote runners placed by the default scheduler, and with the bundled runner. Dropping the instance releases its runner and plugins.",
  ["inputs", "schedules", "histories", "fault_sequences"], "every workflow, outcome, cancellation, and any number of runs on one instance",
  "Unit tests run one workflow and exit; what accumulates over many runs is invisible to them.",
  [A+"signals/mod.rs", A+"workflow/job.rs", A+"execution_context/mod.rs", "crates/scheduler/src/default.rs", "crates/remote-runner/src/client.rs", "crates/remote-runner/src/runner_server.rs"],
  [("completion and unregistration", A+"workflow/job.rs run, "+A+"signals/mod.rs"), ("bindings", "crates/scheduler/src/default.rs on_job_completed")],
  obs=["tasks alive on the runtime", "bytes in use (counting allocator)", "open files", "child processes", "release of runner and plugins"],
  tech="resource monitor: counting allocator, task, file and process counts over windows of repeated randomized runs",
  note="Growth counts only if it persists in every one of several windows, again over longer ones; tasks of the engine must be gone at once in paused time.")
p("S01", "A step is only placed on a runner that can execute it",
  "The default scheduler returns a runner only from the offered list; for a step whose container is host/<os> or host/<os>-<arch> that runner supports host execution and has that os (and arch), and for any other step that is not bound to a runner by its job it supports containers. "
  "If some offered runner qualifies one is returned, and if none does the step is not placed.",
  ["inputs", "histories"], "every set of runners, container and history of earlier placements, with runners joining and leaving",
  "Tests use two or three fixed runners in a fixed order.",
  [S], [("selection", S+" schedule/pick_runner")], obs=["Scheduler::schedule"],
  tech="online reference-model monitor over random scheduling histories",
  note="Eligibility recomputed for every decision.")
p("S02", "Container steps of a job stay on one runner",
  "Once a container step of a job has been placed, every later container step of that job is placed on the same runner as long as that runner is offered; host steps do not change this binding, and it ends when the job completes. "
  "Bindings of different jobs are independent.",
  ["histories", "inputs"], "every history of steps, jobs and runner availability",
  "Tests check one job of three steps.",
  [S], [("job binding", S+" job_runners")], obs=["Scheduler::schedule", "on_job_completed"],
  tech="online reference-model monitor over random scheduling histories",
  note="Binding map recomputed by the monitor.")
p("S03", "Runner load is accounted exactly and new jobs go to the least loaded",
  "At any moment the load of a runner is the number of steps placed on it and not yet completed, whatever the order of placements and completions, and it returns to nothing when all have completed; completing a step that was not placed changes nothing. "
  "A job's first container step goes to an eligible runner with minimal load, also when steps are placed concurrently.",
  ["histories", "schedules"], "every interleaving of placements and completions",
  "Tests check that counters are empty at the end of one sequential run.",
  [S], [("load counters", S+" runs_count/step_runners")], obs=["Scheduler::schedule", "on_step_completed", "public scheduler state"],
  tech="conservation monitor over sequential and concurrent scheduling histories",
  note="Shadow counters; concurrent placements checked for balance on identical runners.")

R = "crates/remote-runner/src/"
p("R01", "Running through a remote runner is indistinguishable from running locally",
  "A step executed through a connected remote runner yields the same log lines (text, type, order) and the same result as the remote side's runner produced, and that runner receives the same command, id, trigger event and payload as a local runner would. "
  "Concurrent steps on the same or different remote runners do not mix.",
  ["inputs", "schedules"], "every workflow, log output and outcome over any number of remote runners",
  "Tests run single steps with fixed output over one connection.",
  [R+"client.rs", R+"runner_server.rs", "crates/protocol/src/lib.rs"], [("run stream", R+"client.rs run, "+R+"runner_server.rs run")],
  obs=["local hooks and results", "remote Runner::run"],
  tech="differential trace monitor over real gRPC on loopback",
  note="Remote executions compared with the scripted remote runner's own record by unique line ids.")
p("R02", "Cancellation and timeouts reach the remote runner",
  "When a job with a step executing on a remote runner is cancelled, or the step exceeds its timeout, the remote side's runner receives exactly that signal once, for that step only, and its reaction determines the step's result as it would locally.",
  ["schedules", "histories"], "every moment of cancellation or timeout, several steps running on the same remote runner",
  "Tests signal one step on one runner.",
  [R+"client.rs", R+"runner_server.rs"], [("signal relay", R+"client.rs run, "+R+"runner_server.rs send_event")],
  obs=["Context.signal on the remote side", "results"],
  tech="trace monitor over real gRPC with signals injected at random times",
  note="Multiple concurrent steps; each remote context records the signals it saw.")
p("R03", "Connected remote runners receive every event once and in order",
  "Each connected remote runner's plugins and runner hooks receive every run, state change, log and completed event of the workflows run through the client, exactly once and in the order they occurred, with unchanged content, however fast events are produced and however slow a runner is. "
  "A runner that fails on or refuses an event does not keep others, or later events, from being delivered.",
  ["schedules", "fault_sequences", "histories"], "every burst of events, slow or failing runners, any number of connected runners",
  "Tests produce a handful of events, below every buffer limit.",
  [R+"client.rs", R+"runner_server.rs"], [("event relay", R+"client.rs start, "+R+"runner_server.rs send_event")],
  obs=["remote Plugin and Runner hooks", "local hooks"],
  tech="exactly-once/ordering monitor over real gRPC with bursts and slow consumers",
  note="Local observer trace compared with each remote trace after quiescence.")
p("R04", "Remote failures become failed steps, never hangs or silent success",
  "If no connected runner can take a step, or the connection or the remote runner fails, refuses, crashes or ends the exchange without a result at any point of a step, the step ends as failed with an error line, and the workflow run still ends with that outcome reflected. A remote runner that drops its own log stream without a result fails the step as it would locally. "
  "Lines received before the failure are kept.",
  ["fault_sequences", "crash_points"], "every point of failure in the exchange: before, during and after the request, between log lines, before the result",
  "Tests cover a runner that returns an error; the connection is never cut.",
  [R+"client.rs", R+"runner_server.rs"], [("error mapping", R+"client.rs run")],
  obs=["step result and logs", "Workflow::run returning"],
  tech="fault-injecting loopback proxy and crashing remote runners with a result monitor",
  note="Connections cut at swept byte offsets and times; runner errors, panics, vanished streams; unreachable and incompatible runners.")
p("R05", "The remote client tells its scheduler about every run and completion",
  "The scheduler given to the remote client is asked once for every executed step and is told of every run and completion of workflows, jobs and steps exactly once, and the runner it chose is the one that executes the step. "
  "After all workflows have ended the default scheduler's load and bindings are back to empty.",
  ["histories", "schedules"], "every workflow and outcome, any number of remote runners and concurrent runs",
  "Tests never look at the scheduler after a remote run.",
  [R+"client.rs", S], [("scheduler callbacks", R+"client.rs Runner impl")],
  obs=["Scheduler trait calls", "DefaultScheduler state"],
  tech="conservation monitor with a recording scheduler over real gRPC runs",
  note="A recording scheduler wraps the default one; calls compared with the local trace.")
p("R06", "Remote before-run-step hooks rewrite the step as local ones do",
  "With remote runners connected, the before-run-step hooks of each connected runner's plugins and runner see the step once, each the previous one's result, and the combined rewrite (script, environment, container, secrets, timeout, name, continue-on-error) is the step that is then announced and executed; if a remote hook fails the step runs as it was before the remote hooks.",
  ["inputs", "fault_sequences"], "every rewrite and failure over one or more runners",
  "One test rewrites one field on one runner.",
  [R+"client.rs", R+"runner_server.rs", A+"workflow/step.rs"], [("hook relay", R+"client.rs on_before_run_step, "+R+"runner_server.rs call_before_run_step_hook")],
  obs=["remote Plugin::on_before_run_step", "remote Runner::run context", "RunStepEvent"],
  tech="differential trace monitor over real gRPC",
  note="Chain recomputed from recorded hook inputs and outputs over all servers.")
p("R07", "Wire messages survive encoding unchanged",
  "Every command, context, event, log, result and metadata value that the system exchanges between client and remote runner decodes to an equal value, for arbitrary text, sizes below the transport limit, and optional fields present or absent. "
  "Bytes that are not a valid message are rejected with an error status and never crash the receiving side.",
  ["inputs"], "every message value, and arbitrary bytes",
  "Tests pass a few fixed values.",
  ["crates/protocol/src/lib.rs", "crates/protocol/src/common/json_codec.rs", A+"types/"], [("codec", "crates/protocol/src/common/json_codec.rs")],
  obs=["gRPC calls on loopback", "serialized form"],
  tech="round-trip monitor over random messages through the real gRPC stack, plus byte fuzzing of the server",
  note="Compared field by field via an independent projection; not-finite numbers excluded.")
p("R08", "Only compatible runners are connected, once each, and others are unaffected",
  "The client connects to every reachable runner of its own version once per runner id; unreachable runners, runners of another version and repeated ids are left out and do not affect the others. "
  "Steps are only ever offered to and executed on connected runners, whose offered metadata is what they announced.",
  ["configurations", "fault_sequences"], "every list of addresses mixing good, unreachable, incompatible and duplicate runners",
  "Tests connect to one or two good runners.",
  [R+"client.rs", R+"runner_server.rs"], [("connect", R+"client.rs start/connect")],
  obs=["runners offered to the scheduler", "remote Runner::run"],
  tech="trace monitor with a recording scheduler over generated runner fleets",
  note="Fake servers announcing other versions; dead ports; duplicate ids.")

H = "crates/runner/src/"
p("H01", "A host step's output and exit status are reported completely",
  "Every line a host step's command writes to standard output or standard error is logged exactly once with the right type and in the order written to that stream, including a last line without a newline, output in any amount, output after the other stream is closed and bytes that are not valid text, and the step does not hang on it. "
  "The step succeeds exactly when the command exits with 0, and otherwise fails with the command's exit code.",
  ["inputs", "schedules"], "every output pattern over the two streams, amount, timing, and exit status",
  "Tests echo one line; racing streams, large output and early closes are not driven (the existing command tests are flaky for this reason).",
  [H+"command.rs", H+"executors/host.rs"], [("output pump", H+"command.rs Command::run")],
  obs=["log stream and result of AstroRunner::run"],
  tech="conservation monitor over generated scripts whose exact output is known",
  note="Generated shell/python-free scripts with numbered lines on both streams, closes, bursts, kills.")
p("H02", "Host steps get their environment and their job's directory",
  "A host step runs with exactly its environment variables set to their configured values (any text), in its job's data directory under the working directory, the repository and the workflow; different jobs and workflows use different directories.",
  ["inputs", "schedules"], "every environment, script and mix of concurrent jobs",
  "Tests print one variable.",
  [H+"executors/host.rs", H+"metadata.rs", H+"command.rs"], [("command setup", H+"executors/host.rs into_command"), ("paths", H+"metadata.rs")],
  obs=["environment and cwd as seen by the command"],
  tech="monitor inside the executed command (dumps environ and cwd) compared with the configuration",
  note="Values with quotes, newlines, shell metacharacters; run as an unprivileged user in a scratch directory.")
p("H03", "Files live as long as they should: steps share, workflows clean up",
  "Files a step writes to its job's data directory are seen by later steps of that job and by no other job, are not removed or changed by the runner while the workflow runs, and are gone once the workflow has completed, whatever the outcome. "
  "Nothing outside that workflow's own directory is removed, in particular not other workflows' directories or the caches.",
  ["histories", "schedules"], "every sequence of steps, outcomes and concurrently running workflows",
  "No test looks at files across steps or after a run.",
  [H+"executors/host.rs", H+"executors/docker.rs", H+"astro_runner.rs", H+"metadata.rs"], [("cleanup", H+"astro_runner.rs cleanup_workflow_working_directory")],
  obs=["file system of the scratch working directory"],
  tech="file-system conservation monitor over multi-step, multi-workflow runs with canary files",
  note="Runs as an unprivileged user in a scratch tree with canaries in every place that must survive.")
p("H04", "Cancelled and timed out host steps stop",
  "When a host step is cancelled or times out it ends promptly, as cancelled or failed respectively, and the command it started, including its child processes, is stopped and has no further effects; this also holds if the signal came before the command was started, in which case the command is never started.",
  ["schedules", "histories"], "every moment of the signal relative to the command's life, and commands with background children",
  "Tests check the reported result only, not the process.",
  [H+"executors/host.rs", H+"command.rs"], [("signal arm", H+"executors/host.rs HostExecutor::execute")],
  obs=["processes and heartbeat files of the command", "step result"],
  tech="process and heartbeat monitor over signals injected at random times",
  note="Commands write heartbeats from parent and children; after the step ended no heartbeat may advance.")
p("H05", "Container steps invoke docker with exactly the configured options",
  "A step whose container is not this host is executed by docker run with exactly one argument each for the configured image, every environment variable and its exact value, every configured host:container volume and security option, the entrypoint, caches and the job's data directory mounted, a name for the step, and the container removed when it ends; host/<os> and host/<os>-<arch> for this machine run on the host instead. "
  "The entrypoint holds the step's script (with a shell line if it has none), and no configured text is ever interpreted by a shell on the host.",
  ["inputs"], "every image, environment, volume, security option and script text, including shell metacharacters",
  "One unit test checks one fixed command line; docker itself is absent offline.",
  [H+"docker.rs", H+"executors/docker.rs", H+"utils.rs", H+"metadata.rs", H+"astro_runner.rs"], [("command line", H+"docker.rs generate_docker_command"), ("mounts", H+"executors/docker.rs into_command")],
  obs=["argv, entrypoint file and mounts as received by a docker stand-in"],
  tech="argv monitor: a recording docker stand-in on PATH compared with the configuration",
  note="The stand-in records its argument vector and runs the entrypoint for effect; hostile text must arrive verbatim and no canary may be touched.")
p("H06", "Cancelled and timed out container steps kill their container and clean up",
  "When a container step is cancelled or times out, docker kill is invoked for exactly that step's container and the step ends promptly as cancelled or failed respectively; other containers are not touched. "
  "A container step's output and exit code are reported like a host step's, its private files are removed when it ends in any way, and if the signal came before docker was started it is never started.",
  ["schedules", "histories"], "every moment of the signal, every exit status, concurrent container steps",
  "Docker tests are ignored without docker.",
  [H+"executors/docker.rs", H+"astro_runner.rs"], [("signal arm", H+"executors/docker.rs DockerExecutor::execute")],
  obs=["docker stand-in invocations", "step result", "file system"],
  tech="process and argv monitor with a docker stand-in that emulates run and kill",
  note="Stand-in containers record their life; kills recorded by name.")
p("H07", "Runner plugins are called once around every run, and see its end",
  "For every step the runner executes, each runner plugin's before-run hook is called once, in order, each receiving the previous one's context (unchanged if that one failed), and the result is what is executed; each plugin's after-run hook is called exactly once, in order, after the step ended, whatever its outcome, even if other plugins' hooks fail.",
  ["inputs", "schedules", "fault_sequences"], "every outcome (success, failure, cancel, timeout, executor error), every set of plugins and hook failures",
  "A unit test calls the driver directly; the hooks are never observed around a real run.",
  [H+"plugin.rs", H+"astro_runner.rs"], [("hooks", H+"plugin.rs PluginDriver, "+H+"astro_runner.rs run")],
  obs=["runner Plugin hooks", "step result"],
  tech="event-grammar monitor over real runs with injected hook errors",
  note="Bounded progress: the after-run hook must have been called when the process is quiescent.")
p("E01", "Workflows behave the same through the whole stack",
  "A workflow run through the remote client with the default scheduler over runner servers that use the bundled runner gives every job and step the outcome its commands produce under the skip, cancellation and timeout rules. "
  "Every line a command wrote is logged once, in order per output, for its step; every command of a step that is not skipped is executed exactly once, with its environment, in a directory holding what the earlier steps of its job wrote there and nothing of other jobs. "
  "The processes of a cancelled or timed-out step are stopped, and once the workflows have completed no process and no directory of them is left on any runner.",
  ["inputs", "schedules", "configurations", "fault_sequences"],
  "every set of workflows run together, number of servers, mix of host and container steps, exit codes, outputs, cancellations and timeouts",
  "Each layer is tested alone with the others mocked; what is lost between them (a signal, a binding, a last line, the clean-up) shows only with all of them in place.",
  [A+"execution_context/mod.rs", "crates/remote-runner/src/client.rs", "crates/remote-runner/src/runner_server.rs", "crates/scheduler/src/default.rs", "crates/runner/src/command.rs", "crates/runner/src/executors/docker.rs", "crates/runner/src/executors/host.rs", "crates/runner/src/astro_runner.rs"],
  [("remote execution", "crates/remote-runner/src/client.rs run"), ("placement", "crates/scheduler/src/default.rs schedule"), ("execution and clean-up", "crates/runner/src/astro_runner.rs, executors")],
  obs=["Plugin::on_log", "WorkflowRunResult", "marks, environment and listings recorded by the executed commands", "processes and directories left on the machine"],
  tech="end-to-end monitor: results, logs, executions, processes and files of real workflows over loopback servers against an outcome model",
  note="Engine, remote client, default scheduler, servers, bundled runner and real commands together; docker is a stand-in that starts the entrypoint in its own session.")
p("L01", "The logger prints exactly the records its level admits",
  "After initialisation with a level (given, or taken from RUST_LOG, info by default and for unknown values), exactly the records at that level or more severe are printed, once each, as one record per call with their level and message, from any thread; later initialisations change nothing and do not fail.",
  ["configurations", "schedules"], "every level and environment setting, repeated and concurrent initialisation, concurrent logging",
  "The unit tests only check that nothing panics.",
  ["crates/logger/src/lib.rs"], [("level filter", "crates/logger/src/lib.rs Logger")], obs=["standard output of a process using the logger"],
  tech="output monitor over child processes with generated levels and records",
  note="Each configuration is run in its own process because logging is global.")

CLAIMED = None  # None: all
NOT_APPLICABLE = {}
def main():
    import sys
    claimed = set(open(os.path.join(ROOT, "tools", "claimed.txt")).read().split())
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
            d = dict(id=q["id"], title=q["title"], statement=q["statement"],
                     quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"],
                     anchors=dict(files=q["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in q["state"]],
                                  mechanism=[dict(name=a, where=b) for a, b in q["mech"]],
                                  observe_at=list(q["obs"]), hook_needed=q["hook"]))
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=[], not_applicable=[])
    for q in P:
        if q["id"] in claimed:
            m["checks"].append(dict(property=q["id"], quick_cmd=f"bash tools/check.sh {q['id']}",
                                    thorough_cmd=f"VERIF_TIER=thorough bash tools/check.sh {q['id']}",
                                    evidence_file=f"evidence/{q['id']}.json",
                                    technique="runtime monitoring: " + q["tech"], level="exploration", level_note=q["note"]))
        else:
            m["not_applicable"].append(dict(property=q["id"], reason=NOT_APPLICABLE.get(q["id"], "check not built yet")))
    m["notes"] = "Generated by tools/props.py from tools/claimed.txt. See DESIGN.md. No hooks in /repo are needed."
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
main()
