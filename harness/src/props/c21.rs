//! C21: worker plan rewrites run once per task, in order, only on workers.
use super::qcase::*;
use crate::cluster::*;
use crate::oracle::*;
use crate::place::*;
use crate::runner::{Info, Part, Property, Res};
use crate::scan::node_of;
use crate::sql::{GenCfg, TableCfg};
use crate::tape::Tape;
use datafusion::arrow::array::{AsArray, BooleanArray};
use datafusion::arrow::compute::filter_record_batch;
use datafusion::arrow::datatypes::Int64Type;
use datafusion::common::config::{ConfigEntry, ConfigExtension, ConfigOptions, ExtensionOptions};
use datafusion::common::tree_node::{Transformed, TreeNode, TreeNodeRecursion};
use datafusion::common::{DataFusionError, Result, exec_err, internal_err};
use datafusion::execution::{SendableRecordBatchStream, SessionStateBuilder, TaskContext};
use datafusion::physical_expr::PhysicalExpr;
use datafusion::physical_optimizer::PhysicalOptimizerRule;
use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, PlanProperties};
use datafusion::prelude::SessionContext;
use datafusion_distributed::*;
use datafusion_proto::physical_plan::{PhysicalExtensionCodec, PhysicalProtoConverterExtension};
use futures::{FutureExt, StreamExt};
use std::any::Any;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::thread::ThreadId;

type Plan = Arc<dyn ExecutionPlan>;

#[derive(Debug, Clone, PartialEq)]
struct Call {
    thread: ThreadId,
    node: i32,
    handler: usize,
    task: Option<(usize, usize)>,
    /// (stage, rewrites seen) of every mark in the plan
    marks: Vec<(String, Vec<usize>)>,
    option: Option<String>,
    shuffle_batch: Option<usize>,
    failed: bool,
}

#[derive(Debug, Clone, PartialEq)]
struct Ran {
    node: i32,
    stage: String,
    task: (usize, usize),
    partition: usize,
    seq: Vec<usize>,
}

#[derive(Debug, Default)]
struct Log {
    calls: Mutex<Vec<Call>>,
    ran: Mutex<Vec<Ran>>,
}

/// Passes rows on, without those whose id is, modulo 5, one of `drop`.
#[derive(Debug)]
struct Mark {
    log: Arc<Log>,
    stage: String,
    seq: Vec<usize>,
    drop: Vec<i64>,
    input: Plan,
}
impl DisplayAs for Mark {
    fn fmt_as(&self, _: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Mark: {} {:?} {:?}", self.stage, self.seq, self.drop)
    }
}
impl Mark {
    fn plan(log: &Arc<Log>, stage: String, input: Plan) -> Plan {
        Arc::new(Mark { log: Arc::clone(log), stage, seq: vec![], drop: vec![], input })
    }
}
impl ExecutionPlan for Mark {
    fn name(&self) -> &str {
        "Mark"
    }
    fn properties(&self) -> &Arc<PlanProperties> {
        self.input.properties()
    }
    fn maintains_input_order(&self) -> Vec<bool> {
        vec![true]
    }
    fn benefits_from_input_partitioning(&self) -> Vec<bool> {
        vec![false]
    }
    fn children(&self) -> Vec<&Plan> {
        vec![&self.input]
    }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> {
        Ok(TreeNodeRecursion::Continue)
    }
    fn with_new_children(self: Arc<Self>, mut c: Vec<Plan>) -> Result<Plan> {
        Ok(Arc::new(Mark { log: Arc::clone(&self.log), stage: self.stage.clone(), seq: self.seq.clone(), drop: self.drop.clone(), input: c.remove(0) }))
    }
    fn execute(&self, partition: usize, ctx: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        let d = ctx.session_config().get_extension::<DistributedTaskContext>();
        self.log.ran.lock().unwrap().push(Ran {
            node: node_of(&ctx),
            stage: self.stage.clone(),
            task: d.map(|d| (d.task_index, d.task_count)).unwrap_or((0, 1)),
            partition,
            seq: self.seq.clone(),
        });
        let s = self.input.execute(partition, ctx)?;
        if self.drop.is_empty() {
            return Ok(s);
        }
        let (drop, schema) = (self.drop.clone(), s.schema());
        let id = schema.index_of("id")?;
        let out = s.map(move |b| {
            let b = b?;
            let ids = b.column(id).as_primitive::<Int64Type>();
            let keep: BooleanArray = ids.values().iter().map(|v| Some(!drop.contains(&(v % 5)))).collect();
            Ok(filter_record_batch(&b, &keep)?)
        });
        Ok(Box::pin(RecordBatchStreamAdapter::new(schema, out)))
    }
}

#[derive(Debug, Clone)]
struct MarkCodec(Arc<Log>);
impl PhysicalExtensionCodec for MarkCodec {
    fn try_decode(&self, buf: &[u8], inputs: &[Plan], _: &TaskContext, _: &dyn PhysicalProtoConverterExtension) -> Result<Plan> {
        let s = std::str::from_utf8(buf).ok().and_then(|s| s.strip_prefix("mark "));
        match (s, inputs) {
            (Some(s), [input]) => Ok(Mark::plan(&self.0, s.to_string(), Arc::clone(input))),
            _ => internal_err!("not a mark"),
        }
    }
    fn try_encode(&self, node: Plan, buf: &mut Vec<u8>, _: &dyn PhysicalProtoConverterExtension) -> Result<()> {
        match node.downcast_ref::<Mark>() {
            // what workers did to a mark is not to be sent: plans go from the coordinator to a worker only
            Some(m) if m.seq.is_empty() && m.drop.is_empty() => {
                buf.extend(format!("mark {}", m.stage).as_bytes());
                Ok(())
            }
            Some(_) => exec_err!("a rewritten mark was encoded"),
            None => internal_err!("not a mark"),
        }
    }
}

#[derive(Debug, Clone, Default)]
struct Ext(Option<String>);
impl ExtensionOptions for Ext {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn cloned(&self) -> Box<dyn ExtensionOptions> {
        Box::new(self.clone())
    }
    fn set(&mut self, key: &str, value: &str) -> Result<()> {
        if key != "v" {
            return Err(DataFusionError::Configuration(format!("no key {key}")));
        }
        self.0 = Some(value.into());
        Ok(())
    }
    fn entries(&self) -> Vec<ConfigEntry> {
        vec![ConfigEntry { key: "v".into(), value: self.0.clone(), description: "" }]
    }
}
impl ConfigExtension for Ext {
    const PREFIX: &'static str = "rewrites";
}

#[derive(Debug, Clone, PartialEq)]
enum Does {
    Tag,
    Nothing,
    /// rebuilds the plan from its leaves without changing anything
    Rebuild,
    /// tags, and drops the rows whose id is this modulo 5
    Drop(i64),
    /// the options decide: fails if they say so
    FailTask(usize),
    PanicTask(usize),
}

fn bad(d: &Does, task: Option<(usize, usize)>) -> bool {
    matches!(d, Does::FailTask(n) | Does::PanicTask(n) if task.map(|t| t.0) == Some(*n))
}

struct Handler {
    node: i32,
    index: usize,
    does: Does,
    log: Arc<Log>,
}

impl WorkerPlanRewriteHandler for Handler {
    fn rewrite_worker_plan(&self, ev: WorkerPlanRewriteEvent) -> Result<WorkerPlanRewriteEventResponse> {
        let mut marks = vec![];
        ev.plan.apply(|p| {
            if let Some(m) = p.downcast_ref::<Mark>() {
                marks.push((m.stage.clone(), m.seq.clone()));
            }
            Ok(TreeNodeRecursion::Continue)
        })?;
        let cfg = ev.session_config;
        let task = cfg.get_extension::<DistributedTaskContext>().map(|d| (d.task_index, d.task_count));
        self.log.calls.lock().unwrap().push(Call {
            thread: std::thread::current().id(),
            node: self.node,
            handler: self.index,
            task,
            marks,
            option: cfg.options().extensions.get::<Ext>().and_then(|e| e.0.clone()),
            shuffle_batch: DistributedConfig::from_config_options(cfg.options()).ok().map(|d| d.shuffle_batch_size),
            failed: bad(&self.does, task),
        });
        if bad(&self.does, task) {
            if let Does::PanicTask(_) = self.does {
                panic!("handler {} of worker {} panics", self.index, self.node);
            }
            return exec_err!("handler {} of worker {} refuses", self.index, self.node);
        }
        let tag = |d: Option<i64>| {
            ev.plan.clone().transform_up(|p| {
                let Some(m) = p.downcast_ref::<Mark>() else { return Ok(Transformed::no(p)) };
                let mut seq = m.seq.clone();
                seq.push(self.index);
                let mut drop = m.drop.clone();
                drop.extend(d);
                Ok(Transformed::yes(Arc::new(Mark { log: Arc::clone(&m.log), stage: m.stage.clone(), seq, drop, input: Arc::clone(&m.input) }) as Plan))
            })
        };
        let plan = match self.does {
            Does::Tag => tag(None)?.data,
            Does::Drop(d) => tag(Some(d))?.data,
            Does::Rebuild => ev.plan.transform_up(|p| {
                let c: Vec<Plan> = p.children().into_iter().cloned().collect();
                if c.is_empty() || p.is_network_boundary() {
                    return Ok(Transformed::no(p));
                }
                Ok(Transformed::yes(p.with_new_children(c)?))
            })?.data,
            _ => ev.plan,
        };
        Ok(WorkerPlanRewriteEventResponse::new(plan))
    }
}

/// The rewrites of one worker.
fn gen_handlers(t: &mut Tape, drops: bool, fails: bool) -> Vec<Does> {
    let n = t.weighted(&[1, 3, 4, 3, 2, 1]);
    (0..n)
        .map(|_| match t.weighted(&[6, 2, if drops { 0 } else { 2 }, if drops { 3 } else { 0 }, if fails { 2 } else { 0 }, if fails { 1 } else { 0 }]) {
            0 => Does::Tag,
            1 => Does::Nothing,
            2 => Does::Rebuild,
            3 => Does::Drop(t.below(5) as i64),
            4 => Does::FailTask(t.below(3)),
            _ => Does::PanicTask(t.below(3)),
        })
        .collect()
}

#[derive(Clone)]
struct Rewrites {
    log: Arc<Log>,
    of: Vec<Vec<Does>>,
    setters: bool,
    option: Option<String>,
    on_session: usize,
}

impl Rewrites {
    fn generate(t: &mut Tape, workers: usize, drops: bool) -> Self {
        let fails = t.chance(1, 4);
        let same = drops || t.chance(1, 3);
        let mut of: Vec<Vec<Does>> = vec![];
        for i in 0..workers {
            if same && i > 0 {
                of.push(of[0].clone());
            } else {
                of.push(gen_handlers(t, drops, fails));
            }
        }
        Self { log: Default::default(), of, setters: t.chance(1, 3), option: t.chance(2, 3).then(|| ["x", "", "a b", "1"][t.below(4)].to_string()), on_session: t.weighted(&[2, 1, 1]) }
    }
    fn describe(&self) -> String {
        format!("rewrites={:?} option={:?} on session {}", self.of, self.option, self.on_session)
    }
    fn customize(&self) -> CustomizeBuilder {
        let r = self.clone();
        Arc::new(move |node, headers, b| {
            let mut b = b.with_distributed_user_codec(MarkCodec(Arc::clone(&r.log)));
            // sometimes before the rewrites, sometimes after
            if !r.setters {
                b = b.with_distributed_option_extension_from_headers::<Ext>(&headers)?;
            }
            for (index, does) in r.of[node as usize].iter().enumerate() {
                let h = Handler { node, index, does: does.clone(), log: Arc::clone(&r.log) };
                if r.setters {
                    b.set_distributed_worker_plan_rewrite_handler(h);
                } else {
                    b = b.with_distributed_worker_plan_rewrite_handler(h);
                }
            }
            if r.setters {
                b.set_distributed_option_extension_from_headers::<Ext>(&headers)?;
            }
            Ok(b)
        })
    }
    fn session(&self, mut b: SessionStateBuilder) -> SessionStateBuilder {
        b = b.with_distributed_user_codec(MarkCodec(Arc::clone(&self.log)));
        if let Some(o) = &self.option {
            b = b.with_distributed_option_extension(Ext(Some(o.clone())));
        }
        for index in 0..self.on_session {
            b = b.with_distributed_worker_plan_rewrite_handler(Handler { node: COORD, index, does: Does::FailTask(0), log: Arc::clone(&self.log) });
        }
        b
    }
    fn tags_of(&self, node: i32, n: usize) -> Vec<usize> {
        match self.of.get(node as usize) {
            Some(v) if node >= 0 => v.iter().enumerate().take(n).filter(|(_, d)| matches!(d, Does::Tag | Does::Drop(_))).map(|(i, _)| i).collect(),
            _ => vec![],
        }
    }

    /// What can be said of every run. Returns how many plans were rewritten per worker.
    fn check(&self, shuffle_batch: usize, failed: bool, sets: &BTreeMap<i32, usize>, by_events: bool, exact: bool) -> std::result::Result<Summary, (String, String)> {
        let e = |s: &str, m: String| Err((s.to_string(), m));
        // other tasks of a failed query may still be at it: what ran by now was rewritten by now
        let ran = self.log.ran.lock().unwrap().clone();
        let calls = self.log.calls.lock().unwrap().clone();
        let mut runs: BTreeMap<i32, Vec<Vec<Call>>> = Default::default();
        let mut threads: Vec<(ThreadId, Vec<Call>)> = vec![];
        for c in &calls {
            if c.node == COORD {
                return e("rewrite of the querying session ran", format!("{c:?}"));
            }
            match threads.iter_mut().find(|x| x.0 == c.thread) {
                Some(x) => x.1.push(c.clone()),
                None => threads.push((c.thread, vec![c.clone()])),
            }
        }
        // rewrites of one plan follow each other on one thread
        for (_, v) in threads {
            let mut i = 0;
            while i < v.len() {
                let (node, n) = (v[i].node, self.of[v[i].node as usize].len());
                let mut one = vec![];
                loop {
                    let c = &v[i];
                    let k = one.len();
                    if c.node != node || c.handler != k || c.task != one.first().map_or(c.task, |f: &Call| f.task) {
                        return e("order", format!("worker {node}: {c:?} where rewrite {k} of {n} was expected after {one:?}"));
                    }
                    let want = self.tags_of(node, k);
                    if let Some(m) = c.marks.iter().find(|m| m.1 != want) {
                        return e("not the previous plan", format!("worker {node}, rewrite {k} was given {m:?} instead of {want:?}"));
                    }
                    if one.first().is_some_and(|f: &Call| f.marks.iter().map(|m| &m.0).ne(c.marks.iter().map(|m| &m.0))) {
                        return e("not the previous plan", format!("{c:?} after {one:?}"));
                    }
                    let opt = self.option.clone();
                    if c.option != opt || c.shuffle_batch != Some(shuffle_batch) {
                        return e("options", format!("rewrite {k} of worker {node} saw {:?} {:?} instead of {opt:?} {shuffle_batch}", c.option, c.shuffle_batch));
                    }
                    if c.task.is_none() {
                        return e("no task", format!("{c:?}"));
                    }
                    let stop = c.failed;
                    one.push(c.clone());
                    i += 1;
                    if stop || one.len() == n {
                        break;
                    }
                    // a failed query does not wait for what its other tasks are doing
                    if i >= v.len() && failed {
                        break;
                    }
                    if i >= v.len() {
                        return e("left out", format!("worker {node}: only {one:?} of {n} rewrites"));
                    }
                }
                runs.entry(node).or_default().push(one);
            }
        }
        for r in &ran {
            let want = self.tags_of(r.node, usize::MAX);
            if r.seq != want {
                return e("not what was rewritten ran", format!("{r:?} instead of {want:?}"));
            }
            // (below an isolated union, a task is counted within its branch)
            if exact
                && let Some(c) = runs.get(&r.node).and_then(|v| v.iter().find(|one| {
                let l = one.last().unwrap();
                l.failed && l.task == Some(r.task) && l.marks.iter().any(|m| m.0 == r.stage)
            })) {
                return e("ran after a failed rewrite", format!("{r:?} {c:?}"));
            }
            if r.node >= 0 && !self.of[r.node as usize].is_empty() && !runs.get(&r.node).is_some_and(|v| v.iter().any(|one| (!exact || one[0].task == Some(r.task)) && one[0].marks.iter().any(|m| m.0 == r.stage))) {
                return e("ran without rewrites", format!("{r:?}"));
            }
        }
        // once for each task
        let mut tasks: BTreeMap<(String, usize), usize> = Default::default();
        for one in runs.values().flatten() {
            let mut stages: Vec<&String> = one[0].marks.iter().map(|m| &m.0).collect();
            stages.dedup();
            let name = stages.into_iter().cloned().collect::<Vec<_>>().join("+");
            if !name.is_empty() {
                *tasks.entry((name, one[0].task.unwrap().0)).or_default() += 1;
            }
        }
        if by_events {
            for (node, n) in sets {
                let m = runs.get(node).map_or(0, |v| v.len());
                if m > *n || (!failed && !self.of[*node as usize].is_empty() && m != *n) {
                    return e("once per task", format!("worker {node} rewrote {m} plans and was sent {n}"));
                }
            }
            if let Some(n) = runs.keys().find(|n| !sets.contains_key(n)) {
                return e("once per task", format!("worker {n} rewrote plans and was sent none"));
            }
        }
        let any_failed = calls.iter().any(|c| c.failed);
        Ok(Summary { rewritten: runs.values().map(|v| v.len()).sum(), most: runs.values().flatten().map(|v| v.len()).max().unwrap_or(0), ran: ran.iter().filter(|r| r.node >= 0).count(), any_failed, tasks })
    }
}

struct Summary {
    rewritten: usize,
    most: usize,
    ran: usize,
    any_failed: bool,
    tasks: BTreeMap<(String, usize), usize>,
}

fn sent(cluster: &Cluster) -> BTreeMap<i32, usize> {
    let mut m = BTreeMap::new();
    for e in cluster.shared.events() {
        if let Event::SetPlan { target, .. } = e
            && let Some(i) = (0..64).find(|i| node_url(*i) == target)
        {
            *m.entry(i as i32).or_insert(0) += 1;
        }
    }
    m
}

fn refused(m: &str, r: &Rewrites) -> bool {
    r.log.calls.lock().unwrap().iter().filter(|c| c.failed).any(|c| match r.of[c.node as usize][c.handler] {
        Does::PanicTask(_) => true,
        _ => m.contains(&format!("handler {} of worker {} refuses", c.handler, c.node)),
    })
}

fn finish(r: &Rewrites, s: &Summary, local: bool, desc: String) -> Res {
    let mut info = Info { desc, ..Default::default() };
    info.nontrivial = s.rewritten > 0 && (s.ran > 0 || s.any_failed);
    if s.any_failed {
        info.class("failing rewrite");
    }
    if s.most > 1 {
        info.class("several rewrites of a plan");
    }
    if r.of.windows(2).any(|w| w[0] != w[1]) {
        info.class("different rewrites on workers");
    }
    if local {
        info.class("in-process worker");
    }
    if r.on_session > 0 {
        info.class("rewrites on the querying session");
    }
    Res::Ok(info)
}

/// Hand-made stages, with a mark at the top of each.
fn stages(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let workers = t.range(1, 3);
    let threads = [0, 2][t.weighted(&[2, 1])];
    let drops = t.chance(1, 3);
    let r = Rewrites::generate(t, workers, drops);
    let opts = gen_opts(t, workers);
    let data = id_table(t, 0, 30, false);
    let parts = t.range(1, 3);
    let log = Arc::clone(&r.log);
    let chain = gen_chain(t, scan(&data, parts), 3, &mut |_, p, stage, _| Mark::plan(&log, stage.to_string(), p));
    let desc = format!("workers={workers} runtime_threads={threads} {} {} rows={} {opts:?}", r.describe(), chain.text, data.total_rows());
    let d = desc.clone();
    guard(threads, &d, async move {
        let cluster = Cluster::start(ClusterCfg { workers, customize: Some(r.customize()), ..Default::default() });
        let ctx = SessionContext::new_with_state(r.session(cluster.session_builder_with(&opts, Some(Arc::clone(&chain.plan)))).build());
        let out = std::panic::AssertUnwindSafe(async {
            let plan = ctx.sql("SELECT 1").await?.create_physical_plan().await?;
            run_plan(&ctx, &plan).await
        })
        .catch_unwind()
        .await
        .unwrap_or_else(|p| panicked(p));
        let s = match r.check(opts.shuffle_batch, out.is_err(), &sent(&cluster), opts.local.is_none(), true) {
            Ok(s) => s,
            Err((sig, m)) => return fail(&sig, m, &desc),
        };
        match out {
            Err(e) if s.any_failed => {
                if !refused(&e.to_string(), &r) {
                    return fail("not the error of the rewrite", e.to_string(), &desc);
                }
            }
            Err(e) => return fail(&err_sig(&e), e.to_string(), &desc),
            Ok(_) if s.any_failed => return fail("a failed rewrite was ignored", format!("{:?}", r.log.calls.lock().unwrap()), &desc),
            Ok(a) => {
                let dropped: Vec<i64> = r.of[0].iter().filter_map(|d| if let Does::Drop(n) = d { Some(*n) } else { None }).collect();
                let mut want = vec![];
                for b in data.chunks.iter().flatten() {
                    let ids = b.column(3).as_primitive::<Int64Type>();
                    let keep: BooleanArray = ids.values().iter().map(|v| Some(!drops || s.rewritten == 0 || !dropped.contains(&(v % 5)))).collect();
                    for _ in 0..chain.times {
                        want.extend(crate::data::rows(&[filter_record_batch(b, &keep).unwrap()]));
                    }
                }
                if let Some(m) = crate::data::diff_multiset(&a.rows(), &want) {
                    return fail("rows", m, &desc);
                }
                if let Some((k, n)) = s.tasks.iter().find(|x| *x.1 > 1) {
                    return fail("once per task", format!("plan of {k:?} rewritten {n} times"), &desc);
                }
            }
        }
        finish(&r, &s, opts.local.is_some(), desc)
    })
}

/// Marks over operators of the single-node plan.
#[derive(Debug)]
struct MarkRule(Arc<Log>, Vec<usize>);
impl PhysicalOptimizerRule for MarkRule {
    fn optimize(&self, plan: Plan, _: &ConfigOptions) -> Result<Plan> {
        let mut n = 0;
        let out = plan
            .transform_up(|p| {
                n += 1;
                if self.1.contains(&(n - 1)) && (p.fetch().is_none() || p.children().is_empty()) {
                    return Ok(Transformed::yes(Mark::plan(&self.0, format!("m{}", n - 1), p)));
                }
                Ok(Transformed::no(p))
            })?
            .data;
        Ok(out)
    }
    fn name(&self) -> &str {
        "marks"
    }
    fn schema_check(&self) -> bool {
        true
    }
}

/// Planned queries, also planned adaptively.
fn queries(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let at: Vec<usize> = (0..t.range(1, 4)).map(|_| t.below(10)).collect();
    let cfg = CaseCfg { gen_cfg: GenCfg::default(), table_cfg: TableCfg { max_rows: 24, ..Default::default() }, adaptive_sometimes: true, max_workers: 4, ..Default::default() };
    let mut tail = vec![];
    for _ in 0..40 {
        tail.push(t.raw());
    }
    let s = decode(t, &cfg);
    let r = Rewrites::generate(&mut Tape::new(&tail), s.workers, false);
    let desc = format!("marks at {at:?} {}\n{}", r.describe(), s.describe());
    let d = desc.clone();
    guard(s.threads, &d, async move {
        let exp = std::panic::AssertUnwindSafe(expected(&s.tables, &s.query)).catch_unwind().await;
        let exp = match exp.unwrap_or_else(|p| panicked(p)) {
            Ok(e) if e.work / s.opts.batch_size.min(if s.opts.shuffle_batch > 0 { s.opts.shuffle_batch } else { 20 }).clamp(1, 20) > 3000 => return Res::Discard("too much work".into()),
            Ok(e) => e,
            Err(e) => return Res::Discard(format!("reference: {}", sig_of_error(&e.to_string()))),
        };
        let cluster = Cluster::start(ClusterCfg { workers: s.workers, customize: Some(r.customize()), ..Default::default() });
        let b = r.session(cluster.session_builder(&s.opts)).with_physical_optimizer_rule(Arc::new(MarkRule(Arc::clone(&r.log), at)));
        let ctx = SessionContext::new_with_state(b.build());
        for t in &s.tables {
            ctx.register_table(t.name.as_str(), t.provider()).unwrap();
        }
        let out = std::panic::AssertUnwindSafe(run(&ctx, &s.query.sql())).catch_unwind().await.unwrap_or_else(|p| panicked(p));
        let sum = match r.check(s.opts.shuffle_batch, out.is_err(), &sent(&cluster), s.opts.local.is_none(), false) {
            Ok(x) => x,
            Err((sig, m)) => return fail(&sig, m, &desc),
        };
        match out {
            Err(e) if sum.any_failed => {
                let m = e.to_string();
                if !refused(&m, &r) {
                    return fail("not the error of the rewrite", m, &desc);
                }
            }
            // C01's and C02's business
            Err(e) => return Res::Discard(format!("query: {}", sig_of_error(&e.to_string()))),
            Ok((got, _)) => {
                let ok = compare(&s.query, &exp, &got).is_ok();
                // a query may be complete without a task whose plan was refused
                if sum.any_failed && !ok {
                    return fail("a failed rewrite was ignored", "rows differ, without an error", &desc);
                }
                if !ok {
                    return Res::Discard("rows".into());
                }
            }
        }
        finish(&r, &sum, s.opts.local.is_some(), desc)
    })
}

pub fn property() -> Property {
    Property {
        id: "C21",
        rule: "plans were rewritten on workers and were then executed there, or a rewrite failed",
        tape_len: 600,
        quick: 12_000,
        thorough: 300_000,
        threads: 8,
        hang_is_violation: true,
        assumptions: &["rewrites keep the topology of the plan, as documented"],
        parts: vec![Part { name: "stages", weight: 5, run: stages }, Part { name: "queries", weight: 2, run: queries }],
    }
}
