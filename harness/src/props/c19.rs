//! C19: serialising a distributed plan and reading it back preserves its meaning.
use super::qcase::*;
use crate::cluster::*;
use crate::data::schema_sig;
use crate::oracle::*;
use crate::place::*;
use crate::runner::{Info, Part, Property, Res};
use crate::sql::{GenCfg, TableCfg};
use crate::tape::Tape;
use datafusion::common::config::ConfigOptions;
use datafusion::common::tree_node::{Transformed, TreeNode, TreeNodeRecursion};
use datafusion::common::{Result, internal_err};
use datafusion::execution::{SendableRecordBatchStream, SessionStateBuilder, TaskContext};
use datafusion::physical_expr::PhysicalExpr;
use datafusion::physical_optimizer::PhysicalOptimizerRule;
use datafusion::physical_plan::display::DisplayableExecutionPlan;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, ExecutionPlanProperties, Partitioning, PlanProperties};
use datafusion::prelude::SessionContext;
use datafusion_distributed::*;
use datafusion_proto::bytes::{physical_plan_from_bytes_with_proto_converter, physical_plan_to_bytes_with_proto_converter};
use datafusion_proto::physical_plan::{DeduplicatingProtoConverter, DefaultPhysicalProtoConverter, PhysicalExtensionCodec, PhysicalProtoConverterExtension};
use futures::FutureExt;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

type Plan = Arc<dyn ExecutionPlan>;

// ---- an operator of the user, of several kinds, each with a codec of its own ----

#[derive(Debug)]
struct Tagged {
    kind: usize,
    text: String,
    input: Plan,
}
impl DisplayAs for Tagged {
    fn fmt_as(&self, _: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Tagged{}: {}", self.kind, self.text)
    }
}
impl ExecutionPlan for Tagged {
    fn name(&self) -> &str {
        "Tagged"
    }
    fn properties(&self) -> &Arc<PlanProperties> {
        self.input.properties()
    }
    fn maintains_input_order(&self) -> Vec<bool> {
        vec![true]
    }
    fn benefits_from_input_partitioning(&self) -> Vec<bool> {
        vec![false]
    }
    fn children(&self) -> Vec<&Plan> {
        vec![&self.input]
    }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> {
        Ok(TreeNodeRecursion::Continue)
    }
    fn with_new_children(self: Arc<Self>, mut c: Vec<Plan>) -> Result<Plan> {
        Ok(Arc::new(Tagged { kind: self.kind, text: self.text.clone(), input: c.remove(0) }))
    }
    fn execute(&self, partition: usize, context: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        self.input.execute(partition, context)
    }
}

#[derive(Debug, Clone)]
struct TagCodec(usize);
impl PhysicalExtensionCodec for TagCodec {
    fn try_decode(&self, buf: &[u8], inputs: &[Plan], _: &TaskContext, _: &dyn PhysicalProtoConverterExtension) -> Result<Plan> {
        // deliberately careless: what another codec wrote is read as if it were its own
        let [input] = inputs else { return internal_err!("a tag has one input") };
        Ok(Arc::new(Tagged { kind: self.0, text: String::from_utf8_lossy(buf).to_string(), input: Arc::clone(input) }))
    }
    fn try_encode(&self, node: Plan, buf: &mut Vec<u8>, _: &dyn PhysicalProtoConverterExtension) -> Result<()> {
        match node.downcast_ref::<Tagged>() {
            Some(t) if t.kind == self.0 => {
                buf.extend(t.text.as_bytes());
                Ok(())
            }
            _ => internal_err!("not a tag of kind {}", self.0),
        }
    }
}

/// Puts tags over operators of the single-node plan.
#[derive(Debug)]
struct TagRule(Vec<(usize, usize, String)>);
impl PhysicalOptimizerRule for TagRule {
    fn optimize(&self, plan: Plan, _: &ConfigOptions) -> Result<Plan> {
        let mut n = 0;
        let out = plan
            .transform_up(|p| {
                n += 1;
                match self.0.iter().find(|x| x.0 == n - 1) {
                    Some((_, kind, text)) if p.fetch().is_none() || p.children().is_empty() => Ok(Transformed::yes(Arc::new(Tagged { kind: *kind, text: text.clone(), input: p }) as Plan)),
                    _ => Ok(Transformed::no(p)),
                }
            })?
            .data;
        Ok(out)
    }
    fn name(&self) -> &str {
        "tags"
    }
    fn schema_check(&self) -> bool {
        true
    }
}

// ---- what a plan is ----

/// Line by line: operators with everything that is observable on them.
pub fn structure(plan: &Plan) -> Vec<String> {
    // what a filter has learnt while running is no part of the plan
    fn display(p: &Plan) -> String {
        let s = DisplayableExecutionPlan::new(p.as_ref()).one_line().to_string();
        let mut s = match (s.starts_with("SortExec"), s.find(", filter=[")) {
            (true, Some(i)) => s[..i].to_string(),
            _ => s.trim().to_string(),
        };
        while let Some(i) = s.find("DynamicFilter [") {
            let n = balanced(&s[i..]);
            s.replace_range(i..i + n, "learnt");
        }
        // a plan whose branches were left out of this task knows less about its order
        for (op, what) in [("AggregateExec", ", ordering_mode="), ("RepartitionExec", ", preserve_order=")] {
            if let (true, Some(i)) = (s.starts_with(op), s.find(what)) {
                s.truncate(i);
            }
        }
        s
    }
    fn go(p: &Plan, depth: usize, out: &mut Vec<String>) {
        let mut s = format!(
            "{}{} | {} | {} | {}",
            " ".repeat(depth),
            p.name(),
            display(p),
            schema_sig(&p.schema()),
            p.output_partitioning(),
        );
        if let Some(b) = p.as_network_boundary() {
            let st = b.input_stage();
            s += &format!(" | query {} stage {} tasks {}", st.query_id(), st.num(), st.task_count());
            if let Stage::Remote(r) = st {
                s += &format!(" urls {:?}", r.workers.iter().map(|u| u.to_string()).collect::<Vec<_>>());
            }
        }
        if let Some(b) = p.downcast_ref::<BroadcastExec>() {
            s += &format!(" | consumers {}", b.consumer_task_count());
        }
        if p.name().contains("IsolatorUnion") || p.name().contains("DistributedUnion") {
            let d = format!("{p:?}");
            for key in ["child_weights: [", "task_idx_map: ["] {
                if let Some(i) = d.rfind(key) {
                    let rest = &d[i..];
                    s += &format!(" | {}", &rest[..rest.len().min(balanced(rest))]);
                }
            }
        }
        // what this library writes for its own operators
        // (except for the equivalences of a coalesce, of which there are several equivalent forms)
        let mut own = vec![];
        if !p.is::<NetworkCoalesceExec>() && DistributedCodec.try_encode(Arc::clone(p), &mut own, &DefaultPhysicalProtoConverter {}).is_ok() {
            s += &format!(" | own {own:02x?}");
        }
        out.push(s);
        for c in p.children() {
            go(c, depth + 1, out);
        }
    }
    fn balanced(s: &str) -> usize {
        let mut n = 0;
        for (i, c) in s.char_indices() {
            match c {
                '[' => n += 1,
                ']' => {
                    n -= 1;
                    if n == 0 {
                        return i + 1;
                    }
                }
                _ => {}
            }
        }
        s.len()
    }
    let mut v = vec![];
    go(plan, 0, &mut v);
    v
}

/// An ordering that a boundary had before it was sent and has lost.
fn lost_ordering(a: &Plan, b: &Plan) -> Option<String> {
    if let Some(o) = a.output_ordering()
        && a.is_network_boundary()
        && !b.equivalence_properties().ordering_satisfy(o.clone()).unwrap_or(false)
    {
        return Some(format!("{} was ordered by {o}, then by {:?}", a.name(), b.output_ordering().map(|o| o.to_string())));
    }
    a.children().into_iter().zip(b.children()).find_map(|(x, y)| lost_ordering(x, y))
}

fn first_difference(a: &[String], b: &[String]) -> Option<String> {
    if a == b {
        return None;
    }
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    Some(format!("line {i}:\n sent     {}\n received {}", a.get(i).map(|s| s.as_str()).unwrap_or("-"), b.get(i).map(|s| s.as_str()).unwrap_or("-")))
}

/// Bytes without sharing of expressions, which carry identities made up anew at each encoding.
fn plain_bytes(p: &Plan, ctx: &TaskContext) -> Result<Vec<u8>> {
    let codec = DistributedCodec::new_combined_with_user(ctx.session_config());
    Ok(physical_plan_to_bytes_with_proto_converter(Arc::clone(p), &codec, &DefaultPhysicalProtoConverter {})?.to_vec())
}

fn sorted(v: &[u8]) -> Vec<u8> {
    let mut v = v.to_vec();
    v.sort();
    v
}

fn decode_plan(bytes: &[u8], ctx: &TaskContext) -> Result<Plan> {
    let codec = DistributedCodec::new_combined_with_user(ctx.session_config());
    physical_plan_from_bytes_with_proto_converter(bytes, ctx, &codec, &DeduplicatingProtoConverter::default())
}

/// `UnionExec` of DataFusion casts inputs that differ in nullability whenever it is built, also when it is
/// decoded, on top of the casts that it put there before.
fn union_casts_again(sent: &[String], received: &[String]) -> bool {
    let n = |v: &[String], what: &str| v.iter().filter(|l| l.trim_start().starts_with(what)).count();
    n(sent, "UnionExec |") > 0 && n(received, "ProjectionExec |") > n(sent, "ProjectionExec |")
}

struct Tags {
    kinds: Vec<usize>,
    at: Vec<(usize, usize, String)>,
}

fn gen_tags(t: &mut Tape) -> Tags {
    let n = t.weighted(&[2, 2, 2, 1, 1]);
    let mut kinds: Vec<usize> = (0..n).collect();
    t.shuffle(&mut kinds);
    let mut at = vec![];
    if n > 0 {
        for _ in 0..t.range(1, 4) {
            at.push((t.below(14), t.below(n), ["", "a", "é\u{0}\n", "{\"t\":\"vscan\"}", "\u{12}\u{2}\u{8}\u{1}"][t.below(5)].to_string()));
        }
    }
    Tags { kinds, at }
}

fn add_codecs(mut b: SessionStateBuilder, kinds: &[usize]) -> SessionStateBuilder {
    for k in kinds {
        b = b.with_distributed_user_codec(TagCodec(*k));
    }
    b
}

fn interesting(plan: &Plan, info: &mut Info) {
    let _ = plan.apply(|p| {
        if let Some(b) = p.as_network_boundary() {
            info.class(p.name().to_string());
            info.class(match b.input_stage() {
                Stage::Local(_) => "local stage",
                _ => "remote stage",
            });
        }
        if p.name() == "Tagged" || p.name().contains("Union") || p.name() == "BroadcastExec" || p.name() == "SamplerExec" {
            info.class(p.name().to_string());
        }
        Ok(TreeNodeRecursion::Continue)
    });
}

fn cfg(adaptive: bool) -> CaseCfg {
    CaseCfg {
        gen_cfg: GenCfg::default(),
        table_cfg: TableCfg { max_rows: 24, ..Default::default() },
        adaptive_sometimes: adaptive,
        max_workers: 4,
        ..Default::default()
    }
}

fn tagged_session(cluster: &Cluster, s: &Setup, tags: &Tags) -> SessionContext {
    let b = add_codecs(cluster.session_builder(&s.opts), &tags.kinds);
    // before the rules that check the plan
    let b = b.with_physical_optimizer_rule(Arc::new(TagRule(tags.at.clone())));
    let ctx = SessionContext::new_with_state(b.build());
    for t in &s.tables {
        ctx.register_table(t.name.as_str(), t.provider()).unwrap();
    }
    ctx
}

/// A plan, encoded and decoded in another session.
fn round_trip(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let tags = gen_tags(t);
    let swap = t.chance(1, 2);
    let mut s = decode(t, &cfg(false));
    s.opts.dynamic = None;
    let desc = format!("codecs {:?} tags {:?}\n{}", tags.kinds, tags.at, s.describe());
    let d = desc.clone();
    guard(0, &d, async move {
        let cluster = Cluster::start(ClusterCfg { workers: s.workers, ..Default::default() });
        let ctx = tagged_session(&cluster, &s, &tags);
        let planned = std::panic::AssertUnwindSafe(async { ctx.sql(&s.query.sql()).await?.create_physical_plan().await }).catch_unwind().await;
        let plan = match planned.unwrap_or_else(|p| panicked(p)) {
            Ok(p) => p,
            // C01's business
            Err(e) => return Res::Discard(format!("not planned: {}", sig_of_error(&e.to_string()))),
        };
        let Some(exec) = plan.downcast_ref::<DistributedExec>() else {
            return Res::Discard("not distributed".into());
        };
        let mut plan = Arc::clone(exec.children()[0]);
        if swap {
            // any stage on its own, too
            let mut stages = vec![];
            let _ = plan.apply(|p| {
                if let Some(b) = p.as_network_boundary()
                    && let Stage::Local(l) = b.input_stage()
                {
                    stages.push(Arc::clone(&l.plan));
                }
                Ok(TreeNodeRecursion::Continue)
            });
            if !stages.is_empty() {
                plan = stages.swap_remove(stages.len() / 2);
            }
        }
        // leaves are replaced by the variant of a task before a plan is sent
        let plan = plan
            .transform_up(|p| {
                Ok(match p.downcast_ref::<DistributedLeafExec>() {
                    Some(l) => Transformed::yes(Arc::clone(l.original())),
                    None => Transformed::no(p),
                })
            })
            .map(|t| t.data);
        let Ok(plan) = plan else { return Res::Discard("leaf variants".into()) };
        let here = ctx.task_ctx();
        let there_state = add_codecs(cluster.session_builder(&Opts { target_partitions: 7, batch_size: 11, ..Default::default() }), &tags.kinds).build();
        let there = SessionContext::new_with_state(there_state).task_ctx();
        let bytes = match MaybeEncoded::Decoded(Arc::clone(&plan)).encode(&here) {
            Ok(b) => b,
            Err(e) => return fail(&format!("encode:{}", err_sig(&e)), e.to_string(), &desc),
        };
        let desc = format!("{desc}\n{}", display_plan_ascii(plan.as_ref(), false));
        let back = match decode_plan(&bytes, &there) {
            Ok(b) => b,
            // whole queries are deeper than what is sent, a stage at a time
            Err(e) if e.to_string().contains("recursion limit") => return Res::Discard("too deep for protobuf in one piece".into()),
            Err(e) => return fail(&format!("decode:{}", err_sig(&e)), e.to_string(), &desc),
        };
        if union_casts_again(&structure(&plan), &structure(&back)) {
            return Res::Discard("upstream: a decoded union casts its inputs again".into());
        }
        if let Some(m) = first_difference(&structure(&plan), &structure(&back)) {
            return fail("structure", m, &desc);
        }
        if let Some(m) = lost_ordering(&plan, &back) {
            return fail("ordering", m, &desc);
        }
        // DataFusion completes some operators when it decodes them, so the first decoded plan is the reference
        let again = match MaybeEncoded::Decoded(Arc::clone(&back)).encode(&there).and_then(|b| decode_plan(&b, &here)) {
            Ok(p) => p,
            Err(e) => return fail(&format!("second trip:{}", err_sig(&e)), e.to_string(), &desc),
        };
        match (plain_bytes(&back, &there), plain_bytes(&again, &here)) {
            (Ok(a), Ok(b)) if a == b || sorted(&a) == sorted(&b) => {}
            (Ok(a), Ok(b)) => {
                let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                let w = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(60)..(i + 60).min(v.len())]).to_string();
                return fail("bytes", format!("{} bytes became {} bytes, different from byte {i}\n{:?}\n{:?}", a.len(), b.len(), w(&a), w(&b)), &desc);
            }
            (a, b) => return fail("re-encode", format!("{:?} / {:?}", a.err(), b.err()), &desc),
        }
        let mut info = Info { desc: desc.clone(), ..Default::default() };
        interesting(&plan, &mut info);
        info.nontrivial = info.classes.iter().any(|c| c.starts_with("Network"));
        Res::Ok(info)
    })
}

/// What workers decode is what was sent to them.
fn on_workers(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let tags = gen_tags(t);
    let mut s = decode(t, &cfg(true));
    s.opts.local = None;
    let desc = format!("codecs {:?} tags {:?}\n{}", tags.kinds, tags.at, s.describe());
    let d = desc.clone();
    guard(s.threads, &d, async move {
        type Seen = Arc<Mutex<Vec<(i32, Plan, Vec<String>)>>>;
        let seen: Seen = Default::default();
        let (seen2, kinds) = (Arc::clone(&seen), tags.kinds.clone());
        let customize = move |node: i32, _: http::HeaderMap, b: SessionStateBuilder| {
            let seen = Arc::clone(&seen2);
            let handler = move |ev: WorkerPlanRewriteEvent<'_>| {
                seen.lock().unwrap().push((node, Arc::clone(&ev.plan), structure(&ev.plan)));
                Ok(WorkerPlanRewriteEventResponse::new(ev.plan))
            };
            Ok(add_codecs(b, &kinds).with_distributed_worker_plan_rewrite_handler(handler))
        };
        let cluster = Cluster::start(ClusterCfg { workers: s.workers, customize: Some(Arc::new(customize)), ..Default::default() });
        cluster.shared.keep_plans.store(true, Ordering::SeqCst);
        let ctx = tagged_session(&cluster, &s, &tags);
        let sql = s.query.sql();
        let out = std::panic::AssertUnwindSafe(run(&ctx, &sql)).catch_unwind().await.unwrap_or_else(|p| panicked(p));
        let mut sent: BTreeMap<Vec<String>, (String, Vec<String>, Plan)> = Default::default();
        let mut info = Info { desc: desc.clone(), ..Default::default() };
        for e in cluster.shared.events() {
            if let Event::SetPlan { key, target, plan: Some(p), .. } = e {
                interesting(&p, &mut info);
                sent.entry(structure(&p)).or_insert_with(|| (format!("{key:?}"), vec![], p)).1.push(target.to_string());
            }
        }
        for (node, plan, lines) in seen.lock().unwrap().iter() {
            let url = node_url(*node as usize).to_string();
            match sent.get_mut(lines) {
                Some((key, to, p)) => match to.iter().position(|u| *u == url) {
                    Some(i) => {
                        to.swap_remove(i);
                        if let Some(m) = lost_ordering(p, plan) {
                            return fail("ordering", m, &desc);
                        }
                    }
                    None => return fail("not sent there", format!("worker {node} decoded {key} more often than it was sent to it:\n{}", lines.join("\n")), &desc),
                },
                None => {
                    if sent.keys().any(|want| union_casts_again(want, lines)) {
                        return Res::Discard("upstream: a decoded union casts its inputs again".into());
                    }
                    let near = sent.iter().filter_map(|(want, (k, _, _))| first_difference(want, lines).map(|d| (k, d))).max_by_key(|(_, d)| d[5..].split(':').next().and_then(|n| n.parse::<usize>().ok()));
                    return fail("not what was sent", format!("worker {node} decoded\n{}\nnearest sent {near:?}", lines.join("\n")), &desc);
                }
            }
        }
        if let Err(e) = out {
            // only failures of the codec are of interest here
            let m = e.to_string();
            if m.contains("codec") || m.contains("decode") || m.contains("proto") || m.contains("not a tag") || m.contains("a tag has") {
                return fail(&format!("query:{}", err_sig(&e)), m, &desc);
            }
            return Res::Discard(format!("query: {}", sig_of_error(&m)));
        }
        info.nontrivial = !seen.lock().unwrap().is_empty();
        Res::Ok(info)
    })
}

/// Partitionings of requests.
fn partitionings(t: &mut Tape) -> std::result::Result<Info, (String, String, String)> {
    let cluster_opts = Opts::default();
    let data = id_table(t, 0, 5, false);
    let p = scan(&data, 1);
    let n = [1, 2, 0, 3, 17, usize::MAX][t.below(6)];
    let (part, text) = match t.below(3) {
        0 => {
            let (k, text) = keys(t, &p);
            (Partitioning::Hash(k, n), format!("hash {text}"))
        }
        1 => (Partitioning::RoundRobinBatch(n), "round robin".into()),
        _ => (Partitioning::UnknownPartitioning(n), "unknown".into()),
    };
    let desc = format!("{text} {n}");
    let e = |sig: &str, m: String| (sig.to_string(), m, desc.clone());
    let ctx = SessionContext::new_with_config(cluster_opts.df_config()).task_ctx();
    let bytes = MaybeEncoded::Decoded(part.clone()).encode(&ctx).map_err(|x| e("partitioning encode", x.to_string()))?;
    let back = MaybeEncoded::<Partitioning>::Encoded(bytes).decode(p.schema(), &ctx).map_err(|x| e("partitioning decode", x.to_string()))?;
    if format!("{part:?}") != format!("{back:?}") {
        return Err(e("partitioning", format!("{part:?} became {back:?}")));
    }
    Ok(Info { nontrivial: true, classes: vec!["partitioning".into()], desc })
}

fn varint(mut v: u64, out: &mut Vec<u8>) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

/// Corrupted encodings of the operators of this library.
fn corrupted(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    if t.chance(1, 6) {
        return match partitionings(t) {
            Ok(i) => Res::Ok(i),
            Err((sig, msg, desc)) => Res::Fail { sig, msg, desc },
        };
    }
    let data = id_table(t, 0, 20, false);
    let kind = t.below(5);
    let (n, m) = (t.range(1, 4), t.range(1, 4));
    let whole = t.chance(1, 3);
    let edits: Vec<(usize, u32, u32)> = (0..t.range(1, 4)).map(|_| (t.below(6), t.raw(), t.raw())).collect();
    let ninputs = t.below(4);
    let desc = format!("kind {kind} tasks {n}->{m} whole={whole} edits {edits:?} inputs {ninputs}");
    let d = desc.clone();
    guard(0, &d, async move {
        let r = || -> Result<(Plan, Plan)> {
            let input = scan(&data, 2);
            let p: Plan = match kind {
                0 => shuffle(Arc::clone(&input), vec![col(&input, 0)], 2 * m, n)?,
                1 => Arc::new(NetworkCoalesceExec::try_new(Arc::clone(&input), n, m)?),
                2 => {
                    let b: Plan = Arc::new(BroadcastExec::new(Arc::clone(&input), m));
                    Arc::new(NetworkBroadcastExec::try_new(b, n)?)
                }
                3 => Arc::new(BroadcastExec::new(Arc::clone(&input), m)),
                _ => return Ok((Arc::clone(&input), Arc::clone(&input))),
            };
            Ok((p, input))
        };
        let (plan, input) = match r() {
            Ok(p) => p,
            Err(e) => return Res::Discard(format!("not built: {e}")),
        };
        let cluster = Cluster::start(ClusterCfg { workers: 1, ..Default::default() });
        let ctx = cluster.session(&Opts::default()).task_ctx();
        let conv = DefaultPhysicalProtoConverter {};
        let mut bytes = vec![];
        if kind == 4 {
            // a sampler or a union, both empty messages here: the first is field 7, the second 4
            bytes = vec![if n % 2 == 0 { 0x3a } else { 0x22 }, 0];
        } else if whole {
            match MaybeEncoded::Decoded(Arc::clone(&plan)).encode(&ctx) {
                Ok(b) => bytes = b,
                Err(e) => return fail("encode", e.to_string(), &desc),
            }
        } else if let Err(e) = DistributedCodec.try_encode(Arc::clone(&plan), &mut bytes, &conv) {
            return fail("encode", e.to_string(), &desc);
        }
        for (op, a, b) in &edits {
            let len = bytes.len();
            let at = if len == 0 { 0 } else { *a as usize % len };
            match op {
                0 if len > 0 => bytes[at] ^= 1 << (b % 8),
                1 => bytes.truncate(at),
                2 if len > 0 => {
                    bytes.remove(at);
                }
                3 => bytes.insert(at, *b as u8),
                4 => {
                    let mut v = vec![];
                    varint([u64::MAX, u32::MAX as u64, 1 << 62, 0][*b as usize % 4], &mut v);
                    bytes.splice(at..(at + 1).min(len), v);
                }
                _ if len > 0 => {
                    let end = (at + 1 + *b as usize % 16).min(len);
                    let part = bytes[at..end].to_vec();
                    bytes.splice(at..at, part);
                }
                _ => {}
            }
        }
        let inputs: Vec<Plan> = (0..ninputs).map(|_| Arc::clone(&input)).collect();
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let p = if whole && kind != 4 { decode_plan(&bytes, &ctx) } else { DistributedCodec.try_decode(&bytes, &inputs, &ctx, &conv) };
            match p {
                Ok(p) => {
                    // a plan that was accepted can be looked at and encoded
                    let s = structure(&p);
                    let b = plain_bytes(&p, &ctx);
                    (Some(s), b.is_ok())
                }
                Err(_) => (None, false),
            }
        }));
        match got {
            Err(p) => {
                let e = panicked::<()>(p).unwrap_err().to_string();
                fail(&format!("decoding panicked:{}", sig_of_error(&e)), format!("{e}\nbytes {bytes:?}"), &desc)
            }
            Ok((s, _)) => {
                let mut info = Info { desc: desc.clone(), nontrivial: true, ..Default::default() };
                info.class(if s.is_some() { "still a plan" } else { "error" });
                info.class(format!("kind {kind}"));
                Res::Ok(info)
            }
        }
    })
}

pub fn property() -> Property {
    Property {
        id: "C19",
        rule: "the plan has a network boundary (round trips); at least one worker decoded a plan (workers); every corrupted message counts",
        tape_len: 500,
        quick: 20_000,
        thorough: 400_000,
        threads: 8,
        hang_is_violation: false,
        assumptions: &["operators of DataFusion itself are compared as well; what its own codec does not keep is outside of the claim"],
        parts: vec![
            Part { name: "round-trip", weight: 5, run: round_trip },
            Part { name: "workers", weight: 3, run: on_workers },
            Part { name: "corrupted", weight: 8, run: corrupted },
        ],
    }
}
