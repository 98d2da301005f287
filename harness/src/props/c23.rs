//! C23: metric values merge independently of order and survive transport.
use super::c16::{Client, paused};
use crate::cluster::*;
use crate::place::*;
use crate::probe::*;
use crate::runner::{Info, Part, Property, Res};
use crate::tape::Tape;
use chrono::DateTime;
use datafusion::physical_plan::metrics::{
    Count, CustomMetricValue, Gauge, Label, Metric, MetricValue, MetricsSet, PruningMetrics, RatioMergeStrategy, RatioMetrics, Time, Timestamp,
};
use datafusion_distributed::*;
use futures::StreamExt;
use std::any::Any;
use std::borrow::Cow;
use std::sync::Arc;
use std::time::Duration;

/// A custom metric the library knows nothing about.
#[derive(Debug, Default)]
struct Foreign;
impl std::fmt::Display for Foreign {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "foreign")
    }
}
impl CustomMetricValue for Foreign {
    fn new_empty(&self) -> Arc<dyn CustomMetricValue> {
        Arc::new(Foreign)
    }
    fn aggregate(&self, _: Arc<dyn CustomMetricValue + 'static>) {}
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_usize(&self) -> usize {
        7
    }
    fn is_eq(&self, o: &Arc<dyn CustomMetricValue>) -> bool {
        o.as_any().downcast_ref::<Self>().is_some()
    }
}

const KINDS: [&str; 10] = ["min", "max", "avg", "first", "bytes", "gauge", "p50", "p75", "p95", "p99"];

#[derive(Clone)]
enum M {
    Min(MinLatencyMetric),
    Max(MaxLatencyMetric),
    Avg(AvgLatencyMetric),
    First(FirstLatencyMetric),
    Bytes(BytesCounterMetric),
    Gauge(MaxGaugeMetric),
    P50(P50LatencyMetric),
    P75(P75LatencyMetric),
    P95(P95LatencyMetric),
    P99(P99LatencyMetric),
}

impl M {
    fn new(kind: usize) -> M {
        match kind {
            0 => M::Min(Default::default()),
            1 => M::Max(Default::default()),
            2 => M::Avg(Default::default()),
            3 => M::First(Default::default()),
            4 => M::Bytes(Default::default()),
            5 => M::Gauge(Default::default()),
            6 => M::P50(Default::default()),
            7 => M::P75(Default::default()),
            8 => M::P95(Default::default()),
            _ => M::P99(Default::default()),
        }
    }
    fn record(&self, v: usize) {
        let d = Duration::from_nanos(v as u64);
        // both ways of recording
        let nanos = v % 2 == 0 && v > 0;
        macro_rules! rec {
            ($m:expr) => {
                if nanos { $m.add_nanos(v) } else { $m.add_duration(d) }
            };
        }
        match self {
            M::Min(m) => rec!(m),
            M::Max(m) => rec!(m),
            M::Avg(m) => rec!(m),
            M::First(m) => rec!(m),
            M::Bytes(m) => {
                m.add_bytes(v);
            }
            M::Gauge(m) => m.set_max(v),
            M::P50(m) => rec!(m),
            M::P75(m) => rec!(m),
            M::P95(m) => rec!(m),
            M::P99(m) => rec!(m),
        }
    }
    fn dynamic(&self) -> Arc<dyn CustomMetricValue> {
        match self.clone() {
            M::Min(m) => Arc::new(m),
            M::Max(m) => Arc::new(m),
            M::Avg(m) => Arc::new(m),
            M::First(m) => Arc::new(m),
            M::Bytes(m) => Arc::new(m),
            M::Gauge(m) => Arc::new(m),
            M::P50(m) => Arc::new(m),
            M::P75(m) => Arc::new(m),
            M::P95(m) => Arc::new(m),
            M::P99(m) => Arc::new(m),
        }
    }
}

/// All that can be seen of a custom metric.
fn custom_text(v: &dyn CustomMetricValue) -> String {
    let a = v.as_any();
    let n = v.as_usize();
    if a.is::<MinLatencyMetric>() {
        format!("min {n}")
    } else if a.is::<MaxLatencyMetric>() {
        format!("max {n}")
    } else if let Some(m) = a.downcast_ref::<AvgLatencyMetric>() {
        format!("avg {n} {} {}", m.nanos_sum(), m.count())
    } else if a.is::<FirstLatencyMetric>() {
        format!("first {n}")
    } else if a.is::<BytesCounterMetric>() {
        format!("bytes {n}")
    } else if a.is::<MaxGaugeMetric>() {
        format!("gauge {n}")
    } else if let Some(m) = a.downcast_ref::<P50LatencyMetric>() {
        format!("p50 {n} {}", m.count())
    } else if let Some(m) = a.downcast_ref::<P75LatencyMetric>() {
        format!("p75 {n} {}", m.count())
    } else if let Some(m) = a.downcast_ref::<P95LatencyMetric>() {
        format!("p95 {n} {}", m.count())
    } else if let Some(m) = a.downcast_ref::<P99LatencyMetric>() {
        format!("p99 {n} {}", m.count())
    } else {
        format!("foreign {n}")
    }
}

fn value(t: &mut Tape) -> usize {
    match t.weighted(&[3, 3, 2, 1]) {
        0 => t.below(20),
        1 => t.below(1_000_000),
        2 => (t.raw() as usize) * (1 + t.below(50)),
        _ => 1usize << t.below(48),
    }
}

fn merge(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let kind = t.below(KINDS.len());
    let tasks = t.range(1, 6);
    let n = t.size(30);
    let obs: Vec<(usize, usize)> = (0..n).map(|_| (t.below(tasks), value(t))).collect();
    let fresh = t.chance(1, 2);
    let ordered = kind == 3;
    let mut groups: Vec<Vec<usize>> = vec![vec![]; tasks];
    obs.iter().for_each(|(g, v)| groups[*g].push(*v));
    let threaded = t.chance(1, 16);
    let metrics: Vec<M> = groups
        .iter()
        .map(|g| {
            let m = M::new(kind);
            if threaded && !ordered {
                std::thread::scope(|s| {
                    for part in g.chunks(g.len().div_ceil(2).max(1)) {
                        let m = m.clone();
                        s.spawn(move || part.iter().for_each(|v| m.record(*v)));
                    }
                });
            } else {
                g.iter().for_each(|v| m.record(*v));
            }
            m
        })
        .collect();
    let one = M::new(kind);
    groups.iter().flatten().for_each(|v| one.record(*v));
    // merge in a generated order and grouping
    let mut pool: Vec<Arc<dyn CustomMetricValue>> = metrics.iter().map(|m| m.dynamic()).collect();
    if fresh {
        let e = pool[0].new_empty();
        let at = if ordered { 0 } else { t.below(pool.len() + 1) };
        pool.insert(at, e);
    }
    let mut steps = vec![];
    while pool.len() > 1 {
        let i = t.below(pool.len() - 1);
        let j = if ordered { i + 1 } else { (i + 1 + t.below(pool.len() - 1)) % pool.len() };
        steps.push((i, j));
        let other = Arc::clone(&pool[j]);
        pool[i].aggregate(other);
        pool.remove(j);
    }
    let desc = format!("{} tasks={groups:?} merges={steps:?} fresh={fresh} threaded={threaded}", KINDS[kind]);
    let mut info = Info { desc: desc.clone(), ..Default::default() };
    info.class(KINDS[kind]);
    info.nontrivial = groups.iter().filter(|g| !g.is_empty()).count() > 1;
    let (got, want) = (custom_text(&*pool[0]), custom_text(&*one.dynamic()));
    if got != want {
        return fail("merge", format!("{}: merged {got}, recorded in one place {want}", KINDS[kind]), &desc);
    }
    if !pool[0].is_eq(&one.dynamic()) {
        return fail("is-eq", format!("{}: equal values differ: {got}", KINDS[kind]), &desc);
    }
    let _ = pool[0].to_string();
    // the value itself
    let mut all: Vec<usize> = groups.concat();
    let floor = |v: usize| v.max(1);
    let exact = match kind {
        0 => Some(all.iter().map(|v| floor(*v)).min().unwrap_or(usize::MAX)),
        1 => Some(all.iter().map(|v| floor(*v)).max().unwrap_or(0)),
        2 => Some(all.iter().map(|v| floor(*v)).sum::<usize>() / all.len().max(1)),
        3 => Some(all.first().map(|v| floor(*v)).unwrap_or(0)),
        4 => Some(all.iter().sum()),
        5 => Some(all.iter().max().copied().unwrap_or(0)),
        _ => None,
    };
    let v = pool[0].as_usize();
    if let Some(e) = exact
        && v != e
    {
        return fail("value", format!("{}: {v} instead of {e}", KINDS[kind]), &desc);
    }
    if exact.is_none() && !all.is_empty() {
        all.sort();
        let q = [0.5, 0.75, 0.95, 0.99][kind - 6];
        let r = q * (all.len() - 1) as f64;
        let (lo, hi) = (floor(all[r.floor() as usize]) as f64 * 0.99 - 1.0, floor(all[r.ceil() as usize]) as f64 * 1.01 + 1.0);
        if (v as f64) < lo || v as f64 > hi {
            return fail("percentile", format!("{}: {v} not in {lo}..{hi}", KINDS[kind]), &desc);
        }
    }
    Res::Ok(info)
}

fn big(t: &mut Tape) -> usize {
    match t.weighted(&[3, 2, 2, 1]) {
        0 => t.below(5),
        1 => t.below(1_000_000),
        2 => 1usize << t.below(62),
        _ => usize::MAX - t.below(2),
    }
}

fn gen_metric(t: &mut Tape) -> Metric {
    let kind = t.below(26);
    let suffix = ["a", "b", "", "ünï ✓", "task_id"][t.weighted(&[4, 2, 1, 1, 1])];
    let name = |k: &str| -> Cow<'static, str> { format!("{k}{suffix}").into() };
    let count = |v: usize| {
        let c = Count::new();
        c.add(v);
        c
    };
    let gauge = |v: usize| {
        let c = Gauge::new();
        c.set(v);
        c
    };
    let time = |v: usize| {
        let c = Time::new();
        if v > 0 {
            c.add_duration(Duration::from_nanos(v as u64));
        }
        c
    };
    let stamp = |t: &mut Tape| {
        let s = Timestamp::new();
        if !t.chance(1, 3) {
            s.set(DateTime::from_timestamp_nanos([0, 1_700_000_000_123_456_789, -5, 1][t.below(4)] + t.raw() as i64));
        }
        s
    };
    let v = match kind {
        0 => MetricValue::OutputRows(count(big(t))),
        1 => MetricValue::ElapsedCompute(time(big(t))),
        2 => MetricValue::SpillCount(count(big(t))),
        3 => MetricValue::SpilledBytes(count(big(t))),
        4 => MetricValue::SpilledRows(count(big(t))),
        5 => MetricValue::CurrentMemoryUsage(gauge(big(t))),
        6 => MetricValue::Count { name: name("count"), count: count(big(t)) },
        7 => MetricValue::Gauge { name: name("gauge"), gauge: gauge(big(t)) },
        8 => MetricValue::PeakMemoryUsage { name: name("peak"), gauge: gauge(big(t)) },
        9 => MetricValue::Time { name: name("time"), time: time(big(t)) },
        10 => MetricValue::StartTimestamp(stamp(t)),
        11 => MetricValue::EndTimestamp(stamp(t)),
        12 => MetricValue::OutputBytes(count(big(t))),
        13 => MetricValue::OutputBatches(count(big(t))),
        14 => {
            let p = PruningMetrics::new();
            p.add_pruned(big(t));
            p.add_matched(big(t));
            p.add_fully_matched(big(t));
            MetricValue::PruningMetrics { name: name("pruning"), pruning_metrics: p }
        }
        15 => {
            let (s, k) = match t.below(3) {
                0 => (RatioMergeStrategy::AddPartAddTotal, "aa"),
                1 => (RatioMergeStrategy::AddPartSetTotal, "as"),
                _ => (RatioMergeStrategy::SetPartAddTotal, "sa"),
            };
            let raw = t.bool();
            let r = RatioMetrics::new().with_merge_strategy(s).with_display_raw_values(raw);
            r.set_part(big(t));
            r.set_total(big(t));
            MetricValue::Ratio { name: name(&format!("ratio{k}{raw}")), ratio_metrics: r }
        }
        k => {
            let k = (k - 16).min(KINDS.len());
            if k == KINDS.len() || t.chance(1, 30) {
                MetricValue::Custom { name: name("foreign"), value: Arc::new(Foreign) }
            } else {
                let m = M::new(k);
                for _ in 0..t.weighted(&[2, 3, 2, 2]) {
                    m.record(value(t));
                }
                MetricValue::Custom { name: name(&format!("custom-{}", KINDS[k])), value: m.dynamic() }
            }
        }
    };
    let partition = match t.weighted(&[3, 3, 1]) {
        0 => None,
        1 => Some(t.below(5)),
        _ => Some(usize::MAX),
    };
    let labels = (0..t.weighted(&[3, 2, 1]))
        .map(|_| Label::new(["x", "filename", "", "task_id"][t.below(4)].to_string(), ["1", "", "a/b=ü"][t.below(3)].to_string()))
        .collect();
    Metric::new_with_labels(v, partition, labels)
}

fn value_text(v: &MetricValue) -> String {
    match v {
        MetricValue::StartTimestamp(s) | MetricValue::EndTimestamp(s) => format!("{} {:?}", v.name(), s.value()),
        MetricValue::PruningMetrics { name, pruning_metrics: p } => format!("pruning {name} {} {} {}", p.pruned(), p.matched(), p.fully_matched()),
        MetricValue::Ratio { name, ratio_metrics: r } => {
            format!("ratio {name} {}/{} {:?} {}", r.part(), r.total(), r.merge_strategy(), r.display_raw_values())
        }
        MetricValue::Custom { name, value } => format!("custom {name} {}", custom_text(&**value)),
        o => {
            let kind = format!("{o:?}");
            format!("{} {} {}", kind.split(['(', ' ', '{']).next().unwrap_or_default(), o.name(), o.as_usize())
        }
    }
}

fn metric_text(m: &Metric) -> String {
    let labels: Vec<_> = m.labels().iter().map(|l| (l.name().to_string(), l.value().to_string())).collect();
    format!("{} partition={:?} labels={labels:?}", value_text(m.value()), m.partition())
}

fn is_foreign(m: &Metric) -> bool {
    matches!(m.value(), MetricValue::Custom { value, .. } if value.as_any().is::<Foreign>())
}

fn aggregated<'a>(all: impl Iterator<Item = &'a Arc<Metric>>) -> Vec<String> {
    let mut set = MetricsSet::new();
    all.filter(|m| !is_foreign(m)).for_each(|m| set.push(Arc::clone(m)));
    let mut v: Vec<String> = set.aggregate_by_name().iter().map(|m| metric_text(m)).collect();
    v.sort();
    v
}

fn transport(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let tasks = t.range(1, 3);
    // operators of one task alike, as in a plan: one probe on another
    let ops = t.range(1, 2);
    let mut sets: Vec<Vec<Vec<Arc<Metric>>>> = vec![];
    for _ in 0..tasks {
        sets.push((0..ops).map(|_| (0..t.size(12)).map(|_| Arc::new(gen_metric(t))).collect()).collect());
    }
    let table = id_table(t, 0, 3, false);
    let text = |s: &[Arc<Metric>]| s.iter().map(|m| metric_text(m)).collect::<Vec<_>>();
    let desc = format!("{:#?}", sets.iter().map(|t| t.iter().map(|s| text(s)).collect::<Vec<_>>()).collect::<Vec<_>>());
    let mut info = Info { desc: desc.clone(), ..Default::default() };
    for m in sets.iter().flatten().flatten() {
        let v = value_text(m.value());
        let c = if v.starts_with("custom") { v.split(' ').nth(2).unwrap_or("custom") } else { v.split(' ').next().unwrap() };
        info.class(format!("sent {c}"));
    }
    info.classes.sort();
    info.classes.dedup();
    info.nontrivial = sets.iter().flatten().any(|s| !s.is_empty());
    paused(&desc, async {
        let cluster = Arc::new(Cluster::start(ClusterCfg { workers: 1, ..Default::default() }));
        let session = cluster.session(&Opts::default());
        let client = Client { cluster: Arc::clone(&cluster), direct: None, ctx: session.task_ctx() };
        let mut arrived: Vec<Vec<MetricsSet>> = vec![];
        for (i, task) in sets.iter().enumerate() {
            let mut plan = scan(&table, 1);
            let mut logs = vec![];
            for s in task.iter().rev() {
                let log = ProbeLog::plain();
                let mut set = MetricsSet::new();
                s.iter().for_each(|m| set.push(Arc::clone(m)));
                *log.metrics.lock().unwrap() = Some(set);
                plan = probe(plan, &log);
                logs.push(log);
            }
            let key = TaskKey { query_id: uuid::Uuid::from_u128(5), stage_id: 1, task_number: i };
            let mut h = http::HeaderMap::new();
            h.insert("x-datafusion-distributed-config-distributed.collect_metrics", "true".parse().unwrap());
            let r = async {
                let (tx, mut answers) = client.set(key, tasks, MaybeEncoded::Decoded(plan), h).await?;
                for mut s in client.exec(key, 0..1, ProducerHead::None).await? {
                    while let Some(b) = s.next().await {
                        b?;
                    }
                }
                drop(tx);
                let mut got = vec![];
                while let Some(m) = answers.next().await {
                    if let WorkerToCoordinatorMsg::TaskMetrics(m) = m? {
                        got.push(m);
                    }
                }
                Ok::<_, datafusion::common::DataFusionError>(got)
            };
            let mut got = match r.await {
                Ok(g) => g,
                Err(e) => return fail("error", format!("task {i}: {e}"), &desc),
            };
            if got.len() != 1 || got[0].pre_order_plan_metrics.len() != task.len() + 1 {
                return fail("messages", format!("task {i}: {} messages of metrics arrived", got.len()), &desc);
            }
            let got = got.remove(0).pre_order_plan_metrics;
            for (o, sent) in task.iter().enumerate() {
                let here = text(&got[o].iter().cloned().collect::<Vec<_>>());
                let want: Vec<String> = sent.iter().filter(|m| !is_foreign(m)).map(|m| metric_text(m)).collect();
                if here != want {
                    let d: Vec<_> = want.iter().zip(&here).filter(|(a, b)| a != b).collect();
                    return fail("transport", format!("task {i} operator {o}: {} sent, {} arrived, differing (sent, arrived): {d:?}", want.len(), here.len()), &desc);
                }
            }
            arrived.push(got);
        }
        for o in 0..ops {
            let here = aggregated(arrived.iter().flat_map(|t| t[o].iter()));
            let want = aggregated(sets.iter().flat_map(|t| t[o].iter()));
            if here != want {
                return fail("merge-after-transport", format!("operator {o}: merged after transport {here:?}, before {want:?}"), &desc);
            }
        }
        Res::Ok(info)
    })
}

pub fn property() -> Property {
    Property {
        id: "C23",
        rule: "more than one task recorded something (merge), or a metric was sent (transport)",
        tape_len: 500,
        quick: 160000,
        thorough: 2_000_000,
        threads: 8,
        hang_is_violation: true,
        assumptions: &[
            "the first-value metric keeps the first one set in merge order, so only its grouping is permuted",
            "the relative accuracy of percentiles is the 1% of the sketch's defaults, around the ranks it interpolates between",
            "values of one task recorded before it is merged",
        ],
        parts: vec![Part { name: "merge", weight: 3, run: merge }, Part { name: "transport", weight: 2, run: transport }],
    }
}
