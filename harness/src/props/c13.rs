//! C13: options and headers of the session arrive at every task of the query as they were set.
use crate::cluster::*;
use crate::place::*;
use crate::probe::*;
use crate::runner::{Info, Part, Property, Res};
use crate::scan::node_of;
use crate::tape::Tape;
use datafusion::common::config::{ConfigEntry, ConfigExtension, ExtensionOptions};
use datafusion::common::{DataFusionError, Result};
use datafusion::execution::TaskContext;
use datafusion::prelude::SessionContext;
use datafusion_distributed::{DistributedConfig, DistributedExt, DistributedTaskContext};
use http::{HeaderMap, HeaderName, HeaderValue};
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

const KEYS: &[&str] = &["a", "a_b", "b.c", "ext.a", "ext.ext.a", "ext2.a", "x-datafusion-distributed-config-a", "Upper", "z9"];

macro_rules! extension {
    ($name:ident, $prefix:expr) => {
        #[derive(Debug, Clone, Default, PartialEq)]
        struct $name(BTreeMap<String, Option<String>>);
        impl ExtensionOptions for $name {
            fn as_any(&self) -> &dyn Any {
                self
            }
            fn as_any_mut(&mut self) -> &mut dyn Any {
                self
            }
            fn cloned(&self) -> Box<dyn ExtensionOptions> {
                Box::new(self.clone())
            }
            fn set(&mut self, key: &str, value: &str) -> Result<()> {
                if !KEYS.contains(&key) {
                    return Err(DataFusionError::Configuration(format!("no key {key}")));
                }
                self.0.insert(key.into(), Some(value.into()));
                Ok(())
            }
            fn entries(&self) -> Vec<ConfigEntry> {
                KEYS.iter().map(|k| ConfigEntry { key: k.to_string(), value: self.0.get(*k).cloned().flatten(), description: "" }).collect()
            }
        }
        impl ConfigExtension for $name {
            const PREFIX: &'static str = $prefix;
        }
    };
}
extension!(E1, "ext");
extension!(E2, "ext2");
extension!(E3, "Mixed_Ext");
extension!(E4, "x");

type Values = BTreeMap<String, Option<String>>;

/// What an extension is in the querying session.
#[derive(Debug, Clone, PartialEq)]
enum Kind {
    Registered,
    /// there, but not registered for the workers
    Local,
    Absent,
}

#[derive(Debug, Clone)]
struct Ext {
    kind: Kind,
    values: Values,
    /// what the workers have before they look at the request; they may have no such extension at all
    worker: Option<Values>,
    reads: bool,
}

const VALUES: &[&str] = &["", "v", "true", " lead", "trail ", "a, b; c=\"d\"", "%20%0A$1{}", "x-datafusion-distributed-config-ext.a", "0.1", "~!@#^&*()[]|\\<>?'`"];

fn gen_values(t: &mut Tape, bad: &mut bool, may: bool) -> Values {
    let mut v = Values::new();
    for k in KEYS {
        if t.chance(1, 2) {
            continue;
        }
        let s = match t.weighted(&[8, 2, if may { 1 } else { 0 }]) {
            0 => t.pick(VALUES).to_string(),
            1 => "long ".repeat(t.range(1, 120)),
            _ => {
                *bad = true;
                ["ü", "line\nbreak", "nul\u{0}", "tail\r\n"][t.below(4)].to_string()
            }
        };
        v.insert(k.to_string(), Some(s));
    }
    v
}

fn add<T: ConfigExtension + Default>(b: datafusion::execution::SessionStateBuilder, e: &Ext, t: T) -> datafusion::execution::SessionStateBuilder {
    let mut b = b;
    match e.kind {
        Kind::Registered => b.with_distributed_option_extension(t),
        Kind::Local => {
            b.config().get_or_insert_with(Default::default).options_mut().extensions.insert(t);
            b
        }
        Kind::Absent => b,
    }
}

fn read<T: ConfigExtension + Default>(
    b: datafusion::execution::SessionStateBuilder,
    e: &Ext,
    t: Option<T>,
    headers: &HeaderMap,
) -> Result<datafusion::execution::SessionStateBuilder> {
    let mut b = b;
    if let Some(t) = t {
        b.config().get_or_insert_with(Default::default).options_mut().extensions.insert(t);
    }
    if e.reads { b.with_distributed_option_extension_from_headers::<T>(headers) } else { Ok(b) }
}

fn get<T: ConfigExtension + Clone>(ctx: &TaskContext, f: impl Fn(&T) -> &Values) -> Option<Values> {
    ctx.session_config().options().extensions.get::<T>().map(|t| f(t).clone())
}

/// What a worker task must see of an extension.
fn expected(e: &Ext) -> Option<Values> {
    if !e.reads {
        return e.worker.clone();
    }
    let mut v = e.worker.clone().unwrap_or_default();
    if e.kind == Kind::Registered {
        for (k, x) in &e.values {
            if x.is_some() {
                v.insert(k.clone(), x.clone());
            }
        }
    }
    Some(v)
}

fn distributed_options(c: &DistributedConfig) -> BTreeMap<String, Option<String>> {
    c.entries().into_iter().map(|e| (e.key, e.value)).collect()
}

#[derive(Debug, Clone)]
struct Seen {
    node: i32,
    task: usize,
    exts: Vec<Option<Values>>,
    options: Option<BTreeMap<String, Option<String>>>,
}

fn look(ctx: &TaskContext) -> Seen {
    Seen {
        node: node_of(ctx),
        task: ctx.session_config().get_extension::<DistributedTaskContext>().map(|d| d.task_index).unwrap_or(0),
        exts: vec![get::<E1>(ctx, |e| &e.0), get::<E2>(ctx, |e| &e.0), get::<E3>(ctx, |e| &e.0), get::<E4>(ctx, |e| &e.0)],
        options: DistributedConfig::from_config_options(ctx.session_config().options()).ok().map(distributed_options),
    }
}

const NAMES: &[&str] = &["x-request-id", "authorization", "x-multi", "cookie", "ext.a", "x-tags-bin", "distributed.shuffle_batch_size", "x-datafusion-distributed-configx", "mixed_ext.a", "x.a"];

fn gen_headers(t: &mut Tape) -> HeaderMap {
    let mut h = HeaderMap::new();
    for n in NAMES {
        if !t.chance(1, 3) {
            continue;
        }
        for _ in 0..[1, 2, 3][t.weighted(&[4, 2, 1])] {
            let v = if n.ends_with("-bin") {
                HeaderValue::from_static(["YWJj", "", "/+8="][t.below(3)])
            } else {
                match t.below(6) {
                    0 => HeaderValue::from_static("plain"),
                    1 => HeaderValue::from_static(""),
                    2 => HeaderValue::from_static("a, b;c=\"d\""),
                    3 => HeaderValue::from_bytes("Ünïcode".as_bytes()).unwrap(),
                    4 => HeaderValue::from_str(&"y".repeat(t.range(1, 600))).unwrap(),
                    _ => HeaderValue::from_static("7"),
                }
            };
            h.append(HeaderName::from_static(n), v);
        }
    }
    h
}

fn differing(name: &str, want: &HeaderMap, got: &HeaderMap) -> Option<String> {
    let f = |h: &HeaderMap| h.get_all(name).iter().map(|v| String::from_utf8_lossy(v.as_bytes()).into_owned()).collect::<Vec<_>>();
    (f(want) != f(got)).then(|| format!("header {name}: {:?} instead of {:?}", f(got), f(want)))
}

fn session(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let workers = t.range(1, 3);
    let mut opts = Opts::generate(t, workers);
    opts.df.clear();
    opts.shuffle_batch = [0, 1, 77, 1000][t.below(4)];
    let mut bad = false;
    let mut exts = vec![];
    for _ in 0..4 {
        let kind = [Kind::Registered, Kind::Local, Kind::Absent][t.weighted(&[5, 2, 2])].clone();
        let mut b = false;
        let values = if kind == Kind::Absent { Values::new() } else { gen_values(t, &mut b, kind == Kind::Registered) };
        bad |= b && kind == Kind::Registered;
        let worker = t.chance(1, 3).then(|| gen_values(t, &mut false, false));
        exts.push(Ext { kind, values, worker, reads: !t.chance(1, 6) });
    }
    let headers = gen_headers(t);
    let reserved = t.chance(1, 15).then(|| ["x-datafusion-distributed-config-ext.a", "x-datafusion-distributed-config-", "X-DataFusion-Distributed-Config-distributed.x"][t.below(3)]);
    let forward = t.chance(3, 4);
    let data = id_table(t, 0, 12, false);
    let parts = t.range(1, 3);
    let plan = scan(&data, parts);
    let seen = Arc::new(Mutex::new(vec![]));
    let log = ProbeLog::plain();
    let s2 = Arc::clone(&seen);
    *log.observe.lock().unwrap() = Some(Arc::new(move |ctx| s2.lock().unwrap().push(look(ctx))));
    let chain = gen_chain(t, plan, 3, &mut |_, p, _, _| probe(p, &log));
    let remote = chain.tasks.iter().any(|n| *n > 1);
    let local = opts.local;
    let desc = format!("workers={workers} exts={exts:?} headers={headers:?} reserved={reserved:?} forward={forward} {} {opts:?}", chain.text);
    let d = desc.clone();
    guard(0, &desc, async move {
        let arrived: Arc<Mutex<Vec<(i32, HeaderMap)>>> = Default::default();
        let (a2, e2) = (Arc::clone(&arrived), exts.clone());
        let customize: CustomizeBuilder = Arc::new(move |node, h, b| {
            let e = &e2;
            let b = read::<E1>(b, &e[0], e[0].worker.clone().map(E1), &h)?;
            let b = read::<E2>(b, &e[1], e[1].worker.clone().map(E2), &h)?;
            let b = read::<E3>(b, &e[2], e[2].worker.clone().map(E3), &h)?;
            let mut b = read::<E4>(b, &e[3], e[3].worker.clone().map(E4), &h)?;
            if forward {
                // as documented: each worker hands on what it wants to be handed on
                let own: HeaderMap = h.iter().filter(|(n, _)| NAMES.contains(&n.as_str())).map(|(n, v)| (n.clone(), v.clone())).fold(HeaderMap::new(), |mut m, (n, v)| {
                    m.append(n, v);
                    m
                });
                b = b.with_distributed_passthrough_headers(own)?;
            }
            a2.lock().unwrap().push((node, h));
            Ok(b)
        });
        let cluster = Cluster::start(ClusterCfg { workers, customize: Some(customize), ..Default::default() });
        let mut b = cluster.session_builder_with(&opts, Some(Arc::clone(&chain.plan)));
        b = add(b, &exts[0], E1(exts[0].values.clone()));
        b = add(b, &exts[1], E2(exts[1].values.clone()));
        b = add(b, &exts[2], E3(exts[2].values.clone()));
        b = add(b, &exts[3], E4(exts[3].values.clone()));
        if let Some(r) = reserved {
            let mut h = headers.clone();
            h.append(HeaderName::from_bytes(r.as_bytes()).unwrap(), HeaderValue::from_static("v"));
            return match b.with_distributed_passthrough_headers(h) {
                Err(_) => {
                    let mut info = Info { desc: d, nontrivial: true, ..Default::default() };
                    info.class("reserved name");
                    Res::Ok(info)
                }
                Ok(_) => fail("reserved header accepted", r, &d),
            };
        }
        let b = match b.with_distributed_passthrough_headers(headers.clone()) {
            Ok(b) => b,
            Err(e) => return fail("header rejected", e.to_string(), &d),
        };
        let ctx = SessionContext::new_with_state(b.build());
        let options = DistributedConfig::from_config_options(ctx.state().config_options()).map(distributed_options);
        let Ok(options) = options else {
            return fail("no distributed options", "in the querying session", &d);
        };
        let run = async {
            let plan = ctx.sql("SELECT 1").await?.create_physical_plan().await?;
            crate::oracle::run_plan(&ctx, &plan).await
        };
        let out = run.await;
        let sent = cluster.shared.setplans.load(std::sync::atomic::Ordering::SeqCst) > 0 || local.is_some();
        let mut info = Info { desc: d.clone(), ..Default::default() };
        match out {
            Err(_) if bad => {
                info.nontrivial = true;
                info.class("a value that cannot be sent");
                return Res::Ok(info);
            }
            Err(e) => return fail(&err_sig(&e), format!("failed: {e}"), &d),
            Ok(_) => {}
        }
        let mut nodes = BTreeSet::new();
        for s in seen.lock().unwrap().iter().filter(|s| s.node != COORD) {
            nodes.insert((s.node, s.task));
            for (i, e) in exts.iter().enumerate() {
                // only what has a value counts
                let clean = |v: &Option<Values>| v.as_ref().map(|v| v.iter().filter(|x| x.1.is_some()).map(|(k, x)| (k.clone(), x.clone())).collect::<Values>());
                let (want, got) = (clean(&expected(e)), clean(&s.exts[i]));
                if want != got {
                    return fail("option changed", format!("extension {i} at worker {} is\n{got:?}\ninstead of\n{want:?}", s.node), &d);
                }
            }
            if s.options.as_ref() != Some(&options) {
                return fail("distributed option changed", format!("at worker {}\n{:?}\ninstead of\n{options:?}", s.node, s.options), &d);
            }
        }
        for (node, h) in arrived.lock().unwrap().iter() {
            for n in NAMES {
                if let Some(m) = differing(n, &headers, h) {
                    return fail("header changed", format!("{m} at worker {node}"), &d);
                }
            }
            if let Some(k) = h.keys().find(|k| k.as_str().starts_with("x-datafusion-distributed-config-") && {
                let k = k.as_str().trim_start_matches("x-datafusion-distributed-config-");
                let p = k.split('.').next().unwrap();
                let i = ["ext", "ext2", "mixed_ext", "x"].iter().position(|x| *x == p);
                i.is_some_and(|i| exts[i].kind != Kind::Registered)
            }) {
                return fail("unregistered option sent", k.as_str(), &d);
            }
        }
        let mut hops = 0;
        for e in cluster.shared.events() {
            if let Event::Exec { origin, headers: h, .. } = e
                && (origin == COORD || forward)
            {
                hops += (origin != COORD) as usize;
                for n in NAMES {
                    if let Some(m) = differing(n, &headers, &h) {
                        return fail("header changed", format!("{m} in a request of {origin}"), &d);
                    }
                }
            }
        }
        info.nontrivial = remote && sent && !nodes.is_empty() && (exts.iter().any(|e| e.kind == Kind::Registered && e.reads && !e.values.is_empty()) || !headers.is_empty());
        if hops > 0 {
            info.class("requests between workers");
        }
        if headers.keys().any(|k| headers.get_all(k).iter().count() > 1) {
            info.class("repeated header");
        }
        for e in &exts {
            info.class(format!("{:?}", e.kind));
        }
        if local.is_some() {
            info.class("in-process worker");
        }
        Res::Ok(info)
    })
}

pub fn property() -> Property {
    Property {
        id: "C13",
        rule: "tasks ran on workers and the session had registered options with values, or headers; or a value or name that must be refused",
        tape_len: 220,
        quick: 40000,
        thorough: 200000,
        threads: 8,
        hang_is_violation: true,
        assumptions: &[
            "workers hand headers on as documented: by setting them again in their session",
            "header names that gRPC or HTTP/2 use themselves are not used",
            "an option without a value is not sent; keys of an extension do not differ in case only",
        ],
        parts: vec![Part { name: "session", weight: 1, run: session }],
    }
}
