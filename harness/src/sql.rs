//! Random tables and random SQL over them, restricted to queries whose answer is determined by
//! SQL semantics (as a multiset; as a sequence up to ties where ORDER BY is given).
use crate::data::*;
use crate::scan::{Demand, StatsMode, VTable};
use crate::tape::Tape;
use datafusion::arrow::compute::SortOptions;
use datafusion::catalog::TableProvider;
use datafusion::datasource::MemTable;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Col {
    pub name: String,
    pub ty: Ty,
    /// false for averages: equal only up to the order of float additions when aggregated again
    pub exact: bool,
}

#[derive(Clone, Debug)]
pub struct Table {
    pub name: String,
    pub cols: Vec<Col>,
    pub data: Arc<TableData>,
    pub partitions: usize,
}

impl Table {
    pub fn provider(&self) -> Arc<dyn TableProvider> {
        Arc::new(VTable { data: Arc::clone(&self.data), partitions: self.partitions })
    }
    pub fn mem(&self) -> Arc<dyn TableProvider> {
        let all: Vec<_> = self.data.chunks.iter().flatten().cloned().collect();
        Arc::new(MemTable::try_new(Arc::clone(&self.data.schema), vec![all]).unwrap())
    }
    pub fn describe(&self) -> String {
        format!(
            "{}({}) rows/chunk={:?} scan_partitions={} order={:?} stats={:?} demand={:?} ctx_mode={}",
            self.name,
            self.cols.iter().map(|c| format!("{}:{:?}", c.name, c.ty)).collect::<Vec<_>>().join(","),
            (0..self.data.chunks.len()).map(|c| self.data.chunk_rows(c)).collect::<Vec<_>>(),
            self.partitions,
            self.data.ordering.iter().map(|(c, o)| format!("{c}{}{}", if o.descending { "d" } else { "a" }, if o.nulls_first { "f" } else { "l" })).collect::<Vec<_>>(),
            self.data.stats,
            self.data.demand,
            self.data.ctx_mode
        )
    }
}

#[derive(Clone, Debug)]
pub struct TableCfg {
    pub max_rows: usize,
    pub max_chunks: usize,
    pub allow_order: bool,
    /// A handler may also ask for no task at all.
    pub zero_demands: bool,
}
impl Default for TableCfg {
    fn default() -> Self {
        Self { max_rows: 60, max_chunks: 6, allow_order: true, zero_demands: false }
    }
}

pub fn gen_table(t: &mut Tape, idx: usize, cfg: &TableCfg) -> Table {
    let name = format!("t{idx}");
    let mut specs = vec![];
    let ncols = t.range(2, 5);
    let domain = [4usize, 2, 10, 40][t.weighted(&[4, 1, 3, 2])];
    let nulls = [0usize, 1, 3][t.weighted(&[3, 3, 1])];
    // the first two columns are always integers, so that joins match
    for i in 0..ncols {
        let ty = match i {
            0 => Ty::Int,
            1 => Ty::Int32,
            _ => [Ty::Int, Ty::Str, Ty::Float, Ty::Date, Ty::Bool, Ty::Int32][t.weighted(&[3, 4, 2, 1, 1, 1])],
        };
        let d = if i == 0 { domain } else { [domain, 3, 20, 1, 7][t.weighted(&[4, 2, 2, 1, 1])] };
        let nm = format!("c{i}");
        specs.push(ColSpec { name: nm, ty, domain: d, nulls });
    }
    let nchunks = t.range(1, cfg.max_chunks);
    let seed = t.raw();
    let max_batch = [1000usize, 1, 3, 10][t.weighted(&[3, 1, 2, 2])];
    let ordering = if cfg.allow_order && t.chance(1, 4) {
        let n = t.range(1, 2);
        let mut v = vec![];
        for i in 0..n {
            v.push((i, SortOptions { descending: t.bool(), nulls_first: t.bool() }));
        }
        v
    } else {
        vec![]
    };
    let mut chunks = vec![];
    for c in 0..nchunks {
        let n = t.size(cfg.max_rows);
        let mut b = gen_batch(seed.wrapping_add((c as u32).wrapping_mul(7919)), &specs, n);
        if !ordering.is_empty() {
            b = sort_batch(&b, &ordering);
        }
        chunks.push(split_batch(&b, max_batch));
    }
    let mut d = TableData::new(&name, schema_of(&specs), chunks);
    d.ordering = ordering;
    d.stats = match t.weighted(&[2, 3, 2]) {
        0 => StatsMode::Absent,
        1 => StatsMode::Exact,
        _ => StatsMode::Inexact { mul: [1, 10, 0, 1 << 30][t.below(4)], div: [1, 1, 1, 10][t.below(4)] },
    };
    d.demand = match t.weighted(&[6, 1, 1]) {
        0 => Demand::Desired(t.range(1, 5)),
        1 => Demand::Maximum(t.range(1, 4)),
        _ => Demand::Unspecified,
    };
    if cfg.zero_demands && t.chance(1, 12) {
        d.demand = if t.bool() { Demand::Desired(0) } else { Demand::Maximum(0) };
    }
    d.ctx_mode = t.chance(1, 3);
    d.yield_every = [0, 1, 3][t.weighted(&[3, 1, 1])];
    let partitions = t.range(1, 4);
    let cols = specs.iter().map(|s| Col { name: s.name.clone(), ty: s.ty, exact: true }).collect();
    Table { name, cols, data: d.build(), partitions }
}

/// A generated query.
#[derive(Clone, Debug)]
pub struct Query {
    pub body: String,
    pub cols: Vec<Col>,
    /// column index, descending, nulls first
    pub order: Vec<(usize, bool, bool)>,
    pub limit: Option<usize>,
    pub offset: Option<usize>,
    pub features: Vec<&'static str>,
}

impl Query {
    pub fn order_sql(&self) -> String {
        if self.order.is_empty() {
            return String::new();
        }
        let k: Vec<String> = self
            .order
            .iter()
            .map(|(i, d, n)| format!("{} {} NULLS {}", self.cols[*i].name, if *d { "DESC" } else { "ASC" }, if *n { "FIRST" } else { "LAST" }))
            .collect();
        format!(" ORDER BY {}", k.join(", "))
    }
    pub fn unlimited(&self) -> String {
        self.body.clone()
    }
    pub fn sql(&self) -> String {
        let mut s = if self.order.is_empty() && self.limit.is_none() && self.offset.is_none() {
            return self.body.clone();
        } else {
            format!("SELECT * FROM ({}) q", self.body)
        };
        s += &self.order_sql();
        if let Some(l) = self.limit {
            s += &format!(" LIMIT {l}");
        }
        if let Some(o) = self.offset {
            s += &format!(" OFFSET {o}");
        }
        s
    }
    /// Query with its ordering but no limit/offset.
    pub fn ordered_unlimited(&self) -> String {
        if self.order.is_empty() {
            return self.body.clone();
        }
        format!("SELECT * FROM ({}) q{}", self.body, self.order_sql())
    }
}

#[derive(Clone, Debug)]
pub struct GenCfg {
    pub depth: usize,
    pub max_joins: usize,
    pub windows: bool,
    pub setops: bool,
    pub subqueries: bool,
    pub inner_limits: bool,
    /// limits in half of the subqueries instead of one in six
    pub limit_bias: bool,
    /// top-level ORDER BY / LIMIT: 0 never, 1 sometimes, 2 always at least one
    pub order: usize,
}

impl Default for GenCfg {
    fn default() -> Self {
        Self { depth: 2, max_joins: 2, windows: true, setops: true, subqueries: true, inner_limits: true, limit_bias: false, order: 1 }
    }
}

pub struct Gen<'a, 'b> {
    pub t: &'a mut Tape<'b>,
    pub tables: &'a [Table],
    pub cfg: GenCfg,
    pub features: Vec<&'static str>,
    alias: usize,
    ctes: Vec<(String, Vec<Col>)>,
    cte_sql: Vec<String>,
}

struct Scope {
    cols: Vec<(String, Col)>, // qualified name, col
}

impl Scope {
    fn of(&self, tys: &[Ty]) -> Vec<&(String, Col)> {
        self.cols.iter().filter(|(_, c)| tys.contains(&c.ty)).collect()
    }
}

const INTS: [Ty; 2] = [Ty::Int, Ty::Int32];

impl<'a, 'b> Gen<'a, 'b> {
    pub fn new(t: &'a mut Tape<'b>, tables: &'a [Table], cfg: GenCfg) -> Self {
        Self { t, tables, cfg, features: vec![], alias: 0, ctes: vec![], cte_sql: vec![] }
    }
    fn feat(&mut self, f: &'static str) {
        if !self.features.contains(&f) {
            self.features.push(f);
        }
    }
    fn fresh(&mut self) -> String {
        self.alias += 1;
        format!("r{}", self.alias)
    }

    pub fn query(mut self) -> Query {
        let d = self.cfg.depth;
        if self.cfg.subqueries && self.t.chance(1, 8) {
            // a CTE used by the rest of the query
            let (sql, cols) = self.select(d.saturating_sub(1));
            self.feat("cte");
            self.cte_sql.push(format!("w0 AS ({sql})"));
            self.ctes.push(("w0".into(), cols));
        }
        let (sql, cols) = self.body(d);
        let body = if self.cte_sql.is_empty() { sql } else { format!("WITH {} {}", self.cte_sql.join(", "), sql) };
        let mut q = Query { body, cols, order: vec![], limit: None, offset: None, features: vec![] };
        let want = match self.cfg.order {
            0 => 0,
            1 => self.t.weighted(&[5, 3, 2, 1]),
            _ => 1 + self.t.below(3),
        };
        // 1: order, 2: order+limit, 3: limit only
        if want == 1 || want == 2 {
            let n = self.t.range(1, q.cols.len().min(3));
            let mut idx: Vec<usize> = (0..q.cols.len()).collect();
            self.t.shuffle(&mut idx);
            for i in idx.into_iter().take(n) {
                q.order.push((i, self.t.bool(), self.t.bool()));
            }
            self.feat("orderby");
        }
        if want >= 2 {
            q.limit = Some([3, 0, 1, 7, 20, 100, 100000][self.t.weighted(&[4, 1, 3, 4, 2, 1, 1])]);
            if self.t.chance(1, 4) {
                q.offset = Some([1, 4, 30][self.t.below(3)]);
            }
            self.feat("limit");
        } else if want == 1 && self.t.chance(1, 8) {
            q.offset = Some([1, 4, 30][self.t.below(3)]);
            self.feat("limit");
        }
        q.features = self.features;
        q
    }

    fn body(&mut self, depth: usize) -> (String, Vec<Col>) {
        if self.cfg.setops && depth > 0 && self.t.chance(1, 5) {
            return self.setop(depth);
        }
        self.select(depth)
    }

    fn setop(&mut self, depth: usize) -> (String, Vec<Col>) {
        let op = ["UNION ALL", "UNION", "INTERSECT", "EXCEPT"][self.t.weighted(&[6, 3, 1, 1])];
        self.feat(match op {
            "UNION ALL" => "unionall",
            "UNION" => "union",
            "INTERSECT" => "intersect",
            _ => "except",
        });
        let n = if op.starts_with("UNION") { self.t.range(2, 4) } else { 2 };
        // all branches projected to a common shape
        let shape: Vec<Ty> = (0..self.t.range(1, 3)).map(|i| if i == 0 { Ty::Int } else { [Ty::Int, Ty::Str, Ty::Float][self.t.below(3)] }).collect();
        let mut parts = vec![];
        let mut exact = vec![true; shape.len()];
        for _ in 0..n {
            let (sql, cols) = if depth > 1 && self.t.chance(1, 6) { self.setop(depth - 1) } else { self.select(depth - 1) };
            let a = self.fresh();
            let sc = Scope { cols: cols.iter().map(|c| (format!("{a}.{}", c.name), c.clone())).collect() };
            let mut ex = vec![];
            for (i, ty) in shape.iter().enumerate() {
                let (e, x) = self.expr(&sc, *ty, 0);
                exact[i] &= x;
                let cast = match ty {
                    Ty::Int => "BIGINT",
                    Ty::Str => "VARCHAR",
                    _ => "DOUBLE",
                };
                ex.push(format!("CAST({e} AS {cast}) AS c{i}"));
            }
            parts.push(format!("SELECT {} FROM ({sql}) {a}", ex.join(", ")));
        }
        let sql = parts.join(&format!(" {op} "));
        let cols = shape.iter().enumerate().map(|(i, ty)| Col { name: format!("c{i}"), ty: *ty, exact: exact[i] }).collect();
        let a = self.fresh();
        (format!("SELECT * FROM ({sql}) {a}"), cols)
    }

    /// A relation for FROM: (sql, alias, cols)
    fn rel(&mut self, depth: usize) -> (String, Vec<(String, Col)>) {
        let a = self.fresh();
        let choice = self.t.weighted(&[10, if depth > 0 { 4 } else { 0 }, if self.ctes.is_empty() { 0 } else { 5 }, if self.cfg.subqueries { 1 } else { 0 }]);
        let (sql, cols) = match choice {
            0 => {
                let tb = &self.tables[self.t.below(self.tables.len())];
                (tb.name.clone(), tb.cols.clone())
            }
            1 => {
                let (s, c) = self.body(depth - 1);
                let (s, c) = self.maybe_inner_limit(s, c);
                (format!("({s})"), c)
            }
            2 => {
                let (n, c) = self.ctes[0].clone();
                (n, c)
            }
            _ => {
                self.feat("values");
                let n = self.t.range(1, 4);
                let rows: Vec<String> = (0..n).map(|_| format!("({}, '{}')", self.t.irange(0, 4), WORDS[1 + self.t.below(4)])).collect();
                return (
                    format!("(VALUES {}) AS {a}(v0, v1)", rows.join(", ")),
                    vec![
                        (format!("{a}.v0"), Col { name: "v0".into(), ty: Ty::Int, exact: true }),
                        (format!("{a}.v1"), Col { name: "v1".into(), ty: Ty::Str, exact: true }),
                    ],
                );
            }
        };
        let q = cols.iter().map(|c| (format!("{a}.{}", c.name), c.clone())).collect();
        (format!("{sql} AS {a}"), q)
    }

    fn maybe_inner_limit(&mut self, s: String, cols: Vec<Col>) -> (String, Vec<Col>) {
        let (n, d) = if self.cfg.limit_bias { (1, 2) } else { (1, 6) };
        if !self.cfg.inner_limits || !self.t.chance(n, d) {
            return (s, cols);
        }
        let a = self.fresh();
        let limit = [3, 1, 10, 50, 0][self.t.weighted(&[4, 3, 4, 2, 1])];
        let offset = if self.t.chance(1, 4) { format!(" OFFSET {}", [1, 2, 5, 40][self.t.below(4)]) } else { String::new() };
        if self.t.chance(1, 4) {
            // any rows will do: only their number is determined
            self.feat("innerlimitcount");
            let b = self.fresh();
            let sql = format!("SELECT count(*) AS c0 FROM (SELECT * FROM ({s}) {a} LIMIT {limit}{offset}) {b}");
            return (sql, vec![Col { name: "c0".into(), ty: Ty::Int, exact: true }]);
        }
        if cols.iter().any(|c| !c.exact) {
            return (s, cols);
        }
        self.feat("innerlimit");
        // ordering by all columns makes the limited multiset unique
        let k: Vec<String> = cols.iter().map(|c| format!("{} {}", c.name, if self.t.bool() { "DESC" } else { "ASC" })).collect();
        (format!("SELECT * FROM ({s}) {a} ORDER BY {} LIMIT {limit}{offset}", k.join(", ")), cols)
    }

    fn select(&mut self, depth: usize) -> (String, Vec<Col>) {
        let (mut from, cols) = self.rel(depth);
        let mut sc = Scope { cols };
        let njoins = self.t.weighted(&[5, 4, 2]).min(self.cfg.max_joins);
        for _ in 0..njoins {
            let (r, rc) = self.rel(depth.saturating_sub(1));
            let kind = ["JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN", "LEFT SEMI JOIN", "LEFT ANTI JOIN", "RIGHT SEMI JOIN", "RIGHT ANTI JOIN", "CROSS JOIN"]
                [self.t.weighted(&[8, 4, 3, 3, 2, 2, 1, 1, 1])];
            self.feat(match kind {
                "JOIN" => "inner",
                "LEFT JOIN" => "left",
                "RIGHT JOIN" => "right",
                "FULL JOIN" => "full",
                "LEFT SEMI JOIN" | "RIGHT SEMI JOIN" => "semi",
                "LEFT ANTI JOIN" | "RIGHT ANTI JOIN" => "anti",
                _ => "cross",
            });
            if kind == "CROSS JOIN" {
                // keep the product small
                let keys = rc.iter().filter(|(_, c)| INTS.contains(&c.ty)).map(|(n, _)| n.clone()).next();
                let a = match keys {
                    Some(k) => {
                        let bare = k.split('.').nth(1).unwrap().to_string();
                        let x = self.fresh();
                        let sql = format!("(SELECT DISTINCT {bare} AS x0 FROM {r}) AS {x}", r = r);
                        (sql, vec![(format!("{x}.x0"), Col { name: "x0".into(), ty: Ty::Int, exact: true })])
                    }
                    None => continue,
                };
                from = format!("{from} CROSS JOIN {}", a.0);
                sc.cols.extend(a.1);
                continue;
            }
            let rs = Scope { cols: rc };
            let mut conds = vec![];
            let (li, ri) = (sc.of(&INTS).into_iter().cloned().collect::<Vec<_>>(), rs.of(&INTS).into_iter().cloned().collect::<Vec<_>>());
            if !li.is_empty() && !ri.is_empty() && !self.t.chance(1, 10) {
                let l = &li[self.t.below(li.len())].0;
                let r2 = &ri[self.t.below(ri.len())].0;
                conds.push(format!("{l} = {r2}"));
                if self.t.chance(1, 5) {
                    let l = &li[self.t.below(li.len())].0;
                    let r2 = &ri[self.t.below(ri.len())].0;
                    if self.t.bool() {
                        conds.push(format!("{l} = {r2}"));
                    } else {
                        self.feat("joinfilter");
                        conds.push(format!("{l} < {r2} + {}", self.t.irange(0, 3)));
                    }
                }
            } else if !li.is_empty() && !ri.is_empty() {
                self.feat("nlj");
                conds.push(format!("{} > {} + {}", li[0].0, ri[0].0, self.t.irange(0, 3)));
            } else {
                let ls: Vec<_> = sc.of(&[Ty::Str]).into_iter().cloned().collect();
                let rs2: Vec<_> = rs.of(&[Ty::Str]).into_iter().cloned().collect();
                if ls.is_empty() || rs2.is_empty() {
                    continue;
                }
                conds.push(format!("{} = {}", ls[0].0, rs2[0].0));
            }
            from = format!("{from} {kind} {r} ON {}", conds.join(" AND "));
            match kind {
                "LEFT SEMI JOIN" | "LEFT ANTI JOIN" => {}
                "RIGHT SEMI JOIN" | "RIGHT ANTI JOIN" => sc = rs,
                _ => sc.cols.extend(rs.cols),
            }
        }
        let mut wheres = vec![];
        if self.t.chance(1, 2) {
            wheres.push(self.pred(&sc, 1));
            self.feat("where");
        }
        if self.cfg.subqueries && self.t.chance(1, 8) {
            wheres.push(self.subpred(&sc));
        }
        if self.t.chance(1, 30) {
            wheres.push("1 = 0".into());
            self.feat("false");
        }
        let wh = if wheres.is_empty() { String::new() } else { format!(" WHERE {}", wheres.join(" AND ")) };
        match self.t.weighted(&[4, 6, 2, if self.cfg.windows { 2 } else { 0 }]) {
            0 => self.project(&sc, &from, &wh, false),
            1 => self.aggregate(&sc, &from, &wh),
            2 => self.project(&sc, &from, &wh, true),
            _ => self.window(&sc, &from, &wh),
        }
    }

    fn project(&mut self, sc: &Scope, from: &str, wh: &str, distinct: bool) -> (String, Vec<Col>) {
        let n = self.t.range(1, 4);
        let mut out = vec![];
        let mut cols = vec![];
        for i in 0..n {
            let (e, c) = self.out_expr(sc, i);
            out.push(format!("{e} AS c{i}"));
            cols.push(c);
        }
        if distinct {
            self.feat("distinct");
        }
        (format!("SELECT {}{} FROM {from}{wh}", if distinct { "DISTINCT " } else { "" }, out.join(", ")), cols)
    }

    fn out_expr(&mut self, sc: &Scope, i: usize) -> (String, Col) {
        if self.t.chance(2, 3) {
            let (q, c) = &sc.cols[self.t.below(sc.cols.len())];
            return (q.clone(), Col { name: format!("c{i}"), ty: c.ty, exact: c.exact });
        }
        let ty = [Ty::Int, Ty::Str, Ty::Float, Ty::Bool][self.t.weighted(&[4, 3, 2, 1])];
        let (e, x) = self.expr(sc, ty, 1);
        (e, Col { name: format!("c{i}"), ty, exact: x })
    }

    fn expr(&mut self, sc: &Scope, ty: Ty, depth: usize) -> (String, bool) {
        match ty {
            Ty::Int | Ty::Int32 => {
                let c: Vec<_> = sc.of(&INTS).into_iter().cloned().collect();
                if c.is_empty() || self.t.chance(1, 12) {
                    return (format!("CAST({} AS BIGINT)", self.t.irange(0, 5)), true);
                }
                let a = c[self.t.below(c.len())].0.clone();
                if depth == 0 {
                    return (format!("CAST({a} AS BIGINT)"), true);
                }
                let b = c[self.t.below(c.len())].0.clone();
                let s = match self.t.below(7) {
                    0 => format!("{a} + {}", self.t.irange(-3, 3)),
                    1 => format!("{a} - {b}"),
                    2 => format!("COALESCE({a}, -7)"),
                    3 => {
                        let p = self.pred(sc, 0);
                        format!("CASE WHEN {p} THEN {a} ELSE {b} END")
                    }
                    4 => format!("abs({a}) % 3"),
                    5 => format!("NULLIF({a}, 1)"),
                    _ => match sc.of(&[Ty::Str]).first() {
                        Some((n, _)) => format!("character_length({n})"),
                        None => a,
                    },
                };
                (format!("CAST({s} AS BIGINT)"), true)
            }
            Ty::Str => {
                let c: Vec<_> = sc.of(&[Ty::Str]).into_iter().cloned().collect();
                if c.is_empty() {
                    let (e, _) = self.expr(sc, Ty::Int, 0);
                    return (format!("CAST({e} AS VARCHAR)"), true);
                }
                let a = c[self.t.below(c.len())].0.clone();
                let s = match self.t.below(if depth == 0 { 1 } else { 4 }) {
                    0 => a,
                    1 => format!("upper({a})"),
                    2 => format!("concat({a}, '-x')"),
                    _ => format!("substr({a}, 1, 2)"),
                };
                (s, true)
            }
            Ty::Float => {
                let c: Vec<_> = sc.of(&[Ty::Float]).into_iter().cloned().collect();
                if c.is_empty() {
                    let (e, _) = self.expr(sc, Ty::Int, 0);
                    return (format!("(CAST({e} AS DOUBLE) + 0.5)"), true);
                }
                let (a, col) = c[self.t.below(c.len())].clone();
                if depth == 0 { (a, col.exact) } else { (format!("({a} + 1.5)"), col.exact) }
            }
            Ty::Date => {
                let c: Vec<_> = sc.of(&[Ty::Date]).into_iter().cloned().collect();
                match c.first() {
                    Some((n, _)) => (n.clone(), true),
                    None => ("DATE '2021-01-05'".into(), true),
                }
            }
            Ty::Bool => (format!("({})", self.pred(sc, 0)), true),
        }
    }

    fn pred(&mut self, sc: &Scope, depth: usize) -> String {
        if depth > 0 && self.t.chance(1, 4) {
            let a = self.pred(sc, depth - 1);
            let b = self.pred(sc, depth - 1);
            return match self.t.below(3) {
                0 => format!("({a} AND {b})"),
                1 => format!("({a} OR {b})"),
                _ => format!("(NOT ({a}))"),
            };
        }
        let (q, c) = sc.cols[self.t.below(sc.cols.len())].clone();
        if self.t.chance(1, 10) {
            return format!("{q} IS {}NULL", if self.t.bool() { "NOT " } else { "" });
        }
        match c.ty {
            Ty::Int | Ty::Int32 => {
                let v = self.t.irange(-1, 6);
                match self.t.below(5) {
                    0 => format!("{q} > {v}"),
                    1 => format!("{q} <= {v}"),
                    2 => format!("{q} = {v}"),
                    3 => format!("{q} IN ({v}, {}, 3)", v + 2),
                    _ => format!("{q} BETWEEN {v} AND {}", v + 4),
                }
            }
            Ty::Str => match self.t.below(4) {
                0 => format!("{q} <> 'a'"),
                1 => format!("{q} LIKE '%a%'"),
                2 => format!("{q} >= 'b'"),
                _ => format!("{q} IN ('ab', 'zz', '')"),
            },
            Ty::Float => format!("{q} {} {}", [">", "<=", "<>"][self.t.below(3)], (self.t.irange(-2, 8) as f64) / 2.0 + 0.25),
            Ty::Date => format!("{q} {} DATE '2019-06-01'", [">", "<="][self.t.below(2)]),
            Ty::Bool => if self.t.bool() { q } else { format!("NOT {q}") },
        }
    }

    fn subpred(&mut self, sc: &Scope) -> String {
        let tb = self.tables[self.t.below(self.tables.len())].clone();
        let a = self.fresh();
        let isc = Scope { cols: tb.cols.iter().map(|c| (format!("{a}.{}", c.name), c.clone())).collect() };
        let ints: Vec<_> = sc.of(&INTS).into_iter().cloned().collect();
        let iints: Vec<_> = isc.of(&INTS).into_iter().cloned().collect();
        if ints.is_empty() {
            return "1 = 1".into();
        }
        let o = ints[self.t.below(ints.len())].0.clone();
        let i = iints[self.t.below(iints.len())].0.clone();
        let wh = if self.t.bool() { format!(" WHERE {}", self.pred(&isc, 0)) } else { String::new() };
        match self.t.below(5) {
            0 => {
                self.feat("insub");
                format!("{o} IN (SELECT {i} FROM {} AS {a}{wh})", tb.name)
            }
            1 => {
                self.feat("notinsub");
                format!("{o} NOT IN (SELECT {i} FROM {} AS {a}{wh})", tb.name)
            }
            2 => {
                self.feat("exists");
                let n = if self.t.bool() { "NOT " } else { "" };
                format!("{n}EXISTS (SELECT 1 FROM {} AS {a} WHERE {i} = {o})", tb.name)
            }
            3 => {
                self.feat("scalarsub");
                let f = ["max", "min", "count", "sum"][self.t.below(4)];
                format!("{o} {} (SELECT {f}({i}) FROM {} AS {a}{wh})", ["<", ">=", "<>"][self.t.below(3)], tb.name)
            }
            _ => {
                self.feat("corrscalar");
                let f = ["max", "min", "count"][self.t.below(3)];
                let k = iints[self.t.below(iints.len())].0.clone();
                format!("{o} <= (SELECT {f}({i}) FROM {} AS {a} WHERE {k} = {o})", tb.name)
            }
        }
    }

    fn agg(&mut self, sc: &Scope) -> (String, Ty, bool) {
        let ints: Vec<_> = sc.of(&INTS).into_iter().cloned().collect();
        let nums: Vec<_> = sc.cols.iter().filter(|(_, c)| (INTS.contains(&c.ty) || c.ty == Ty::Float) && c.exact).cloned().collect();
        let (q, c) = sc.cols[self.t.below(sc.cols.len())].clone();
        let k = self.t.weighted(&[4, 3, 3, 3, 3, 2, 2, 1, 1, 1, 1]);
        let (s, ty, exact) = match k {
            0 => ("count(*)".to_string(), Ty::Int, true),
            1 => (format!("count({q})"), Ty::Int, true),
            2 if !ints.is_empty() => (format!("sum({})", ints[self.t.below(ints.len())].0), Ty::Int, true),
            3 => (format!("min({q})"), c.ty, c.exact),
            4 => (format!("max({q})"), c.ty, c.exact),
            5 => (format!("count(DISTINCT {q})"), Ty::Int, true),
            6 if !nums.is_empty() => {
                let (n, _) = &nums[self.t.below(nums.len())];
                (format!("avg({n})"), Ty::Float, false)
            }
            7 if !ints.is_empty() => (format!("sum(DISTINCT {})", ints[self.t.below(ints.len())].0), Ty::Int, true),
            8 => {
                let p = self.pred(sc, 0);
                (format!("bool_and({p})"), Ty::Bool, true)
            }
            9 if !ints.is_empty() => (format!("bit_xor({})", ints[self.t.below(ints.len())].0), Ty::Int, true),
            10 if !ints.is_empty() => (format!("median(CAST({} AS DOUBLE))", ints[self.t.below(ints.len())].0), Ty::Float, true),
            _ => ("count(*)".to_string(), Ty::Int, true),
        };
        if k < 6 && self.t.chance(1, 8) {
            self.feat("aggfilter");
            let p = self.pred(sc, 0);
            return (format!("{s} FILTER (WHERE {p})"), ty, exact);
        }
        if k == 5 || k == 7 {
            self.feat("aggdistinct");
        }
        (s, ty, exact)
    }

    fn aggregate(&mut self, sc: &Scope, from: &str, wh: &str) -> (String, Vec<Col>) {
        let nkeys = self.t.weighted(&[2, 5, 3]);
        let naggs = self.t.range(if nkeys == 0 { 1 } else { 0 }, 3);
        let mut keys: Vec<(String, Col)> = vec![];
        for _ in 0..nkeys {
            if self.t.chance(3, 4) {
                let k = sc.cols[self.t.below(sc.cols.len())].clone();
                if k.1.exact && !keys.iter().any(|(n, _)| n == &k.0) {
                    keys.push(k);
                }
            } else {
                let ty = [Ty::Int, Ty::Str, Ty::Bool][self.t.below(3)];
                let (e, x) = self.expr(sc, ty, 1);
                if x && e.contains('.') && !keys.iter().any(|(n, _)| n == &e) {
                    keys.push((e, Col { name: String::new(), ty, exact: true }));
                }
            }
        }
        let mut out = vec![];
        let mut cols = vec![];
        for (k, c) in &keys {
            out.push(format!("{k} AS c{}", cols.len()));
            cols.push(Col { name: format!("c{}", cols.len()), ty: c.ty, exact: true });
        }
        let mut aggs = vec![];
        for _ in 0..naggs.max(if keys.is_empty() { 1 } else { 0 }) {
            let (a, ty, x) = self.agg(sc);
            out.push(format!("{a} AS c{}", cols.len()));
            cols.push(Col { name: format!("c{}", cols.len()), ty, exact: x });
            aggs.push(a);
        }
        let ks: Vec<String> = keys.iter().map(|k| k.0.clone()).collect();
        let gb = if ks.is_empty() {
            self.feat("globalagg");
            String::new()
        } else {
            match self.t.weighted(&[10, 1, 1, 1]) {
                1 => {
                    self.feat("rollup");
                    format!(" GROUP BY ROLLUP({})", ks.join(", "))
                }
                2 => {
                    self.feat("cube");
                    format!(" GROUP BY CUBE({})", ks.join(", "))
                }
                3 if ks.len() > 1 => {
                    self.feat("groupingsets");
                    format!(" GROUP BY GROUPING SETS (({}), ({}), ())", ks.join(", "), ks[0])
                }
                _ => {
                    self.feat("groupby");
                    format!(" GROUP BY {}", ks.join(", "))
                }
            }
        };
        let having = if !aggs.is_empty() && self.t.chance(1, 8) {
            self.feat("having");
            format!(" HAVING count(*) > {}", self.t.irange(0, 2))
        } else {
            String::new()
        };
        (format!("SELECT {} FROM {from}{wh}{gb}{having}", out.join(", ")), cols)
    }

    fn window(&mut self, sc: &Scope, from: &str, wh: &str) -> (String, Vec<Col>) {
        self.feat("window");
        let usable: Vec<_> = sc.cols.iter().filter(|(_, c)| c.exact).cloned().collect();
        if usable.is_empty() || usable.len() != sc.cols.len() {
            return self.project(sc, from, wh, false);
        }
        let part = if self.t.chance(3, 4) {
            let p = usable[self.t.below(usable.len())].0.clone();
            format!("PARTITION BY {p} ")
        } else {
            String::new()
        };
        // order by every column: ties are identical rows
        let ord: Vec<String> = usable.iter().map(|(n, _)| format!("{n} {}", if self.t.bool() { "DESC" } else { "ASC" })).collect();
        let ints: Vec<_> = sc.of(&INTS).into_iter().cloned().collect();
        let arg = if ints.is_empty() { "1".to_string() } else { ints[self.t.below(ints.len())].0.clone() };
        let (f, needs_order) = match self.t.below(9) {
            0 => ("row_number()".to_string(), true),
            1 => ("rank()".to_string(), true),
            2 => ("dense_rank()".to_string(), true),
            3 => (format!("sum({arg})"), false),
            4 => ("count(*)".to_string(), false),
            5 => (format!("lag({arg})"), true),
            6 => (format!("lead({arg}, 2)"), true),
            7 => (format!("first_value({arg})"), true),
            _ => (format!("max({arg})"), false),
        };
        let with_order = needs_order || self.t.bool();
        let frame = if with_order && (f.starts_with("sum") || f.starts_with("count") || f.starts_with("max")) {
            ["", " ROWS BETWEEN 2 PRECEDING AND CURRENT ROW", " ROWS BETWEEN UNBOUNDED PRECEDING AND UNBOUNDED FOLLOWING"][self.t.below(3)]
        } else {
            ""
        };
        let over = format!("OVER ({part}{}{frame})", if with_order { format!("ORDER BY {}", ord.join(", ")) } else { String::new() });
        let mut out = vec![];
        let mut cols = vec![];
        for (i, (n, c)) in usable.iter().take(4).enumerate() {
            out.push(format!("{n} AS c{i}"));
            cols.push(Col { name: format!("c{i}"), ty: c.ty, exact: true });
        }
        let i = cols.len();
        out.push(format!("CAST({f} {over} AS BIGINT) AS c{i}"));
        cols.push(Col { name: format!("c{i}"), ty: Ty::Int, exact: true });
        (format!("SELECT {} FROM {from}{wh}", out.join(", ")), cols)
    }
}
