//! Reference execution (single-node DataFusion) and result comparison.
use crate::cluster::Opts;
use crate::data::*;
use crate::sql::{Query, Table};
use datafusion::arrow::datatypes::SchemaRef;
use datafusion::arrow::record_batch::RecordBatch;
use datafusion::common::Result;
use datafusion::physical_plan::{ExecutionPlan, execute_stream};
use datafusion::prelude::{SessionConfig, SessionContext};
use futures::StreamExt;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Answer {
    pub schema: SchemaRef,
    pub batches: Vec<RecordBatch>,
}

impl Answer {
    pub fn rows(&self) -> Vec<String> {
        rows(&self.batches)
    }
    pub fn keys(&self, q: &Query) -> Vec<String> {
        cols_rows(&self.batches, &q.order.iter().map(|o| o.0).collect::<Vec<_>>())
    }
    pub fn n(&self) -> usize {
        self.batches.iter().map(|b| b.num_rows()).sum()
    }
}

pub async fn run(ctx: &SessionContext, sql: &str) -> Result<(Answer, Arc<dyn ExecutionPlan>)> {
    let df = ctx.sql(sql).await?;
    let plan = df.create_physical_plan().await?;
    let a = run_plan(ctx, &plan).await?;
    Ok((a, plan))
}

pub async fn run_plan(ctx: &SessionContext, plan: &Arc<dyn ExecutionPlan>) -> Result<Answer> {
    let mut s = execute_stream(Arc::clone(plan), ctx.task_ctx())?;
    let schema = s.schema();
    let mut batches = vec![];
    while let Some(b) = s.next().await {
        batches.push(b?);
    }
    Ok(Answer { schema, batches })
}

/// Single partition DataFusion over in-memory copies of the tables.
pub fn vanilla(tables: &[Table]) -> SessionContext {
    let ctx = SessionContext::new_with_config(SessionConfig::new().with_target_partitions(1));
    for t in tables {
        ctx.register_table(t.name.as_str(), t.mem()).unwrap();
    }
    ctx
}

/// Multi-partition DataFusion, no distribution, with the options of the session under test.
pub fn vanilla_like(tables: &[Table], o: &Opts) -> SessionContext {
    let ctx = SessionContext::new_with_config(o.df_config());
    for t in tables {
        ctx.register_table(t.name.as_str(), t.provider()).unwrap();
    }
    ctx
}

pub struct Expected {
    pub full: Answer,
    pub limited: Option<Answer>,
    /// Rows produced by all the operators of the reference plan.
    pub work: usize,
}

/// Rows produced by all the operators of an executed plan.
pub fn rows_produced(plan: &Arc<dyn ExecutionPlan>) -> usize {
    let own = plan.metrics().and_then(|m| m.output_rows()).unwrap_or(0);
    own + plan.children().into_iter().map(rows_produced).sum::<usize>()
}

/// Single-node DataFusion claims that a grouping-sets aggregation keeps the ordering of its input,
/// though each of the sets nulls some of the keys; plans that build on that claim are wrong whether
/// they are distributed or not.
pub fn upstream_ordering_defect(plan: &Arc<dyn ExecutionPlan>) -> bool {
    use datafusion::physical_plan::ExecutionPlanProperties;
    use datafusion::physical_plan::{InputOrderMode, aggregates::AggregateExec};
    if let Some(a) = plan.downcast_ref::<AggregateExec>() {
        let g = a.group_expr();
        if !g.is_single() && (plan.output_ordering().is_some() || !plan.equivalence_properties().constants().is_empty()) {
            return true;
        }
        if g.expr().iter().any(|e| e.1 == "__grouping_id") && *a.input_order_mode() != InputOrderMode::Linear {
            return true;
        }
    }
    // datafusion-proto does not encode that a window function (lag, lead, nth_value) was reversed to fit
    // the ordering of its input, so the decoded plan computes the opposite direction.
    let windows = plan
        .downcast_ref::<datafusion::physical_plan::windows::BoundedWindowAggExec>()
        .map(|w| w.window_expr())
        .or_else(|| plan.downcast_ref::<datafusion::physical_plan::windows::WindowAggExec>().map(|w| w.window_expr()));
    for w in windows.into_iter().flatten() {
        let f = w.get_window_frame();
        let frame = format!("{} BETWEEN {} AND {}", f.units, f.start_bound, f.end_bound);
        if w.name().contains(" BETWEEN ") && !w.name().contains(&frame) {
            return true;
        }
    }
    // The single-node optimizer pushes the filter of a sort-merge join into an input and projects away the
    // columns the remaining filter still names.
    if let Some(j) = plan.downcast_ref::<datafusion::physical_plan::joins::SortMergeJoinExec>()
        && let Some(f) = j.filter()
    {
        for (i, c) in f.column_indices().iter().enumerate() {
            let side = match c.side {
                datafusion::common::JoinSide::Left => plan.children()[0].schema(),
                datafusion::common::JoinSide::Right => plan.children()[1].schema(),
                datafusion::common::JoinSide::None => continue,
            };
            if c.index >= side.fields().len() || side.field(c.index).data_type() != f.schema().field(i).data_type() {
                return true;
            }
        }
    }
    if let Some(l) = plan.downcast_ref::<datafusion_distributed::DistributedLeafExec>() {
        return upstream_ordering_defect(l.original());
    }
    plan.children().into_iter().any(upstream_ordering_defect)
}

/// The single-node optimizer gives a soft limit to a distinct aggregation before it sorts its input, and the
/// aggregation refuses to run with both.
pub fn limited_sorted_distinct(plan: &Arc<dyn ExecutionPlan>) -> bool {
    use datafusion::physical_plan::ExecutionPlanProperties;
    let here = plan.downcast_ref::<datafusion::physical_plan::aggregates::AggregateExec>().is_some_and(|a| {
        a.aggr_expr().is_empty() && a.limit_options().is_some_and(|l| l.descending.is_none()) && plan.output_ordering().is_some()
    });
    here || plan.children().into_iter().any(limited_sorted_distinct)
}

/// None when the reference itself cannot answer the query.
pub async fn expected(tables: &[Table], q: &Query) -> Result<Expected> {
    let ctx = vanilla(tables);
    expected_on(&ctx, q).await
}

pub async fn expected_on(ctx: &SessionContext, q: &Query) -> Result<Expected> {
    let (full, plan) = run(ctx, &q.ordered_unlimited()).await?;
    let work = rows_produced(&plan);
    let limited = if q.limit.is_some() || q.offset.is_some() { Some(run(ctx, &q.sql()).await?.0) } else { None };
    Ok(Expected { full, limited, work })
}

/// Compares an answer with the reference under the query's own guarantees.
pub fn compare(q: &Query, exp: &Expected, got: &Answer) -> std::result::Result<(), (String, String)> {
    let want = exp.limited.as_ref().unwrap_or(&exp.full);
    if schema_sig(&got.schema) != schema_sig(&want.schema) {
        return Err(("schema".into(), format!("schema {} instead of {}", schema_sig(&got.schema), schema_sig(&want.schema))));
    }
    for b in &got.batches {
        if schema_sig(&b.schema()) != schema_sig(&got.schema) {
            return Err(("schema".into(), format!("batch schema {} differs from stream schema {}", schema_sig(&b.schema()), schema_sig(&got.schema))));
        }
    }
    let g = got.rows();
    if exp.limited.is_some() {
        if got.n() != want.n() {
            return Err(("count".into(), format!("{} rows instead of {} (limit {:?} offset {:?} of {})", got.n(), want.n(), q.limit, q.offset, exp.full.n())));
        }
        if let Some(d) = submultiset(&g, &exp.full.rows()) {
            return Err(("rows".into(), format!("returned rows are not rows of the unlimited query: {d}")));
        }
    } else if let Some(d) = diff_multiset(&g, &want.rows()) {
        return Err(("rows".into(), d));
    }
    if !q.order.is_empty() {
        let (gk, wk) = (got.keys(q), want.keys(q));
        if gk != wk {
            let i = gk.iter().zip(&wk).position(|(a, b)| a != b);
            return Err(("order".into(), format!("sort keys differ at row {i:?}: got {:?} want {:?}", i.map(|i| &gk[i]), i.map(|i| &wk[i]))));
        }
    }
    Ok(())
}

/// Whether an answer is in the order the query asks for, independently of any other answer.
pub fn in_order(q: &Query, a: &Answer) -> bool {
    use datafusion::arrow::compute::{SortColumn, SortOptions, concat, lexsort_to_indices};
    if q.order.is_empty() || a.n() < 2 {
        return true;
    }
    let cols: Option<Vec<SortColumn>> = q
        .order
        .iter()
        .map(|(c, descending, nulls_first)| {
            let parts: Vec<&dyn datafusion::arrow::array::Array> = a.batches.iter().map(|b| b.column(*c).as_ref()).collect();
            let options = Some(SortOptions { descending: *descending, nulls_first: *nulls_first });
            concat(&parts).ok().map(|values| SortColumn { values, options })
        })
        .collect();
    let Some(Ok(ix)) = cols.as_ref().map(|c| lexsort_to_indices(c, None)) else { return true };
    let keys = a.keys(q);
    ix.values().iter().zip(&keys).all(|(i, k)| keys[*i as usize] == *k)
}

/// The single-node planner takes a column that is constant below the null-supplying side of an outer join
/// for constant above it, and drops it from sort keys.
pub fn constant_below_outer_join(plan: &Arc<dyn ExecutionPlan>) -> bool {
    use datafusion::common::JoinType;
    use datafusion::physical_plan::ExecutionPlanProperties;
    use datafusion::physical_plan::joins::{HashJoinExec, NestedLoopJoinExec, SortMergeJoinExec};
    let kind = plan
        .downcast_ref::<HashJoinExec>()
        .map(|j| *j.join_type())
        .or_else(|| plan.downcast_ref::<NestedLoopJoinExec>().map(|j| *j.join_type()))
        .or_else(|| plan.downcast_ref::<SortMergeJoinExec>().map(|j| j.join_type()));
    let sides: &[usize] = match kind {
        Some(JoinType::Left) => &[1],
        Some(JoinType::Right) => &[0],
        Some(JoinType::Full) => &[0, 1],
        _ => &[],
    };
    let c = plan.children();
    sides.iter().any(|s| !c[*s].equivalence_properties().constants().is_empty()) || c.into_iter().any(constant_below_outer_join)
}

/// Whether the topmost sorting operator of a plan sorts by something the planner believes to be constant.
pub fn sorts_constant(plan: &Arc<dyn ExecutionPlan>) -> bool {
    use datafusion::physical_plan::ExecutionPlanProperties;
    use datafusion::physical_plan::sorts::{sort::SortExec, sort_preserving_merge::SortPreservingMergeExec};
    let keys = plan
        .downcast_ref::<SortExec>()
        .map(|s| s.expr())
        .or_else(|| plan.downcast_ref::<SortPreservingMergeExec>().map(|s| s.expr()));
    let Some(keys) = keys else { return plan.children().first().is_some_and(|c| sorts_constant(c)) };
    let eq = plan.children()[0].equivalence_properties().clone();
    keys.iter().any(|k| eq.is_expr_constant(&k.expr).is_some()) || sorts_constant(plan.children()[0])
}

/// Sort keys of the topmost sorting operator of a plan.
pub fn top_sort_keys(plan: &Arc<dyn ExecutionPlan>) -> usize {
    use datafusion::physical_plan::sorts::{sort::SortExec, sort_preserving_merge::SortPreservingMergeExec};
    if let Some(s) = plan.downcast_ref::<SortExec>() {
        return s.expr().len();
    }
    if let Some(s) = plan.downcast_ref::<SortPreservingMergeExec>() {
        return s.expr().len();
    }
    plan.children().first().map(|c| top_sort_keys(c)).unwrap_or(0)
}
