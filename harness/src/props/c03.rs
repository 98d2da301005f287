//! C03: ORDER BY, LIMIT and OFFSET mean the same distributed as on one node.
use super::qcase::*;
use crate::runner::{Part, Property, Res};
use crate::sql::{GenCfg, TableCfg};

/// Ordering and limits on top of simple queries.
fn top(tape: &[u32]) -> Res {
    query_case(
        tape,
        &CaseCfg {
            gen_cfg: GenCfg { depth: 1, max_joins: 1, windows: false, order: 2, ..Default::default() },
            table_cfg: TableCfg { max_rows: 120, ..Default::default() },
            adaptive_sometimes: true,
            ..Default::default()
        },
    )
}

/// Limits inside subqueries, joins, unions and aggregates.
fn nested(tape: &[u32]) -> Res {
    query_case(tape, &CaseCfg { gen_cfg: GenCfg { depth: 2, order: 2, inner_limits: true, limit_bias: true, ..Default::default() }, adaptive_sometimes: true, ..Default::default() })
}

pub fn property() -> Property {
    Property {
        id: "C03",
        rule: "the query has an ORDER BY or a LIMIT/OFFSET, and at least one plan was installed on a worker",
        tape_len: 240,
        quick: 9000,
        thorough: 150000,
        threads: 8,
        hang_is_violation: true,
        assumptions: &["single-node DataFusion with one partition is the reference", "where ties make several windows valid, the sort keys and membership of the rows are compared"],
        parts: vec![Part { name: "top", weight: 2, run: top }, Part { name: "nested", weight: 1, run: nested }],
    }
}
