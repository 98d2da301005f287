//! C02: adaptive task counts never change query results.
use super::qcase::*;
use crate::runner::{Part, Property, Res};
use crate::sql::{GenCfg, TableCfg};

fn broad(tape: &[u32]) -> Res {
    query_case(tape, &CaseCfg { adaptive: true, check_bounds: true, ..Default::default() })
}

/// Few operators over more data: the sampler sees partial streams and the estimates vary.
fn sampled(tape: &[u32]) -> Res {
    query_case(
        tape,
        &CaseCfg {
            gen_cfg: GenCfg { depth: 1, max_joins: 1, subqueries: false, ..Default::default() },
            table_cfg: TableCfg { max_rows: 400, max_chunks: 8, ..Default::default() },
            adaptive: true,
            check_bounds: true,
            ..Default::default()
        },
    )
}

pub fn property() -> Property {
    Property {
        id: "C02",
        rule: "adaptive task counts were on and at least one plan was installed on a worker",
        tape_len: 260,
        quick: 8000,
        thorough: 120000,
        threads: 8,
        hang_is_violation: true,
        assumptions: &["single-node DataFusion with one partition is the reference", "transport is an in-memory duplex instead of TCP"],
        parts: vec![Part { name: "broad", weight: 2, run: broad }, Part { name: "sampled", weight: 1, run: sampled }],
    }
}
