//! C01: static distributed plans return what single-node DataFusion returns.
use super::qcase::*;
use crate::runner::{Part, Property, Res};
use crate::sql::GenCfg;

fn broad(tape: &[u32]) -> Res {
    query_case(tape, &CaseCfg::default())
}

fn joins(tape: &[u32]) -> Res {
    query_case(tape, &CaseCfg { gen_cfg: GenCfg { depth: 1, max_joins: 2, windows: false, setops: false, ..Default::default() }, ..Default::default() })
}

pub fn property() -> Property {
    Property {
        id: "C01",
        rule: "the distributed plan had at least one network boundary and at least one plan was installed on a worker",
        tape_len: 260,
        quick: 9000,
        thorough: 150000,
        threads: 8,
        hang_is_violation: true,
        assumptions: &["single-node DataFusion with one partition is the reference", "transport is an in-memory duplex instead of TCP"],
        parts: vec![Part { name: "broad", weight: 3, run: broad }, Part { name: "joins", weight: 1, run: joins }],
    }
}
