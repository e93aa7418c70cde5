//! C19: graph difference.
use harness::algebra::*;
use harness::*;

fn case<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    if ctx.case % 1009 < 10 && ctx.case >= 1009 {
        return large::<Id, NL, EL, Ty, L>(ctx, true);
    }
    chain::<Id, NL, EL, Ty, L>(ctx, true)?;
    Ok(())
}

fn run(ctx: &mut Ctx) -> CaseResult {
    let sel = ctx.case;
    dispatch!(sel, case(ctx))
}

fn main() {
    driver::main(CheckDef {
        id: "C19",
        level: "exploration",
        rule: "each case makes 2..4 operands over a common set of ids (hash-map graphs with a mutation history, shaped hash-map graphs, static and memory-mapped graphs, empty ones) and replays a chain of 1..6 differences over the pool, results becoming operands, a graph combined with itself included; the form is drawn each time from function, borrowed operator, boxed general operator, typed operator and boxed typed operator; every result is queried in full and compared with the difference of the abstract operands, borrowed operands are compared again afterwards. Every 1009 cases ten operations on operands of up to 100000 nodes. Non-trivial: some graph of the case has an edge; distinct by operands and results.",
        assumptions: &["operands of the same direction", "the label count stays within what the label-id type can number"],
        quick: 48000,
        thorough: 400000,
        run,
        mem_mb: 4096,
    })
}
