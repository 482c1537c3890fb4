use crate::corpus::Space;
use crate::engine::*;
use crate::obs::*;
use crate::refmodel as rm;

pub mod c_cursor;
pub mod c_encode;
pub mod c_fault;
pub mod c_global;
pub mod c_grammar;
pub mod c_hist;
pub mod c_hostile;
pub mod c_query;
pub mod c_trip;
pub mod c_views;

/// One family per corpus space.
pub fn over(spaces: Vec<Space>, f: impl Fn(&[u8], &mut Ctx) -> Result<(), Fail> + Copy + Sync + Send + 'static) -> Vec<Family> {
    spaces
        .into_iter()
        .map(|s| {
            let show = s.show();
            let g = s.gen.clone();
            Family::new(s.name, &s.what, s.count, move |i, ctx| f(&g(i), ctx), show)
        })
        .collect()
}
/// Runs a log under `cfg` and compares every item with the model.
pub fn against_model(b: &[u8], cfg: &Cfg, ctx: &mut Ctx) -> Result<rm::Expect, Fail> {
    let e = rm::expect(b, cfg);
    let got = run(b, cfg);
    tally(&e, &got, ctx);
    rm::compare(&e, &got).map_err(|w| Fail::new(format!("{w} (options {cfg:?})"), hex(b)))?;
    Ok(e)
}
pub fn tally(e: &rm::Expect, got: &[Obs], ctx: &mut Ctx) {
    ctx.execs += 1;
    ctx.transitions += e.states.len() as u64;
    for s in &e.states {
        ctx.states.insert(*s);
    }
    ctx.outcome(&got);
}

pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(c_trip::checks());
    v.extend(c_hist::checks());
    v.extend(c_fault::checks());
    v.extend(c_hostile::checks());
    v.extend(c_encode::checks());
    v.extend(c_grammar::checks());
    v.extend(c_views::checks());
    v.extend(c_cursor::checks());
    v.extend(c_global::checks());
    v.extend(c_query::checks());
    v.sort_by_key(|c| c.id);
    v
}
