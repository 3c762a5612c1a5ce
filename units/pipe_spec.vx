// ---------------------------------------------------------------------------------------------
// pipelines: PipelineFn as a relation between token and result, and running a queue of them
// ---------------------------------------------------------------------------------------------
pub mod pipespec {
use super::*;
pub open spec fn sview(o: Option<String>) -> Option<Seq<char>> {
    match o { Some(s) => Some(s@), None => None }
}
pub open spec fn views(ts: Seq<String>) -> Seq<Seq<char>> { ts.map_values(|s: String| s@) }
/// the functions of `q`, in order, can turn token `t` into `o` (None: dropped)
pub open spec fn chain(q: Seq<Box<dyn PipelineFn>>, t: Seq<char>, o: Option<Seq<char>>) -> bool
    decreases q.len()
{
    if q.len() == 0 { o == Some(t) }
    else { exists|m: Option<Seq<char>>| chain(q.drop_last(), t, m) && #[trigger] step(q.last(), m, o) }
}
pub open spec fn step(f: Box<dyn PipelineFn>, m: Option<Seq<char>>, o: Option<Seq<char>>) -> bool { match m { None => o is None, Some(x) => f.fpost(x, o) } }
/// `outs[i]` is what the queue made of `ts[i]`
pub open spec fn chains(q: Seq<Box<dyn PipelineFn>>, ts: Seq<Seq<char>>, outs: Seq<Option<Seq<char>>>) -> bool {
    outs.len() == ts.len() && forall|i: int| 0 <= i < ts.len() ==> chain(q, #[trigger] ts[i], outs[i])
}
/// the values that are there, in order
pub open spec fn somes(outs: Seq<Option<Seq<char>>>) -> Seq<Seq<char>>
    decreases outs.len()
{
    if outs.len() == 0 { Seq::empty() }
    else { match outs.last() { None => somes(outs.drop_last()), Some(x) => somes(outs.drop_last()).push(x) } }
}
/// running the queue over the tokens `ts` can yield `r`: every token through the functions in order, the survivors in order
pub open spec fn pipe_yields(q: Seq<Box<dyn PipelineFn>>, ts: Seq<Seq<char>>, r: Seq<Seq<char>>) -> bool {
    exists|outs: Seq<Option<Seq<char>>>| #[trigger] chains(q, ts, outs) && r == somes(outs)
}
pub proof fn lemma_chain_none(q: Seq<Box<dyn PipelineFn>>, k: int, t: Seq<char>)
    requires 0 <= k <= q.len(), chain(q.take(k), t, None),
    ensures chain(q, t, None),
    decreases q.len() - k,
{
    if k < q.len() {
        lemma_chain_push(q, k, t, None, None);
        lemma_chain_none(q, k + 1, t);
    } else { assert(q.take(k) =~= q); }
}
/// one more function
pub proof fn lemma_chain_push(q: Seq<Box<dyn PipelineFn>>, k: int, t: Seq<char>, m: Option<Seq<char>>, o: Option<Seq<char>>)
    requires 0 <= k < q.len(), chain(q.take(k), t, m), step(q[k], m, o),
    ensures chain(q.take(k + 1), t, o),
{
    assert(q.take(k + 1).drop_last() =~= q.take(k));
    assert(q.take(k + 1).last() == q[k]);
    assert(chain(q.take(k + 1).drop_last(), t, m) && step(q.take(k + 1).last(), m, o));
}
/// one more token
pub proof fn lemma_chains_push(q: Seq<Box<dyn PipelineFn>>, ts: Seq<Seq<char>>, outs: Seq<Option<Seq<char>>>, t: Seq<char>, o: Option<Seq<char>>)
    requires chains(q, ts, outs), chain(q, t, o),
    ensures chains(q, ts.push(t), outs.push(o)), somes(outs.push(o)) == (match o { None => somes(outs), Some(x) => somes(outs).push(x) }),
{
    assert(outs.push(o).drop_last() =~= outs);
    let (us, os) = (ts.push(t), outs.push(o));
    assert forall|i: int| 0 <= i < us.len() implies chain(q, #[trigger] us[i], os[i]) by { if i < ts.len() { assert(us[i] == ts[i]); } }
}
}
pub use pipespec::*;
