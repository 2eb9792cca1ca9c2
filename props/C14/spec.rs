use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs

// ---- what the code depends on ------------------------------------------------------------------------
/// a time span; the deny list keeps times in milliseconds
#[derive(Clone, Copy)] pub struct Duration { pub ms: u128 }
impl Duration { pub fn as_millis(&self) -> (r: u128) ensures r == self.ms { self.ms } }
pub uninterp spec fn now_ms() -> u128;
/// std::time::SystemTime::now, since 1970 (zero for a clock before 1970)
#[derive(Clone, Copy)] pub struct SystemTime {}
impl SystemTime {
    #[verifier::external_body] pub fn now() -> SystemTime { unimplemented!() }
    #[verifier::external_body] pub fn vp_since_epoch(&self) -> (r: Duration) ensures r.ms == now_ms(), r.ms < 0x1_0000_0000_0000_0000 { unimplemented!() }
}
pub fn vp_zero() -> (r: usize) ensures r == 0 { 0 }
pub fn vp_u64(x: u128) -> (r: Result<u64, ()>) ensures (match r { Ok(v) => v == x, Err(_) => x > u64::MAX }) { if x <= 0xffff_ffff_ffff_ffffu128 { Ok(x as u64) } else { Err(()) } }
pub trait VpSat { fn vp_saturating_sub(self, o: Self) -> Self; fn vp_saturating_add(self, o: Self) -> Self; fn vp_max(self, o: Self) -> Self; }
pub open spec fn sub0(a: int, b: int) -> int { if a >= b { a - b } else { 0 } }
impl VpSat for u64 { fn vp_saturating_sub(self, o: u64) -> (r: u64) ensures r == sub0(self as int, o as int) { if self >= o { self - o } else { 0 } } fn vp_saturating_add(self, o: u64) -> (r: u64) ensures r == (if self + o > u64::MAX { u64::MAX as int } else { self + o }) { if self <= u64::MAX - o { self + o } else { u64::MAX } } fn vp_max(self, o: u64) -> (r: u64) ensures r == (if self >= o { self } else { o }) { if self >= o { self } else { o } } }
impl VpSat for usize { fn vp_saturating_sub(self, o: usize) -> (r: usize) ensures r == sub0(self as int, o as int) { if self >= o { self - o } else { 0 } } fn vp_saturating_add(self, o: usize) -> (r: usize) ensures r == (if self + o > usize::MAX { usize::MAX as int } else { self + o }) { if self <= usize::MAX - o { self + o } else { usize::MAX } } fn vp_max(self, o: usize) -> (r: usize) ensures r == (if self >= o { self } else { o }) { if self >= o { self } else { o } } }

//@item crates/symbolicator-service/src/download/mod.rs FailureCount derive=Clone,Copy
/// VecDeque<FailureCount>
pub struct Queue { pub q: Vec<FailureCount>, pub hist: Ghost<Seq<u128>> }
impl Queue {
    #[verifier::external_body] pub fn back_mut(&mut self) -> (r: Option<&mut FailureCount>)
        ensures match r { Some(x) => old(self).q@.len() > 0 && *x == old(self).q@.last() && final(self).q@ == old(self).q@.drop_last().push(*final(x)), None => old(self).q@.len() == 0 && final(self).q@ == old(self).q@ }, final(self).hist == old(self).hist { unimplemented!() }
    #[verifier::external_body] pub fn push_back(&mut self, f: FailureCount) ensures final(self).q@ == old(self).q@.push(f), final(self).hist == old(self).hist { unimplemented!() }
    #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<FailureCount>) ensures final(self).q@ == (if old(self).q@.len() > 0 { old(self).q@.skip(1) } else { old(self).q@ }), final(self).hist == old(self).hist { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.q@.len() { unimplemented!() }
}

impl Queue { #[verifier::external_body] pub fn iter(&self) -> (r: Vec<FailureCount>) ensures r@ == self.q@ { unimplemented!() } }
/// the failures kept per host; an entry is dropped when it was not used for `tti`
#[verifier::external_body] pub struct FailMap { m: u8 }
impl FailMap {
    pub uninterp spec fn at(&self, host: Str) -> (Seq<FailureCount>, Seq<u128>);
    pub uninterp spec fn tti(&self) -> u128;
    #[verifier::external_body] pub fn vp_new(d: Duration) -> (r: FailMap) ensures r.tti() == d.ms, forall|x: Str| #[trigger] r.at(x) == (Seq::<FailureCount>::empty(), Seq::<u128>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn vp_lock(&self, host: &String) -> (r: Queue) ensures (r.q@, r.hist@) == self.at(host@) || (r.q@.len() == 0 && r.hist@.len() == 0) { unimplemented!() }
    /// what the queue behind the lock holds now, one more failure having been recorded
    #[verifier::external_body] pub fn vp_keep(&mut self, host: &String, q: &Queue) ensures final(self).tti() == old(self).tti(), final(self).at(host@) == (q.q@, q.hist@.push(now_ms())), forall|x: Str| x != host@ ==> #[trigger] final(self).at(x) == old(self).at(x) { unimplemented!() }
}
#[verifier::external_body] pub struct BlockMap { m: u8 }
impl BlockMap {
    pub uninterp spec fn has(&self, host: Str) -> bool;
    pub uninterp spec fn ttl(&self) -> u128;
    #[verifier::external_body] pub fn vp_new(d: Duration) -> (r: BlockMap) ensures r.ttl() == d.ms, forall|x: Str| !#[trigger] r.has(x) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, host: String, u: ()) ensures final(self).ttl() == old(self).ttl(), final(self).has(host@), forall|x: Str| x != host@ ==> #[trigger] final(self).has(x) == old(self).has(x) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, host: &str) -> (r: bool) ensures r == self.has(host@) { unimplemented!() }
}
//@item crates/symbolicator-service/src/caching/cache_error.rs CacheError derive=
pub struct JoinError {}
pub struct Elapsed {}
#[derive(Clone, Copy)] pub struct DownloadTimeouts { pub max_download: Duration }
#[verifier::external_body] pub struct PathBuf { p: u8 }
#[verifier::external_body] pub struct RemoteFile { f: u8 }
impl RemoteFile {
    pub uninterp spec fn host_of(&self) -> Str;
    /// the kind of source, as it is reported
    pub uninterp spec fn key_of(&self) -> Str;
    #[verifier::external_body] pub fn host(&self) -> (r: String) ensures r@ == self.host_of() { unimplemented!() }
    #[verifier::external_body] pub fn is_builtin(&self) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn source_metric_key(&self) -> (r: &str) ensures r@ == self.key_of() { unimplemented!() }
}
pub struct Config { pub deny_list_time_window: Duration, pub deny_list_bucket_size: Duration, pub deny_list_threshold: usize, pub deny_list_block_time: Duration, pub deny_list_never_block_hosts: Vec<String> }

// ---- the property ------------------------------------------------------------------------------------
//@item crates/symbolicator-service/src/download/mod.rs HostDenyList derive=
//@isub failures : moka :: sync :: Cache < String , CountedFailures > ==> failures : FailMap
//@isub blocked_hosts : moka :: sync :: Cache < String , ( ) > ==> blocked_hosts : BlockMap
pub open spec fn wf(d: HostDenyList) -> bool { d.bucket_size_millis >= 1 }
pub open spec fn rnd(t: int, b: int) -> int { t - t % b }
/// the recorded failures whose bucket does not start before c
pub open spec fn cge(h: Seq<u128>, c: int, b: int) -> nat
    decreases h.len()
{ if h.len() == 0 { 0 } else { cge(h.drop_last(), c, b) + (if rnd(h.last() as int, b) >= c { 1nat } else { 0 }) } }
pub open spec fn tot(q: Seq<FailureCount>) -> nat
    decreases q.len()
{ if q.len() == 0 { 0 } else { q[0].failures as nat + tot(q.skip(1)) } }
pub open spec fn since(q: Seq<FailureCount>, c: int) -> nat
    decreases q.len()
{ if q.len() == 0 { 0 } else if q[0].timestamp < c { since(q.skip(1), c) } else { tot(q) } }
pub open spec fn in_q(q: Seq<FailureCount>, t: int) -> bool { exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).timestamp == t }
#[verifier::opaque]
/// the queue of a host holds the failures recorded so far, but for those that left the window
pub open spec fn qinv(q: Seq<FailureCount>, h: Seq<u128>, b: int, w: int) -> bool {
    &&& q.len() <= w / b + 1 && (h.len() > 0 <==> q.len() > 0) && (q.len() > 0 ==> q.last().failures >= 1)
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).timestamp < (#[trigger] q[j]).timestamp
    &&& forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).timestamp as int % b == 0 && tot(q.skip(i)) == cge(h, q[i].timestamp as int, b)
    &&& forall|k: int| 0 <= k < h.len() ==> ({ let t = rnd(#[trigger] h[k] as int, b); t <= q.last().timestamp && (in_q(q, t) || t + w < q.last().timestamp) })
}
pub proof fn lemma_cge(h: Seq<u128>, t: u128, c: int, b: int) ensures cge(h.push(t), c, b) == cge(h, c, b) + (if rnd(t as int, b) >= c { 1nat } else { 0nat }), cge(h, c, b) <= h.len()
    decreases h.len()
{ assert(h.push(t).drop_last() =~= h); if h.len() > 0 { lemma_cge(h.drop_last(), t, c, b); } }
/// no failure lies between two bounds
pub proof fn lemma_cge_eq(h: Seq<u128>, c: int, e: int, b: int)
    requires forall|k: int| 0 <= k < h.len() ==> (rnd(#[trigger] h[k] as int, b) >= c <==> rnd(h[k] as int, b) >= e)
    ensures cge(h, c, b) == cge(h, e, b)
    decreases h.len()
{ if h.len() > 0 { assert(rnd(h[h.len() - 1] as int, b) >= c <==> rnd(h[h.len() - 1] as int, b) >= e); assert forall|k: int| 0 <= k < h.drop_last().len() implies (rnd(#[trigger] h.drop_last()[k] as int, b) >= c <==> rnd(h.drop_last()[k] as int, b) >= e) by { assert(h.drop_last()[k] == h[k]); } lemma_cge_eq(h.drop_last(), c, e, b); } }
pub proof fn lemma_cge_none(h: Seq<u128>, c: int, b: int)
    requires forall|k: int| 0 <= k < h.len() ==> rnd(#[trigger] h[k] as int, b) < c
    ensures cge(h, c, b) == 0
    decreases h.len()
{ if h.len() > 0 { assert(rnd(h[h.len() - 1] as int, b) < c); assert forall|k: int| 0 <= k < h.drop_last().len() implies rnd(#[trigger] h.drop_last()[k] as int, b) < c by { assert(h.drop_last()[k] == h[k]); } lemma_cge_none(h.drop_last(), c, b); } }
pub proof fn lemma_tot_push(q: Seq<FailureCount>, f: FailureCount) ensures tot(q.push(f)) == tot(q) + f.failures
    decreases q.len()
{ if q.len() > 0 { assert(q.push(f).skip(1) =~= q.skip(1).push(f)); assert(q.push(f)[0] == q[0]); lemma_tot_push(q.skip(1), f); } else { reveal_with_fuel(tot, 2); assert(q.push(f)[0] == f); assert(q.push(f).skip(1) =~= Seq::<FailureCount>::empty()); } }
pub proof fn lemma_lastf(q: Seq<FailureCount>, h: Seq<u128>, b: int, w: int)
    requires qinv(q, h, b, w), q.len() > 0
    ensures q.last().failures <= h.len(), cge(h, q.last().timestamp as int, b) == q.last().failures
{ reveal(qinv); let n = q.len() - 1; assert(q.skip(n) =~= seq![q[n]]); assert(q[n].timestamp as int % b == 0); assert(tot(q.skip(n)) == q[n].failures) by { reveal_with_fuel(tot, 2); assert(seq![q[n]].skip(1) =~= Seq::<FailureCount>::empty()); } if h.len() > 0 { lemma_cge(h, 0, q[n].timestamp as int, b); } }
/// q with a failure at (rounded) time t
pub open spec fn bump(q: Seq<FailureCount>, t: u64) -> Seq<FailureCount> { if q.len() > 0 && q.last().timestamp == t { q.drop_last().push(FailureCount { timestamp: t, failures: (q.last().failures + 1) as usize }) } else { q.push(FailureCount { timestamp: t, failures: 1 }) } }
pub proof fn lemma_rnd(t: int, b: int) requires 0 <= t, b >= 1 ensures rnd(t, b) % b == 0, 0 <= rnd(t, b) <= t
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, b); assert(rnd(t, b) == b * (t / b)); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(t / b, b); assert(b * (t / b) == (t / b) * b) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_mod_bound(t, b); assert(t / b >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(t, b); } assert(b * (t / b) >= 0) by (nonlinear_arith) requires b >= 1, t / b >= 0; }
pub proof fn lemma_rnd_mono(s: int, t: int, b: int) requires 0 <= s <= t, b >= 1 ensures rnd(s, b) <= rnd(t, b)
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, b); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s, b); vstd::arithmetic::div_mod::lemma_div_is_ordered(s, t, b); assert(b * (s / b) <= b * (t / b)) by (nonlinear_arith) requires s / b <= t / b, b >= 1; }
/// two different multiples of b are at least b apart
pub proof fn lemma_apart(x: int, y: int, b: int) requires x % b == 0, y % b == 0, x < y, b >= 1 ensures x + b <= y
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, b); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(y, b); assert(x / b < y / b) by (nonlinear_arith) requires x == b * (x / b), y == b * (y / b), x < y, b >= 1; assert(b * (x / b) + b <= b * (y / b)) by (nonlinear_arith) requires x / b < y / b, b >= 1; }
pub proof fn lemma_spread(q: Seq<FailureCount>, i: int, j: int, b: int)
    requires b >= 1, 0 <= i <= j < q.len(), forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).timestamp < (#[trigger] q[j]).timestamp, forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).timestamp as int % b == 0
    ensures q[i].timestamp + (j - i) * b <= q[j].timestamp
    decreases j - i
{ if i == j { assert((j - i) * b == 0) by (nonlinear_arith) requires i == j; } if i < j { lemma_spread(q, i, j - 1, b); lemma_apart(q[j - 1].timestamp as int, q[j].timestamp as int, b); assert((j - i) * b == (j - 1 - i) * b + b) by (nonlinear_arith); } }
pub open spec fn most(q: Seq<FailureCount>, w: int, b: int) -> Seq<FailureCount> { if q.len() > w / b + 1 { q.skip(1) } else { q } }
pub proof fn lemma_step_sums(q: Seq<FailureCount>, h: Seq<u128>, now: u128, t: u64, b: int, i: int)
    requires b >= 1, t == rnd(now as int, b), q.len() > 0 ==> q.last().timestamp <= t && q.last().failures < usize::MAX, 0 <= i < bump(q, t).len(),
        forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).timestamp < (#[trigger] q[j]).timestamp,
        i < q.len() ==> q[i].timestamp as int % b == 0 && tot(q.skip(i)) == cge(h, q[i].timestamp as int, b),
        forall|k: int| 0 <= k < h.len() ==> q.len() > 0 && rnd(#[trigger] h[k] as int, b) <= q.last().timestamp
    ensures bump(q, t)[i].timestamp as int % b == 0, tot(bump(q, t).skip(i)) == cge(h.push(now), bump(q, t)[i].timestamp as int, b)
{
    let p = bump(q, t); let n = q.len() as int; let same = n > 0 && q.last().timestamp == t;
    lemma_rnd(now as int, b);
    lemma_cge(h, now, p[i].timestamp as int, b);
    if same {
        assert(p[i].timestamp == q[i].timestamp);
        assert(p.skip(i) =~= q.skip(i).drop_last().push(p.last())); assert(q.skip(i) =~= q.skip(i).drop_last().push(q.last()));
        lemma_tot_push(q.skip(i).drop_last(), p.last()); lemma_tot_push(q.skip(i).drop_last(), q.last());
        assert(q[i].timestamp <= q[n - 1].timestamp);
    } else if i < n {
        assert(p[i] == q[i]);
        assert(p.skip(i) =~= q.skip(i).push(p.last())); lemma_tot_push(q.skip(i), p.last());
        assert(q[i].timestamp <= q[n - 1].timestamp);
    } else {
        assert(p.skip(i) =~= seq![p.last()]); assert(tot(seq![p.last()]) == 1) by { reveal_with_fuel(tot, 2); assert(seq![p.last()].skip(1) =~= Seq::<FailureCount>::empty()); }
        assert forall|k: int| 0 <= k < h.len() implies rnd(#[trigger] h[k] as int, b) < t by {}
        lemma_cge_none(h, t as int, b);
    }
}
/// time goes on
pub proof fn lemma_step_time(q: Seq<FailureCount>, h: Seq<u128>, now: u128, t: u64, b: int, w: int)
    requires qinv(q, h, b, w), b >= 1, t == rnd(now as int, b), forall|k: int| 0 <= k < h.len() ==> h[k] <= now, q.len() > 0
    ensures q.last().timestamp <= t
{
    lemma_lastf(q, h, b, w); reveal(qinv);
    let l = q.last().timestamp;
    if l > t { assert forall|k: int| 0 <= k < h.len() implies rnd(#[trigger] h[k] as int, b) < l by { lemma_rnd_mono(h[k] as int, now as int, b); } lemma_cge_none(h, l as int, b); }
}
/// the oldest bucket is dropped once it left the window
pub proof fn lemma_step_old(p: Seq<FailureCount>, b: int, w: int)
    requires b >= 1, w >= 0, p.len() > w / b + 1, forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]).timestamp < (#[trigger] p[j]).timestamp, forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).timestamp as int % b == 0
    ensures p[0].timestamp + w < p.last().timestamp
{
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(w, b);
    lemma_spread(p, 0, p.len() - 1, b);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(w, b); vstd::arithmetic::div_mod::lemma_mod_bound(w, b);
    let t = p.last().timestamp as int;
    assert(p[0].timestamp + w < t) by (nonlinear_arith) requires p[0].timestamp + (p.len() - 1) * b <= t, p.len() - 1 >= w / b + 1, w == b * (w / b) + w % b, w % b < b, b >= 1;
}
/// recording a failure keeps the invariant
#[verifier::rlimit(100)]
pub proof fn lemma_step(q: Seq<FailureCount>, h: Seq<u128>, now: u128, t: u64, b: int, w: int)
    requires qinv(q, h, b, w), b >= 1, w >= 0, t == rnd(now as int, b), forall|k: int| 0 <= k < h.len() ==> h[k] <= now, h.len() < usize::MAX
    ensures qinv(most(bump(q, t), w, b), h.push(now), b, w), most(bump(q, t), w, b).last().timestamp == t, most(bump(q, t), w, b).len() > 0
{
    let h2 = h.push(now); let p = bump(q, t); let n = q.len() as int;
    if n > 0 { lemma_lastf(q, h, b, w); lemma_step_time(q, h, now, t, b, w); }
    reveal(qinv);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(w, b);
    assert(forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).timestamp < (#[trigger] q[j]).timestamp);
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).timestamp as int % b == 0 && tot(p.skip(i)) == cge(h2, p[i].timestamp as int, b) by {
        if i < n { assert(q[i].timestamp as int % b == 0); }
        lemma_step_sums(q, h, now, t, b, i);
    }
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i]).timestamp < (#[trigger] p[j]).timestamp by { if j < n { assert(q[i].timestamp < q[j].timestamp); } else { assert(q[i].timestamp <= q[n - 1].timestamp); } }
    assert(p.last().timestamp == t);
    let m = most(p, w, b);
    if m.len() < p.len() {
        lemma_step_old(p, b, w);
        assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).timestamp as int % b == 0 && tot(m.skip(i)) == cge(h2, m[i].timestamp as int, b) by { assert(m.skip(i) =~= p.skip(i + 1)); assert(m[i] == p[i + 1]); }
    }
    lemma_step_cover(q, h, now, t, b, w);
}
pub proof fn lemma_step_cover(q: Seq<FailureCount>, h: Seq<u128>, now: u128, t: u64, b: int, w: int)
    requires b >= 1, w >= 0, t == rnd(now as int, b), q.len() > 0 ==> q.last().timestamp <= t, bump(q, t).len() > w / b + 1 ==> bump(q, t)[0].timestamp + w < t, bump(q, t).len() > w / b + 1 ==> bump(q, t).len() > 1,
        forall|k: int| 0 <= k < h.len() ==> ({ let x = rnd(#[trigger] h[k] as int, b); q.len() > 0 && x <= q.last().timestamp && (in_q(q, x) || x + w < q.last().timestamp) })
    ensures ({ let m = most(bump(q, t), w, b); forall|k: int| 0 <= k < h.push(now).len() ==> ({ let x = rnd(#[trigger] h.push(now)[k] as int, b); x <= m.last().timestamp && (in_q(m, x) || x + w < m.last().timestamp) }) })
{
    let h2 = h.push(now); let p = bump(q, t); let n = q.len() as int; let m = most(p, w, b);
    assert(p[p.len() - 1].timestamp == t);
    assert(m.last() == p.last());
    assert forall|i: int| 0 <= i < n implies in_q(p, (#[trigger] q[i]).timestamp as int) by { assert(p[i].timestamp == q[i].timestamp); }
    assert(in_q(p, t as int)) by { assert(p[p.len() - 1].timestamp == t); }
    assert forall|k: int| 0 <= k < h2.len() implies ({ let x = rnd(#[trigger] h2[k] as int, b); x <= m.last().timestamp && (in_q(m, x) || x + w < m.last().timestamp) }) by {
        let x = rnd(h2[k] as int, b);
        if k < h.len() { assert(h2[k] == h[k]); assert(x <= q.last().timestamp && (in_q(q, x) || x + w < q.last().timestamp)); }
        else { assert(x == t); }
        if in_q(q, x) || x == t { assert(in_q(p, x)); let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).timestamp == x; if m.len() < p.len() { if i > 0 { assert(m[i - 1].timestamp == x); } } else { assert(m[i].timestamp == x); } }
    }
}
/// what is summed up is what is in the window
#[verifier::rlimit(60)]
pub proof fn lemma_since(q: Seq<FailureCount>, h: Seq<u128>, b: int, w: int, i: int)
    requires qinv(q, h, b, w), q.len() > 0, w >= 0, b >= 1, 0 <= i < q.len(), forall|j: int| 0 <= j < i ==> (#[trigger] q[j]).timestamp < sub0(q.last().timestamp as int, w)
    ensures since(q.skip(i), sub0(q.last().timestamp as int, w)) == cge(h, sub0(q.last().timestamp as int, w), b)
    decreases q.len() - i
{
    reveal(qinv); let c = sub0(q.last().timestamp as int, w);
    assert(q.skip(i)[0] == q[i]);
    if q[i].timestamp < c { assert(i < q.len() - 1); assert(q.skip(i).skip(1) =~= q.skip(i + 1)); lemma_since(q, h, b, w, i + 1); }
    else { lemma_cut(q, h, b, w, i); assert(tot(q.skip(i)) == cge(h, q[i].timestamp as int, b)); }
}
pub proof fn lemma_cut(q: Seq<FailureCount>, h: Seq<u128>, b: int, w: int, i: int)
    requires qinv(q, h, b, w), q.len() > 0, w >= 0, b >= 1, 0 <= i < q.len(), forall|j: int| 0 <= j < i ==> (#[trigger] q[j]).timestamp < sub0(q.last().timestamp as int, w), q[i].timestamp >= sub0(q.last().timestamp as int, w)
    ensures cge(h, sub0(q.last().timestamp as int, w), b) == cge(h, q[i].timestamp as int, b)
{
    reveal(qinv); let c = sub0(q.last().timestamp as int, w); let e = q[i].timestamp as int;
    assert(forall|k: int| 0 <= k < h.len() ==> (in_q(q, rnd(#[trigger] h[k] as int, b)) || rnd(h[k] as int, b) + w < q.last().timestamp));
    assert(forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).timestamp < (#[trigger] q[j]).timestamp);
    assert forall|k: int| 0 <= k < h.len() implies (rnd(#[trigger] h[k] as int, b) >= c <==> rnd(h[k] as int, b) >= e) by {
        let x = rnd(h[k] as int, b);
        if in_q(q, x) { let j = choose|j: int| 0 <= j < q.len() && (#[trigger] q[j]).timestamp == x; if j < i { assert(q[j].timestamp < q[i].timestamp); } else if i < j { assert(q[i].timestamp < q[j].timestamp); } }
    }
    lemma_cge_eq(h, c, e, b);
}
/// the failures of a host: those recorded since its entry was made
pub open spec fn counted(d: HostDenyList, h: Seq<u128>) -> nat { cge(h, sub0(rnd(h.last() as int, d.bucket_size_millis as int), d.time_window_millis as int), d.bucket_size_millis as int) }
/// the queues stand for the failures recorded (of which there are fewer than 2^64), none of them in the future
pub open spec fn hinv(d: HostDenyList, host: Str) -> bool {
    &&& wf(d) && d.failures.at(host).1.len() < usize::MAX && forall|k: int| 0 <= k < d.failures.at(host).1.len() ==> d.failures.at(host).1[k] <= now_ms()
    &&& qinv(d.failures.at(host).0, d.failures.at(host).1, d.bucket_size_millis as int, d.time_window_millis as int)
}
pub open spec fn hinv_all(o: HostDenyList, d: HostDenyList, host: Str) -> bool { wf(d) && same_cfg(o, d) && qinv(d.failures.at(host).0, d.failures.at(host).1, d.bucket_size_millis as int, d.time_window_millis as int) && forall|x: Str| x != host ==> #[trigger] d.failures.at(x) == o.failures.at(x) }
pub open spec fn same_cfg(o: HostDenyList, d: HostDenyList) -> bool { d.time_window_millis == o.time_window_millis && d.bucket_size_millis == o.bucket_size_millis && d.failure_threshold == o.failure_threshold && d.never_block@ == o.never_block@ && d.failures.tti() == o.failures.tti() && d.blocked_hosts.ttl() == o.blocked_hosts.ttl() }
pub open spec fn listed(v: Seq<String>, host: Str) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == host }
/// one more failure of the host is recorded: it is blocked exactly when the failures in the window reach the threshold, other hosts are not affected
pub open spec fn registered(o: HostDenyList, d: HostDenyList, host: Str) -> bool {
    let h = d.failures.at(host).1;
    &&& h == o.failures.at(host).1.push(now_ms()) || h == seq![now_ms()]
    &&& d.blocked_hosts.has(host) == (o.blocked_hosts.has(host) || (counted(o, h) >= o.failure_threshold && !listed(o.never_block@, host)))
    &&& forall|x: Str| x != host ==> #[trigger] d.blocked_hosts.has(x) == o.blocked_hosts.has(x)
}
/// string equality is equality of the characters
#[verifier::external_body]
pub proof fn ax_str(a: String, b: String) requires a@ == b@ ensures a == b {}
impl HostDenyList {
//@fn crates/symbolicator-service/src/download/mod.rs HostDenyList::from_config res=unwrap_or
//@sub u64 :: try_from ( ==> vp_u64 (
//@sub? u64 :: try_from ( ==> vp_u64 (
//@sub moka :: sync :: Cache :: builder ( ) . time_to_idle ( config . deny_list_time_window ) . build ( ) ==> FailMap :: vp_new ( config . deny_list_time_window )
//@sub moka :: sync :: Cache :: builder ( ) . time_to_live ( config . deny_list_block_time ) . eviction_listener ( | host , _ , _ | tracing :: info ! ( % host , "Unblocking host" ) ) . build ( ) ==> BlockMap :: vp_new ( config . deny_list_block_time )
//@ret r
//@spec
    ensures wf(r), r.failures.tti() == config.deny_list_time_window.ms, r.blocked_hosts.ttl() == config.deny_list_block_time.ms, r.failure_threshold == config.deny_list_threshold, r.never_block@ == config.deny_list_never_block_hosts@,
        config.deny_list_time_window.ms <= u64::MAX ==> r.time_window_millis == config.deny_list_time_window.ms,
        1 <= config.deny_list_bucket_size.ms <= u64::MAX ==> r.bucket_size_millis == config.deny_list_bucket_size.ms,
        forall|x: Str| #[trigger] r.failures.at(x) == (Seq::<FailureCount>::empty(), Seq::<u128>::empty()), forall|x: Str| !#[trigger] r.blocked_hosts.has(x)
//@end
//@fn crates/symbolicator-service/src/download/mod.rs HostDenyList::round_duration
//@ret r
//@spec
    requires wf(*self), duration.ms < 0x1_0000_0000_0000_0000
    ensures r == rnd(duration.ms as int, self.bucket_size_millis as int)
//@start
proof { lemma_rnd(duration.ms as int, self.bucket_size_millis as int); vstd::arithmetic::div_mod::lemma_mod_bound(duration.ms as int, self.bucket_size_millis as int); }
//@end
//@fn crates/symbolicator-service/src/download/mod.rs HostDenyList::max_queue_len
//@ret r
//@spec
    requires wf(*self)
    ensures r as int == self.time_window_millis / self.bucket_size_millis + 1 || (r == usize::MAX && self.time_window_millis / self.bucket_size_millis == u64::MAX)
//@end
//@fn crates/symbolicator-service/src/download/mod.rs HostDenyList::is_blocked
//@ret r
//@spec
    ensures r == self.blocked_hosts.has(host@)
//@end
//@fn crates/symbolicator-service/src/download/mod.rs HostDenyList::register_failure while=0
//@sub? & self ==> & mut self
//@sub? . duration_since ( std :: time :: UNIX_EPOCH ) . unwrap_or_default ( ) ==> . vp_since_epoch ( )
//@sub? let entry = self . failures . entry_by_ref ( & host ) . or_default ( ) ; ==>
//@sub let mut queue = entry . value ( ) . lock ( ) . unwrap ( ) ; ==> let mut queue = self . failures . vp_lock ( & host ) ; let ghost q0 = queue ; proof { if q0 . q @ . len ( ) > 0 { lemma_lastf ( q0 . q @ , q0 . hist @ , self . bucket_size_millis as int , self . time_window_millis as int ) ; } }
//@sub let total_failures ==> self . failures . vp_keep ( & host , & queue ) ; let total_failures
//@ret r
//@spec
    requires hinv(*old(self), host@)
    ensures hinv_all(*old(self), *final(self), host@), registered(*old(self), *final(self), host@)
//@before self . failures . vp_keep
proof { if listed(self.never_block@, host@) { let i = choose|i: int| 0 <= i < self.never_block@.len() && (#[trigger] self.never_block@[i])@ == host@; ax_str(self.never_block@[i], host); assert(self.never_block@.contains(host)); }
    if q0.q@.len() == 0 { reveal(qinv); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(self.time_window_millis as int, self.bucket_size_millis as int); assert(qinv(q0.q@, q0.hist@, self.bucket_size_millis as int, self.time_window_millis as int)); }
    let b = self.bucket_size_millis as int; let w = self.time_window_millis as int;
    lemma_step(q0.q@, q0.hist@, now_ms(), current_ts, b, w);
    assert(queue.q@ =~= most(bump(q0.q@, current_ts), w, b));
    assert(queue.q@.skip(0) =~= queue.q@);
    lemma_since(queue.q@, q0.hist@.push(now_ms()), b, w, 0);
    lemma_cge(q0.hist@, now_ms(), sub0(current_ts as int, w), b);
    if q0.hist@.len() == 0 { assert(q0.hist@.push(now_ms()) =~= seq![now_ms()]); } }
//@loop 0
    invariant 0 <= vp_i0 <= vp_v0@.len(),
        since(vp_v0@, cutoff as int) <= usize::MAX,
        vp_skip ==> vp_acc == 0 && since(vp_v0@, cutoff as int) == since(vp_v0@.skip(vp_i0 as int), cutoff as int),
        !vp_skip ==> vp_acc + tot(vp_v0@.skip(vp_i0 as int)) == since(vp_v0@, cutoff as int)
    decreases vp_v0@.len() - vp_i0
//@body 0
proof {  let s = vp_v0@.skip(vp_i0 as int); assert(s[0] == vp_v0@[vp_i0 as int]); assert(s.skip(1) =~= vp_v0@.skip(vp_i0 + 1)); }
//@end
}
pub struct DownloadService { pub timeouts: DownloadTimeouts, pub host_deny_list: Option<HostDenyList>, pub asked: Ghost<nat> }
pub type CacheContents = Result<(), CacheError>;
impl DownloadService {
    /// dispatch_download run on the runtime of the service, ended when it takes longer than the timeout
    #[verifier::external_body] pub fn vp_run(&mut self, timeout: Duration, job: (&RemoteFile, &PathBuf)) -> (r: Result<Result<CacheContents, JoinError>, Elapsed>)
        ensures final(self).asked@ == old(self).asked@ + 1, final(self).host_deny_list == old(self).host_deny_list { unimplemented!() }
//@fn crates/symbolicator-service/src/download/mod.rs DownloadService::download async stub=dispatch_download,new
//@sub self : & Arc < Self > ==> & mut self
//@sub let slf = self . clone ( ) ; ==>
//@sub let job = async move { slf . dispatch_download ( & source , & destination ) . await } ; ==> let job = ( & source , & destination ) ;
//@sub let job = CancelOnDrop :: new ( self . runtime . spawn ( job . bind_hub ( :: sentry :: Hub :: current ( ) ) ) ) ; ==>
//@sub let job = tokio :: time :: timeout ( timeout , job ) ; ==> let job = self . vp_run ( timeout , job ) ;
//@sub let job = measure ( "service.download" , m :: timed_result , job ) ; ==>
//@sub? Some ( ref deny_list ) = self . host_deny_list ==> Some ( deny_list ) = & mut self . host_deny_list
//@drop :: sentry :: configure_scope
//@drop :: sentry :: capture_error
//@ret r
//@spec
    requires old(self).host_deny_list is Some ==> hinv(old(self).host_deny_list->0, source.host_of())
    ensures ({ let o = *old(self); let n = *final(self); let host = source.host_of(); let open = source.key_of() == "http"@ && o.host_deny_list is Some;
        // a blocked server is not asked and nothing is recorded
        &&& (open && o.host_deny_list->0.blocked_hosts.has(host)) ==> (n.asked@ == o.asked@ && n.host_deny_list == o.host_deny_list && r is Err && r->Err_0 is DownloadError)
        // any other server is
        &&& !(open && o.host_deny_list->0.blocked_hosts.has(host)) ==> ({
            &&& n.asked@ == o.asked@ + 1
            // exactly the failed downloads and timeouts are recorded
            &&& (open && r is Err && (r->Err_0 is DownloadError || r->Err_0 is Timeout)) ==> (n.host_deny_list is Some && hinv_all(o.host_deny_list->0, n.host_deny_list->0, host) && registered(o.host_deny_list->0, n.host_deny_list->0, host))
            &&& !(open && r is Err && (r->Err_0 is DownloadError || r->Err_0 is Timeout)) ==> n.host_deny_list == o.host_deny_list })
    })
//@end
}
} // verus!
fn main() {}
