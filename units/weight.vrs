// Proof of stake and of work: what a pool weighs, when a hash is low enough, and the next target.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::cmp::Ordering;
//@ source B consensus/src/pos/effective_pool_balance.rs
//@ source H consensus/src/pos/hash_check.rs
//@ source V common/src/chain/pos/mod.rs
verus! {
//@ include word.vrs
//@ include wides.vrs
//@ enum B EffectivePoolBalanceError
//@ const B K
//@ const B POOL_SATURATION_LEVEL ensures POOL_SATURATION_LEVEL.numer == 1, POOL_SATURATION_LEVEL.denom == 1000
//@ const B DEFAULT_PLEDGE_INFLUENCE_PARAMETER ensures DEFAULT_PLEDGE_INFLUENCE_PARAMETER.numer == 75375728, DEFAULT_PLEDGE_INFLUENCE_PARAMETER.denom == 1_000_000_000
/// what is taken off a pool's (capped) balance, times z^2 (a + 1) / a
pub open spec fn off(s: int, sigma: int, z: int) -> int { sigma * (z * z) - ((z * sigma) - ((z - sigma) * s)) * s }
pub open spec fn small(a: int, b: int) -> int { if b < a { b } else { a } }
pub open spec fn effective(s: int, sigma: int, z: int, an: int, ad: int) -> int { sigma - (off(s, sigma, z) * an) / (an + ad) / (z * z) }
/// no step of the calculation leaves its type
proof fn steps(s: int, sigma: int, z: int)
    requires 0 <= s <= sigma <= z
    ensures 0 <= (z - sigma) * s <= z * sigma, 0 <= ((z * sigma) - ((z - sigma) * s)) * s <= sigma * (z * z), 0 <= off(s, sigma, z) <= sigma * (z * z), z * sigma <= z * z
{
    assert(0 <= (z - sigma) * s) by (nonlinear_arith) requires 0 <= s, sigma <= z;
    assert((z - sigma) * s <= z * sigma) by (nonlinear_arith) requires 0 <= s <= sigma <= z;
    let t = (z * sigma) - ((z - sigma) * s);
    assert(0 <= t * s) by (nonlinear_arith) requires 0 <= t, 0 <= s;
    assert(t * s <= (z * sigma) * z) by (nonlinear_arith) requires 0 <= t <= z * sigma, 0 <= s <= z;
    assert((z * sigma) * z == sigma * (z * z)) by (nonlinear_arith);
    assert(z * sigma <= z * z) by (nonlinear_arith) requires 0 <= sigma <= z;
}
proof fn taken(o: int, an: int, ad: int, sigma: int, z: int)
    requires 0 <= o <= sigma * (z * z), an >= 0, ad >= 0, an + ad > 0, z > 0, sigma >= 0
    ensures 0 <= (o * an) / (an + ad) / (z * z) <= sigma, 0 <= (o * an) / (an + ad) <= o * an, z * z > 0
{
    let p = o * an; let q = p / (an + ad); let zz = z * z;
    assert(zz > 0) by (nonlinear_arith) requires z > 0, zz == z * z;
    assert(p >= 0) by (nonlinear_arith) requires p == o * an, o >= 0, an >= 0;
    assert(p <= o * (an + ad)) by (nonlinear_arith) requires p == o * an, o >= 0, ad >= 0;
    assert(0 <= q <= o) by (nonlinear_arith) requires q == p / (an + ad), 0 <= p <= o * (an + ad), an + ad > 0;
    assert(q <= p) by (nonlinear_arith) requires q == p / (an + ad), 0 <= p, an + ad > 0;
    assert(0 <= q / zz <= sigma) by (nonlinear_arith) requires 0 <= q <= sigma * zz, zz > 0;
}
/// The balance that counts: at most that of a saturated pool, less what the pledge is short of
pub open spec fn eff_ok(pledge: int, pool: int, supply: int, sat: Rational<u128>, inf: Rational<u128>) -> bool {
    0 < supply && pool < supply && pledge <= pool && ({ let z = (supply * sat.numer) / sat.denom as int; let (sigma, s) = (small(pool, z), small(pledge, z));
        supply * sat.numer <= u128::MAX && sat.denom > 0 && z > 0 && inf.numer + inf.denom <= u128::MAX && inf.numer + inf.denom > 0 && sigma * (z * z) < max256() && off(s, sigma, z) * inf.numer < max256() })
}
proof fn quotient(a: int, b: int) requires 0 <= a, 0 < b ensures 0 <= a / b <= a { assert(0 <= a / b <= a) by (nonlinear_arith) requires 0 <= a, 0 < b; }
proof fn eff_steps(pledge: int, pool: int, supply: int, sat: Rational<u128>, inf: Rational<u128>)
    requires 0 <= pledge <= pool, 0 < supply <= u128::MAX, pool <= u128::MAX, supply * sat.numer <= u128::MAX, sat.denom > 0
    ensures ({ let z = (supply * sat.numer) / sat.denom as int; let (sigma, s) = (small(pool, z), small(pledge, z));
        0 <= s <= sigma <= z <= u128::MAX && 0 <= z * z < max256() && 0 <= z * sigma < max256() && 0 <= (z - sigma) * s <= z * sigma && 0 <= ((z * sigma) - ((z - sigma) * s)) * s <= sigma * (z * z)
        && 0 <= off(s, sigma, z) <= sigma * (z * z) && 0 <= off(s, sigma, z) * inf.numer && (z > 0 <==> z * z > 0)
        && (z > 0 && inf.numer + inf.denom > 0 ==> 0 <= (off(s, sigma, z) * inf.numer) / (inf.numer + inf.denom) <= off(s, sigma, z) * inf.numer && 0 <= (off(s, sigma, z) * inf.numer) / (inf.numer + inf.denom) / (z * z) <= sigma) })
{
    let p = supply * sat.numer;
    assert(p >= 0) by (nonlinear_arith) requires p == supply * sat.numer, supply > 0, sat.numer >= 0;
    quotient(p, sat.denom as int);
    let z = p / sat.denom as int;
    let (sigma, s) = (small(pool, z), small(pledge, z));
    steps(s, sigma, z);
    product(z, z);
    product(z, sigma);
    if z == 0 { assert(z * z == 0) by (nonlinear_arith) requires z == 0; }
    let o = off(s, sigma, z); let an = inf.numer as int;
    assert(o * an >= 0) by (nonlinear_arith) requires o >= 0, an >= 0;
    if z > 0 { assert(z * z > 0) by (nonlinear_arith) requires z > 0; if inf.numer + inf.denom > 0 { taken(o, an, inf.denom as int, sigma, z); } }
}
pub open spec fn eff(pledge: int, pool: int, supply: int, sat: Rational<u128>, inf: Rational<u128>) -> int { let z = (supply * sat.numer) / sat.denom as int; effective(small(pledge, z), small(pool, z), z, inf.numer as int, inf.denom as int) }
//@ fn B effective_pool_balance_impl
//@ . method try_into => vf_try_into
//@|    ensures match r {
//@|        Ok(x) => x.atoms == eff(pledge_amount.atoms as int, pool_balance.atoms as int, final_supply.atoms as int, pool_saturation_level, pledge_influence) && x.atoms <= pool_balance.atoms && x.atoms <= (final_supply.atoms * pool_saturation_level.numer) / pool_saturation_level.denom as int && eff_ok(pledge_amount.atoms as int, pool_balance.atoms as int, final_supply.atoms as int, pool_saturation_level, pledge_influence),
//@|        Err(_) => !eff_ok(pledge_amount.atoms as int, pool_balance.atoms as int, final_supply.atoms as int, pool_saturation_level, pledge_influence) }
//@ . proof start
//@|    broadcast use of256_num, of256_range;
//@|    proof { let (p, b, f) = (pledge_amount.atoms as int, pool_balance.atoms as int, final_supply.atoms as int); if p <= b && f > 0 && f * pool_saturation_level.numer <= u128::MAX && pool_saturation_level.denom > 0 { eff_steps(p, b, f, pool_saturation_level, pledge_influence); } }
pub open spec fn level() -> Rational<u128> { Rational { numer: 1, denom: 1000 } }
pub open spec fn influence() -> Rational<u128> { Rational { numer: 75375728, denom: 1_000_000_000 } }
//@ fn B effective_pool_balance
//@|    ensures match r {
//@|        Ok(x) => x.atoms == eff(pledge_amount.atoms as int, pool_balance.atoms as int, final_supply.atoms as int, level(), influence()) && x.atoms <= pool_balance.atoms && x.atoms <= final_supply.atoms as int / 1000 && eff_ok(pledge_amount.atoms as int, pool_balance.atoms as int, final_supply.atoms as int, level(), influence()),
//@|        Err(_) => !eff_ok(pledge_amount.atoms as int, pool_balance.atoms as int, final_supply.atoms as int, level(), influence()) }
//@ struct V PoSConsensusVersion derive Copy,Clone,PartialEq,Eq,Structural
// the error variants in use (their Display and the other variants are left out)
pub enum ConsensusPoSError { StakeKernelHashTooHigh, UnsupportedConsensusVersion, EffectivePoolBalanceError(EffectivePoolBalanceError) }
impl vstd::std_specs::convert::FromSpecImpl<EffectivePoolBalanceError> for ConsensusPoSError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: EffectivePoolBalanceError) -> ConsensusPoSError { ConsensusPoSError::EffectivePoolBalanceError(e) } }
impl From<EffectivePoolBalanceError> for ConsensusPoSError { fn from(e: EffectivePoolBalanceError) -> (r: ConsensusPoSError) { ConsensusPoSError::EffectivePoolBalanceError(e) } }
//@ impl V impl PoSConsensusVersion
//@ implconst V0 ensures PoSConsensusVersion::V0.0 == 0
//@ implconst V1 ensures PoSConsensusVersion::V1.0 == 1
//@ endimpl
/// the stake of `w` coins reaches the hash
pub open spec fn reaches(hash: Uint256, target: Uint256, w: int) -> bool { hash.num() <= w * target.num() }
//@ fn H check_pos_hash_v0
//@|    ensures r is Ok <==> reaches(*hash, *target, pool_balance.atoms as int)
//@ . proof start
//@|    broadcast use of512_num, of512_range, of256_range;
//@|    proof { bounds(); product512(pool_balance.atoms as int, target.num()); }
//@ fn H check_pos_hash_v1
//@|    ensures r is Ok <==> eff_ok(pledge_amount.atoms as int, pool_balance.atoms as int, final_supply.atoms as int, level(), influence()) && reaches(*hash, *target, eff(pledge_amount.atoms as int, pool_balance.atoms as int, final_supply.atoms as int, level(), influence()))
//@ . proof start
//@|    broadcast use of512_num, of512_range, of256_range;
//@|    proof { bounds(); assert forall|w: int| 0 <= w <= u128::MAX implies 0 <= #[trigger] (w * target.num()) < max512() by { product512(w, target.num()); } }
//@ fn H check_pos_hash
//@|    ensures r is Ok <==> match consensus_version.0 {
//@|        0 => reaches(*hash, *target, pool_balance.atoms as int),
//@|        1 => eff_ok(pledge_amount.atoms as int, pool_balance.atoms as int, final_supply.atoms as int, level(), influence()) && reaches(*hash, *target, eff(pledge_amount.atoms as int, pool_balance.atoms as int, final_supply.atoms as int, level(), influence())),
//@|        _ => false }
}
fn main() {}
