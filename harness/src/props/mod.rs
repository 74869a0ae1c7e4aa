pub mod a01;
pub mod convert;
pub mod duality;
pub mod factory;
pub mod incentives;
pub mod maker;
pub mod j01;
pub mod oncurve;
pub mod ops;
pub mod oracle;
pub mod ownership;
pub mod periphery;
pub mod pools;
pub mod prices;
pub mod ramp;
pub mod repeg;
pub mod m01;
pub mod roles;
pub mod settings;
pub mod router;
pub mod sims;
pub mod staking;
pub mod tax;
pub mod tokens;
pub mod unlisted;
pub mod trans;
pub mod vesting;
use crate::engine::Prop;
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(a01::props());
    v.extend(ops::props());
    v.extend(sims::props());
    v.extend(prices::props());
    v.extend(ramp::props());
    v.extend(tax::props());
    v.extend(trans::props());
    v.extend(repeg::props());
    v.extend(oncurve::props());
    v.extend(factory::props());
    v.extend(ownership::props());
    v.extend(vesting::props());
    v.extend(staking::props());
    v.extend(tokens::props());
    v.extend(periphery::props());
    v.extend(oracle::props());
    v.extend(convert::props());
    v.extend(router::props());
    v.extend(roles::props());
    v.extend(m01::props());
    v.extend(incentives::props());
    v.extend(maker::props());
    v.extend(j01::props());
    v.extend(settings::props());
    v.extend(duality::props());
    v.extend(unlisted::props());
    v
}
