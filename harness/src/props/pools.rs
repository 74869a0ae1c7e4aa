//! The pool configurations and alphabets shared by the pool properties.
use crate::pm::*;
use crate::pool::*;

#[derive(Clone)]
pub struct Sc {
    pub name: String,
    pub cfg: Cfg,
    pub swaps: Vec<Vec<u128>>,
    pub provides: Vec<[u128; 2]>,
    pub withdraws: Vec<(u32, u32)>,
    pub donate: Vec<(usize, u128)>,
    /// exact integer arithmetic expected (no 18-decimal ratio can matter)
    pub small: bool,
}
impl Sc {
    /// everything, for these users
    pub fn full(&self, us: &[u8]) -> Vec<Op> {
        let mut v = vec![];
        for u in us {
            for (i, a) in self.swaps.iter().enumerate() {
                for x in a {
                    v.push(Op::Swap { u: *u, i, j: 1 - i, v: *x, to: false });
                }
            }
        }
        v.extend(provides(us, &self.provides));
        v.extend(withdraws(us, &self.withdraws));
        v
    }
    pub fn donations(&self) -> Vec<Op> {
        self.donate.iter().map(|(i, v)| Op::Donate { i: *i, v: *v }).collect()
    }
}
/// amounts scaled: `s` = one whole token of each asset
fn sc(name: &str, cfg: Cfg, unit: [u128; 2], small: bool) -> Sc {
    // seed and operations in thousandths of a token of each asset
    let k = |i: usize, x: u128| x * unit[i] / 1000;
    let pcl = cfg.kind == Kind::Pcl;
    let mut cfg = cfg;
    // concentrated pools start balanced at price_scale 2
    if cfg.seed.is_empty() {
        cfg.seed = if pcl { vec![k(0, 2_000_000), k(1, 1_000_000)] } else { vec![k(0, 1_000_000), k(1, 1_000_000)] };
    }
    Sc {
        name: name.into(),
        swaps: vec![vec![1, k(0, 777), k(0, 123_456)], vec![k(1, 1_001), k(1, 61_234)]],
        provides: vec![[k(0, 20_000), k(1, 10_000)], [k(0, 300_003), k(1, 7)], [k(0, 11), k(1, 250_000)]],
        withdraws: vec![(1, 1), (1, 3)],
        donate: vec![(0, k(0, 50_001)), (1, k(1, 3_333))],
        cfg,
        small,
    }
}
const E6: u128 = 1_000_000;
const E18: u128 = 1_000_000_000_000_000_000;
pub fn tiny(kind: Kind) -> Sc {
    let mut cfg = Cfg::new(kind);
    cfg.seed = vec![1_200, 2_400];
    cfg.fee = 30;
    Sc {
        name: format!("{kind:?}-tiny"),
        swaps: vec![vec![1, 2, 7, 150], vec![1, 3, 390]],
        provides: vec![[1, 2], [101, 203], [500, 30], [1, 1]],
        withdraws: vec![(1, 1), (1, 2)],
        donate: vec![(0, 1), (1, 555)],
        cfg,
        small: true,
    }
}
pub fn xyk(thorough: bool) -> Vec<Sc> {
    let mut v = vec![tiny(Kind::Xyk)];
    let mut c = Cfg::new(Kind::Xyk);
    c.cw20 = vec![false, true];
    c.dec = vec![6, 18];
    c.share = 1000;
    c.track = true;
    v.push(sc("Xyk-6-18-cw20-share", c, [E6, E18], false));
    let mut c = Cfg::new(Kind::Xyk);
    c.fee = 0;
    c.fee_addr = false;
    c.seed = vec![5_000, 1_000_003];
    let mut s = tiny(Kind::Xyk);
    s.name = "Xyk-nofee".into();
    s.cfg = c;
    v.push(s);
    let mut s = tiny(Kind::Tax);
    s.cfg.tax = vec![Some("0.05".into()), None];
    v.push(s);
    if thorough {
        let mut c = Cfg::new(Kind::Tax);
        c.tax = vec![Some("0.5".into()), Some("0.013".into())];
        c.fee = 100;
        c.maker = 10000;
        v.push(sc("Tax-both", c, [E6, E6], true));
        let mut c = Cfg::new(Kind::Xyk);
        c.cw20 = vec![true, true];
        c.fee = 1000;
        c.maker = 5000;
        c.share = 37;
        v.push(sc("Xyk-cw20s", c, [E6, E6], true));
    }
    v
}
pub fn stable(thorough: bool) -> Vec<Sc> {
    let mut v = vec![];
    let mut c = Cfg::new(Kind::Stable);
    c.fee = 4;
    v.push(sc("Stable-6-6", c, [E6, E6], true));
    let mut c = Cfg::new(Kind::Stable);
    c.cw20 = vec![true, false];
    c.dec = vec![18, 6];
    c.amp = 1;
    c.share = 500;
    v.push(sc("Stable-18-6-amp1-share", c, [E18, E6], false));
    if thorough {
        let mut c = Cfg::new(Kind::Stable);
        c.amp = 1_000_000;
        c.fee = 0;
        c.fee_addr = false;
        v.push(sc("Stable-nofee-maxamp", c, [E6, E6], true));
        let mut c = Cfg::new(Kind::Stable);
        c.amp = 10;
        c.fee = 500;
        c.maker = 10000;
        c.dec = vec![8, 6];
        c.seed = vec![100_000_000 * 1000, 30_000 * E6];
        v.push(sc("Stable-8-6-imbalanced", c, [E6 * 100, E6], true));
    }
    v
}
pub fn pcl(thorough: bool) -> Vec<Sc> {
    let mut v = vec![];
    let mut c = Cfg::new(Kind::Pcl);
    c.track = true;
    v.push(sc("Pcl-6-6", c, [E6, E6], true));
    let mut c = Cfg::new(Kind::Pcl);
    c.cw20 = vec![false, true];
    c.dec = vec![6, 18];
    c.share = 1000;
    c.fee_addr = false;
    c.pcl.amp = "10".into();
    c.pcl.gamma = "0.01".into();
    v.push(sc("Pcl-6-18-cw20-share", c, [E6, E18], false));
    if thorough {
        let mut c = Cfg::new(Kind::Pcl);
        c.cw20 = vec![true, true];
        c.maker = 10000;
        c.pcl.amp = "1000".into();
        c.pcl.gamma = "0.0001".into();
        c.pcl.mid_fee = "0.0001".into();
        c.pcl.out_fee = "0.01".into();
        c.dec = vec![8, 6];
        v.push(sc("Pcl-8-6-steep", c, [E6 * 100, E6], true));
        let mut c = Cfg::new(Kind::Pcl);
        c.share = 50;
        c.pcl.half = 60;
        c.pcl.mid_fee = "0.005".into();
        c.pcl.out_fee = "0.0050001".into();
        v.push(sc("Pcl-flatfee", c, [E6, E6], true));
    }
    v
}
pub fn all(thorough: bool) -> Vec<Sc> {
    let mut v = xyk(thorough);
    v.extend(stable(thorough));
    v.extend(pcl(thorough));
    v
}
/// pools whose curve parameters are being changed
pub fn ramping() -> Vec<Sc> {
    [Kind::Stable, Kind::Pcl]
        .into_iter()
        .map(|k| {
            let mut c = Cfg::new(k);
            c.ramp = true;
            sc(&format!("{k:?}-ramping"), c, [E6, E6], true)
        })
        .collect()
}
/// the same pools before the first deposit
pub fn fresh(s: &Sc) -> Sc {
    let mut s = s.clone();
    let seed = std::mem::take(&mut s.cfg.seed);
    s.name = format!("{}-fresh", s.name);
    let a = [seed[0], seed[1]];
    s.provides.push(a);
    s.provides.push([a[0] / 3, a[1] / 3]);
    s
}
