//! Reference model of accumulation.
use super::enc::*;
use super::model::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Clone)]
pub struct AccOut {
    /// How many reports of the list were accumulated.
    pub count: usize,
    pub theta: BTreeSet<(u32, H)>,
    /// Per service: gas used, digests accumulated.
    pub stats: BTreeMap<u32, (u64, u64)>,
}
pub trait Accumulator {
    fn run(&mut self, s: &mut St, reports: &[Report]) -> Result<AccOut, Rej>;
}
/// Services without code: accumulation consumes the reports and changes nothing else.
pub struct NoCode;
impl Accumulator for NoCode {
    fn run(&mut self, s: &mut St, reports: &[Report]) -> Result<AccOut, Rej> {
        let mut left = 20_000_000u64.max(20_000_000 + s.privs.always.values().sum::<u64>());
        let mut o = AccOut::default();
        // nothing is spent, so every round has the whole budget again
        let total = left;
        for r in reports {
            if r.gas() > left {
                if r.gas() > total {
                    break;
                }
                left = total;
            }
            left -= r.gas();
            o.count += 1;
            for d in &r.digests {
                o.stats.entry(d.service).or_default().1 += 1;
            }
        }
        Ok(o)
    }
}
