//! Dedicated rules per property.
use crate::report::World;
use crate::spec::Ob;

mod deletion;
mod exact;
mod guards;
mod layout;
mod schedule;
mod spmd;
mod tags;
mod units;

pub fn obligations(w: &mut World, id: &str) -> Result<Vec<Ob>, String> {
    match id {
        "C03" => guards::run(w),
        "C06" => layout::run(w),
        "C07" => tags::run(w),
        "C08" => spmd::run(w),
        "C24" => schedule::output(w),
        "C25" => deletion::run(w),
        "C26" => schedule::exchange(w),
        "C27" => schedule::stages(w),
        "C31" => units::run(w),
        "C32" => exact::run(w),
        _ => Ok(vec![]),
    }
}
