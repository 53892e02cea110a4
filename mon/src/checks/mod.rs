use crate::run::Spec;
pub mod conn;
pub mod dash;
pub mod faults;
pub mod footprint;
pub mod group;
pub mod lifecycle;
pub mod names;
pub mod pubsub;
pub mod queue;
pub mod recover;
pub mod retain;
pub mod robust;
pub mod store;
pub mod stream;
pub mod waits;

pub fn spec(id: &str) -> Option<Spec> {
    Some(match id {
        "C01" => store::spec(),
        "C02" => pubsub::spec_routing(),
        "C03" => pubsub::spec_retained(),
        "C04" => pubsub::spec_durable(),
        "C05" => conn::spec(),
        "C06" => queue::spec_order(),
        "C07" => queue::spec_conserve(),
        "C08" => queue::spec_retry(),
        "C09" => queue::spec_crash(),
        "C10" => waits::spec(),
        "C11" => stream::spec_log(),
        "C12" => group::spec_delivery(),
        "C13" => group::spec_floor(),
        "C14" => recover::spec_crash(),
        "C15" => retain::spec(),
        "C16" => robust::spec(),
        "C17" => names::spec(),
        "C19" => dash::spec(),
        "C22" => faults::spec(),
        "C23" => footprint::spec(),
        "C18" => lifecycle::spec(),
        _ => return None,
    })
}
