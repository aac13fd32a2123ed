use crate::engine::Property;

mod clichecks;
mod keys;
mod metrics;
mod stats;
mod store;
mod trec;
mod usage;

pub fn all() -> Vec<Property> {
    let mut v = vec![];
    v.extend(store::properties());
    v.extend(metrics::properties());
    v.extend(trec::properties());
    v.extend(stats::properties());
    v.extend(clichecks::properties());
    v.extend(usage::properties());
    v.extend(keys::properties());
    v
}
