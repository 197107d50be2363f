//! C12: the in-memory journal storage against a model of it.
use coerce::persistent::journal::provider::inmemory::InMemoryStorageProvider;
use coerce::persistent::journal::provider::StorageProvider;
use proptest::prelude::*;
use vf::storage::{drive, ops, Case, Driver, KEYS};
use vf::*;

struct Model;
impl Part for Model {
    type Case = Case;
    fn name(&self) -> &'static str {
        "model"
    }
    fn rule(&self) -> &'static str {
        "1-50 operations (snapshot, message, batch, concurrent writes, latest snapshot, messages from, one message, inclusive range, delete up to, delete all, jump to sequences up to 2^52) on eight related keys, boundaries chosen on, next to and between the stored sequences; every read is compared with a model and the whole content at the end; non-trivial: at least three messages were read and two keys used."
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case> {
        let n = if t == Tier::Quick { 50 } else { 120 };
        ops(n, true, true).prop_map(|ops| Case { ops, variant: 0 }).boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 20_000 } else { 400_000 }
    }
    fn check(&self, c: &Case) -> CaseResult {
        block_on_paused(async {
            let provider = InMemoryStorageProvider::new();
            let d = Driver { key: Box::new(|k| KEYS[k].to_string()), keys: KEYS.len() };
            drive(c, &d, || {
                let s = provider.journal_storage().expect("storage");
                async move { s }
            })
            .await
        })
    }
}
pub fn run() {
    Runner::from_args("C12").part(Model).finish()
}
