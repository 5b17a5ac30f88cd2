//! Stand-in: a subscriber that records nothing (the repository's test helpers need one to exist).
use tracing::span::{Attributes, Id, Record};
use tracing::{Event, Metadata, Subscriber};
#[derive(Default, Debug, Clone, Copy)]
pub struct Registry;
impl Subscriber for Registry {
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        false
    }
    fn new_span(&self, _: &Attributes<'_>) -> Id {
        Id::from_u64(1)
    }
    fn record(&self, _: &Id, _: &Record<'_>) {}
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, _: &Event<'_>) {}
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
}
pub mod layer {
    pub trait SubscriberExt: Sized {
        fn with<L>(self, _: L) -> Self {
            self
        }
    }
    impl SubscriberExt for super::Registry {}
}
