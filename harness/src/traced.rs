//! With the crate's `trace` feature, a subscriber that wants everything: each
//! span and event is formatted, values and errors included.
use std::fmt::{Debug, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use tracing::field::{Field, Visit};
use tracing::span::{Attributes, Id, Record};
use tracing::{Event, Metadata, Subscriber};

static NEXT: AtomicU64 = AtomicU64::new(1);
static TEXT: AtomicU64 = AtomicU64::new(0);

struct Sink;
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        TEXT.fetch_add(s.len() as u64, Ordering::Relaxed);
        Ok(())
    }
}
impl Visit for Sink {
    fn record_debug(&mut self, _: &Field, v: &dyn Debug) {
        let _ = write!(self, "{v:?}");
    }
}
struct All;
impl Subscriber for All {
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, a: &Attributes<'_>) -> Id {
        a.record(&mut Sink);
        Id::from_u64(NEXT.fetch_add(1, Ordering::Relaxed))
    }
    fn record(&self, _: &Id, r: &Record<'_>) {
        r.record(&mut Sink);
    }
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, e: &Event<'_>) {
        e.record(&mut Sink);
    }
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
}
pub fn install() {
    tracing::subscriber::set_global_default(All).unwrap();
}
