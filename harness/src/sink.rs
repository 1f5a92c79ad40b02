//! Sinks that really render every diagnostic record, at the most verbose level.
use std::sync::atomic::{AtomicU64, Ordering};

pub static RECORDS: AtomicU64 = AtomicU64::new(0);
pub static BYTES: AtomicU64 = AtomicU64::new(0);

/// which patterns reported something
pub fn heads() -> usize {
    HEADS.lock().unwrap().len()
}
static HEADS: std::sync::Mutex<std::collections::BTreeSet<String>> = std::sync::Mutex::new(std::collections::BTreeSet::new());

#[allow(dead_code)]
fn record(s: &str) {
    let n = RECORDS.fetch_add(1, Ordering::Relaxed);
    BYTES.fetch_add(s.len() as u64, Ordering::Relaxed);
    if n % 64 < 2 || n < 10_000 {
        let head = s.split(|c: char| c == ' ' || c == '(').next().unwrap_or("").to_string();
        HEADS.lock().unwrap().insert(head);
    }
}

pub fn install() {
    #[cfg(feature = "log")]
    {
        struct Sink;
        impl log::Log for Sink {
            fn enabled(&self, _: &log::Metadata) -> bool {
                true
            }
            fn log(&self, r: &log::Record) {
                record(&r.args().to_string());
            }
            fn flush(&self) {}
        }
        log::set_logger(&Sink).expect("harness: logger");
        log::set_max_level(log::LevelFilter::Trace);
    }
    #[cfg(feature = "tracing")]
    {
        use tracing::{field::Visit, span, Event, Metadata, Subscriber};
        struct Sink;
        struct Text(String);
        impl Visit for Text {
            fn record_debug(&mut self, _: &tracing::field::Field, v: &dyn std::fmt::Debug) {
                use std::fmt::Write;
                let _ = write!(self.0, "{v:?} ");
            }
        }
        impl Subscriber for Sink {
            fn enabled(&self, _: &Metadata<'_>) -> bool {
                true
            }
            fn new_span(&self, _: &span::Attributes<'_>) -> span::Id {
                span::Id::from_u64(1)
            }
            fn record(&self, _: &span::Id, _: &span::Record<'_>) {}
            fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
            fn event(&self, e: &Event<'_>) {
                let mut t = Text(String::new());
                e.record(&mut t);
                record(&t.0);
            }
            fn enter(&self, _: &span::Id) {}
            fn exit(&self, _: &span::Id) {}
        }
        tracing::subscriber::set_global_default(Sink).expect("harness: subscriber");
    }
}
