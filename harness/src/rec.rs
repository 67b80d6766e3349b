//! A metrics recorder that keeps every counter and gauge, with its labels.
use metrics::{Counter, CounterFn, Gauge, GaugeFn, Histogram, Key, KeyName, Metadata, Recorder, SharedString, Unit};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub type MKey = (String, Vec<(String, String)>);

#[derive(Default)]
pub struct CounterCell {
    pub total: AtomicU64,
    pub increments: AtomicU64,
}
impl CounterFn for CounterCell {
    fn increment(&self, value: u64) {
        self.total.fetch_add(value, Ordering::SeqCst);
        self.increments.fetch_add(1, Ordering::SeqCst);
    }
    fn absolute(&self, value: u64) {
        self.total.store(value, Ordering::SeqCst);
        self.increments.fetch_add(1, Ordering::SeqCst);
    }
}
/// Longest delay (microseconds) that is injected before a gauge is written.
pub static SET_DELAY: AtomicU64 = AtomicU64::new(0);
static TURN: AtomicU64 = AtomicU64::new(0);

#[derive(Default)]
pub struct GaugeCell {
    state: Mutex<(f64, u64)>,
}
impl GaugeCell {
    pub fn get(&self) -> f64 {
        self.state.lock().unwrap().0
    }
}
impl GaugeFn for GaugeCell {
    fn increment(&self, v: f64) {
        let mut s = self.state.lock().unwrap();
        *s = (s.0 + v, s.1 + 1);
    }
    fn decrement(&self, v: f64) {
        let mut s = self.state.lock().unwrap();
        *s = (s.0 - v, s.1 + 1);
    }
    fn set(&self, v: f64) {
        // an exporter may take its time: let other threads overtake here
        let d = SET_DELAY.load(Ordering::SeqCst);
        if d > 0 {
            let n = TURN.fetch_add(1, Ordering::SeqCst);
            match n.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 61 {
                0 | 1 => std::thread::sleep(std::time::Duration::from_micros(d)),
                2..=4 => std::thread::yield_now(),
                _ => {}
            }
        }
        let mut s = self.state.lock().unwrap();
        *s = (v, s.1 + 1);
    }
}

#[derive(Default, Clone)]
pub struct Rec {
    pub counters: Arc<Mutex<BTreeMap<MKey, Arc<CounterCell>>>>,
    pub gauges: Arc<Mutex<BTreeMap<MKey, Arc<GaugeCell>>>>,
}
pub fn mkey(name: &str, labels: &[(String, String)]) -> MKey {
    let mut l = labels.to_vec();
    l.sort();
    (name.to_string(), l)
}
impl Rec {
    /// (total, number of increments)
    pub fn counter(&self, k: &MKey) -> u64 {
        self.counters.lock().unwrap().get(k).map(|c| c.total.load(Ordering::SeqCst)).unwrap_or(0)
    }
    pub fn gauge(&self, name: &str) -> f64 {
        self.gauges.lock().unwrap().get(&mkey(name, &[])).map(|g| g.get()).unwrap_or(0.0)
    }
    /// All counters of this name (with a value)
    pub fn named(&self, name: &str) -> BTreeMap<MKey, u64> {
        self.counters
            .lock()
            .unwrap()
            .iter()
            .filter(|(k, _)| k.0 == name)
            .map(|(k, c)| (k.clone(), c.total.load(Ordering::SeqCst)))
            .filter(|(_, v)| *v > 0)
            .collect()
    }
}
fn of(key: &Key) -> MKey {
    let l: Vec<(String, String)> = key.labels().map(|l| (l.key().to_string(), l.value().to_string())).collect();
    mkey(key.name(), &l)
}
impl Recorder for Rec {
    fn describe_counter(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn describe_gauge(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn describe_histogram(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn register_counter(&self, key: &Key, _: &Metadata<'_>) -> Counter {
        let c = self.counters.lock().unwrap().entry(of(key)).or_default().clone();
        Counter::from_arc(c)
    }
    fn register_gauge(&self, key: &Key, _: &Metadata<'_>) -> Gauge {
        let c = self.gauges.lock().unwrap().entry(of(key)).or_default().clone();
        Gauge::from_arc(c)
    }
    fn register_histogram(&self, _: &Key, _: &Metadata<'_>) -> Histogram {
        Histogram::noop()
    }
}
