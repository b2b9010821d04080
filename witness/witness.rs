//! Compiled against the crate by checks/threads.py. One witness per `fn`; the line above each says what it shows.
#![allow(dead_code, deprecated, unused)]
use metrix::attached_mount::*;
use metrix::cockpit::*;
use metrix::driver::*;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
use std::time::{Duration, Instant};

fn send<T: Send>() {}
fn send_static<T: Send + 'static>(_: T) {}
fn sync<T: Sync>() {}
fn clone<T: Clone>() {}
fn copy<T: Copy>() {}
fn error<T: std::error::Error + Send + Sync + 'static>() {}

//= a transmitter can be moved to other threads
fn transmitter_send<L: Clone + Eq + Send + 'static>() { send::<TelemetryTransmitter<L>>() }
//= a transmitter can be shared by threads, whatever the label
fn transmitter_sync<L: Clone + Eq + Send + 'static>() { sync::<TelemetryTransmitter<L>>() }
//= a transmitter can be cloned
fn transmitter_clone<L: Clone + Eq + Send + 'static>() { clone::<TelemetryTransmitter<L>>() }
//= a reference to a transmitter is enough to transmit from another thread
fn transmitter_by_ref<L: Clone + Eq + Send + 'static>(t: &'static TelemetryTransmitter<L>, label: L) { send_static(move || { t.observed_one_now(label); }) }
//= a driver handle can be moved to other threads
fn driver_send() { send::<TelemetryDriver>() }
//= a driver handle can be shared by threads
fn driver_sync() { sync::<TelemetryDriver>() }
//= a driver handle can be cloned
fn driver_clone() { clone::<TelemetryDriver>() }
//= a driver builder can be moved to other threads
fn builder_send() { send::<DriverBuilder>() }
//= a handle of an attached mount can be moved to other threads
fn attached_send() { send::<AttachedMount>() }
//= a handle of an attached mount can be shared by threads
fn attached_sync() { sync::<AttachedMount>() }
//= a handle of an attached mount can be cloned
fn attached_clone() { clone::<AttachedMount>() }
//= an asynchronous snapshot can be awaited on any thread and does not borrow the driver
fn async_snapshot(d: &TelemetryDriver) { send_static(d.snapshot_async(true)) }
//= the error of a snapshot request is an error that can cross threads
fn snapshot_error() { error::<GetSnapshotError>() }
//= snapshots can be moved to other threads
fn snapshot_send() { send::<Snapshot>(); send::<ItemKind>() }
//= snapshots can be shared by threads
fn snapshot_sync() { sync::<Snapshot>(); sync::<ItemKind>() }
//= snapshots can be cloned
fn snapshot_clone() { clone::<Snapshot>(); clone::<ItemKind>() }
//= observations can be moved to other threads
fn observation_send<L: Send>() { send::<Observation<L>>(); send::<ObservedValue>(); send::<Update>() }
//= observations can be shared by threads when labels can
fn observation_sync<L: Sync>() { sync::<Observation<L>>(); sync::<ObservedValue>(); sync::<Update>() }
//= observed values and strategies can be copied
fn values_copy() { copy::<ObservedValue>(); copy::<TimeUnit>(); copy::<ProcessingStrategy>() }
//= a processor can be moved to the thread of the driver
fn processor_send<L: Clone + Eq + Send + 'static>() { send::<TelemetryProcessor<L>>() }
//= a mount can be moved to the thread of the driver
fn mount_send() { send::<ProcessorMount>() }
//= cockpits and panels can be moved to the thread of the driver
fn cockpit_send<L: Clone + Eq + Send + 'static>() { send::<Cockpit<L>>(); send::<Panel<L>>() }
//= label filters can be moved to the thread of the driver
fn filter_send<L: Clone + Eq + Send + 'static>() { send::<LabelFilter<L>>() }
//= adapters can be moved to the thread of the driver
fn adapter_send<L: Clone + Eq + Send + 'static, I: Instrument + Send>() { send::<InstrumentAdapter<L, I>>(); send::<GaugeAdapter<L>>() }
//= counters, gauges, meters and histograms can be moved to the thread of the driver
fn instruments_send() { send::<Counter>(); send::<Gauge>(); send::<Meter>(); send::<Histogram>() }
//= all other instruments can be moved to the thread of the driver
fn others_send() { send::<Flag>(); send::<StaircaseTimer>(); send::<OccurrenceIndicator>(); send::<NonOccurrenceIndicator>(); send::<DataDisplay>(); send::<ValueMeter>(); send::<LastOccurrenceTracker>() }
//= a whole pipeline works for every label that is Clone, Eq, Send and 'static
fn any_label<L: Clone + Eq + Send + 'static>(label: L, other: L, driver: &mut TelemetryDriver) {
    let (transmitter, mut processor) = TelemetryProcessor::<L>::new_pair("processor");
    let mut cockpit = Cockpit::new("cockpit");
    let mut panel = Panel::named(label.clone(), "panel");
    panel.add_counter(Counter::new_with_defaults("counter"));
    panel.add_gauge(Gauge::new_with_defaults("gauge").for_label(other.clone()));
    panel.add_meter(Meter::new_with_defaults("meter"));
    panel.add_histogram(Histogram::new_with_defaults("histogram"));
    panel.add_instrument(ValueMeter::new_with_defaults("values"));
    panel.add_handler(Flag::new("flag").for_label(label.clone()));
    panel.add_panel(Panel::accept_all());
    cockpit.add_panel(panel);
    processor.add_cockpit(cockpit);
    processor.add_handler(InstrumentAdapter::for_label(label.clone(), Counter::new_with_defaults("c")));
    let mut mount = ProcessorMount::new("mount");
    mount.add_processor(processor);
    driver.add_processor(mount);
    transmitter.observed_one_now(label.clone()).observed_now(other.clone(), 5).observed_one_value_now(label, 2.5);
    transmitter.add_panel_to_cockpit("cockpit", Panel::accept_all_named("more"));
    transmitter.clone().measure_time(other, Instant::now());
}
//= labels need not be Sync, Hash, Ord, Copy or Debug
fn poor_label(driver: &mut TelemetryDriver) {
    #[derive(Clone, PartialEq, Eq)]
    struct Poor(std::cell::Cell<u8>);
    any_label(Poor(std::cell::Cell::new(1)), Poor(std::cell::Cell::new(2)), driver);
    sync::<TelemetryTransmitter<Poor>>();
}
//= handlers need only be Send
fn poor_handler(mut p: TelemetryProcessor<u8>) {
    struct Poor(std::cell::Cell<u8>);
    impl PutsSnapshot for Poor { fn put_snapshot(&self, _: &mut Snapshot, _: bool) {} }
    impl HandlesObservations for Poor { type Label = u8; fn handle_observation(&mut self, _: &Observation<u8>) -> usize { 0 } }
    p.add_handler(Poor(std::cell::Cell::new(1)));
}
//= snapshooters need only be Send
fn poor_snapshooter(mut p: TelemetryProcessor<u8>, d: &mut TelemetryDriver) {
    struct Poor(std::cell::Cell<u8>);
    impl PutsSnapshot for Poor { fn put_snapshot(&self, _: &mut Snapshot, _: bool) {} }
    p.add_snapshooter(Poor(std::cell::Cell::new(1)));
    d.add_snapshooter(Poor(std::cell::Cell::new(1)));
}
//= observed label predicates need only be Send
fn poor_predicate() {
    let c = std::cell::Cell::new(1u8);
    let p: Panel<u8> = Panel::accept(LabelFilter::predicate(move |l: &u8| { c.set(*l); true }));
}
//= the traits of handlers, snapshooters and processors can be used behind a pointer
fn objects(_: Box<dyn PutsSnapshot>, _: Box<dyn HandlesObservations<Label = u8>>, _: Box<dyn ProcessesTelemetryMessages>) {}
