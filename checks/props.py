"""Single source of the property list: tools/gen.py writes properties.jsonl and MANIFEST.json from it, ./check reads it."""

TRUST = ['rustc 1.101.0-nightly: type checking, name resolution and MIR construction (the analysis reads MIR built from the current tree)',
         'the models of std / crossbeam / parking_lot / json functions in lib/models.py (written from their documentation)',
         'the abstract interpreter in lib/flow.py: paths are merged only when exact; a function it cannot summarise within its budget is '
         'reported as UNDECIDED in the evidence, never silently passed']

PROPS = []


def P(id, module, func, title, statement, over, quant, why, files, mechanism, explain, note, technique, assumptions=(), observe=()):
    PROPS.append(dict(id=id, module=module, func=func, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mechanism=mechanism, explain=explain, note=note, technique=technique, assumptions=list(assumptions) + TRUST,
                      observe=list(observe)))


SUM = 'path-sensitive interprocedural summaries over MIR'

P('P01', 'delivery', 'p01', 'Every observation reaches every registered receiver exactly once',
  'When a processor takes an observation that its strategy does not drop, it hands that very observation exactly once to every cockpit and '
  'every handler it holds; a cockpit hands it exactly once to every panel and handler; a panel whose label filter accepts it hands it exactly '
  'once to each of its instruments, sub panels and handlers, and a panel that rejects it hands it to none. The number of updated instruments '
  'each of them reports is the sum over everything the observation was handed to (0 when rejected).',
  ['inputs', 'configurations', 'histories'],
  'all observations and labels, all numbers and kinds of registered cockpits, panels, instruments and handlers',
  'The tests register one or two instruments and send a few observations; a receiver skipped, visited twice or miscounted only for some '
  'combination of filled slots, some label verdict or some position in a list is not sampled.',
  ['src/processor.rs', 'src/cockpit.rs', 'src/instruments/panel.rs'],
  [('fan-out loops', 'Panel/Cockpit::handle_observation, TelemetryProcessor::process')],
  'For Panel, Cockpit and TelemetryProcessor the places that hold something handling observations are derived from the field types; every '
  'path of the handling function (loops summarised for an arbitrary element) must visit each present place exactly once with the same '
  'observation, every collection to its end, nothing else, and return the sum of the results.',
  'Decided for every path and every element of every collection; receivers behind trait objects are assumed to do what their own type is '
  'checked for.', 'data flow: exactly-once visit and linear-sum obligations on ' + SUM)

P('P02', 'labels', 'p02', 'Label filters accept exactly the labels they were built from',
  'A label filter built from a label, a tuple or a list of labels accepts a label if and only if it equals one of those labels; one built from '
  'a predicate answers what the predicate answers; accept-all always accepts and accept-none never does. Adding another label to any existing '
  'filter makes it accept that label in addition to what it accepted before and nothing else, and asking a filter never changes it.',
  ['inputs', 'histories'], 'all labels, all label types, all numbers of labels, all sequences of additions',
  'The tests use small consecutive integers; an error for a certain number of labels, a certain position or a combination with predicates '
  'needs one particular construction.',
  ['src/instruments/label_filter.rs'], [('internal forms', 'LabelFilterInternal::add_label / accepts')],
  'Every conversion into a filter is composed with `accepts` on a symbolic label: each path must answer exactly the stated membership. '
  'For every internal form the extended filter is compared with the old one on every path (induction step for arbitrary histories).',
  'Decided for all labels and, by induction over the internal forms, all histories of additions. Label equality is taken as given by the user\'s Eq.',
  'symbolic membership equivalence on ' + SUM)

P('P03', 'labels', 'p03', 'Adapters gate their instrument by label and apply their modifier',
  'An instrument adapter passes an observation to its instrument exactly once if its label filter accepts the observation\'s label and not at '
  'all (reporting 0) otherwise; count, value and timestamp arrive unchanged unless a modifier was installed, which then is applied exactly once '
  'to label and update. Gauge adapters for deltas only pass on changes, increment/decrement adapters change the gauge by exactly +1 for labels '
  'accepted by the first and otherwise by -1 for labels accepted by the second filter. Every function that creates such an adapter or a panel wires '
  'the labels, predicate or filter and the instrument it was given.',
  ['inputs', 'configurations'], 'all observations, labels, modifiers and all 97 functions that create an adapter or panel',
  'Only a few adapter constructors are used in tests; swapped filters, a lost modifier or a wrong verdict for one kind of observation in one '
  'of the many constructors is not sampled.',
  ['src/instruments/instrument_adapter.rs', 'src/instruments/gauge/gauge_adapter.rs', 'src/instruments/mod.rs', 'src/instruments/panel.rs'],
  [('gate', 'InstrumentAdapter/GaugeAdapter::handle_observation'), ('constructors', 'accept, for_label(s), deltas_only, inc_dec_on, ... of every instrument')],
  'The value returned by each constructor is fed symbolically into handle_observation for each kind of observation; on every path the '
  'filter asked, its verdict, the update given to the instrument and the reported number must be the promised ones.',
  'Decided for every constructor returning an adapter (found by return type) and every kind of observation.',
  'constructor/handler composition on ' + SUM)

P('P04', 'processing', 'p04', 'Observations are dropped exactly as the processing strategy says',
  'When a processor takes an observation from its queue: with ProcessAll it is always passed on; with DropAll it never is; with DropOlderThan it is '
  'passed on if and only if its timestamp lies at most the maximum age before the clock reading at processing time, or it is a change (ChangedBy) '
  'and changes are not to be dropped. A maximum age reaching beyond the beginning of the clock means nothing is too old. '
  'No other property of the observation, its label or the processor\'s state plays a role.',
  ['inputs', 'configurations', 'histories'], 'all observations, timestamps, maximum ages, flags and clock readings',
  'Tests use one or two ages and never the boundary; a swapped comparison, a lost delta exception or an inverted flag shows only for particular '
  'combinations of age, kind of update and flag.',
  ['src/processor.rs'], [('decision', 'ProcessingStrategy::decider, ProcessingDecider::should_be_processed, TelemetryProcessor::process')],
  'For every strategy and every kind of observation the paths of process() on one message are enumerated; the facts each path establishes about '
  '`timestamp + max_age - now` (a linear term), the flag and the kind of value must determine the verdict of the decision table, and the '
  'path must hand the observation on exactly then.',
  'A complete decision table over symbolic time stamps, decided for every path; the clock is an arbitrary monotone reading.',
  'decision table over path facts (linear constraints on instants) on ' + SUM)

P('P05', 'processing', 'p05', 'Processing outcomes account for every message exactly once',
  'Each run of a processor takes messages until its queue is empty or the limit is reached, never more than the limit. Every message taken is '
  'counted exactly once: an observation passed on and any control message as processed, an observation not passed on as dropped. The outcome '
  'reports the length of the queue after the run; control messages never count as updated instruments; a disconnected queue counts as nothing, and the '
  'processor gives up its queue only when it is disconnected. The time of last activity is set exactly when a message was taken. Outcomes are '
  'combined by adding each number, and something happened if and only if anything was processed or dropped.',
  ['inputs', 'histories'], 'all message kinds, strategies, limits and queue fill levels',
  'Tests look at one outcome for a handful of messages; off-by-one limits, a message kind not counted or counted twice, or a combination of limit and '
  'strategy that stops early is not sampled.',
  ['src/processor.rs'], [('receive loop', 'TelemetryProcessor::process'), ('sums', 'ProcessingOutcome::combine_with')],
  'The receive loop is evaluated on scripted queues (each message kind under each strategy, several limits) with everything else symbolic, '
  'plus a summary of the loop for an arbitrary limit; totals, final state and events of each path are compared with the accounting rules.',
  'Each message kind is decided for all contents; the loop for arbitrary limits by its recurrence (counts grow by one per message, range is 0..max).',
  'accounting obligations (linear sums, recurrences) on ' + SUM)

P('P06', 'processing', 'p06', 'Control messages do exactly what they are named for',
  'Adding a cockpit to a processor or a panel to a cockpit appends it unless one with the same name is already there, in which case nothing changes; '
  'removing removes exactly those of that name and keeps all others. Control messages AddCockpit, RemoveCockpit, AddHandler, AddPanelToCockpit and '
  'RemovePanelFromCockpit do just that to the processor or to the cockpit they name, whatever the processing strategy (even DropAll), and change nothing else; the methods of a transmitter named like them send exactly these, with the names given.',
  ['inputs', 'histories', 'configurations'], 'all names (present or not), all numbers of cockpits and panels, all strategies',
  'Tests add one cockpit and one panel; removal of the wrong element, duplicates with a certain name pattern, or messages lost under a strategy are not sampled.',
  ['src/processor.rs', 'src/cockpit.rs'], [('control messages', 'TelemetryProcessor::process'), ('name uniqueness', 'add_cockpit, add_panel, remove_*')],
  'The list after each operation must be, on every path, exactly append / unchanged / filtered by name; which of these applies must depend on exactly the '
  'name equality (facts about an arbitrary element), and every other field must be untouched.',
  'Decided for lists of any length via facts about an arbitrary element.', 'effect and membership equivalence on ' + SUM)

P('P07', 'driving', 'p07', 'Mounts process everything below them and report the sum',
  'Whenever a processor mount is processed, each processor added to it is processed exactly once with the same limit and strategy, none is skipped '
  'whatever the others report, and each number of the reported outcome (processed, dropped, instruments updated, enqueued) is the sum over all of '
  'them. Its time of last activity is set exactly when something below it was processed or dropped. Processors and snapshooters added to a '
  'mount are appended, none is lost.',
  ['inputs', 'configurations'], 'all numbers of processors and snapshooters, all limits, strategies and reported outcomes',
  'No test mounts more than one or two processors; stopping early, or a number lost in the sum, needs particular outcomes of several processors.',
  ['src/processor.rs'], [('fan-out', 'ProcessorMount::process')],
  'Places holding processors are derived from the field types; the loop summary must visit each element once to the end with the two arguments, and every '
  'outcome field must be the linear sum of the elements\' outcome fields.',
  'Decided for any number of processors; nested mounts by induction (the element type is the trait object).',
  'exactly-once visit and linear-sum obligations on ' + SUM)

P('P08', 'driving', 'p08', 'The driver carries out every command once and drives every processor',
  'Each method of a driver sends exactly the command it is named for; commands are taken one by one in the order in which they were sent. In every round in which it is not paused each processor added '
  'before is processed exactly once, with a limit greater than zero and the strategy last set; while paused none is processed, but commands (adding '
  'processors, changing the strategy, taking snapshots) are still carried out and hold after resuming. Every snapshot request is answered exactly once, on '
  'its own channel, with the snapshot of that request; no snapshot is taken without a request.',
  ['schedules', 'histories'], 'all processors, strategies and results of processing, over the scripted command histories (two processors, pause/resume nesting, '
  'strategy changes before, during and after a pause, sync and async snapshots, quiet and busy processors)',
  'The driver is only tested end to end with one processor and one snapshot; commands arriving while paused, twice, or between rounds are not sampled.',
  ['src/driver.rs'], [('worker', 'telemetry_loop')],
  'The worker function (found as the one reading the driver\'s queue) is interpreted round by round over scripted histories of commands with all '
  'payloads symbolic; on every path the events of each round are compared with what a reference automaton of the driver demands.',
  'Payloads, outcomes and timing are symbolic, every path is covered; the histories of commands are the listed scripts (each command kind in each state of the '
  'automaton), not arbitrary ones. Waiting times are not judged.', 'typestate automaton over worker rounds on ' + SUM)

P('P09', 'driving', 'p09', 'A driver lives exactly as long as its handles',
  'Creating a driver starts exactly one worker with the given name, title, description, strategy and metrics setting, reading the queue its '
  'handles send to; the builder passes on what it was given. All clones of a driver share one guard; the worker\'s running flag starts out true, is '
  'cleared exactly when the last handle is dropped and nowhere else, the worker itself keeps no handle, and it ends at the next round once the flag is '
  'cleared or its queue is disconnected (also while paused), not before. Each handle method sends exactly its own command to that queue, and a snapshot call waits for '
  'the reply to its own request, starting from an empty snapshot with the descriptive flag it was given.',
  ['schedules', 'histories', 'configurations'], 'all orders of cloning and dropping handles, all configurations',
  'Thread lifetime is not observed by tests; a leaked worker or one stopped by dropping a clone needs a specific order of drops.',
  ['src/driver.rs'], [('guard', 'TelemetryDriver, DropGuard'), ('worker', 'telemetry_loop'), ('builder', 'DriverBuilder')],
  'The constructor is summarised and its thread closure composed with the worker\'s parameters; ownership of the flag (Arc-shared guard, stores only in '
  'Drop, no handle captured by the thread) is checked over all types and bodies; the worker is interpreted with the flag cleared after k rounds.',
  'Liveness of the thread is decided up to one round of the loop; blocking of processors is outside.', 'ownership/escape rules over types and bodies, constructor composition on ' + SUM)

P('P28', 'driving', 'p28', 'Attached mounts receive everything sent through their handle',
  'Attaching a mount registers exactly that mount, once, and returns a handle whose queue that mount reads. Everything put on a handle is sent once to its own '
  'mount. Before each run everything that has arrived is added to the mount in order - also what was sent just before the handle went away - nothing '
  'is lost, and the queue is only given up when disconnected. Each run passes limit and strategy on once and returns the mount\'s outcome.',
  ['schedules', 'histories'], 'all orders of sending and processing, all numbers of messages',
  'Needs messages sent between runs, several at once, or sent right before the handle is dropped, which tests do not do.',
  ['src/attached_mount.rs', 'src/processor.rs'], [('queue', 'InternalAttachedMount::process'), ('handle', 'AttachedMount')],
  'Handle and mount are composed from the constructors\' return values; process() is evaluated on scripted queues and the mount\'s lists at the moment it is '
  'processed are compared with what was sent.', 'Queues up to three messages are evaluated, contents symbolic.',
  'constructor composition and state comparison on ' + SUM)

P('P10', 'snapshots', 'p10', 'The snapshot tree mirrors the component tree',
  'A component with a name (processor, mount, cockpit, panel, driver, grouped polling instrument) adds exactly one level of that name to a snapshot, and '
  'everything it holds appears in that level; one without a name adds its parts to the level it was given. Unless hidden because of inactivity, everything a '
  'component holds that has something to show - instruments, sub panels, panels, cockpits, handlers, snapshooters, processors - is shown exactly once, and nothing '
  'else is added. Instruments write only under their own name, each key once. The driver answers a request with every processor and snapshooter added to it and its '
  'own metrics, and a driver placed inside another component adds each item of its own snapshot.',
  ['inputs', 'configurations'], 'all combinations of names and filled slots, all numbers of children',
  'The tests look up a few values in small trees; a child missing, shown twice or on the wrong level for some combination of slots and names is not sampled.',
  ['src/processor.rs', 'src/cockpit.rs', 'src/instruments/panel.rs', 'src/driver.rs', 'src/instruments/polled.rs', 'src/attached_mount.rs', 'src/snapshot.rs'],
  [('tree', 'put_snapshot of all 22 types'), ('driver', 'telemetry_loop, TelemetryDriver::put_snapshot')],
  'The snapshot every path of every put_snapshot function produces is read off its symbolic final state as a layout (items, levels, children, loops over '
  'children); places holding something to show are derived from the field types and compared with the layout.',
  'Decided for every path and any number of children; what a child adds is decided for the child\'s own type.',
  'symbolic layout of the written data structure, exactly-once visits, on ' + SUM)

P('P25', 'snapshots', 'p25', 'Titles and descriptions appear exactly when asked for',
  'No title or description is in a snapshot that was not asked for descriptive parts. When asked, a component that has a title (description) adds it exactly once, with '
  'its text, under `_title` (`_description`) - instruments under `_title_<name>` (`_description_<name>`) - unless the level already has that key; and '
  'the request for descriptive parts reaches everything below unchanged.',
  ['inputs', 'configurations'], 'all combinations of titles, descriptions, names, existing items and requests',
  'Tests hardly look at descriptive parts; swapped keys or texts or a flag lost on one branch is not sampled.',
  ['src/util.rs', 'src/processor.rs', 'src/cockpit.rs', 'src/instruments/panel.rs', 'src/driver.rs', 'src/instruments'],
  [('descriptive parts', 'put_default_descriptives, put_postfixed_descriptives, put_descriptives')],
  'On every path of every put_snapshot function the facts about the flag, the text and the existing keys must determine whether the item is written, and it must have the '
  'right key and text; the flag given to every child must be the flag received.',
  'Decided for every path; existing keys are any list of items.', 'decision table over path facts and symbolic layouts on ' + SUM)

P('P21', 'snapshots', 'p21', 'Inactive components hide their values and tell the truth about it',
  'A panel, cockpit, processor, mount or histogram without an inactivity limit always shows its values and says nothing about activity. With a limit it shows its '
  'values if and only if the last activity is not longer ago than the limit; `_inactive` and `_active` then say which is the case, and appear exactly when showing the '
  'activity state is switched on (mounts: always). Every observation a panel accepts, every observation handed to a cockpit and every value recorded by a histogram counts as '
  'activity at that moment and nothing else does. A histogram forgets its values before recording the next one if and only if it was inactive for longer than its limit '
  'and resetting is switched on.',
  ['inputs', 'histories', 'configurations'], 'all limits, clock readings, flags and histories of observations',
  'Inactivity needs time to pass between an observation and a snapshot, which the tests do not let happen.',
  ['src/processor.rs', 'src/cockpit.rs', 'src/instruments/panel.rs', 'src/instruments/histogram.rs'],
  [('inactivity', 'put_values_into_snapshot'), ('activity', 'handle_observation, Histogram::update')],
  'Clock readings are symbolic; on each path the facts about `limit - (now - last)` must agree with what the layout shows and with the values of the activity items.',
  'Decided for all times and limits (the exact boundary value is accepted on either side).',
  'decision table over linear time facts and symbolic layouts on ' + SUM)

P('P11', 'metrics', 'p11', 'The driver reports about itself truthfully',
  'With driver metrics switched on, after every run over the processors the driver counts one collection and its duration, adds the numbers of processed and dropped '
  'observations and of updated instruments - summed over all its processors - to the metrics named for them (and raises the dropped-observations alarm) exactly when that '
  'number is not zero, shows the number of observations still enqueued, and marks that it is alive. Every answered snapshot request is counted and timed once; nothing of that '
  'is updated while paused. The iteration ratio is processing time divided by iteration time, in per mille. All metrics are shown once, under distinct names, in the level '
  '`_metrix`, durations in microseconds; both alarms last 60 seconds.',
  ['inputs', 'histories'], 'all outcomes of the processors, clock readings and requests',
  'No test looks at the values in `_metrix`; two metrics swapped, dropped instead of processed, or an alarm on the wrong condition is not noticed.',
  ['src/driver.rs'], [('metrics', 'DriverInstruments'), ('worker', 'telemetry_loop')],
  'The worker is interpreted with symbolic outcomes and clock readings; the updates each round makes to each instrument (identified by the name it has in the snapshot) are '
  'compared with a table: which instrument, under which condition on the summed outcomes (linear facts), with which number.',
  'Outcomes and clock are symbolic; rounds with one and two processors, paused rounds and both kinds of requests are interpreted. Instruments themselves: P13-P16.',
  'table of guarded effects (linear facts and sums) on ' + SUM)

P('P12', 'transmit', 'p12', 'A transmitter sends exactly what it was given, once, in the way asked for',
  'Every method of a transmitter puts exactly one message carrying exactly the given label, count, value, timestamp, handler or names on the queue its '
  'processor reads; the `_now` methods use the current time; `measure_time` reports the whole time from `from` until now and sends nothing when `from` lies in '
  'the future. Sending on a full bounded queue waits if and only if blocking was requested when the pair was created; pairs without a capacity are unbounded. A clone '
  'sends to the same queue in the same way, and a transmitter that goes sends nothing. A new processor has the name it was given and holds nothing.',
  ['inputs', 'schedules'], 'all labels, counts, values, times, queue capacities and blocking flags',
  'Tests never fill a queue and hardly compare what was sent with what was given.',
  ['src/lib.rs', 'src/processor.rs', 'src/observation.rs'], [('transmitter', 'TelemetryTransmitter, TransmitsTelemetryData'), ('pair', 'TelemetryProcessor::create')],
  'Each method is evaluated with symbolic arguments down to the channel call: number of sends, the way of sending (against the blocking flag), the channel and every '
  'field of the message are compared with a table; the constructors of pairs and observations likewise.',
  'That the channel delivers what was sent is trusted (crossbeam).', 'effect and value table on ' + SUM)

P('P13', 'instr', 'p13', 'Counters and meters count every update by exactly what it stands for',
  'A counter and a meter are raised by one for a single observation, by n for an observation of n occurrences (a meter ignores an n beyond the range of its count) and by one for an observation '
  'with a value; a value meter is raised by the value - integers as they are, floats rounded, durations in the display unit - and ignores updates without a number that '
  'fits. Each of the three rates of a meter is fed that same number exactly once. An update reports 1 instrument if it was counted, else 0, and changes nothing else. '
  'What is shown is exactly that count; new instruments show zero.',
  ['inputs', 'histories'], 'all updates, numbers, units and previous states',
  'Tests feed a few small numbers; a window not fed, a unit or range mistake or an extra effect shows only for other inputs.',
  ['src/instruments/counter.rs', 'src/instruments/meter.rs', 'src/instruments/other_instruments/value_meter.rs',
   'src/instruments/fundamentals/metrics_meter.rs'], [('update', 'Updates for Counter, Meter, ValueMeter'), ('mark', 'StdMeter::mark')],
  'Each kind of update is applied to an arbitrary instrument; the change of the place the snapshot shows, the additions to the event counters behind the three rates, the '
  'result and all other fields are compared with a table.',
  'Integer overflow of counts is out of scope. Negative values in a value meter are counted, but a negative sum between two ticks makes its rates meaningless (not judged).',
  'effect table (state difference and additions) on ' + SUM)

P('P19', 'instr', 'p19', 'Meter rates are wired to their windows and keep up with the clock',
  'The rate shown as one_minute (five_minutes, fifteen_minutes) is that of the average over 1 (5, 15) minutes, in events per second, shown exactly when enabled - by '
  'default only the first - and shown as zero exactly when below the cutoff. An average starts at zero; a tick takes all events counted since the last tick, '
  'exactly once, into it: the first tick as events per interval, later ones weighted. Every average ticks exactly once for each interval of five seconds gone by, '
  'before new events are counted and before rates are shown.',
  ['inputs', 'histories', 'schedules'], 'all enabled rates, cutoffs, times between updates and snapshots',
  'Rates become visible only after seconds; tests check the averages alone, not what a meter shows.',
  ['src/instruments/meter.rs', 'src/instruments/other_instruments/value_meter.rs', 'src/instruments/fundamentals/metrics_meter.rs'],
  [('rates', 'get_snapshot'), ('ticks', 'StdMeter::tick_inner, EWMA::tick')],
  'The place every shown rate is read from is traced from the snapshot layout into the state a new meter is created with, whose decay factor must be that of the '
  'window; flags and cutoff are related through their setters; the loop that ticks is compared with its specification (guard, step, one tick per average, order).',
  'Accuracy of the averages as such is not judged (N02); float expressions are compared up to rounding.', 'data-flow tracing and loop summaries on ' + SUM)

P('P14', 'gauges', 'p14', 'A gauge always shows exactly what its observations say',
  'An observation with an integer or float value sets a gauge to that value (floats rounded), one with a duration to the duration in the display unit, and a change adds '
  'to the current value, or starts there when there is none. A value that can not be shown as an integer leaves the gauge as it is. Observations without a value '
  'change nothing and report 0; those with a value report 1. The value is shown under the name, or as `current` in a level of that name when grouped; a new gauge has '
  'no value and shows none. When tracking, each new value is recorded exactly once in the bucket of the current second.',
  ['inputs', 'histories'], 'all updates, values, units and previous states, with and without tracking and grouping',
  'Tests set a few small values; a kind, range or state (no value yet, tracking on) treated differently stays unseen.',
  ['src/instruments/gauge/mod.rs', 'src/observation.rs'], [('set', 'Gauge::set, Gauge::next_value'), ('snapshot', 'Gauge::put_values_into_snapshot')],
  'Each kind of update is applied to a gauge in an arbitrary state; new value, result, other fields and what is recorded in which bucket are compared with a table for every '
  'path, and the conditions of the paths must tell apart what the table tells apart.',
  'Integer overflow is out of scope; buckets borrowed twice can not happen with exclusive access.', 'effect table on ' + SUM)

P('P20', 'gauges', 'p20', 'Statistics of a tracking gauge cover exactly the last seconds',
  'A gauge tracking n seconds keeps n buckets, one per second, all empty at first; each observed value (also one it already has) is recorded once in the bucket of the current second. Before a value is recorded or statistics are computed the ring of buckets moves on by '
  'exactly the whole seconds gone by and empties exactly the buckets it moves onto (all when n or more seconds have gone by); fractions of seconds are never lost. A '
  'bucket knows number, sum, minimum and maximum of its values. peak (peak_min, peak_avg) is the maximum (minimum, average) of the maxima of the buckets that have '
  'values, bottom (bottom_max, bottom_avg) the minimum (maximum, average) of their minima, avg the average of all values; without any value all are the current value. '
  'They are shown under exactly these names, and only when tracking.',
  ['inputs', 'histories'], 'all values, window lengths and times between updates and snapshots',
  'Tests use a manual clock, small windows and equal numbers of values; seconds skipped, empty buckets or negative values combine in more ways.',
  ['src/instruments/gauge/tracking.rs', 'src/instruments/fundamentals/buckets.rs', 'src/instruments/gauge/mod.rs'],
  [('ring', 'SecondsBuckets::tick, BucketIterator::next'), ('statistics', 'Bucket::update, BucketsStats::from_buckets')],
  'The loop summary of the ring is compared in modular arithmetic (place = old place + seconds mod length, each step emptying the place moved onto); each aggregation over the '
  'buckets is classified from its one-step effect and its start value (maximum, minimum, sum or number of which part, of filled buckets only) and traced to the name '
  'it is shown under; the parts of a bucket are classified the same way from how an update changes them. Each update is run to find what it records, and in which bucket.',
  'Sums overflowing and float rounding are out of scope. The clock is trusted to be monotonic.', 'loop summaries with modular and extremum invariants on ' + SUM)

P('P15', 'histo', 'p15', 'A histogram records every value once and shows figures of all recorded values',
  'An observation with an integer value or a float that fits (rounded) or a duration (in the display unit) is recorded exactly once in a histogram; anything else is ignored and '
  'reports 0. Recorded values are dropped only by an update that comes after an inactivity beyond the limit, if resetting is enabled, and then before its value is '
  'recorded. Shown are, all from one snapshot of the recorded values, under exactly these names: count, min, max, mean, stddev and the quantiles p25, p50, p75, p95, '
  'p98, p99 and p999, each the quantile of that name; without values only a count of zero.',
  ['inputs', 'histories'], 'all updates, values, units, previous states and inactivity settings',
  'Tests record a few values and look at some of the figures; a swapped figure or a value recorded with a wrong unit stays unseen.',
  ['src/instruments/histogram.rs'], [('update', 'Updates for Histogram'), ('snapshot', 'HistogramSnapshot::put_snapshot')],
  'Each kind of update is applied to an arbitrary histogram and the calls into the reservoir are compared with a table; each shown figure is traced to the accessor (and quantile) of the one '
  'reservoir snapshot it is taken from.',
  'The reservoir (crate exponential-decay-histogram) samples with decay; it is trusted.', 'effect table and value provenance on ' + SUM)

P('P16', 'displays', 'p16', 'Switches are on exactly as long as their last observation says',
  'After any observation an occurrence indicator (and a staircase timer) is on until its duration has gone by and off afterwards, a non occurrence indicator is the opposite; further '
  'observations start the time anew. Fresh, the first two are off and the third counts from its creation; all three can be inverted. A flag has no state until it sees a boolean '
  'or an integer, then it is that boolean, or false for 0 and true for 1; it ignores anything else. When asked for, the negation of the value shown is shown as well, '
  'in the same snapshot, under the prefixed, postfixed or new name.',
  ['inputs', 'histories', 'schedules'], 'all observations, durations, clock readings, inversion settings and previous states',
  'Tests can hardly wait for the times to pass; inversion, the name of the inverted value and the time of the last observation combine.',
  ['src/instruments/switches/mod.rs', 'src/instruments/switches/flag.rs', 'src/instruments/switches/occurrence_indicator.rs', 'src/instruments/switches/non_occurrence_indicator.rs',
   'src/instruments/switches/staircase_timer.rs'], [('state', 'OccurrenceIndicator::state, NonOccurrenceIndicator::state, StaircaseTimer::state'), ('names', 'NameAlternation::adjust_name')],
  'The summaries of an update at time t0 (of an arbitrary previous state) and of a later snapshot are composed; each path must tell whether the time since t0 is within the duration, and show the value '
  'and the negation that follow, under the names that follow.',
  'At the very instant the duration ends both values are accepted. Setters called after observations are not judged. The clock is trusted to be monotonic.', 'composed data-flow summaries of update and snapshot on ' + SUM)

P('P17', 'displays', 'p17', 'Displays show the last observation and reset in time',
  'A data display shows the value of the last observation with an integer, a float or a boolean exactly as it was; if a reset time is set, then until that time has '
  'gone by since the last such observation, and the reset value (or nothing) afterwards and before the first. Other observations change nothing and report 0. A last '
  'occurrence tracker shows the whole seconds since the last observation of any kind, and before the first nothing, or zero if asked for.',
  ['inputs', 'histories', 'schedules'], 'all observations, values, reset times and values, and clock readings',
  'Tests hardly let time go by between observations and snapshots and use few kinds of values.',
  ['src/instruments/other_instruments/display.rs', 'src/instruments/other_instruments/last_occurrence_tracker.rs', 'src/observation.rs'],
  [('display', 'DataDisplay::value, Updates for DataDisplay'), ('tracker', 'LastOccurrenceTracker::elapsed_since_last_occurrence')],
  'Summaries of constructor, setters, one and two updates at symbolic times and a snapshot are composed for each kind of observation; what is shown must follow from the time gone by on each path.',
  'At the very instant the reset time ends both values are accepted.', 'composed data-flow summaries of update and snapshot on ' + SUM)

P('P18', 'values', 'p18', 'Values keep their meaning through every conversion',
  'Whatever can be observed becomes an observed value of the same kind, sign and size (durations with their unit, increments and decrements as changes), whatever can be shown becomes an '
  'item of the same kind and value, and an observed value becomes an item of the same kind and value (durations and changes none). A value is converted to i64, u64 or '
  'bool exactly when the result represents it, floats after rounding, else there is none. Durations are the same, rounded down, in every unit. Exactly changes are '
  'deltas. An observation becomes an update with the same label, number, value and time.',
  ['inputs'], 'all values of all kinds, units and observations',
  'Tests convert a handful of values; sign, range ends, rounding and each pair of units are separate cases.',
  ['src/observation.rs', 'src/snapshot.rs', 'src/instruments/mod.rs'], [('conversions', 'From for ObservedValue, From for ItemKind'), ('numbers', 'ObservedValue::convert_to_i64, convert_to_u64, convert_to_bool'),
   ('units', 'duration_to_display_value')],
  'Every conversion is evaluated for a symbolic value of each kind; the result on each path is compared with a table, integers as linear terms with casts and ranges, floats at every point where '
  'a path condition changes, durations up to algebraic identities of division.',
  'Integer overflow (durations beyond 584 years in nanoseconds) is out of scope.', 'value table with range and unit analysis on ' + SUM)

P('P23', 'lookup', 'p23', 'Finding items in a snapshot',
  'Each segment of a path leads to the first item of that name in the snapshot at hand; the first segment without such an item makes the result not found, and a path that goes on below a '
  'value (text, number or boolean) leads to that value. Empty segments are ignored, an empty path finds nothing in a snapshot and the item itself below an item. An item found can be searched on '
  'like the snapshot it is; a value or nothing contains nothing. Of what is found exactly integers that are not negative are durations, of that many units. An item pushed becomes the last one.',
  ['inputs'], 'all snapshots, paths, separators, items and units',
  'Tests look up a few names in one small snapshot; duplicate names, values half way down, empty segments and negative numbers are separate cases.',
  ['src/snapshot.rs'], [('lookup', 'Snapshot::find, Snapshot::find_with_separator, find_item'), ('found items', 'FindItem::find, FindItem::to_duration_*, FindItem::opt, FindDurationItem::opt')],
  'One step of the lookup is summarised for an arbitrary item and rest of the path (the recursion is cut at itself); each path through it has to establish the length of the path, whether the segment is empty, '
  'what the item is and whether there is an item of that name, and return what follows. The list of segments is an accumulation over the parts of the path whose exact filter is read off.',
  'Induction over the length of the path: what follows the first segment is judged by the same step. A lookup written as a loop over the segments is not decided (reported as undecided).', 'one-step data-flow summaries (recursion cut) on ' + SUM)

P('P24', 'lookup', 'p24', 'Snapshots are rendered as JSON completely and exactly',
  'A snapshot becomes a JSON object with every one of its items under its name (of items with the same name the last), each text, number and boolean exactly as it is and each snapshot as an object of its own, with '
  'the same settings at every level. Booleans become 1 and 0 exactly if the settings say so; the text is pretty with exactly the indentation of the settings, if there is one. By default booleans stay '
  'booleans and the text is compact.',
  ['inputs'], 'all snapshots and settings',
  'Tests render a few snapshots; each kind of item at each level with each setting is a separate case.',
  ['src/snapshot.rs'], [('rendering', 'Snapshot::to_json, to_default_json, to_json_value, ItemKind::to_json_value'), ('defaults', 'Default for JsonConfig')],
  'The conversion of an item of each kind and of a snapshot with arbitrary items is summarised; the entries written for an element must be exactly its name and its converted value, on every path and for every element.',
  'How the json crate writes strings and numbers is trusted. Non-finite floats are not valid JSON in any rendering and are not judged.', 'value table and per-element write summaries on ' + SUM)

P('P22', 'panics', 'p22', 'No observation, message, setting, lookup or snapshot makes the crate panic',
  'Whatever is observed, sent, configured or looked up, and whatever the clock says, no function of the crate panics, neither in the caller nor in the backend (where a panic would end all metrics): no value that may '
  'be missing is taken for granted, every index is within its list, nothing is divided by zero, no unsigned number is decreased below zero and no time is computed that may not be representable. Left out are '
  'overflows of 64 bit numbers, code passed in by users, and the system refusing a thread.',
  ['inputs', 'histories', 'schedules'], 'all calls of all functions with all arguments in all states of all objects',
  'A panic needs the one value or state nobody thought of: a zero, an empty list, a huge duration, a bucket index after just the right time.',
  ['src/driver.rs', 'src/instruments/fundamentals/buckets.rs', 'src/instruments/gauge/mod.rs', 'src/processor.rs', 'src/snapshot.rs', 'src/instruments/switches/staircase_timer.rs', 'src/instruments/switches/occurrence_indicator.rs'],
  [('ring of seconds', 'SecondsBuckets, BucketIterator'), ('times set by users', 'TelemetryProcessor::process, StaircaseTimer, NonOccurrenceIndicator, OccurrenceIndicator'), ('lookup', 'find_item, Snapshot::find_with_separator')],
  'Every function is evaluated for arbitrary arguments (public ones first, with what they call; then what is not reached from these). At each place that may panic (MIR assertions, diverging calls, unwrap, indexing, time arithmetic, '
  'partial functions of other crates) the condition is to follow from the facts of each path, the meaning of its terms (lengths, remainders, ranges) and inferred invariants of the objects involved (an index field is within a list field, '
  'a list is never empty), which every function with access to the fields must keep.',
  'Integer overflow, stack exhaustion, allocation failure, user code and the inside of other crates are out of scope; a poisoned lock is ruled out by this very property.', 'panic-freedom by path facts and inferred object invariants on ' + SUM)

P('P30', 'undisturbed', 'p30', 'Taking a snapshot changes nothing that is measured',
  'Snapshots can be taken as often as one likes, by anyone, without influencing what is measured or what later snapshots show: putting a snapshot of a component changes nothing in it, except for what depends on the time '
  'gone by alone (the rates of a meter, the seconds a gauge tracks), and that only when time has gone by. No observation, update or message is produced by it, and the items already in the given snapshot stay.',
  ['histories', 'inputs', 'schedules'], 'all components in all states, any number of snapshots at any times',
  'Tests take one snapshot at the end; that a second one, or further observations after a snapshot, show the same is not sampled.',
  ['src/instruments', 'src/cockpit.rs', 'src/processor.rs', 'src/driver.rs', 'src/snapshot.rs'],
  [('state that can change behind a shared reference', 'Meter::get_snapshot, ValueMeter::get_snapshot, StdMeter, EWMA, Gauge::put_snapshot, SecondsBuckets')],
  'The final state of every path of every put_snapshot function is compared with the initial one: each changed place has to be a time that the path has found to be reached by the clock (which then moves on), part of a loop guarded by such a time, '
  'or a ring moved on by its own function, which in turn must not change it unless a time is found to be reached. Atomics, and calls that update, observe, process or send, are judged in the same way.',
  'Housekeeping itself (how far a ring moves, how averages decay) is judged by the properties on meter rates and tracking gauges.', 'effect analysis (changed places under path facts) on ' + SUM)

P('P29', 'install', 'p29', 'What is added to a component is in it, and nothing already there is lost',
  'Whatever is added to a panel, cockpit, processor or mount - instrument, panel, cockpit, handler, snapshooter, processor, with an `add_` function or its builder form - is held by the '
  'component afterwards exactly once, in whatever order and number things are added, and everything added before is still held: nothing is replaced, also not when a second '
  'instrument of the same kind is added (only a panel or cockpit whose name is already taken is not added). An instrument added without labels gets every observation unmodified. '
  'Nothing but the functions made for removing takes anything out, also not handling observations. Functions that list parts list each of them once.',
  ['inputs', 'histories', 'configurations'], 'all sequences of additions and removals and observations, all components',
  'Tests add one thing of a kind; that a second one, or one added after something else, replaces or loses something is not sampled.',
  ['src/instruments/panel.rs', 'src/cockpit.rs', 'src/processor.rs', 'src/attached_mount.rs'],
  [('add functions and builders', 'Panel::add_*, Cockpit::add_*, TelemetryProcessor::add_*, ProcessorMount::add_*'), ('lists', 'get_panels, get_handlers, get_snapshooters, get_cockpits, processors')],
  'The places that hold parts are found by type in every component. For every function that takes the component mutably or returns it, each path\'s final state is compared with the initial one: an adding function has to '
  'append its argument (or the argument in an adapter for all labels) to exactly one list, or put it into one empty option; every other function has to keep each list and option.',
  'Which panels and cockpits count as having the same name, and what removal removes, is decided by the property on control messages. Functions through which an unknown library call changes a list are reported as undecided.',
  'effect analysis (changed places under path facts) on ' + SUM)

P('P31', 'install', 'p31', 'Every setting stores what it is given and changes no other setting',
  'Each `set_` function of each component, instrument and the driver builder stores the value it is given, whatever it is, where that setting is kept, and changes no other setting; two different settings '
  'are never kept in the same place. The builder form of a setting sets the same as the `set_` function. What reads a setting (a getter, title, description, name) gives what was set. A new component has the '
  'name it was given, no title, description or inactivity limit, and the documented defaults for which rates a meter shows, its lower cutoff, resetting inactive histograms, showing the activity state (on), inverting (off), a staircase timer (60 seconds), a display (no reset) and drivers (metrics of their own, drop what is older than 30 seconds except deltas).',
  ['inputs', 'configurations'], 'all settings of all components, all values and orders of setting them',
  'Some 80 settings with two forms each; tests set a handful to one value, and a setting that overwrites another shows only for that combination.',
  ['src/instruments', 'src/cockpit.rs', 'src/processor.rs', 'src/driver.rs'], [('settings', 'set_* functions, their builder forms, getters, constructors')],
  'Every `set_` function and builder form of every type is summarised; each path has to store its argument (converted, or wrapped as optional or as a kind of name) in a place, and leave the places of the other settings alone. '
  'Getters and `Descriptive` are run on the state the setter leaves. Constructors are run and the places of settings read from what they make.',
  'That a setting then has its effect is decided by the properties on what the component does. A place that takes something computed from the argument (the ring of a tracking gauge) is only checked to depend on it.',
  'effect analysis (changed places under path facts) on ' + SUM)

P('P26', 'threads', 'p26', 'Handles, snapshots and components can be used from any thread, with any label',
  'A transmitter and a driver handle can be cloned, moved to and shared by threads - a transmitter for every label type that is Clone, Eq, Send and \'static, also one that is not Sync. Every component (processor, mount, '
  'cockpit, panel, adapter, filter, instrument) can be moved to the thread of the driver; handlers, snapshooters and predicates of users need only be Send. Snapshots and observations can be moved to and shared by threads; '
  'an asynchronous snapshot can be awaited on any thread and does not borrow the driver. The whole API works for every label that is Clone, Eq, Send and \'static, and the crate claims nothing of this by unsafe impls.',
  ['configurations', 'schedules'], 'all label types, handlers and predicates satisfying the stated bounds, all threads',
  'Tests use one label enum with every derive and share nothing between threads; a field that is not Sync, or a further bound on labels, still compiles and passes them.',
  ['src/lib.rs', 'src/driver.rs', 'src/processor.rs', 'src/attached_mount.rs', 'src/snapshot.rs', 'src/instruments'],
  [('handles', 'TelemetryTransmitter, TelemetryDriver, AttachedMount'), ('trait bounds', 'HandlesObservations, PutsSnapshot, TelemetryProcessor, Panel, Cockpit')],
  'A file of generic witness functions (`witness/witness.rs`), each of which only type-checks if one promise holds for all types satisfying the stated bounds, is type-checked against the crate as it is now; errors about '
  'bounds, lifetimes and object safety are mapped to the promise they break. The lint for unsafe code reports every unsafe impl in the crate.',
  'Sound by rustc\'s type system (auto traits are computed from the fields, all the way down), given that the dependencies\' own unsafe impls are right. Witnesses whose names no longer exist are reported as undecided.',
  'type-level witnesses decided by the type checker')

P('P27', 'waiting', 'p27', 'Only the calls meant to wait ever block, and never while holding a lock',
  'Calls that wait: a driver\'s snapshot (or being asked as a part to put its snapshot) for its worker, a transmitter that was set to block for room in its bounded queue, and the worker between two rounds, for at most a second. '
  'Everything else never waits for a message, for room, for time or for another thread: transmitting otherwise, every command to a driver (pausing, resuming, the strategy, adding, asking for a snapshot asynchronously), '
  'dropping a driver, processing, handling observations, updating instruments and putting snapshots. The queues of drivers and mounts and the ways back take every message at once. No lock is taken again while it '
  'is held, and nothing waits or calls a handler, snapshooter or filter while a lock is held. Processing ends when the queue is found empty; nothing goes round waiting for others.',
  ['schedules', 'histories'], 'all functions of the crate, all threads calling them, all states of the queues',
  'A wait shows only when the other side is slow, gone or waiting too; tests run both sides on an idle machine and let the worker catch up.',
  ['src/driver.rs', 'src/lib.rs', 'src/processor.rs', 'src/attached_mount.rs', 'src/instruments', 'src/cockpit.rs'],
  [('channels', 'driver, processor and attached_mount'), ('locks', 'instruments::fundamentals::metrics_meter'), ('worker', 'driver::telemetry_loop')],
  'The call graph of all MIR bodies (closures belong to the function that makes them, except those given to a new thread) gives for every function outside code can call, and for the function the thread runs, the calls into other '
  'crates that may wait, and the loops that look at what only other threads change; each must be one that is meant to. A send counts as waiting when a queue of its type of messages is made with a capacity anywhere. '
  'The paths of the functions that take locks are followed with the set of held guards.',
  'Calls of trait objects and type parameters are not followed: every implementation in the crate is examined itself, and what implementations of users do is theirs. A part that is itself a driver waits for its worker when a '
  'snapshot is taken; a driver that is made a part of itself is outside this property.',
  'effect analysis over the call graph; lock sets over ' + SUM)

P('P32', 'order', 'p32', 'What is sent to a processor takes effect in the order in which it was sent',
  'Observations and control messages sent through a transmitter (and its clones, one after another) take effect in the order in which they were sent: of two observations every receiver is given the earlier one first; an observation sent '
  'before a cockpit, panel or handler was added is not handed to it and one sent after that is; one sent before something was removed is still handed to it and one sent after that is not - also when all of them '
  'are processed in the same run.',
  ['histories', 'configurations'], 'all sequences of messages; pairs and triples of all kinds of messages, and runs of any length for the loop that takes them',
  'Tests send a few observations, and process after each control message; what happens when both wait in the queue together is never looked at.',
  ['src/processor.rs', 'src/cockpit.rs', 'src/lib.rs'],
  [('receive loop', 'processor::TelemetryProcessor::process')],
  'The effects of one run of a processor over two or three scripted messages of every kind are summarised on all paths: to whom each observation is handed, in which order, and whether that is one of what the other message '
  'adds or removes. For runs of any length the summary of the loop shows that each round takes one message and carries it out before the next is taken.',
  'The queue itself keeps the order (crossbeam). What a driver or a mount is told is judged by P08 and P28. A loop that carries out messages elsewhere than where it takes them is judged by the scripted runs alone.',
  'event-order analysis over ' + SUM)

P('P33', 'copies', 'p33', 'Copies are like the original, and comparing compares everything',
  'Cloning any value of the crate - an observed value, an update, a strategy, an item, a whole snapshot, what was found, a name alternation - gives one of the same kind with the same content in every part, '
  'changes nothing in the original and has no other effect. A cloned handle (transmitter, driver, attached mount) sends to the very same queue in the same way and shares what keeps the driver alive. '
  'Two values are equal exactly when they are of the same kind and all their parts are equal (floats compare as floats do).',
  ['inputs', 'configurations'], 'all values of all types that can be cloned or compared, all pairs of values for comparisons',
  'Tests compare a few snapshots and hardly clone anything; a part that is not copied or not compared shows only for values which differ just there.',
  ['src/snapshot.rs', 'src/observation.rs', 'src/processor.rs', 'src/driver.rs', 'src/lib.rs', 'src/attached_mount.rs', 'src/instruments'],
  [('copies', 'every impl of Clone'), ('comparisons', 'every impl of PartialEq')],
  'Every implementation of Clone and PartialEq of a type of the crate, derived or written by hand, is summarised. What a clone returns is compared part by part with the original under the facts of its path (shared parts have to be the very same); '
  'a comparison may only say yes on paths that have found all parts equal, and only no on those that have found a part or the kind different.',
  'Copying and comparing of std types (String, Vec, Duration) and of channels and Arc is trusted. Lists copied by hand in a loop are undecided.',
  'structural comparison of results on ' + SUM)

P('P34', 'memory', 'p34', 'What is observed and snapshot leaves nothing behind that grows',
  'However many observations are made, processed or dropped, however many runs a processor makes and however many snapshots are taken: the crate itself holds on to no more because of it. Transmitting an observation, '
  'processing it, updating an instrument, taking a snapshot and the rounds of the driver add to no collection that outlives them - except that a component named by a control message is added, that messages wait in their '
  'queue and that items go to the snapshot asked for - and never give memory up without freeing it.',
  ['histories'], 'all numbers and kinds of observations, runs and snapshots, for ever',
  'A collection that grows a little with each observation passes every test; it shows only after days in production.',
  ['src/instruments', 'src/cockpit.rs', 'src/processor.rs', 'src/driver.rs', 'src/lib.rs', 'src/attached_mount.rs'],
  [('entries', 'update, handle_observation, put_snapshot, process, transmit and what they call'), ('worker', 'telemetry_loop')],
  'Every call that makes a collection grow (push, insert, extend, entry, push_str, ...) in what is reachable from those entries is found in the MIR; where the collection belongs (a value of the function, the snapshot or list handed in, or '
  'something that outlives the call: a field, a static, a shared or locked value) is followed backwards through borrows, guards, closures and helpers. Only lists of components may grow. What the worker owns outside of its loop counts as outliving the rounds.',
  'The histogram reservoir and meters of the metrics crate and the queues are trusted to be bounded as documented (an unbounded queue grows when nobody processes it). Collections that are also emptied or whose length is looked at in the same function are '
  'undecided, and so are strings or chains of boxes which are rebuilt longer.',
  'ownership and escape analysis on MIR: backward provenance of every growing call')

P('P35', 'pace', 'p35', 'A driver rests when it finds nothing to do, and goes on at once when busy',
  'A round of a driver which found nothing to process, and each round while it is paused, is followed by a rest, so that an idle or paused driver does not keep a processor busy. A round which dropped messages or '
  'processed more than a hundred is followed by the next round at once, so that a backlog is worked off as fast as possible. A rest is what is left of a limited time (no longer than a second) that started with the round.',
  ['schedules', 'histories'], 'all numbers of messages processed and dropped in a round, all states of the driver, all clock readings',
  'A driver that spins, or that sleeps between rounds under load, gives the same values in every test; it shows only as load on the machine or as a growing backlog.',
  ['src/driver.rs'], [('worker', 'telemetry_loop')],
  'The loop of the worker is followed over one and two rounds; what the processors report is unknown (any numbers), and so is the clock. On each path the sleeps of the round are compared with what the path knows about the numbers.',
  'How long the operating system really sleeps, and how long a round takes, is not decided. Between one and a hundred messages either is allowed.',
  'path-sensitive symbolic flow analysis of the worker loop over MIR')
