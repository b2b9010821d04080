"""properties static analysis cannot decide here"""
PROPS = []


def N(id, title, statement, over, quant, why, files, mechanism, reason):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mechanism=mechanism, reason=reason))


N('N01', 'Histogram quantiles approximate the observed distribution',
  'The quantiles, mean and standard deviation a histogram shows approximate those of the recently observed values within the error of an '
  'exponentially decaying reservoir.', ['inputs', 'histories'], 'all sequences of values and times',
  'Statistical accuracy over arbitrary sequences cannot be sampled.', ['src/instruments/histogram.rs'], [('reservoir', 'ExponentialDecayHistogram')],
  'A numeric, statistical statement about sampled data of an external crate over unbounded histories: no sound static argument in reach bounds it. '
  '(That every value is fed in and every quantile is wired to its field is decided by the histogram property.)')
N('N02', 'Meter rates are accurate exponentially weighted averages',
  'The 1, 5 and 15 minute rates of a meter equal the exponentially weighted moving averages of the event stream.', ['inputs', 'histories'],
  'all event sequences and clock readings', 'Depends on real time and floating point over unbounded histories.',
  ['src/instruments/fundamentals/metrics_meter.rs', 'src/instruments/meter.rs'], [('EWMA', 'metrics crate')],
  'Floating point accuracy over unbounded clock histories; only the wiring (which events are counted, which window feeds which field) is statically decidable.')
N('N03', 'Snapshots arrive promptly and processing keeps up',
  'A requested snapshot is delivered within the time a processing round takes and the driver sleeps no longer than needed when idle.',
  ['schedules', 'histories'], 'all loads and schedules', 'Timing under load is not sampled.', ['src/driver.rs'], [('telemetry loop', 'telemetry_loop')],
  'Wall-clock latency depends on scheduling and load, which source inspection cannot bound. (That the worker rests only when there is nothing to do, and never for long, is decided by the pace property P35.)')
