#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os

ROOT = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                **({"observe_at": observe} if observe else {}))), note))


PROC, SNAP, DRV = "src/processor.rs", "src/snapshot.rs", "src/driver.rs"
INS = "src/instruments/"

prop("C01", "Observations arrive exactly once, unaltered and in order",
     "Every observation sent through any clone of a transmitter reaches every handler of its processor exactly once, with the label, count, value and time it was sent with, in the order each sender sent it. A processing call takes no more messages than it was allowed to, ends when there are none left, and its outcome accounts for what was processed, dropped, updated and is still queued. This holds however sending and processing interleave, also for handlers that transmit themselves and for messages still queued when the last transmitter is gone.",
     ["schedules", "histories", "inputs"],
     "any interleaving of sends from several clones or threads with processing calls of any size, any contents of an observation",
     "The tests send a handful of fixed observations and process them in one go; they never interleave threads, limit a call, or vary contents.",
     [PROC, "src/observation.rs", "src/lib.rs"],
     [("TelemetryProcessor::process", PROC), ("TelemetryTransmitter", PROC), ("ProcessingOutcome", DRV)],
     "6 steps (thorough: 7) of send/process in every order with symbolic contents; every shape of observation; reentrant handlers; two sender threads against one processing thread at every atomic operation with 3 preemptions (thorough: with more messages); processors with 100s of messages in a row. Longer interleaved histories, more threads and weak memory effects are outside.")
prop("C02", "Observations are dropped exactly when the processing strategy says so",
     "With the strategy that drops older observations, an observation is dropped exactly if it is older than the given maximum age at the time of processing and is not an exempted delta; the strategies to keep or drop everything do just that. Configuration messages are never dropped. The decision never fails, whatever the age, maximum age or clock.",
     ["inputs", "configurations"],
     "any observation with any time stamp (past or future), any maximum age up to the largest duration, deltas kept or not",
     "The tests use three ages against two limits; the boundary, future time stamps and huge limits are never tried.",
     [PROC, DRV], [("ProcessingStrategy::decider", PROC), ("ProcessingDecider", PROC), ("DropDeltas", PROC)],
     "Any observation, any two times within 2^40 s of each other, any maximum age, batches of 3; complete within these bounds.")
prop("C03", "Administrative messages are obeyed in order and by name",
     "Adding or removing handlers, cockpits, panels and changing a cockpit through a transmitter takes effect in the order of sending relative to all observations and other messages. Each affects exactly the parts with the given name and no other, and messages that name something unknown change nothing. They are obeyed under every processing strategy.",
     ["histories", "inputs"],
     "any sequence of up to 3 (thorough: 4) administrative messages and observations with any one-letter names",
     "No test sends more than one administrative message; orders and name clashes are never tried.",
     [PROC, "src/cockpit.rs"], [("TelemetryMessage handling", PROC), ("TransmitsTelemetryData admin methods", "src/lib.rs"), ("Cockpit::handle_message", "src/cockpit.rs")],
     "2 and 3 messages of 8 kinds with symbolic one-letter names against a reference model; longer names and sequences are outside.")
prop("C04", "Label filters accept exactly the labels they were given",
     "A label filter accepts a label if and only if it was given that label (or a predicate that holds for it, or was told to accept all). This does not depend on the number of labels, on whether they were given at once or added one after the other, or on duplicates.",
     ["inputs", "configurations"],
     "all byte labels, up to 7 labels, each way of building and extending a filter",
     "Tests check a few fixed labels per filter size; adding to a filter that accepts all, none or a predicate is not covered.",
     [INS + "label_filter.rs"], [("LabelFilter::accepts / add_label", INS + "label_filter.rs")],
     "Complete for byte labels and up to 7 of them.")
prop("C05", "Accepted observations reach each part once and are counted",
     "A panel hands an observation whose label it accepts to each of its instruments, handlers and nested panels exactly once and ignores all others; cockpits and processors hand on every observation to all their parts. The reported number of updated instruments is the sum over the parts. An adapter's modifier sees the label and the update, and the instrument gets what it returns.",
     ["inputs", "configurations"],
     "any label, any shape and contents of an observation, panels with one or two instruments of each kind and nesting",
     "The tests look at single instruments or fixed panels with one label.",
     [INS + "panel.rs", INS + "instrument_adapter.rs", "src/cockpit.rs", PROC],
     [("Panel::handle_observation", INS + "panel.rs"), ("Cockpit::handle_observation", "src/cockpit.rs"), ("InstrumentAdapter", INS + "instrument_adapter.rs")],
     "Symbolic labels and contents over fixed assemblies (mostly one level of nesting, up to 5 with symbolic labels).")
prop("C06", "Values convert to observed values without changing",
     "What is turned into an observed value and back is the same value, or saturates at the largest one if it is out of range; converting to an integer either gives the nearest integer or nothing. A duration keeps its length in whatever unit it is given, and no conversion fails or wraps around.",
     ["inputs"],
     "every value of every convertible type",
     "Tests convert a few small constants; the ends of the ranges, not-a-number and infinities are not tried.",
     ["src/observation.rs"], [("From impls for ObservedValue", "src/observation.rs"), ("convert_to_i64 / to_item_kind", "src/observation.rs")],
     "Complete over the full width of each type (floats with the solvers' floating point theory).")
prop("C07", "Durations are shown in the configured time unit",
     "A duration observed in any unit is shown by counters of values, gauges, meters and histograms in the instrument's display unit, rounded down, whatever the combination of units. A result that does not fit saturates at the largest representable value; it never wraps or becomes negative.",
     ["inputs", "configurations"],
     "any duration in any of the four units shown in any of the four units",
     "The tests convert one value per pair of units.",
     [INS + "mod.rs", INS + "gauge/mod.rs", INS + "histogram.rs", INS + "other_instruments/value_meter.rs"],
     [("duration_to_display_value", INS + "mod.rs")],
     "Any 64 bit duration, all 16 pairs of units, and each instrument that uses them.")
prop("C08", "Counters count every occurrence and never fail",
     "A counter shows the sum of the occurrences of all observations it got; one with a value counts as one. At the largest value it stays there instead of wrapping around or failing.",
     ["inputs", "histories"], "any sequence of 5 updates (thorough: 7) of any shape with any counts",
     "Tests add up a few ones.", [INS + "counter.rs"], [("Counter::update", INS + "counter.rs")],
     "5 updates (thorough: 7) of any shape and any counts.")
prop("C09", "Gauges show the last value set plus all changes since",
     "A gauge shows the last value it was given, changed by all increments, decrements and deltas since (starting at zero if it never had a value), saturating at the ends of its range. Observations it can not use leave it unchanged. Adapters turn the labels they were made for into exactly those changes and ignore others.",
     ["inputs", "histories", "configurations"], "any sequence of 4 updates (thorough: 5) of any shape and value; any labels for the gauge adapters",
     "Tests use small numbers in fixed orders.", [INS + "gauge/mod.rs", INS + "gauge/gauge_adapter.rs"],
     [("Gauge::update", INS + "gauge/mod.rs"), ("GaugeAdapter strategies", INS + "gauge/gauge_adapter.rs")],
     "Sequences of 4 updates (thorough: 5) with any 64 bit contents; adapters over symbolic byte labels.")
prop("C10", "A tracking gauge reports the extremes of exactly its window",
     "A gauge that tracks the last n seconds reports as peak and bottom the largest and smallest of the values it had in these seconds, and as averages those of the seconds that have values. Values from before the window are forgotten, values within are not, however long the pauses between updates and looks. Without values in the window nothing but the current value is shown.",
     ["histories", "inputs"], "2 to 3 values at any nanosecond of seconds up to beyond the window apart, any values, several window sizes",
     "The tests use fixed values with a hand-moved clock over two or three fixed patterns.",
     [INS + "gauge/tracking.rs", INS + "fundamentals/buckets.rs"], [("SecondsBuckets", INS + "fundamentals/buckets.rs"), ("gauge tracking", INS + "gauge/tracking.rs")],
     "Windows of 2 and 3 seconds, up to 3 values, gaps chosen around the window and symbolic nanoseconds.")
prop("C11", "Meters count and show the smoothed rate of what they got",
     "A meter shows the number of occurrences (a value meter the sum of non-negative values) it got, saturating, and for each enabled period a moving average of the rate over 5 second intervals, which is zero until the first interval is over. Rates below the lower cutoff are shown as zero. The rates do not depend on when within an interval updates happen or how often one looks.",
     ["inputs", "histories", "configurations"], "any counts; updates and looks at any nanosecond in and across intervals; any cutoff; all combinations of rates",
     "The rate tests tick the average by hand and never go through a meter and its clock.",
     [INS + "meter.rs", INS + "other_instruments/value_meter.rs", INS + "fundamentals/metrics_meter.rs"],
     [("StdMeter::mark / tick", INS + "fundamentals/metrics_meter.rs"), ("MeterSnapshot", INS + "meter.rs")],
     "3 updates with any counts (also for the rate of one interval); 2 updates and 2 looks over up to 6 intervals with symbolic nanoseconds against an independent formula (1e-9).")
prop("C12", "Histograms show count, extremes, mean and quantiles of their values",
     "A histogram shows how many values it got, the smallest and the largest, their mean and deviation, and quantiles that are in order, lie among the values and have the right rank. Observations without a usable value are not counted; floats are rounded.",
     ["inputs", "histories"], "up to 3 arbitrary values, one and several moments; 400 values shifted by any base; any float",
     "The tests only check that future time stamps are accepted.",
     [INS + "histogram.rs"], [("Histogram::update / snapshot", INS + "histogram.rs")],
     "Up to 3 values of any 64 bits (400 for the ranks) of about the same weight; one fixed stream of random numbers, so eviction from the full reservoir is not covered.")
prop("C13", "Switches show their state for exactly as long as configured",
     "A staircase timer is on from when an observation is handled until its duration has passed since the last one; an occurrence indicator shows whether something happened within its period, a non-occurrence indicator whether nothing did. Inversion and the extra inverted value show exactly the opposite. No duration makes them fail.",
     ["inputs", "histories", "configurations"], "up to 2 observations at any times within 2^40 s, any duration, inverted or not",
     "The tests do not touch these instruments.", [INS + "switches/staircase_timer.rs", INS + "switches/occurrence_indicator.rs", INS + "switches/non_occurrence_indicator.rs"],
     [("state", INS + "switches/staircase_timer.rs"), ("state", INS + "switches/occurrence_indicator.rs"), ("state", INS + "switches/non_occurrence_indicator.rs")],
     "2 observations (thorough: 3) at any times, any duration, settings made at creation or later (what holds exactly at the boundary is asserted where documented; an occurrence indicator whose period is set forgets, which the documentation leaves open).")
prop("C14", "Flags, displays and trackers show what was last observed",
     "A flag shows the last boolean it was given (zero and one count as such); a display shows the last value and falls back to its reset value once the reset time has passed; a last-occurrence tracker shows how many seconds ago the last observation was handled. Observations they can not use change nothing.",
     ["inputs", "histories", "configurations"], "sequences of updates of any shape; any reset time; any times",
     "The tests do not touch these instruments.", [INS + "switches/flag.rs", INS + "other_instruments/display.rs", INS + "other_instruments/last_occurrence_tracker.rs"],
     [("Flag::update", INS + "switches/flag.rs"), ("DataDisplay::value", INS + "other_instruments/display.rs"), ("LastOccurrenceTracker", INS + "other_instruments/last_occurrence_tracker.rs")],
     "Sequences of 2 to 4 updates (thorough: 5), any times within 2^40 s, any reset time.")
prop("C15", "What is inactive for longer than its limit shows no values",
     "A panel, cockpit, processor, mount or histogram with an inactivity limit shows its values while the time since its last activity (the last time it handled an observation) is below the limit and none once it is above, and again after the next activity. The state is shown in addition unless that is switched off; looking is no activity, and neither are observations it does not accept. A histogram starts anew after inactivity unless told not to.",
     ["histories", "configurations", "inputs"], "up to 2 observations or looks at any times, any limit, all combinations of options",
     "Tests check only that a histogram takes a value with a future time stamp.",
     [INS + "panel.rs", "src/cockpit.rs", PROC, INS + "histogram.rs"],
     [("put_values_into_snapshot", INS + "panel.rs"), ("put_values_into_snapshot", "src/cockpit.rs"), ("put_values_into_snapshot", PROC), ("put_values_into_snapshot", INS + "histogram.rs")],
     "2 events (thorough: 3) at any times within 2^40 s and any limit, set at creation or later; what holds exactly at the limit is not asserted.")
prop("C16", "Values are found in a snapshot by exactly their path",
     "Searching a snapshot finds the first item that the non-empty segments of the path lead to, comparing whole names; a value ends the search even if the path goes on, and a name that is not there finds nothing. Searching on from a level that was found is the same as searching it. What was found converts to a duration only if it is a non-negative integer, and then exactly.",
     ["inputs"], "all paths of up to 6 (thorough: 9) letters or separators over trees with duplicate, empty and longer names; any value found",
     "The tests look up a few fixed paths in one fixed tree.", [SNAP],
     [("Snapshot::find / find_with_separator", SNAP), ("find_item", SNAP), ("FindItem::to_duration_*", SNAP)],
     "Symbolic path bytes (2 letters and the separator) of up to 6 (thorough: 9) over trees of depth 3; longer paths and names are outside.")
prop("C17", "Snapshots put each value and description where its name says",
     "Whatever has a name puts its values into a level of that name and whatever has none into the level it is in. Each instrument puts its value under its own name, however it was given; titles and descriptions are there exactly if asked for and never replace those already there. Polling instruments poll anew for every snapshot.",
     ["configurations", "inputs"], "all combinations of named, unnamed, described and not described mounts, processors, cockpits and panels; all kinds of instruments",
     "The tests check the layout of very few fixed snapshots.", [PROC, "src/cockpit.rs", INS + "panel.rs", "src/util.rs", INS + "polled.rs"],
     [("PutsSnapshot impls", INS + "panel.rs"), ("put_default_descriptives / put_postfixed_descriptives", "src/util.rs"), ("PollingInstrument", INS + "polled.rs")],
     "All combinations of options on one instance of each kind; fixed names.")
prop("C18", "The JSON of a snapshot says exactly what the snapshot says",
     "The JSON made of a snapshot is valid and has every item with the same name, nesting and value: integers exactly, texts and names character by character, booleans as literals or as one and zero as configured, floats that are no number as null. Making it never fails.",
     ["inputs", "configurations"], "any integers near the ends of the ranges, any ASCII text, all kinds of items on two levels, all configurations",
     "The tests compare a few fixed documents.", [SNAP],
     [("Snapshot::to_json", SNAP), ("ItemKind::to_json_value", SNAP)],
     "Integers below 10000 or within 3000 of the ends of their ranges, texts of up to 2 ASCII characters, 20 floats (the shortest-digits algorithm is beyond the solver); read back by a strict reader.")
prop("C19", "The driver processes what is mounted on it until it is dropped",
     "Whatever is mounted on a driver is processed regularly, under the strategy last set and only while the driver is not paused; nothing is lost by pausing. A snapshot can be had at any time and shows everything mounted, with the driver's name, descriptions and metrics as configured, and the metrics say what happened. The thread ends with the last clone of the driver and not before, and nobody is left waiting.",
     ["histories", "schedules", "configurations"],
     "all sequences of 5 operations (thorough: 6); all configurations; any age of an observation; schedules with up to 2 preemptions",
     "The tests start a driver, sleep and look once; pausing, changing the strategy, clones, pending snapshots and the metrics are not tested.",
     [DRV], [("telemetry_loop", DRV), ("TelemetryDriver::snapshot / snapshot_async", DRV), ("DropGuard", DRV), ("DriverInstruments", DRV)],
     "The driver's thread runs in the engine, in virtual time (time passes when all threads wait); switches where threads block or sleep, and up to 2 preemptions at any atomic operation in the harnesses that say so. Weak memory effects are outside.")
prop("C20", "Mounts process what is mounted on them, however it got there",
     "A processing call of a mount calls each of its processors exactly once, in order, with the same maximum and strategy, and the outcomes add up. What is put on an attached mount through any of its handles, at any depth, takes part from the next call on and shows up in the next snapshot, also when the handle is gone.",
     ["histories", "configurations", "inputs"], "any outcome, maximum and strategy for up to 3 processors; all sequences of 5 operations (thorough: 6) of 7 kinds on attached mounts",
     "The tests only create mounts; nothing processes through them.", [PROC, "src/attached_mount.rs"],
     [("ProcessorMount::process", PROC), ("AttachedMount", "src/attached_mount.rs"), ("ProcessingOutcome::combine_with", PROC)],
     "Up to 3 processors, 2 levels of attached mounts, 5 operations (thorough: 6).")
prop("C21", "Bounded queues drop or wait as configured, sending never fails",
     "A queue of bounded capacity that does not block drops exactly what is sent while it is full; one that blocks loses nothing and lets the sender wait until there is room or the processor is gone. Sizes and capacities are reported as they are. Sending anything to a processor that is gone has no effect and never fails.",
     ["histories", "schedules", "configurations"], "capacities 0 to 3, all sequences of 7 sends and processing calls; two threads under all schedules with 2 preemptions; all ways of sending",
     "The tests do not use bounded queues at all.", [PROC],
     [("TelemetryProcessor::new_pair_bounded", PROC), ("TelemetryTransmitter::transmit", PROC), ("queue_size / is_queue_full", PROC)],
     "Capacities 0 to 3 (and one large), 7 steps (thorough: 9), changes of the processor among the observations, one sender thread with 2 preemptions.")
prop("C22", "However something is configured, it then is as configured",
     "Each way to configure the same thing, when it is created or later, leads to the same behaviour and leaves everything else at its default. What was configured can be read back, and descriptions show under the name last given. Whichever way an instrument is told which labels or which kinds of observations to accept, exactly these reach it.",
     ["configurations", "inputs"], "all builder methods and setters of all instruments, panels, cockpits, processors, mounts and driver builders, with any texts and labels and switched on or off",
     "The tests configure instruments in one way and never compare it to another; most setters are never called.",
     [INS, PROC, "src/cockpit.rs", DRV],
     [("builder methods and setters", INS), ("LabelFilter", INS + "label_filter.rs"), ("GaugeAdapter / InstrumentAdapter", INS + "gauge/gauge_adapter.rs"), ("DriverBuilder", DRV)],
     "One option at a time or all combinations of a few, some set twice with or without observations in between; durations of 10 or 100 s; texts of one arbitrary letter; behaviour in full is the subject of the other properties.")

NA = []
CLAIMED = [p["id"] for p, _ in P if os.path.exists(os.path.join(ROOT, "harness/src", p["id"].lower() + ".rs"))]


def main():
    for p, _ in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _ in P:
            f.write(json.dumps(p) + "\n")
    m = dict(version=1, setup_cmd="python3 run.py --setup",
             hooks=dict(guard="none", enable="no hooks: the checks build /repo as it is", source_commits=[]),
             checks=[dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']} --tier quick",
                          thorough_cmd=f"python3 run.py {p['id']} --tier thorough",
                          technique="symbolic execution of the compiled code (LLVM IR) with SMT solving",
                          level="model_checking", level_note=n) for p, n in P if p["id"] in CLAIMED],
             not_applicable=[dict(property=p["id"], reason=r) for p, r in NA] +
             [dict(property=p["id"], reason="check not built yet") for p, _ in P if p["id"] not in CLAIMED])
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


def fill(text, mark, body):
    a, b = f"<!-- {mark} -->", f"<!-- /{mark} -->"
    return text[:text.index(a) + len(a)] + "\n" + body + text[text.index(b):]


def design():
    import sys
    sys.path.insert(0, ROOT)
    import run
    out = []
    for p, note in P:
        out.append(f"### {p['id']} {p['title']}\n")
        out.append(p["statement"] + "\n")
        if p["id"] not in CLAIMED:
            out.append("Not claimed: " + dict((x["id"], r) for x, r in NA).get(p["id"], "no check yet") + "\n")
            continue
        out.append("Decided by symbolic execution. " + note + "\n")
        for h in run.harnesses(p["id"], "all"):
            t = h.ann.get("tier")
            out.append(f"* `{h.name}`{' (thorough only)' if t == 'thorough' else ''}: {h.doc} Bounds: {h.ann.get('bounds', '').replace('_', ' ')}.")
        out.append("")
    seeded = []
    d = os.path.join(ROOT, "seeded")
    caught = {}
    cf = os.path.join(ROOT, "seeded-results.txt")
    if os.path.exists(cf):
        for l in open(cf):
            a = l.split(None, 1)
            if len(a) == 2:
                caught[a[0]] = a[1].strip()
    if os.path.isdir(d):
        seeded.append("| bug | property | what it breaks | caught by |\n|---|---|---|---|")
        for n in sorted(os.listdir(d)):
            m = json.load(open(os.path.join(d, n, "meta.json")))
            seeded.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {caught.get(n, '?')} |")
    f = os.path.join(ROOT, "DESIGN.md")
    t = open(f).read()
    t = fill(t, "props", "\n".join(out) + "\n")
    t = fill(t, "seeded", "\n".join(seeded) + "\n")
    open(f, "w").write(t)


main()
design()
