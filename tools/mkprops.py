#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '../lib'))
from families import FAMILIES
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))
IND = ["indicators/*.cc"]
API = ["ti_<name>()", "ti_<name>_stream_new/run/free()", "ti_stream_run/get_info/get_progress/free()"]

p("C01", "Streaming gives the batch results, however the bars are chunked",
  "For every indicator with a streaming interface, feeding a series to a stream in any sequence of chunks (of any sizes, including empty ones) yields, concatenated, the same outputs as one batch call on the whole series, up to floating-point rounding. Each chunk's outputs depend only on the bars fed so far and are produced by the call that consumed the bar they belong to.",
  ["inputs", "schedules", "histories"], "every indicator with a stream, every accepted option vector with whole-number periods, every finite series (ties, flats, zeros, gaps included), every composition of the series into chunks",
  "benchmark2 compares one 400-bar random walk, fed whole and bar by bar, with period 1..some and tolerance 0.001; smoke compares a handful of fixed series. Chunk boundaries inside the warm-up, at the ring buffer's wrap, empty chunks, ties and long histories are not reached.",
  IND + ["utils/ringbuf.hh", "utils/localbuffer.h"],
  [("enum-continuation loop: while(progress<..){..}", "each ti_<name>_stream_run"), ("ring buffers kept in the stream object", "utils/ringbuf.hh")],
  [("progress", "bars consumed, offset by the warm-up", "struct ti_stream"), ("ring buffers and running sums", "window contents", "struct ti_<name>_stream")], API)

p("C02", "Stream progress, output counts and generic dispatch are exact",
  "A new stream's progress is minus the indicator's start; every run adds the number of bars fed, and writes exactly as many values per output as the part of that step which lies beyond zero, touching nothing else. A stream answers for the indicator that created it: generic run, info, progress and free act exactly as that indicator's own functions, for every interleaving.",
  ["histories", "schedules", "configurations"], "every streaming indicator and option vector, every sequence of runs of any sizes (0 included) on any number of live streams",
  "Tests never read the progress and only feed streams of one indicator at a time, whole or bar by bar.",
  IND + ["codegen.py", "indicators.h"],
  [("stream->progress = -start, ++ per bar", "each ti_<name>_stream_new/run"), ("ti_stream{index, progress} header and dispatch by index", "codegen.py: ti_stream_run, ti_stream_get_info, ti_stream_get_progress, ti_stream_free")],
  [("index", "position of the indicator in the table", "struct ti_stream"), ("progress", "see statement", "struct ti_stream")], API)

p("C03", "A batch call writes exactly size - start values and nothing else",
  "For accepted options a batch call (main or reference implementation) returns OK for every series length, writes exactly max(0, size - start(options)) values to each output, leaves every other byte of the caller's memory (inputs, options, memory behind the outputs) as it was, and writes nothing at all when the series is not longer than start. start(options) is the same number whatever was computed before, and never promises more outputs than bars.",
  ["inputs", "configurations"], "every indicator, every accepted option vector, every size from 0 to well beyond start, both implementations",
  "Tests call with one size per case and look only at the values they expect; nothing checks the bytes after the outputs, the sizes around start, or the reference implementations' counts.",
  IND, [("const int start/size guard: if (size <= start) return TI_OKAY", "each ti_<name>()"), ("ti_<name>_start()", "each indicator")], [], ["ti_<name>()", "ti_<name>_ref()", "ti_<name>_start()"])

p("C04", "No look-ahead: an output depends only on bars up to its own",
  "The value reported for a bar is determined by the bars up to and including that bar: a batch call on any prefix of a series gives the corresponding prefix of the outputs, and changing later bars never changes earlier outputs, up to rounding.",
  ["inputs"], "every indicator, accepted option vector with whole-number periods, series and prefix length, and every replacement of the bars behind the prefix",
  "No test runs the same series at two lengths.", IND, [("single forward pass over the bars", "each ti_<name>()")], [], ["ti_<name>()"])

p("C05", "Calls are pure: no state leaks between calls, streams or threads",
  "The result of a batch call is a function of its arguments alone, and the outputs of a stream are a function of its own options and bars alone: other calls and streams, before, in between or at the same time in other threads, do not change a bit of them.",
  ["schedules", "histories"], "every indicator, every interleaving of batch calls and runs on several live streams (of the same or different indicators and options), sequential or in parallel threads",
  "Tests run one stream at a time in one thread; static scratch state or aliasing shows only when two uses interleave with different options.",
  IND + ["utils/ringbuf.hh", "utils/buffer.c"], [("all state is in the stream object or on the stack", "each indicator")], [("stream object", "owns its ring buffers", "struct ti_<name>_stream")], API)

p("C06", "Option validation accepts exactly the meaningful options, in every entry point",
  "Each indicator has one domain of accepted options: outside it batch, reference and stream creation all return the invalid-option code, write no output, and give back no stream; inside it all of them accept. The verdict does not depend on the series.",
  ["inputs", "configurations"], "every indicator and every option vector made of boundary values (negative, zero, fractional, one, around each bound, orderings of pairs, large), with empty, short and long series, in every entry point",
  "Only one option vector per indicator is tried by smoke, and the fuzzer feeds a few values without looking at the return code.",
  IND, [("if (period < 1) return TI_INVALID_OPTION and the like", "each ti_<name>, ti_<name>_ref, ti_<name>_stream_new")], [], ["return codes"])

p("C07", "A failed allocation is reported and harmless",
  "If the n-th allocation made during a call fails, for any n, the call returns the out-of-memory code (or, if it did not need that memory, the correct result): no crash, no exception crossing the C interface, and nothing left allocated that the caller could not free. Other streams and later calls go on as if the call had not been made; a stream whose own run failed can only be freed, and a failed creation leaves nothing to free.",
  ["fault_sequences", "histories"], "every indicator and entry point, every accepted option vector tried, every index n of a failing allocation",
  "No test makes an allocation fail.", IND + ["utils/buffer.c", "utils/ringbuf.hh"],
  [("if (!stream) return TI_OUT_OF_MEMORY", "each ti_<name>_stream_new"), ("ti_buffer_new", "utils/buffer.c")], [], ["return codes", "allocation balance"])

p("C08", "Every history of calls gives back all the memory it took",
  "A batch call leaves no memory allocated; creating a stream, running it any number of times and freeing it leaves none either, whether or not the stream ever produced output; a refused creation leaves none.",
  ["histories"], "every indicator, accepted and refused option vector, entry point, and history of new/run/free with early ends",
  "Tests run without a leak checker and always to the end of the series.", IND + ["utils/buffer.c", "utils/ringbuf.hh"],
  [("ti_<name>_stream_free, delete", "each streaming indicator"), ("ti_buffer_free", "indicators using utils/buffer")], [], ["allocation balance"])

p("C09", "The registry finds every indicator by name and describes it truthfully",
  "Looking up a string returns the entry of the indicator with exactly that name and nothing for every other string; every entry names the right functions, the true numbers of inputs, options and outputs with null-terminated name lists, and stream functions for all or none; the table is complete, sorted and terminated.",
  ["inputs", "configurations"], "every string (names, prefixes, extensions, case changes, gaps between names, empty), and every entry of the table",
  "Tests look up names that exist, or one that does not.", ["codegen.py", "indicators.yaml"],
  [("ti_find_indicator binary search", "codegen.py"), ("ti_indicators[] sorted by name", "codegen.py")], [], ["ti_find_indicator", "ti_indicators", "ti_indicator_count", "TI_INDICATOR_<NAME>_INDEX"])

p("C10", "Ring buffers and running-window buffers behave as bounded queues",
  "For every capacity and every sequence of operations, reading the k-th most recent element, the element about to be evicted, running sums and window extremes of a ring buffer equal those of the list of everything pushed, cut to the capacity.",
  ["histories"], "every capacity and resize, every sequence of pushes and queries, values with ties", 
  "Buffers are only exercised through indicators, at the capacities and values of a few series; there is no unit test for them.", ["utils/ringbuf.hh", "utils/localbuffer.h", "utils/buffer.h", "utils/buffer.c"],
  [("pos, size, wrap-around", "utils/ringbuf.hh"), ("BUFFER_PUSH/AT/QUERY", "utils/localbuffer.h"), ("ti_buffer_push/qpush/get", "utils/buffer.h")], [], ["ringbuf<N>, ringbuf<2>, ringbuf<0>", "ti_buffer"])

p("C11", "The Python binding returns what the C library computes",
  "Calling an indicator from Python with arrays and keyword options gives, for each output, the C library's values padded in front to the length of the input; options and inputs reach the C call in their declared order; wrong names or counts, unequal lengths, and options the library refuses raise, and never return garbage; series no longer than the warm-up give only padding.",
  ["inputs", "configurations"], "every indicator, accepted and refused options, series of every length from 0 on, keyword order, array types",
  "The binding's tests exercise a few indicators on one series.", ["bindings/python/tindicators/impl.py", "bindings/python/setup.py"],
  [("generated functions around the ctypes/cffi call", "bindings/python/tindicators")], [], ["tindicators.<name>()"])

p("C12", "Code generation reproduces the index of indicators faithfully",
  "For any well-formed index the generator emits exactly one set of declarations, one index constant and one table entry per indicator, in name order, with the declared full name, type, counts, input, option and output names and exactly the extra entry points its features name, and null for the others; it writes a scaffold for every missing implementation file or missing entry point and leaves existing text as it is; running it twice changes nothing more; the bindings generated from the same index agree with it.",
  ["inputs", "programs"], "every index (any set, order and feature list of indicators; identifiers as names, ASCII text without quotes or backslashes as full names and labels), every state of the implementation files (missing, .c or .cc, with or without any of the entry points)",
  "Nothing tests the generators; only today's index is generated, in the order it has.", ["codegen.py", "docsgen.py", "indicators.yaml", "bindings/lean/generate-bindings.py"],
  [("to_be_done / implementation detection", "codegen.py"), ("sorted(indicators)", "codegen.py")], [], ["indicators.h", "indicators_index.c", "generated bindings"])

DEFS = {
 "C13": ("Per-bar and fixed-lag indicators compute their definition",
         "Every output of a pointwise or fixed-distance indicator equals its mathematical definition on the bars it names, for every series.",
         "Smoke compares one fixed series to three decimals."),
 "C14": ("Sliding-window statistics, regressions and weighted means are right",
         "At every bar each windowed statistic (sum, mean, deviation, regression, weighted or filtered mean) equals the value of its definition on exactly the last bars its period names, however long the series has been running.",
         "Running sums, eviction and special cases (flat windows, period 1, window equal to the series) are seen on one fixed series, to three decimals."),
 "C15": ("Window extremes and what is built on them are right",
         "At every bar the highest and lowest values of the window, their ages, and the oscillators built on them equal those of the last bars the period names, with ties and flat stretches resolved as documented by the definition.",
         "Incremental extreme tracking goes wrong only when the extreme leaves the window in a particular pattern, or with ties, which random walks do not have."),
 "C16": ("Recursive averages and filters follow their recurrence from their seed",
         "Every output of a recursive average or filter equals the value given by its published recurrence, coefficients and initial conditions, at every bar from the first output on.",
         "Three decimals on one series cannot separate slightly wrong seeds, coefficients for unusual periods, or drift."),
 "C17": ("Momentum oscillators compute their definition",
         "Every output of a momentum oscillator equals its definition from gains, losses, rates of change and averages of the bars it names, in rising, falling, flat and mixed markets.",
         "Degenerate markets (no gain, no loss, no movement) and unequal periods do not occur in the test series."),
 "C18": ("Volume and money-flow indicators accumulate exactly the bars they should",
         "Cumulative and windowed volume indicators add or subtract each bar's volume exactly as the comparison of that bar with its predecessor demands, ties and zero-range bars included.",
         "Ties, zero ranges and zero volumes do not occur in the test series."),
 "C19": ("True range, directional movement and volatility bands are right",
         "True range, directional movement, the indices and bands built on them, and trailing stops equal their definition at every bar, with gaps, inside bars, outside bars and ties.",
         "The series in the tests have no ties or reversals in particular places; trailing stops depend on the whole history of reversals."),
 "C20": ("Adaptive averages and cycle measurements follow their recurrence",
         "Adaptive averages and cycle indicators equal the value their published algorithm gives at every bar, including the clamping and smoothing of the measured period or factor.",
         "Only the typical path of the algorithm is visited by the test series; clamps and special cases are not."),
}
for id, (t, s, w) in DEFS.items():
    p(id, t, s, ["inputs", "histories", "configurations"],
      "every accepted option vector with whole-number periods and every finite series (random walks, trends, flats, ties, zeros, spikes), every bar; indicators: " + " ".join(FAMILIES[id]),
      w, ["indicators/%s.cc" % n for n in FAMILIES[id]] + ["indicators/simple1.h", "indicators/simple2.h"] * (id == "C13") + ["indicators/truerange.h", "indicators/dx.h"] * (id == "C19"),
      [("incremental computation", "each ti_<name>()")], [], ["outputs of ti_<name>()"])

p("C21", "Outputs stay in their range and bands in their order",
  "Bounded oscillators never leave their documented range (by more than rounding), lower, middle and upper outputs keep their order, window maxima and minima bracket the series, and averages with non-negative weights stay within the values they average.",
  ["inputs", "histories"], "every indicator with such a bound, every accepted option vector with whole-number periods, every finite series of consistent bars",
  "Tests compare values on fixed series and state no bound.", IND, [("clamps and definitions", "each indicator")], [], ["outputs of ti_<name>()"])
p("C22", "Reference and main implementations agree everywhere",
  "Wherever an indicator has a reference implementation, both accept the same options and compute the same outputs, up to rounding, for every series.",
  ["inputs", "configurations"], "every indicator with a reference implementation, every accepted option vector with whole-number periods, every finite series and length",
  "benchmark2 compares them on one random walk with tolerance 0.001.", IND, [("ti_<name>_ref", "each indicator with the ref feature")], [], ["ti_<name>()", "ti_<name>_ref()"])
p("C23", "No accepted call faults, hangs or reads outside its data",
  "For every accepted option vector and every finite series of any length, each entry point returns, reads only the bars and options it was given and memory it initialised, and performs no invalid memory access.",
  ["inputs", "histories", "configurations"], "every indicator and entry point, option vectors from the smallest accepted to periods far larger than the series (ten million), series from empty to long, extreme and tied values",
  "The tests run without sanitizers, on usual options and one length.", IND + ["utils/*"],
  [("bounds of the loops and buffers", "each indicator")], [], API)

with open(os.path.join(os.path.dirname(__file__), '../properties.jsonl'), 'w') as f:
    for x in sorted(P, key=lambda x: x['id']):
        f.write(json.dumps(x) + '\n')
