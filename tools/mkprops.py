import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
                     observe_at=observe or ["the public query methods of EbuR128 after every delivery"],hook_needed=hook)))
E="src/ebur128.rs";F="src/filter.rs";H="src/history.rs";T="src/true_peak.rs";I="src/interp.rs";U="src/utils.rs";C="src/capi.rs"
p("P01","Results do not depend on how the stream is split into deliveries",
 "Every measurement of an audio stream (momentary, short-term, custom-window and integrated loudness, relative threshold, gating block count and energy, loudness range, sample and true peaks) is the same no matter how the frames are split into consecutive add_frames calls, including one-frame, block-straddling, very large and empty calls. The peaks of the most recent call cover exactly the frames of that call. Filter warm-up by seed_frames is equally independent of how the seeded frames are split.",
 ["inputs","histories","configurations"],"all signals, all ways to fragment them into deliveries, all modes, channel counts, maps and sample rates",
 "Tests feed whole buffers or fixed-size chunks of a handful of signals; the number of fragmentations is exponential and only particular splits around block, ring-wrap and short-term boundaries expose lost or double-counted state.",
 [E,F,T,I],[("add_frames block splitting","src/ebur128.rs add_frames"),("filter state carry-over","src/filter.rs process/seed"),("interpolator delay line carry-over","src/interp.rs")],
 [dict(name="needed_frames/audio_data_index/short_term_frame_counter",meaning="position inside the current block, ring and short-term period",where=E)])
p("P02","Momentary, short-term and window loudness equal the model at any instant",
 "At any instant of any history of deliveries, resets and reconfigurations, momentary loudness is the K-weighted, channel-weighted mean power in LUFS of exactly the last 400 ms processed, short-term loudness that of the last 3 s and window loudness that of the last N ms (time before the first sample counts as silence, complete silence is -inf). A window that fits into the configured maximum window is always answered, one that cannot fit is refused with the invalid-mode error.",
 ["inputs","histories","configurations"],"all delivery histories and query instants, all channel counts/maps/rates/maximum windows",
 "Tests query once at the end of one 5 s file at 48 kHz; wrap-around of the ring buffer, queries in the middle of blocks, odd rates and resized windows are never combined.",
 [E,F],[("ring buffer of filtered samples","src/ebur128.rs energy_in_interval"),("windowed energy","src/filter.rs calc_gating_block")],
 [dict(name="audio_data",meaning="ring of filtered samples",where=E)])
p("P03","Integrated loudness and gating equal the BS.1770 model after any history",
 "After any history of deliveries the integrated loudness, relative threshold, and number and energy of gating blocks are those of the two-stage BS.1770 gate (-70 LUFS absolute, -10 LU relative) applied to all 400 ms blocks completed since the start or reset (one every 100 ms, the timing restarting with a reconfiguration): every completed block counts exactly once, no other data counts. In histogram mode the same holds with each block quantised to its 0.1 LU bin. With no block above the gates the integrated loudness is -inf and the relative threshold -70.",
 ["inputs","histories","configurations"],"all signals and delivery histories, both storage modes, arbitrarily many blocks",
 "Tests integrate one stationary or uniformly random signal, so both gates hardly ever reject something and at most a few hundred blocks are stored.",
 [E,H,F],[("block scheduling","src/ebur128.rs add_frames"),("gating","src/history.rs iter_gating_block_count_and_energy"),("histogram binning","src/history.rs find_histogram_index")],
 [dict(name="block_energy_history",meaning="energies of completed gating blocks",where=E)])
p("P04","Loudness range equals the EBU Tech 3342 model after any history",
 "After any history of deliveries the loudness range is the spread between the 10th and 95th percentile of the short-term (3 s) loudness values taken since the start or reset (one every second, the timing restarting with a reconfiguration) that survive the -70 LUFS absolute and the -20 LU relative gate. It is 0 when nothing survives. In histogram mode the same holds with each value quantised to its 0.1 LU bin.",
 ["inputs","histories","configurations"],"all signals and delivery histories, both storage modes, any number of short-term values",
 "The tests compute the range of stationary signals where it is 0 or of a few seconds of noise; percentile selection and relative gating with gaps, ties and few values are not reached.",
 [E,H],[("short-term scheduling","src/ebur128.rs add_frames"),("percentiles","src/history.rs loudness_range")],
 [dict(name="short_term_block_energy_history",meaning="energies of 3 s windows",where=E)])
p("P05","Peaks cover every delivered frame and channel, and never decrease",
 "The sample peak of a channel is exactly the largest absolute sample value delivered on it since the start or reset, and the true peak is the largest value of the (4x below 96 kHz, 2x below 192 kHz, otherwise not) oversampled signal or the sample peak if that is larger; both never decrease between resets, treat channels independently, include unused channels, and survive reconfigurations that keep the channels. The previous-call peaks are the same quantities over the frames of the latest call only. Oversampling continues seamlessly across call boundaries.",
 ["inputs","histories","configurations"],"all signals, fragmentations, channel counts, rates and reconfiguration histories",
 "Tests check the peak of a stationary sine; peaks at delivery boundaries, on specialised channel counts, after seeding, on unused channels and after reconfigurations are untested.",
 [E,F,T,I],[("sample peak","src/filter.rs process"),("true peak","src/true_peak.rs check_true_peak"),("interpolator","src/interp.rs")],
 [dict(name="sample_peak/true_peak/prev peaks",meaning="running and last-call maxima",where=E)])
p("P06","Seeded parallel chunk analysis equals one sequential pass",
 "Splitting a stream into chunks overlapping by 400 ms, seeding each worker's analyzer with the first 100 ms and combining the workers' analyzers gives the integrated loudness (and peaks, over workers) of a single sequential pass up to the remaining filter transient, for every chunk layout, assignment of chunks to threads, thread interleaving, and crash and restart of workers. Seeding, at any moment and however often, contributes nothing to any measurement: peaks, blocks, windows and the position in the audio stay as they were.",
 ["schedules","crash_points","inputs","histories"],"all chunk layouts, schedules, worker crash points and signals",
 "Two tests run one fixed layout, sequentially, on one signal.",
 [E,F,T,H],[("seed_frames","src/filter.rs seed, src/true_peak.rs seed"),("loudness_global_multiple","src/ebur128.rs")],None,
 ["loudness_global_multiple over all workers"],"preemption points inside add_frames/seed_frames (cfg ebur128_sim)")
p("P07","Combining analyzers equals analysing all their blocks together",
 "Combined integrated loudness and combined loudness range over any number of analyzers equal the result over the union of all their stored blocks, independent of order, storage-mode mix and source-iterator behaviour (an iterator that queries, advances or rebuilds other analyzers while it is consumed); for one analyzer they equal its own result, and over nothing they are -inf and 0. If any analyzer lacks the required mode, or range histories of both storage kinds are mixed, the query fails with the invalid-mode error. Combining changes none of the analyzers, even if the iterator unwinds.",
 ["inputs","histories","fault_sequences","configurations"],"all sets, orders and mode mixes of analyzers and all behaviours of the caller's iterator",
 "Tests combine at most a few analyzers of one kind with identical content.",
 [E,H],[("loudness_global_multiple/loudness_range_multiple","src/ebur128.rs"),("combined gating","src/history.rs iter_gating_block_count_and_energy, loudness_range_multiple")],None,
 ["loudness_global_multiple, loudness_range_multiple, gating_block_count_and_energy"])
p("P08","Analyzers are isolated from each other, and not tied to a thread",
 "The results of an analyzer depend only on the calls made on it: other analyzers being created, fed, queried, reset, combined or dropped on the same or other threads, preemption in the middle of any call, moving it to another thread between calls and concurrent read-only queries from several threads never change any of its results. Analyzers can be sent to and shared by reference between threads.",
 ["schedules","histories","configurations"],"all interleavings of operations on several analyzers and all thread placements",
 "Tests use one analyzer on one thread at a time; shared scratch state or caches would only show under particular interleavings.",
 [E,F,T,I,H],[("no shared mutable state","whole crate"),("Send/Sync","src/ebur128.rs EbuR128")],None,
 ["all queries of every analyzer, compared with the same calls made alone"],"preemption points inside the operations (cfg ebur128_sim)")
p("P09","Reset makes an analyzer indistinguishable from a new one",
 "After a reset at any point of any history an analyzer behaves, for every continuation, exactly like a newly created one with the same channels, rate, mode, channel map, maximum window and maximum history: no sample, block, peak, filter or interpolator memory or timing from before survives. Configuration is kept.",
 ["histories","inputs","configurations"],"all histories before and all continuations after the reset",
 "Tests reset once after a whole file and look at silence; leftover filter, interpolator, ring or counter state only shows with particular continuations.",
 [E,F,T,I,H],[("reset","src/ebur128.rs reset, src/filter.rs reset, src/true_peak.rs reset, src/interp.rs reset")],
 [dict(name="all mutable state of EbuR128",meaning="must be cleared",where=E)])
p("P10","Mid-stream reconfiguration keeps and drops exactly what is documented",
 "Changing channels or rate discards the unfinished block and all filter and window state but keeps completed blocks, resets the channel map (and peaks) exactly when the channel count changes, and otherwise leaves map, peaks, window and history settings alone; setting the current values changes nothing. Changing the maximum window empties the window buffer but keeps the measurement history, filters and peaks; it is clamped to the minimum of the mode (3000 ms short-term, 400 ms otherwise). Changing the channel map affects following blocks only, and the default map is the documented one.",
 ["histories","configurations","inputs"],"all sequences of reconfigurations at any point inside a block",
 "Only the trivial cases of change_parameters are exercised by tests, never with data before and after and never mid-block.",
 [E],[("change_parameters, set_max_window, set_channel_map, set_channel","src/ebur128.rs")],
 [dict(name="window, history, channel_map, counters",meaning="configuration and block position",where=E)])
p("P11","A history limit keeps exactly the newest blocks",
 "With a maximum history of N ms and without histogram mode, integrated loudness, relative threshold, gating counts and loudness range are those of the newest N/100 gating blocks and newest N/3000 short-term values at any time, whether the limit is set before, during or after analysis and however often it is raised or lowered; dropped blocks stay dropped and raising the limit invents none. The limit is clamped to 3000 ms if the loudness range is enabled and to 400 ms otherwise, and does not affect histogram mode.",
 ["histories","inputs","configurations"],"all sequences of limits and deliveries",
 "No test sets a history limit and then feeds or queries an analyzer through the public API.",
 [E,H],[("set_max_history","src/ebur128.rs"),("Queue","src/history.rs add, set_max_size")],
 [dict(name="Queue.queue/max",meaning="stored energies, oldest first, and limit",where=H)])
p("P12","Rejected requests return the documented error and have no effect",
 "Every invalid request (channel index or type, map of wrong length, channels or rate out of range, buffers that do not hold whole frames, planar data with ragged planes or wrong plane count, queries without their mode, windows that do not fit) returns its error, never panics, and leaves the analyzer exactly as if the request had not been made. Empty deliveries succeed without effect on accumulated results.",
 ["inputs","histories","fault_sequences"],"all invalid requests at all points of all histories",
 "Tests contain almost no invalid calls, and none in the middle of an analysis with a comparison of everything afterwards.",
 [E,U],[("validation","src/ebur128.rs new/set_channel/set_channel_map/change_parameters/add_frames/queries"),("Interleaved::new, Planar::new","src/utils.rs")],None)
p("P13","Running out of memory for a large buffer is reported and changes nothing",
 "If memory for the window buffer (on creation, on changing parameters or on changing the maximum window) or for sorting the history (loudness range queries) cannot be allocated, the call returns the out-of-memory error instead of terminating the process, the analyzer and all its results and configuration stay exactly as before, and the same request succeeds once memory is available.",
 ["fault_sequences","histories","configurations"],"all points of allocation failure of large buffers in all histories",
 "Tests run with a working allocator.",
 [E,H],[("allocate_audio_data","src/ebur128.rs"),("loudness_range_multiple","src/history.rs")],None,
 ["return values and all queries after injected allocation failures"])
p("P14","Corrupt samples stay contained and a reset recovers completely",
 "NaN, infinite, denormal, huge or bit-flipped samples in a delivery never panic, hang, corrupt memory or affect other analyzers, the running peaks of other channels, or blocks completed before. NaN samples never become a sample or true peak and never hide the peaks around them, infinite ones make their channel's sample peak infinite, and an integrated result over a NaN block is NaN without histogram mode. After a reset the analyzer is exactly like new.",
 ["fault_sequences","inputs","histories"],"all corruption patterns at all positions of all histories",
 "Tests only feed finite samples of ordinary amplitude.",
 [F,T,H,E],[("peak comparisons","src/filter.rs, src/true_peak.rs"),("NaN handling","src/history.rs"),("reset","src/ebur128.rs")],None)
p("P15","The caller's floating-point environment is preserved and irrelevant",
 "Every call returns with the caller's floating-point control settings (rounding, exception masks, flush-to-zero and denormals-are-zero) exactly as they were, on success and on error, and results do not depend on whether the caller enabled flush-to-zero or denormals-are-zero, nor on which thread with which settings makes the calls.",
 ["histories","configurations","fault_sequences","schedules"],"all floating-point environments at all points of all call sequences, and all thread placements",
 "Tests never look at or change the floating-point environment.",
 [F,T],[("with_ftz scope guard","src/filter.rs ftz")],None,["MXCSR before and after every call"])
p("P16","The C API behaves like the Rust API and reports documented codes",
 "Any sequence of C API calls has exactly the effect and results of the corresponding Rust calls: values are identical, failures return the documented code (1 out of memory, 2 invalid mode, 3 invalid channel, 4 no change), nothing is written to an output on failure, the public state fields always describe the current configuration, the version reported is that of the C library it stands in for (1.2.6), and init returns NULL and destroy clears the handle. Extreme but representable arguments (null or empty buffers with zero frames, any integer channel type, window, history or rate value) are answered with a code and never misbehave. Everything allocated by init is released by destroy.",
 ["histories","inputs","fault_sequences"],"all sequences and arguments of C calls",
 "The C test program calls a handful of functions once with valid values.",
 [C],[("ebur128_* functions","src/capi.rs")],[dict(name="ebur128_state.channels/samplerate/mode",meaning="public mirror of the configuration",where=C)],
 ["return codes, outputs and state fields, against a Rust twin"])
p("P17","Memory is conserved: no leaks and no growth where bounded",
 "Dropping an analyzer releases everything it allocated after any history, including failed calls and worker crashes. Feeding an analyzer in histogram mode, with a history limit, or in a mode without integrated loudness keeps its memory bounded independent of stream length, and reset, queries and repeated reconfiguration to the same settings do not accumulate memory.",
 ["histories","fault_sequences","configurations"],"all histories, however long",
 "Tests do not observe the allocator and never run long enough to see growth.",
 [E,F,H,T],[("Queue bound","src/history.rs add, set_max_size"),("buffer ownership","src/ebur128.rs")],None,["an allocation ledger around every call"])
p("P18","Queries are pure",
 "No query, in any number and order, successful or failing, at any instant, changes any later result: an analyzer that is queried between deliveries stays identical to one that is not, and asking again gives the identical answer, also when several threads query it concurrently.",
 ["histories","schedules","inputs"],"all interleavings of queries with deliveries and with each other",
 "Tests query once at the end.",
 [E,H],[("&self queries","src/ebur128.rs loudness_*, *_peak, relative_threshold, gating_block_count_and_energy")],None,None,"preemption points inside queries (cfg ebur128_sim)")
p("P19","Every accepted configuration works: no panics, hangs or spurious errors",
 "An analyzer can be created exactly for 1 to 64 channels, 16 Hz to 2.8224 MHz and modes that include at least one measurement, and then every valid delivery succeeds, every query of an enabled measurement is answered, and every query of a measurement that is not enabled (short-term counts as enabled once the maximum window is 3 s) is refused with the invalid-mode error, in every call order including reconfiguration between any two accepted configurations. All calls terminate after work bounded by the amount of data.",
 ["configurations","histories","inputs"],"all accepted configurations, and histories moving between them",
 "Tests run a few common rates, two channels and all modes at once.",
 [E,F,U,T],[("validation and buffer sizing","src/ebur128.rs new, allocate_audio_data"),("assertions","src/filter.rs, src/true_peak.rs")],None)
p("P20","Sample type and memory layout do not change the measurement",
 "Delivering the same samples as 16-bit, 32-bit, float or double, interleaved or planar, and switching between these within a stream at any point, gives the same loudness, threshold, range and peaks up to rounding; full scale of every type corresponds to 1.0. Channel order and content are never mixed up, so a channel's peaks and loudness contribution do not depend on what the other channels carry.",
 ["inputs","histories","configurations"],"all signals, channel counts and sequences of formats and layouts",
 "Tests use one format per stream, with identical signals on all channels.",
 [U,F,T,I],[("Sample conversions, Interleaved, Planar","src/utils.rs"),("specialised channel layouts","src/true_peak.rs, src/interp.rs")],None)
# pure functions: listed for completeness, not applicable
p("P21","Measured values agree with the ideal analogue definitions",
 "The K-weighting response, the true-peak estimate and the gating meet the accuracy required by ITU-R BS.1770, EBU Tech 3341 and Tech 3342 for ideal reference signals at every supported sample rate.",
 ["inputs","configurations"],"all reference signals and sample rates",
 "Needs reference audio that is not shipped, tests skip it.",
 [F,I],[("filter_coefficients","src/filter.rs"),("interpolation kernel","src/interp.rs")])
p("P22","Energy/loudness conversion and histogram tables are consistent",
 "Conversion between energy and LUFS is monotone and consistent with the tables of histogram bin centres and boundaries over their whole range.",
 ["inputs"],"all energies","Only compared with C tables at sampled values.",
 [U,"src/histogram_bins.rs"],[("energy_to_loudness","src/utils.rs"),("BOUNDARIES, ENERGIES","src/histogram_bins.rs")])
p("P23","No data races under the weak memory model",
 "Concurrent use of distinct analyzers, and concurrent read-only use of one analyzer, is free of data races.",
 ["schedules"],"all executions under the Rust memory model","Nothing runs concurrently in the tests.",
 [E,F,H],[("no interior mutability","whole crate")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
