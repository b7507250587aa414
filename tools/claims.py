T = "TLA+ (TLC): "
CLAIMS = {
 "C01": (T + "RoundTrip.tla judges recorded encode/decode runs of the real code block by block", "model_checking",
         "Bounded: random and small-scope exhaustive clouds of all layouts, versions, modes; large multi-chunk clouds. Trusts the byte/number glue and that ASan builds behave like the release build."),
 "C02": (T + "RoundTrip.tla (half step, NaN kept) judges recorded encode/decode runs", "model_checking",
         "Bounded as C01; the error in millionths of a resolution is computed with rational arithmetic outside TLA+."),
 "C03": (T + "Header.tla reads the bytes/lines the real writer produced and judges the real reader on them, on every cut and on damaged magic/version", "model_checking",
         "Bounded: random and boundary descriptions, all cut positions of short headers."),
 "C04": (T + "Frames.tla walks the real payloads; FramesGen.tla enumerates all arrangements of chunks, replayed into the real decoder", "model_checking",
         "Exhaustive over arrangements of up to 2-3 full chunks plus a partial one; contents sampled."),
 "C05": (T + "EncoderConc.tla (protocol of the compression worker, refines EncoderApi.tla) is model checked; the real encoder runs under a controlled scheduler and EncoderTrace.tla judges every recorded history", "model_checking",
         "Model: up to 3 chunks, exhaustive. Code: depth-first schedules with bounded preemptions, random schedules and schedules taken from TLC behaviours, sequentially consistent interleavings at synchronisation operations."),
 "C06": (T + "EncoderConc.tla with failures of compression, thread creation and allocation; the real encoder runs under a controlled scheduler with injected failures, EncoderTrace.tla judges the histories", "model_checking",
         "As C05, with every single failure point (and pairs) of small calls injected."),
 "C07": (T + "History.tla enumerates call histories (all pairs, long random ones) replayed on reused encoder/decoder objects; every outcome must be that of a new object", "model_checking",
         "All histories of length 2 (3 in thorough) over 16 kinds of call, simulated ones of length 9, for sampled descriptions and clouds."),
 "C08": (T + "Bounds.tla judges recorded encode calls into buffers of exact capacities with adversarial clouds; ASan reports accesses outside", "model_checking",
         "Bounded: sampled capacities and adversarial values per coding; out-of-bounds accesses are observed through AddressSanitizer."),
 "C09": (T + "WireTrace.tla decides for every byte string whether it has a meaning; the real decoder must throw when it has none and stay in bounds (ASan)", "model_checking",
         "Small-scope strings over a boundary alphabet, assembled column sections, damaged real streams and headers."),
 "C10": (T + "Frames.tla: all cuts, extensions and redeclared sizes of real payloads must be refused", "model_checking",
         "Every cut position of small payloads, cuts around every chunk boundary of large ones, all arrangements from FramesGen.tla."),
 "C11": (T + "WireGen.tla generates legal streams replayed into the real decoder; WireTrace.tla reads what the real encoder writes; Header.tla its headers", "model_checking",
         "Random behaviours of the generator (all codings, split runs, odd palettes, skip fields) and random clouds; LZ4/ZSTD themselves trusted."),
 "C12": (T + "WireTrace.tla (StoresDeclared) checks every byte of the output buffer after real decodes, with fields marked as not stored", "model_checking",
         "Generated streams, every field type x version x mode x position marked, random layouts with gaps; ASan reports accesses outside the buffer."),
 "C13": (T + "ColumnChoice.tla computes the size of all four codings value by value and inspects the recorded chunks of the real encoder", "model_checking",
         "Bounded: small-scope exhaustive columns, near-tie random columns, columns that change after the probe."),
 "C15": (T + "Cdr.tla's writer and reader machines lay out every value; bytes, values, truncations and header decisions of the real nanocdr must agree", "model_checking",
         "Bounded: all sequences of up to 3 values over 15 shapes, pairs of all kinds sampled, long random sequences; every truncation; all header bytes."),
 "C14": (T + "RosMsg.tla lays out the three messages byte for byte and judges the real conversions, every truncation included; RoundTrip.tla judges the data", "model_checking",
         "Bounded: random messages of all layouts, all frame/name lengths modulo 8, cut positions all (short) or sampled (long). One element per field; several elements are a known finding."),
 "C16": (T + "Profile.tla decides field by field what a profile does; the real result on every small field list and profile must agree; RosMsg/RoundTrip judge the clouds encoded after it", "model_checking",
         "Exhaustive over lists of up to 2 fields (3 sampled in quick, all in thorough) x all profiles over two names; random longer ones."),
 "C17": (T + "Viz.tla runs over the points with exact rational voxels and decides which survive; the real output must be those bytes", "model_checking",
         "Random clouds up to 2500 points, near and far voxels, all ways a cloud can lack the triple; coordinates whose voxel depends on float rounding are left out."),
 "C18": (T + "OwnViewGen.tla enumerates histories of copies, moves and destructions replayed on real messages under AddressSanitizer; OwnViewTrace.tla follows the recorded views", "model_checking",
         "All histories of 4 (thorough 5) operations on two messages, simulated ones of up to 10 operations on three."),
 "C19": (T + "Pcl.tla walks over the fields of every conversion (generic clouds, typed points, PCD headers) and decides the result; RoundTrip.tla judges the data", "model_checking",
         "Bounded: random clouds of all PCL types, four point types (two of them specialised in the harness), generated PCD files. One element per field."),
 "C20": (T + "CApi.tla is the state machine of one call of the C interface (read, check sizes, call the library, fit into the caller's buffer); every recorded call must return what the machine returns, its bytes those of the library", "model_checking",
         "Bounded: random messages, payloads and headers, valid, damaged and contradictory, and calls in random order in one process; 64-bit address space instead of WebAssembly's."),
 "C21": (T + "Bag.tla takes the messages of the input and of the output bag in lockstep and discovers which channel stands for which; ProfileText.tla reads profiles character by character; the clouds inside are judged by RosMsg.tla and RoundTrip.tla", "model_checking",
         "Bounded: random bags converted with a stand-in for the mcap library (reading order, lifetimes and failures of the real one, other file format); attachments are not covered."),
 "C22": (T + "Plugin.tla is the pair of plugins (configuration, encode, decode, metadata checks) over a history of messages; RosMsg.tla lays out the messages and RoundTrip.tla judges the points", "model_checking",
         "Bounded: random clouds, resolutions and histories through the real plugins built against stand-ins of the ROS headers; all single contradictions of the metadata of sampled messages."),
 "C23": (T + "PoolConc.tla (the pool and its lock) is model checked; PoolGen.tla enumerates histories of a user, replayed on the real subscriber and judged by PoolTrace.tla; under a controlled scheduler that watches every memory access of the subscriber's code, PoolSched.tla judges the recorded histories", "model_checking",
         "All histories of 4 (thorough 5) steps with three held clouds, simulated ones of up to 60 steps with twelve; schedules: depth-first with bounded preemptions and random, up to three user threads; built against stand-ins of the ROS headers."),
 "C24": (T + "Node.tla is the state machine of the topic converter (offers, listeners, messages); every recorded run of the real node must be a behaviour of it, what it published judged by RosMsg.tla and RoundTrip.tla", "model_checking",
         "Bounded: random histories through the real node built against stand-ins of the ROS headers (one thread, as its executor)."),
 "C25": (T + "FrontGen.tla enumerates histories of calls replayed on the real Python decoder; Front.tla follows the blocks of the module's memory and decides the value of every call", "model_checking",
         "All histories of 3 (thorough 4) calls over 6 kinds, simulated ones of 14; the WebAssembly module is the real C interface compiled natively behind a stand-in of wasmtime."),
 "C26": (T + "FrontGen.tla enumerates histories of calls replayed on the real converter; Front.tla follows the blocks of the module's memory and decides the value of every call", "model_checking",
         "All histories of short calls, simulated longer ones; the WebAssembly module is the real C interface compiled natively as a Node addon; headers of at most 64 KB."),
 "C27": (T + "Cli.tla is the step of the file system one command makes (which file is read, which is written, when nothing may change); CliGen.tla checks its safety over all short histories and generates commands, replayed on the real tool in a scratch directory and judged by CliTrace.tla", "model_checking",
         "All single commands of a reduced option set (quick: a sample), simulated histories of 5 commands over a dozen files with random names; built against stand-ins of the mcap and cxxopts libraries; what a conversion must contain is taken from the library (see C21)."),
 "C28": (T + "PcdCli.tla is the step of the file system one command makes; PcdGen.tla checks it over short histories and generates commands, replayed on the real tool in a scratch directory and judged by PcdTrace.tla; the decoded contents are judged by RoundTrip.tla", "model_checking",
         "All single commands of a reduced option set (quick: a sample), simulated histories of 4 commands; binary PCD files of up to 300 points with COUNT 1; PCL 1.14."),
 "C29": (T + "CutCli.tla defines the cut of a bag and the step of the file system one command makes; CutGen.tla checks laws of cutting (cutting twice is cutting once) over short histories and generates commands, replayed on the real tools in a scratch directory and judged by CutTrace.tla", "model_checking",
         "All single commands of a reduced option set (quick: a sample), simulated histories of 5 commands; bags of up to 15 messages; built against stand-ins of the mcap and cxxopts libraries; clouds of less than 4 GB."),
 "C30": (T + "WebPage.tla is the page as a state machine (file under way, open dialogs, what is shown), checked over all short histories; WebGen.tla generates histories of the user and the event loop, replayed on the real page and judged by Web.tla, which computes what each file's page has to show", "model_checking",
         "Simulated histories of 6, 14 and 40 actions over four random files; the browser's document, the mcap packages and the WebAssembly module are stand-ins (the last one returns prescribed compressed sizes and watches its memory)."),
 "C31": (T + "Listing.tla takes the messages of a bag in time order against the listing the real script printed and decides every entry, the limit, the count and the exit status", "model_checking",
         "Random bags of up to 12 messages; built against stand-ins of mcap (reading order, optional summary, failures) and wasmtime (the real C interface compiled natively); clouds without points are left out."),
 "C32": (T + "Bench.tla takes the messages of a bag in the order in which it is read, sums up what is measured per topic and mode, and decides every figure of the report the real tool printed; an invariant ties the sums together", "model_checking",
         "Random bags of up to 40 messages with random options; built against stand-ins of the mcap and cxxopts libraries; sizes of encodings and decoded points are the library's own (see C01, C02, C17); measured times only have an upper bound."),
 "C33": (T + "TextHeader.tla reads the characters of generated headers line by line and decides what the real parser returned: the description that is spelt out, or an error where something is missing or no value; texts outside the subset get no verdict", "model_checking",
         "Random headers (3000 quick) over the layouts, values and defects listed; the bits of the resolutions that are numbers are given to the specification; tabs as indentation, nested or repeated keys and lists inside items are left open (crashes are still violations)."),
}
NA = {}
