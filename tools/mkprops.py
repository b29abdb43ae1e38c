import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],state=state or [],hook_needed=None)))

p("C01","Counters never lose or misapply an increment",
 "However many threads increment the same counter concurrently, through any access route (plain counter, labelled counter, shared guard or exclusive guard), the counter's value afterwards is its earlier value plus exactly the amounts asked for. Plain increment adds one, increment-by adds exactly its argument, and neither touches any other counter.",
 ["schedules","inputs","histories"],"all interleavings of increments on one or many counters, all 64-bit amounts, every public increment entry point",
 "Tests run single-threaded with a few amounts; a split load/store, a dropped update on one access route or a wrong operand shows only under contention or on the untested route.",
 ["core/src/metric/counter.rs","core/src/metric.rs"],
 [("one atomic read-modify-write per shared increment","CounterState::inc, CounterState::inc_by"),("exclusive in-place add under &mut","CounterMut::inc, CounterMut::inc_by"),("vec routing","CounterVec::{inc,inc_by,inc_mut,inc_by_mut}")],["Counter*, CounterVec* public methods"])
p("C02","Gauges apply exactly the requested update, atomically",
 "Incrementing, decrementing and setting an integer or floating-point gauge through any access route changes it by exactly +1, +x, -1, -x, or to exactly x. Concurrent updates of the same gauge are never lost: each increment or decrement is applied to the value it actually replaced, a failed compare-exchange is retried with what the cell was seen to hold, and a set is one store.",
 ["schedules","inputs","histories"],"all interleavings, all 64-bit integer and f64 arguments, every public gauge update entry point (shared, labelled, exclusive)",
 "A compare-exchange loop that ignores failure, reuses a stale value or compares against the wrong word passes every single-threaded test; gauge decrement and exclusive routes are not tested at all.",
 ["core/src/metric/gauge.rs"],
 [("atomic add/sub/store","GaugeLockGuard::{inc,inc_by,dec,dec_by,set}"),("compare-exchange loop on bit patterns","AtomicF64::inc_by, AtomicF64::dec_by"),("exclusive updates","GaugeMut, FloatGaugeMut, AtomicF64::{get_ex,set_mut}")],["Gauge*, FloatGauge* public methods"])
p("C03","At most one live cell per label group, under every schedule",
 "However threads interleave first use, later use and removal of the same label group on a hashed (sparse) family, at no time does the family hold two cells for it, an existing cell is never replaced by a fresh one, and the cell handed to the caller is the one stored in the family. However removals interleave, asking for a cell hands one out and does not fail part-way. While a caller holds a shared guard, its cell cannot be removed or moved.",
 ["schedules","histories"],"all interleavings of get, remove and scrape on a sparse family",
 "The race window between the optimistic read lookup and the write lock is a few instructions wide and no test is multi-threaded.",
 ["core/src/metric/sparse.rs","core/src/metric.rs"],
 [("read-locked lookup, then re-check under the write lock before insert, downgrade without releasing","ShardedMap::get_metric"),("removal under write lock","ShardedMap::remove_metric"),("guard owns the shard lock","MetricLockGuard/SparseLockGuard"),("OnceLock cell","VecInner::Dense")],["MetricVec::get_metric","MetricVec::remove_metric"])
p("C04","Every access route addresses the same cell for a label group",
 "For a given label group, shared access, exclusive access, removal and rehashing during growth all use the same hash, the same shard and full key equality, so a value recorded through one route is seen through every other; distinct label groups never share a cell. The shard chosen is in range for every hash value and shard count.",
 ["inputs","histories","configurations"],"all label keys, all 64-bit hashes, all shard counts the constructor can choose, all table growth points",
 "Two sibling lookups that disagree on the shard or rehash function only diverge for some hashes or after a table grows; tests use a handful of keys on one machine's shard count.",
 ["core/src/metric/sparse.rs","core/src/metric.rs"],
 [("shard index computation","ShardedMap::{get_metric,remove_metric,get_metric_mut}"),("shift derivation","ShardedMap::new"),("hash at id creation and on rehash","MetricVec::try_with_labels, insert_unique closures")],["MetricVec::{get_metric,get_metric_mut,remove_metric}"])
p("C05","Label-group encoding is injective and decoding inverts it",
 "For every label-group shape and every choice of label values the set accepts, decoding the encoded identifier yields exactly the original value of every label, so two different label groups never map to the same metric. A group containing a value outside its fixed set is rejected, never mapped onto another group.",
 ["inputs","programs"],"all label-set shapes the derive and composition support (static, fixed, dynamic, mixed, composed, wrapped), all in-range member indices, all cardinalities (a group whose identifier is not representable is rejected)",
 "Tests decode a dozen groups of two shapes; a radix or field-order slip needs particular shapes or particular value combinations.",
 ["derive/src/label_group/to_tokens.rs","core/src/label/group.rs","core/src/label/value.rs","core/src/label/impls.rs"],
 [("mixed-radix encode / decode","SetEncode, SetDecode"),("composition","ComposedGroup as LabelGroupSet"),("per-label sets","StaticLabelSet, IndexSet, RodeoReader, ThreadedRodeo, OrderedSet, Arc")],["LabelGroupSet::{encode,decode,encode_dense,decode_dense}"])
p("C06","Dense storage is sized to and indexed within the set cardinality",
 "A family stored as an array has exactly as many cells as its label set can represent (the overflow-checked product of its per-label cardinalities), every accepted label group maps to an index inside that array, and different groups map to different indices. Label sets with any unbounded label, or whose product overflows, report no fixed cardinality.",
 ["inputs","programs","configurations"],"all label-set shapes and cardinalities, including products that overflow and empty sets",
 "Tests exercise cardinality 3, 6 and 12; overflow and composed shapes are out of their reach.",
 ["core/src/metric.rs","core/src/label/group.rs","derive/src/label_group/to_tokens.rs"],
 [("cardinality product with checked_mul","cardinality() generated and composed"),("allocation","new_dense"),("index","MetricVec::try_with_labels, ComposedGroup::encode_dense")],["MetricVec constructors, with_labels"])
p("C07","A scrape reports every live metric exactly once with its own labels",
 "Collecting a family announces its type once, before any sample, and then samples every cell that exists when its shard is visited exactly once, each with the label group that was used to reach that cell, that family's metadata and the family's name; cells never touched are not reported in dense families. An empty optional family or group produces nothing.",
 ["inputs","histories","programs"],"all contents of dense and sparse families, all label shapes, all encoders",
 "Tests compare a few rendered strings; a skipped shard, an off-by-one on the index or labels taken from another cell need particular contents.",
 ["core/src/metric.rs","core/src/metric/group.rs"],
 [("dense walk with index decode","MetricVec::collect_family_into"),("sparse walk under shard read lock","MetricVec::collect_family_into"),("single metric","Metric::collect_family_into"),("optional","Option<M>::collect_family_into / collect_group_into")],["MetricFamilyEncoding::collect_family_into"])
p("C08","An observation lands in exactly the first bucket whose bound is not below it",
 "For every observed value, including infinities and NaN, and every number of thresholds, observing increments exactly one bucket by one: the first bucket whose upper bound is greater than or equal to the value, or the +Inf bucket if none is; a NaN is below no bound and belongs to +Inf. The value is added to the sum exactly once, through shared and exclusive access alike.",
 ["inputs","histories"],"all f64 values, all bucket counts and strictly increasing thresholds, every observe entry point",
 "Tests observe six values; boundary-equal values, NaN and the exclusive route are not covered.",
 ["core/src/metric/histogram.rs"],
 [("bucket selection","HistogramLockGuard::observe, HistogramMut::observe"),("counter and sum update","HistogramStateInner::observe, observe_mut")],["Histogram*, HistogramVec* observe"])
p("C09","A histogram sample is a consistent snapshot",
 "A scrape of a histogram never sees an observation half applied: the bucket counts, the +Inf count and the sum it reports all include exactly the same set of observations. Observers may run concurrently with one another but never overlap a sample, and every observer's update happens within one uninterrupted shared acquisition. Taking a sample changes nothing in the histogram.",
 ["schedules"],"all interleavings of observers and samplers on one histogram",
 "Needs an observer to be preempted between the bucket and the sum update; no test is concurrent.",
 ["core/src/metric/histogram.rs","core/src/text.rs"],
 [("observe under shared lock","HistogramLockGuard::observe"),("sample requires exclusive access","HistogramStateInner::sample(&mut self)"),("sampling under write lock","HistogramState::collect_into")],["HistogramState::collect_into"])
p("C10","Rendered histograms are cumulative and self-consistent",
 "For every histogram contents and bucket count, the rendered bucket lines carry the thresholds in order, each with the total number of observations at or below it, followed by one +Inf bucket equal to the count line and one sum line carrying the sampled sum. Every line carries the series' own labels before the bound label, and only bucket lines carry the bound.",
 ["inputs"],"all bucket contents (u64), all numbers of thresholds, all label groups",
 "Tests render one histogram; a bucket that resets the running total or a count that omits +Inf can pass with the sampled contents.",
 ["core/src/text.rs"],
 [("running total","HistogramState<N>::collect_into for TextEncoder"),("le label composition","HistogramLabelLe, compose_with")],["TextEncoder output"])
p("C11","A timer records exactly once unless forgotten",
 "A started timer records its elapsed time, in seconds, exactly once into the histogram and label group it was started for: when it is observed explicitly or when it is dropped, never both, and a forgotten timer records nothing. Explicit duration and since-instant observations record exactly that duration in seconds, and return it where a return is offered.",
 ["programs","histories"],"all uses of the timer and duration APIs on every exit path",
 "No test uses timers at all; double recording appears only on the observe-then-drop path.",
 ["core/src/metric/histogram.rs"],
 [("Option taken on observe/forget, consulted on drop","HistogramTimer, HistogramVecTimer"),("seconds conversion","observe_duration, observe_duration_since")],["HistogramTimer, HistogramVecTimer public methods"])
p("C12","Label values are escaped losslessly in the text format",
 "For every label value string, the text between the quotes is that string with each backslash, double quote and newline replaced by its two-character escape and every other byte copied unchanged and in order, so no value can close its quotes or end its line. Text label values of every supported type (str, String, references) are handed over unchanged, and numeric label values render as their decimal form, with +Inf, -Inf and NaN for the special floats.",
 ["inputs"],"all UTF-8 strings, all i64 and f64 label values",
 "One example string is tested; adjacency, leading/trailing specials and each special's mapping are not.",
 ["core/src/text.rs"],
 [("scan-and-copy escaping","write_label_str_value"),("label value visitor","TextEncoder write_metric_value Visitor")],["TextEncoder output"])
p("C13","HELP and TYPE lines are single, well-formed lines",
 "For every metric name and every help text, the help line is one line: '# HELP ', the name, a space and the help text with backslashes and newlines escaped. The type line is '# TYPE ', the name, a space and the lower-case keyword of that metric's own type.",
 ["inputs","programs"],"all help strings, all metric types and names",
 "Tests use newline-free help only; a help text with a newline breaks the exposition format.",
 ["core/src/text.rs"],
 [("help line","TextEncoder::write_help"),("type line","TextEncoder::write_type, MetricEncoding::write_type impls")],["TextEncoder output"])
p("C14","Every text exposition follows the line grammar",
 "Whatever metrics are collected and in whatever order, the text output is a sequence of complete lines: comment lines, sample lines of the form name, optional brace-delimited comma-separated label=\"value\" list, space, value, newline, and blank lines only as separators between families. No label list is opened without being closed, empty label groups print no braces, and families are separated by exactly one blank line.",
 ["inputs","histories","programs"],"all sequences of encoder calls, all label groups (zero, one or more labels), all metric kinds",
 "Tests compare two complete documents; other label counts and call orders are unexplored.",
 ["core/src/text.rs"],
 [("sample line","TextEncoder::write_metric_value"),("family separation state","TextEncoder::state in write_help/write_type/write_metric_value")],["TextEncoder output"])
p("C15","Encoder write errors are never swallowed",
 "If the underlying writer or encoder fails at any point of a scrape, the scrape stops writing at once and returns that error to the caller; it never reports success for output that is incomplete. This holds on every write, in every metric kind, label, group, namespace and collector.",
 ["fault_sequences","inputs"],"a failure injected at every single write or encoder call on every path",
 "Tests write only to infallible memory buffers, so no error path ever executes.",
 ["core/src/text.rs","core/src/metric.rs","core/src/metric/group.rs","core/src/metric/name.rs","derive/src/metric_group/to_tokens.rs","process/src/lib.rs","tokio/src/lib.rs","prometheus-proto/src/lib.rs"],
 [("? propagation on every write","all Encoding/MetricEncoding/MetricGroup implementations")],["Result of collect_group_into / collect_family_into / flush"])
p("C16","Only valid metric and label names can exist",
 "A string becomes a metric name only if it matches [a-zA-Z_:][a-zA-Z0-9_:]*, and a label name only if it matches [a-zA-Z_][a-zA-Z0-9_]*; every constructor, const or fallible, panicking or returning an error, accepts exactly that language. There is no other way to obtain a name value.",
 ["inputs","programs"],"all strings, every name constructor and namespace constructor",
 "Only valid names appear in tests; each rejected byte class and position is unexplored, and two sibling validators can disagree.",
 ["core/src/metric/name.rs","core/src/label/name.rs"],
 [("validators","const_assert_metric_name, try_assert_metric_name, assert_label_name"),("construction only after validation","MetricName::{from_str,try_from_str}, LabelName::from_str, WithNamespace::new, in_namespace")],["MetricName, LabelName constructors"])
p("C17","Safe API: unsafe code is confined and layout-justified",
 "No safe use of the library can cause undefined behaviour: the only unsafe operations are the two string-newtype reference conversions, whose source and target types have identical guaranteed layout, and system calls that read process-wide constants. No other unsafe block, transmute or raw-pointer write exists in the library crates.",
 ["programs","inputs"],"all safe client programs",
 "Undefined behaviour from a layout assumption is invisible to tests on one compiler version.",
 ["core/src/metric/name.rs","core/src/label/name.rs","process/src/lib.rs"],
 [("repr(transparent) newtypes","MetricName, LabelName"),("libc calls","process::clk_tck, pagesize, for_self")],["whole workspace"])
p("C18","A name's announced length equals the bytes it writes",
 "For every metric name, with any nesting of namespaces and any suffix, the announced encoded length is exactly the number of bytes the encoding writes: the namespace, an underscore, the name, and the suffix, in that order.",
 ["inputs","programs"],"all names, all nestings of namespace and suffix wrappers, all suffix kinds",
 "Length-prefixed encodings corrupt silently only for the wrapper or suffix whose length is wrong; tests use one suffix.",
 ["core/src/metric/name.rs"],
 [("paired methods","MetricNameEncoder::{encode_utf8,encode_len}, Suffix::{encode_text,encode_len}")],["MetricNameEncoder implementations"])
p("C19","Protobuf length prefixes match their contents",
 "In every protobuf message produced, each length prefix equals the number of bytes that follow for that field, at every nesting level (family, metric, label pair, counter, gauge, string), and varint encoding and varint length agree for every 64-bit value. No field is truncated or padded.",
 ["inputs","histories"],"all names, helps, label groups and values, all message sizes",
 "Tests encode short strings whose lengths all fit one varint byte; multi-byte lengths and mixed label kinds are unexplored.",
 ["prometheus-proto/src/encoding.rs","prometheus-proto/src/lib.rs"],
 [("length pre-pass vs emission","GroupLenVisitor/LenVisitor vs GroupVisitor/Visitor, encode_message, message_len"),("varint","encode_varint, encoded_len_varint"),("family prefix back-patching","flush_buf")],["ProtoEncoder output"])
p("C20","Protobuf fields carry the schema's tags, wire types and enum values",
 "Every field written follows the Prometheus client schema: family name 1, help 2, type 3, metric 4; label pair name 1 and value 2 in label 1; gauge in metric field 2 and counter in field 3 with a double value 1; counter type 0, gauge type 1, each with the matching wire type. The value is the metric's own value and the labels are its own.",
 ["inputs","programs"],"all metric kinds the protobuf encoder supports, all labels and values",
 "Tests decode two families; a swapped field or type in the third kind is unseen.",
 ["prometheus-proto/src/lib.rs","prometheus-proto/src/encoding.rs"],
 [("field emission","MetricEncoding<ProtoEncoder<W>> for CounterState, GaugeState, FloatGaugeState"),("key encoding","encode_key, WireType")],["ProtoEncoder output"])
p("C21","Each protobuf family message carries its own name, help and type",
 "For every sequence of families, with or without help and with or without samples, each emitted message holds exactly one family: its own name once, its own help if given, its own type, and only its own samples. Nothing from one family or one scrape leaks into a later message, and no announced family merges into the next.",
 ["histories"],"all call sequences on the protobuf encoder, including empty families and encoder reuse",
 "Tests always call help, type, sample in that order on non-empty families.",
 ["prometheus-proto/src/lib.rs"],
 [("state machine and buffer framing","ProtoEncoder::{flush_buf,write_help}, write_type impls")],["ProtoEncoder output"])
p("C22","Namespaces prefix help, type and samples identically",
 "Inside any nesting of namespaces, the help line, type line and every sample of a metric carry the same name, which is the namespaces from outermost to innermost joined by underscores and then the metric name. Namespacing changes nothing else: same calls, same order, same labels, values and errors.",
 ["programs","inputs"],"all nesting depths and all metric kinds",
 "Tests cover one level of nesting and one metric kind.",
 ["core/src/metric/group.rs","core/src/metric/name.rs"],
 [("forwarding encoder","Encoding and MetricEncoding for WithNamespace<E>, &mut E"),("group wrapper","MetricGroup for WithNamespace<G>")],["MetricGroup::collect_group_into"])
p("C23","A derived metric group collects each field once, in order",
 "For every struct the derive accepts, collecting visits each field exactly once in declaration order: documentation is sent as help immediately before the field's own family under the same name, fields renamed use the new name, nested groups are collected in place and namespaced ones under their namespace. Generated constructors initialise each field with the metadata, label set or initialiser given for that field.",
 ["programs"],"all struct shapes accepted by the derive (renames, docs, nested, namespaced, initialisers)",
 "Only a few structs are expanded in tests; attribute combinations are unexplored.",
 ["derive/src/metric_group/to_tokens.rs","derive/src/metric_group/attr.rs"],
 [("generated collect_group_into","visits"),("generated new","inits")],["#[derive(MetricGroup)] expansion"])
p("C24","Derived label enums are bijections with faithful text",
 "For every enum the derive accepts, the declared cardinality is the number of variants, every variant has its own index below it, and decoding an index yields the variant that encodes to it. Each variant is reported as its explicit integer value if it has one, else its explicit rename, else its identifier in the chosen case style, and a derived label group reports every field once, in declaration order, under its own name; a composed group reports the labels of both parts in order, and a reference to a group reports what the group does.",
 ["programs"],"all enum and struct shapes accepted by the label derives, all case styles and renames",
 "Tests use three-variant enums in two case styles.",
 ["derive/src/value/to_tokens.rs","derive/src/value/attr.rs","derive/src/label_group/to_tokens.rs"],
 [("encode/decode/visit tables","FixedCardinalityLabel::to_tokens"),("case conversion","RenameAll::apply"),("group visit","LabelGroup::to_tokens")],["#[derive(FixedCardinalityLabel)], #[derive(LabelGroup)] expansion"])
p("C25","Misuse of labels, names and access is rejected at compile time",
 "Programs that pass a label group of the wrong set, mark an unbounded label set as fixed or a fixed one as dynamic, use an identifier of one family type with another, take exclusive access through a shared reference, use a timer after it was consumed, or define a constant with an invalid name do not compile. The corresponding correct programs do compile.",
 ["programs"],"client programs exhibiting each class of misuse",
 "The existing tests contain only programs that compile; they cannot notice that a wrong program starts compiling.",
 ["core/src/label/value.rs","core/src/label/group.rs","core/src/metric.rs","core/src/metric/histogram.rs","derive/src/label_group/to_tokens.rs"],
 [("marker traits","FixedCardinalitySet, DynamicLabelSet"),("typed ids","LabelId<L>"),("receiver kinds","&mut self / self methods"),("const validation","LabelName::from_str, MetricName::from_str")],["type checker"])
p("C26","No deadlock and no guard held longer than promised",
 "No operation of the library acquires a lock it already holds, or two family-shard locks at once, and the only nesting is a histogram's lock inside its shard's lock, so no interleaving of library operations can deadlock among themselves. Operations that do not return a guard release every lock before returning, on every exit including errors. Queries (scrapes, cardinality and label look-ups) take the locks of a family shared only.",
 ["schedules","fault_sequences"],"all interleavings of library operations, every exit path",
 "Lock-order inversion needs particular multi-threaded timing; no test is concurrent.",
 ["core/src/metric/sparse.rs","core/src/metric.rs","core/src/metric/histogram.rs","core/src/text.rs"],
 [("scoped guards","ShardedMap::*, MetricVec::collect_family_into, HistogramState::collect_into")],["lock acquire/release sequence"])
p("C27","The process collector reports the configured process faithfully",
 "A process collector reports statistics of the process id it was created with, each under its documented name with its own help and in its documented unit (bytes, seconds, counts); a statistic the system cannot provide is omitted without affecting the others. Resident memory is pages times the page size, and CPU and start times are clock ticks divided by the tick rate (plus boot time for the start).",
 ["inputs","fault_sequences","configurations"],"all process ids and kernel values, every subset of unavailable statistics",
 "The crate has no tests; results depend on the running system.",
 ["process/src/lib.rs"],
 [("sampling","ProcessCollector::collect_group_into"),("start time","ProcessCollector::new"),("unit constants","clk_tck, pagesize")],["MetricGroup for ProcessCollector"])
p("C28","The tokio collector reports each runtime's metrics under its own labels",
 "Every exported runtime metric is the corresponding runtime statistic: each family has one help followed by the samples of every registered runtime in order, labelled with that runtime's name when it has one; per-worker statistics cover every worker index once and carry that same index as label. Poll-time buckets are cumulative, carry their own upper bound, and precede the count and sum of the same worker.",
 ["inputs","configurations"],"all numbers of runtimes, workers and buckets, named and unnamed",
 "The crate's only test is commented out.",
 ["tokio/src/lib.rs"],
 [("collection","collect"),("labels","Worker, Remote, Overflow, QueueKind, ThreadKind, RuntimeName, HistogramLabelLe")],["MetricGroup for RuntimeCollector, NamedRuntimesCollector"])
p("C29","Constructors honour the requested storage and initial state",
 "A default family is array-backed exactly when its label set has a fixed cardinality of at most 1024 and hashed otherwise; forced-dense families are always array-backed and forced-sparse always hashed, with the label set and metadata given. New cells start at zero, pre-initialising a dense family creates every missing cell without disturbing existing ones, and removal returns the removed state on hashed families and nothing on dense ones.",
 ["configurations","inputs","histories"],"all constructors, cardinalities and prior contents",
 "Tests construct three of the constructors with cardinality 3.",
 ["core/src/metric.rs","core/src/metric/histogram.rs"],
 [("representation choice","MetricVec::with_label_set_and_metadata, dense_*, sparse_*"),("init","MetricVec::init_all_dense, MetricType::default impls"),("removal","MetricVec::remove_metric")],["MetricVec constructors"])
p("C30","A reused encoder starts each scrape clean",
 "After finishing or flushing, even when the writer reports an error while it is flushed, an encoder used again produces exactly what a new encoder would: no leading separator, no bytes, state or pending family from the previous scrape. Finishing a buffered text encoder returns every byte written since the last finish, once and in order.",
 ["histories"],"all sequences of scrapes on one encoder",
 "Tests use every encoder once.",
 ["core/src/text.rs","prometheus-proto/src/lib.rs"],
 [("state reset","TextEncoder::flush, BufferedTextEncoder::finish"),("buffer reset","ProtoEncoder::flush, flush_buf")],["BufferedTextEncoder::finish, ProtoEncoder::flush"])
p("C31","Sample values are the stored values, exactly",
 "The number printed for a counter, integer gauge, float gauge or histogram count is exactly the value held at the time of sampling, over its whole range: counters up to 2^64-1 print as that unsigned number and gauges as signed numbers. Each metric kind is read with a single load of its own cell.",
 ["inputs","schedules"],"all u64, i64 and f64 stored values",
 "Tests use small values; counters at or above 2^63 are never reached.",
 ["core/src/text.rs","core/src/metric/group.rs"],
 [("value rendering","TextEncoder::write_metric_value, MetricValue"),("value reads","MetricEncoding::collect_into impls")],["TextEncoder output"])
p("C32","User-supplied thresholds are strictly increasing",
 "Explicit bucket bounds are accepted exactly when each is strictly less than the next, for every number of bounds including zero and one, and are kept unchanged in order; exponential and linear constructors reject a non-positive start, a factor of at most one, and a non-positive width, and otherwise compute bound i as start times factor to the power i, or start plus i widths.",
 ["inputs"],"all f64 bounds and all bucket counts",
 "Tests build one exponential set.",
 ["core/src/metric/histogram.rs"],
 [("validation","Thresholds::{with_buckets,exponential_buckets,linear_buckets}")],["Thresholds constructors"])
p("C33","Cardinality queries report the cells that exist",
 "The reported current cardinality is the number of cells that exist: initialised cells for array-backed families and the total over all shards for hashed ones, paired with the array length or the label set's own bound. Querying changes nothing.",
 ["histories","inputs"],"all contents of dense and sparse families",
 "Two contents are tested.",
 ["core/src/metric.rs","core/src/metric/sparse.rs"],
 [("count","MetricVec::get_cardinality, ShardedMap::get_cardinality")],["MetricVec::get_cardinality"])
p("C34","Shared families and guards are usable across threads, soundly",
 "Families, single metrics and label identifiers built from thread-safe parts can be shared and sent between threads, and a family holding a value type that is not thread-safe cannot; no operation offered through a shared reference needs exclusive access.",
 ["programs","schedules"],"all client programs, thread-safe and not",
 "Tests never send a family to another thread; auto traits can be lost or forced without any test noticing.",
 ["core/src/metric.rs","core/src/metric/sparse.rs"],
 [("auto traits, no manual unsafe impl","MetricVec, Metric, LabelId, ShardedMap")],["type checker"])
# not applicable
p("N01","Derived thresholds are strictly increasing in floating point",
 "Exponential and linear thresholds are strictly increasing for every accepted start, factor or width and every bucket count.",
 ["inputs"],"all f64 arguments","Depends on floating-point rounding of powers and products.",["core/src/metric/histogram.rs"],[("computation","Thresholds::{exponential_buckets,linear_buckets}")])
p("N02","Histogram and gauge sums are numerically accurate",
 "The reported sum equals the mathematical sum of all observations up to a stated error, whatever their order.",
 ["inputs","schedules"],"all observation sequences","Accumulated floating-point rounding depends on order and magnitude.",["core/src/metric/gauge.rs"],[("accumulation","AtomicF64::inc_by")])
p("N03","Text and float renderings round-trip",
 "Every finite float printed parses back to the identical bit pattern.",
 ["inputs"],"all f64","The formatting algorithm lives in third-party digit-generation code.",["core/src/text.rs"],[("formatting","ryu, itoa use")])
p("N04","Concurrent float updates always make progress",
 "Under any schedule some float-gauge update completes in a bounded number of steps system-wide.",
 ["schedules"],"all schedules","Liveness under contention depends on hardware and scheduler.",["core/src/metric/gauge.rs"],[("retry loop","AtomicF64::inc_by")])
p("N05","A scrape is a consistent cut across metrics",
 "All samples in one scrape reflect one instant across all metrics of a group.",
 ["schedules"],"all interleavings of updates and a scrape","Not promised by the code: cells are read one by one; a cross-metric cut is a history property.",["core/src/metric.rs"],[("per-cell reads","collect_family_into")])
p("N06","Updates are cheap and shards are evenly loaded",
 "Recording a metric takes bounded time without allocation and labels spread evenly over shards.",
 ["inputs","configurations"],"all workloads","Timing and hash distribution are measured quantities.",["core/src/metric/sparse.rs"],[("sharding","ShardedMap")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,x['id']
print(len(P))
