"""Single source for properties.jsonl (run: python3 tools/props_src.py).

Every entry: id, title, statement, over, quantifier text, why tests can't,
files, mechanism [(name, where)], observe_at.
"""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(text.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [],
            hook_needed=None,
            **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]}
               if state else {}))))


# ---------------------------------------------------------------- time & arrays
p('C01', 'Time-addressed slicing returns exactly the overlapping samples',
  '''Slicing an array by a span of time returns, in order and unmodified, exactly the samples
  whose own interval (sample i covers [i*period, i*period+duration)) overlaps the requested span,
  except that a final sample reached by less than half a percent of a period may be left out.
  Spans that are open ended, counted back from the end, reach past either end or miss the array
  entirely obey the same rule, and assignment through such a slice changes exactly those samples.
  The sliced array keeps the period and sample duration of the time axis, so slices can be nested.''',
  ['inputs', 'histories'],
  '''every sampling period, sample duration (overlapping or not), array length, requested span and
  sequence of nested slices/assignments''',
  '''the tests pick a handful of (period, span) pairs; off-by-one errors at interval borders,
  overlapping windows, negative or out-of-range spans and nested slices are left unsampled''',
  ['zounds/timeseries/timeseries.py', 'zounds/core/axis.py'],
  [('time slice -> integer slice', 'zounds/timeseries/timeseries.py TimeDimension.integer_based_slice'),
   ('index translation', 'zounds/core/axis.py ArrayWithUnits.__getitem__/__setitem__')],
  ['contents of the returned array', 'frequency/duration of its time dimension'])

p('C02', 'Arrays keep axis meaning through every sequence of array operations',
  '''Whatever sequence of integer, contiguous-slice, list, new-axis, ellipsis or unit-aware indexing and assignment, axis reversal,
  reshaping, squeezing, scaling, summing, maximum and concatenation is applied to an array with
  units, the result carries one dimension per axis, each equal to the dimension of the source axis it came
  from (unlabelled for axes that are newly created, reshaped beyond size-one axes, gathered by position or kept after reduction), and its
  values equal those of the same operation on the plain array. Operations that cannot be labelled coherently (joining arrays whose
  dimensions differ, wrapping with the wrong number of dimensions) are rejected instead of mislabelled.''',
  ['inputs', 'programs'],
  '''every array of up to a few axes with any mix of time, frequency and plain axes and every finite
  program of these operations''',
  '''tests apply single operations on fixed shapes; the bookkeeping (positions burned by integers, new
  axes, ellipsis) only goes wrong for particular combinations and sequences''',
  ['zounds/core/axis.py', 'zounds/core/dimensions.py'],
  [('dimension bookkeeping', 'zounds/core/axis.py ArrayWithUnits._new_dims/_compute_indices'),
   ('reductions', 'zounds/core/axis.py _apply_reduction_to_dimensions')],
  ['dimensions and contents after every operation'])

p('C03', 'Frequency slicing returns exactly the bands that meet the requested range',
  '''Slicing a frequency scale, or an array along a frequency axis, by a frequency band (or, for computed scales, by a slice given in
  hertz, where negative values count back from the top) returns exactly the contiguous run of bands that
  overlap the requested range or end exactly where it begins, in order. On an axis with explicitly listed column ranges, a band that
  is listed gives exactly its own columns. Scales that ask for an even number of bands get one more adjacent band when one exists, others never do.
  The resulting axis describes exactly the returned columns, and stays correct under further slicing.
  Scales compare equal only when they describe the same bands.''',
  ['inputs', 'histories'],
  '''every scale kind, number of bands, requested band/hertz slice and sequence of nested slices''',
  '''tests use a few literal bands on a few scales; boundary bands, overlapping geometric bands,
  explicit scales and repeated slicing are unsampled''',
  ['zounds/spectral/frequencyscale.py', 'zounds/spectral/tfrepresentation.py', 'zounds/spectral/frequencyadaptive.py'],
  [('band lookup', 'zounds/spectral/frequencyscale.py FrequencyScale.get_slice/__getitem__'),
   ('frequency dimensions', 'zounds/spectral/tfrepresentation.py')],
  ['integer slices, bands of the sliced scale, array columns'])

p('C04', 'Time span and sample-rate arithmetic is exact interval arithmetic',
  '''Spans of time behave as intervals: ordering follows the start, shifting moves the start and keeps the duration, two spans intersect
  in the interval they share (empty when they share nothing), containment is strict, and equal
  spans hash equally whatever units they are written in. Slicing a sorted or unsorted list of timestamps
  yields the consecutive intervals between them. Sample rates derived by scaling, windowing or resampling have exactly
  the period, duration, overlap and sample counts that their definition implies.''',
  ['inputs'],
  '''every pair of spans/timestamps/sample rates, in any mix of time units''',
  '''tests check single literal pairs; the algebra (commutativity, units, touching and
  nested intervals) is universally quantified''',
  ['zounds/timeseries/timeseries.py', 'zounds/timeseries/samplerate.py', 'zounds/timeseries/duration.py'],
  [('TimeSlice operators', 'zounds/timeseries/timeseries.py TimeSlice'),
   ('sample rate operators', 'zounds/timeseries/samplerate.py SampleRate')],
  ['start/duration/end of results'])

p('C05', 'Variable-rate series stay sorted, queryable by time and lossless',
  '''A variable-rate time series always holds exactly the (span, data) pairs it was built from, sorted by start time, with each datum still
  attached to its own span. Querying it with a span returns exactly the entries that overlap it, its
  overall span reaches from the earliest start to the latest end, concatenation is the sorted union, and storing
  it and reading it back yields the same series.''',
  ['inputs', 'histories'],
  '''every multiset of spans (nested, touching, overlapping, duplicate) and every sequence of queries and
  concatenations''',
  '''tests use three or four disjoint ordered spans; nested or unsorted spans and round trips of
  arbitrary series are unsampled''',
  ['zounds/timeseries/variablerate.py'],
  [('query, span, concat, encode', 'zounds/timeseries/variablerate.py VariableRateTimeSeries')],
  ['slices, slicedata, span, decoded series'])

# ---------------------------------------------------------------- streaming
p('C06', 'Windowing covers the input exactly, with exact leftovers and padding',
  '''Cutting an array into windows of a given size and step yields window k equal to the samples from k*step to k*step+size,
  yields every full window and no others, and hands back as leftovers exactly the samples from the first window start that was not produced; with padding
  requested the windows cover every input sample and only zeros are added after the end. The windowed array's
  time axis has period step and duration size (in terms of the source axis), and multi-axis windows obey the rule along each axis.''',
  ['inputs'],
  '''every input length, window size, step (smaller, equal or larger than the window), padding mode and sample
  rate expressed window''',
  '''tests fix about ten (length, size, step) triples''',
  ['zounds/nputil/npx.py', 'zounds/core/axis.py', 'zounds/timeseries/samplerate.py'],
  [('windowed/sliding_window/_wpad/_wcut', 'zounds/nputil/npx.py'),
   ('sliding_window_with_leftovers', 'zounds/core/axis.py')],
  ['windows, leftovers, dimensions'])

p('C07', 'Streamed windowing is independent of how the stream was cut into chunks',
  '''Feeding a signal through a windowing node in chunks of any sizes produces, concatenated, exactly the same windows, in the
  same order, with the same time axis, as feeding the whole signal at once, whether or not
  overlapping windows and padding of the final partial window are requested. No sample is lost, repeated
  or reordered, no matter how small the chunks are, and the time axis of every emitted block describes those windows.''',
  ['histories', 'inputs'],
  '''every division of every signal into a sequence of chunks, every window/step and padding mode''',
  '''tests use a few chunk sizes that are larger than the window; the state carried between chunks is exercised by only those
  histories''',
  ['zounds/spectral/sliding_window.py', 'zounds/core/axis.py', 'zounds/nputil/npx.py'],
  [('leftover carry-over', 'zounds/spectral/sliding_window.py SlidingWindow._enqueue/_dequeue/_process')],
  ['concatenated output windows, dimensions'],
  [('cache', 'samples not yet covered by an emitted window', 'SlidingWindow._cache')])

p('C08', 'Streamed feature combination keeps rows aligned',
  '''A node that combines several streams emits rows in which every part comes from the same position of its source, in order and
  exactly once for every position all sources reached, whatever the chunk sizes and interleaving of the
  sources. Pooling and other stateful stream nodes (running aggregates, differences, slicing)
  give the same result for every chunking as for the whole input at once.''',
  ['schedules', 'histories'],
  '''every interleaving of chunk arrivals from several sources and every chunk size''',
  '''tests push equal-length single chunks in a fixed order''',
  ['zounds/basic/basic.py', 'zounds/segment/onset.py'],
  [('Merge cache/enqueue/dequeue', 'zounds/basic/basic.py Merge'),
   ('Pooled/Slice/Max/Sum', 'zounds/basic/basic.py')],
  ['emitted rows'],
  [('cache', 'rows of each source that are not combined yet', 'Merge._cache')])

p('C09', 'Audio decoding streams every sample of the file exactly once, in order',
  '''Decoding a stored sound as a stream yields all of its samples, in order, without loss, repetition or
  reordering, whatever the chunk duration, the sizes in which bytes arrive, and the requested channel layout;
  the samples carry the file's sample rate. The in-memory buffer between the byte source and the decoder behaves as one contiguous
  file that can be sought within what is still held, although only a bounded part of it is.
  (FLAC is decoded in chunks of at least eight seconds, as the node is designed for.)''',
  ['histories', 'schedules'],
  '''every byte-arrival chunking, chunk duration, file length and read/seek/write history''',
  '''tests decode one or two files with one chunk size''',
  ['zounds/soundfile/audiostream.py'],
  [('MemoryBuffer', 'zounds/soundfile/audiostream.py MemoryBuffer'),
   ('AudioStream', 'zounds/soundfile/audiostream.py AudioStream')],
  ['decoded samples'],
  [('MemoryBuffer', 'window of the byte stream kept for the decoder', 'zounds/soundfile/audiostream.py')])

p('C10', 'Compressed audio can be read by time span without drift or gaps',
  '''Reading a span of time from a stored compressed sound returns the same samples as decoding the whole sound and slicing it by that
  span, for any span inside, straddling or beyond the end of the sound. Iterating over it in chunks
  returns each sample exactly once and in order, spans that follow each other tile the sound whatever their durations, and any number of
  iterations may be under way at once.''',
  ['inputs', 'histories'],
  '''every span, sequence of adjoining spans, sound length, sample rate and channel count, and every order of reads''',
  '''tests read one or two spans of one file''',
  ['zounds/soundfile/ogg_vorbis.py'],
  [('OggVorbisWrapper', 'zounds/soundfile/ogg_vorbis.py')],
  ['returned samples'])

p('C11', 'Overlap-add synthesis reassembles every window at its own position',
  '''Rebuilding a signal from overlapping windows places window k at k*hop, sums what
  overlaps and produces a signal whose length, sample rate and duration follow from the
  window scheme; rebuilding from the windows of an unmodified signal gives back the same samples wherever
  the windows overlap fully. Generators of sound (sine waves, noise, ticks, silence) produce as many samples as the duration asked for means.''',
  ['inputs'],
  '''every number of windows, window size and hop''',
  '''tests check lengths of a few schemes''',
  ['zounds/synthesize/synthesize.py', 'zounds/spectral/spectral.py'],
  [('overlap-add', 'zounds/synthesize/synthesize.py BaseFrameSynthesizer / WindowedAudioSynthesizer')],
  ['samples and time axis of the result'])

p('C12', 'Segmentation of a stream tiles the timeline, independent of chunking',
  '''Segments produced from detected onsets start at zero, follow each other without gap or overlap, end where the input
  ends, and every boundary lies exactly at the time of a detected onset. The set of segments does
  not depend on how the input stream was divided into chunks.''',
  ['histories', 'inputs'],
  '''every detection function, onset pattern and chunking''',
  '''tests use a single chunk with one or two onsets''',
  ['zounds/segment/onset.py'],
  [('BasePeakPicker', 'zounds/segment/onset.py')],
  ['time slices of the resulting series'])

# ---------------------------------------------------------------- storage & search
p('C13', 'Stored arrays come back with the same values and the same axes',
  '''An array with units that is persisted, in one piece or streamed in any number of chunks, plain or
  bit-packed, decodes to an array with equal values, dtype and shape and equal dimensions, for every
  combination of time, frequency and plain axes and every supported frequency scale. Stored time
  spans and durations round-trip exactly, whatever their units, size and sign.''',
  ['inputs', 'histories'],
  '''every dimension/scale combination, dtype, shape and chunking''',
  '''tests cover single arrays for some dimension kinds; combinations, chunking and bit packing of odd sizes are unsampled''',
  ['zounds/persistence/arraywithunits.py', 'zounds/persistence/dimension.py', 'zounds/persistence/frequencydimension.py', 'zounds/persistence/timeslice.py'],
  [('metadata and array codec', 'zounds/persistence/arraywithunits.py'),
   ('dimension codecs', 'zounds/persistence/*dimension*.py')],
  ['decoded array and dimensions'])

p('C14', 'The similarity-search store never loses, invents or hides an entry',
  '''Every code appended to the on-disk search store is retained with its data: its size is the number
  of successful appends by all instances and processes, and every handle, whether opened before or after, once synchronised sees exactly those
  entries and after any close and reopen. Rejected appends (wrong code size, mismatched code size on
  reopening) leave the stored and searchable contents unchanged, and a write-only handle stores without serving searches.''',
  ['histories', 'crash_points', 'schedules'],
  '''every interleaving of appends, syncs, closes, reopens and process crashes over several handles on the same
  path''',
  '''tests open at most two handles in one fixed order''',
  ['zounds/index/hammingdb.py'],
  [('append / sync / metadata', 'zounds/index/hammingdb.py HammingDb')],
  ['len, search results, metadata after reopen'],
  [('codes/ids', 'in-memory mirror of the on-disk log', 'HammingDb'), ('lmdb', 'on-disk log', 'HammingDb.env')])

p('C15', 'Nearest-neighbour search returns the true nearest codes',
  '''A search for k results returns the data of k distinct stored entries (all of them when fewer are stored) such that no entry left out
  is nearer, in Hamming distance, than one returned; sorted searches return them by non-decreasing
  distance. The answer does not depend on the number of search threads, on insertion order or on earlier
  searches, and a sorted search for a stored code finds an entry with that code first.''',
  ['inputs', 'schedules', 'histories'],
  '''every set of stored codes, code size, query, result count, thread count and history of earlier operations''',
  '''tests search a few random codes with fixed sizes''',
  ['zounds/index/hammingdb.py', 'zounds/nputil/npx.py', 'zounds/nputil/countbits.pyx', 'zounds/index/brute_force.py', 'zounds/index/index.py'],
  [('search', 'zounds/index/hammingdb.py HammingDb.search'),
   ('packed hamming distance', 'zounds/nputil/npx.py packed_hamming_distance, countbits.pyx'),
   ('brute force search', 'zounds/index/brute_force.py')],
  ['returned data and distances'])

p('C16', 'The similarity index contains each processed document exactly once',
  '''After the index has caught up with its source of processed documents, it holds exactly one entry per feature
  frame of each document, each search hit resolves to the right document, time span and extra data, and nothing is
  indexed twice or skipped when indexing is interrupted and resumed by a new instance.''',
  ['histories', 'crash_points', 'schedules'],
  '''every sequence of document arrivals, catch-up runs, restarts and interruptions''',
  '''tests run a single pass over two or three documents''',
  ['zounds/index/index.py'],
  [('event log listener and add', 'zounds/index/index.py HammingIndex._listen/add')],
  ['entries and search hits'])

# ---------------------------------------------------------------- learning
p('C17', 'Learned pipelines apply steps in order and invert exactly in reverse',
  '''Running data through a learned pipeline equals applying the steps, with the parameters learned for each step from the output of the previous ones, in order; inverting a result applies the inverses
  in reverse order with the parameters of that very run and restores the input for invertible
  steps, also after slicing the pipeline, converting data types and saving and reloading it; undoing a
  step which has no inverse raises NotImplementedError. Data without examples passes through. Transforming never changes the pipeline, and concurrent or repeated transforms do not affect each other.''',
  ['programs', 'histories'],
  '''every composition of steps, sub-pipeline, data and sequence of transforms and inversions''',
  '''tests compose two or three fixed steps''',
  ['zounds/learn/preprocess.py', 'zounds/learn/pytorch_model.py', 'zounds/learn/util.py'],
  [('Pipeline / PipelineResult', 'zounds/learn/preprocess.py'), ('Op / inversion data', 'zounds/learn/preprocess.py')],
  ['transformed and inverted values'])

p('C18', 'A learned step is re-versioned when, and only when, its content changes',
  '''The version identifier of a learned pipeline or step is the same every time it is computed from the same code, parameters and step order,
  in any process and after any save/load cycle, and differs when any of these differ; a learned feature, whose version also depends on how its data is converted,
  is computed once per document and version and what is read is what its own pipeline computes.''',
  ['inputs', 'programs', 'histories'],
  '''every pair of pipelines that agree or differ in one step, parameter, or order, across processes''',
  '''tests compare two literal pipelines in one process''',
  ['zounds/learn/preprocess.py', 'zounds/learn/learn.py'],
  [('Op.version / Pipeline.version', 'zounds/learn/preprocess.py')],
  ['version identifiers'])

p('C19', 'Training-sample reservoirs hold only offered samples and keep keys aligned',
  '''A sample reservoir never holds more than its capacity, only ever contains samples that were offered to it, loses a sample only to
  a newer one that takes its place, and hands out exactly what it holds, as a copy that later offers do not change; a one-pass sampler
  holds every sample of its stream until capacity is reached, and from then on every sample of the stream with equal probability.
  A reservoir keyed by feature always keeps the samples of all keys at the same positions from the same original example. Offers whose
  keys, lengths or shapes are inconsistent are refused without changing any of its contents, also when several threads offer and read
  samples.''',
  ['schedules', 'histories'],
  '''every sequence and thread interleaving of additions of any chunk sizes and reads''',
  '''tests add one or two chunks from one thread''',
  ['zounds/learn/random_samples.py'],
  [('Reservoir / MultiplexedReservoir', 'zounds/learn/random_samples.py')],
  ['contents returned by get/get_batch'],
  [('arr, indices', 'slots of the reservoir', 'Reservoir')])

p('C20', 'A learning node runs once, after all its inputs are complete',
  '''A node that learns from several inputs learns exactly once per complete set of inputs (one item of each input; with inputs that are
  collected by samplers: once, after every input has ended), never earlier and never if an input delivered nothing, on everything each input delivered and
  under the name of that input. The pipeline is made once per complete set too, with exactly the steps it was declared with, in that order, each the one that was
  learned in that set. No data from one set, or from another run of the same model at the same or another time, leaks into the next.''',
  ['schedules', 'histories'],
  '''every interleaving of chunk arrivals and ends of several inputs, number of steps and shape of the learning graph''',
  '''tests feed inputs one after the other in one order''',
  ['zounds/learn/preprocess.py', 'zounds/learn/pytorch_model.py', 'zounds/learn/random_samples.py'],
  [('PreprocessingPipeline enqueue/dequeue', 'zounds/learn/preprocess.py'), ('PyTorchNetwork enqueue/dequeue', 'zounds/learn/pytorch_model.py')],
  ['training data seen, result produced'])

p('C21', 'Trainers run the requested epochs and report each batch exactly once',
  '''Each call to train goes on for up to checkpoint_epochs epochs, numbered consecutively from where the last call stopped,
  and all calls together for exactly the number of epochs that was asked for. Every epoch consists of all of its batches in order: supervised training
  takes consecutive parts of the data that is not held out, with the targets of the same rows, and tests with rows that are held out;
  the others draw batches of the requested size from the training data. Each step is taken once, for the error of its batch alone.
  A callback that is registered throughout a batch is told of it exactly once with its epoch, its number (the index of the batch for triplets,
  the offset of the batch otherwise) and the values of this batch under their own names, however callbacks come and go meanwhile. The training history shown to
  users holds the values of the last batches that were to be recorded, in order and not more than requested. An error in a step or a callback ends the call; its epoch
  is trained again by the next one.''',
  ['configurations', 'histories'],
  '''every number of epochs, batch size, data size and callback set''',
  '''tests only run one epoch and look at nothing but shapes''',
  ['zounds/learn/trainer.py', 'zounds/learn/supervised.py', 'zounds/learn/embedding.py', 'zounds/learn/wgan.py', 'zounds/ui/training_monitor.py'],
  [('epoch/batch loop', 'zounds/learn/trainer.py, supervised.py'), ('callbacks', 'zounds/learn/trainer.py')],
  ['callback arguments'])

# ---------------------------------------------------------------- datasets, web
p('C22', 'Ingesting a dataset processes every item once and survives bad items',
  '''Ingesting a dataset processes every item that is not yet stored exactly once and skips those that are, in every mode (serial, multi-threaded,
  multi-process), and returns only when all are done; an item that fails is reported and neither stops
  nor affects the others. At most the requested number of items is processed at once, and a dataset that breaks off is reported after the items
  it yielded were processed. (An item of which parts were stored before it failed counts as stored.)''',
  ['schedules', 'fault_sequences', 'configurations'],
  '''every dataset, subset of failing or already stored items, worker count and schedule''',
  '''there is no ingest test that observes processing''',
  ['zounds/datasets/ingest.py'],
  [('ingest', 'zounds/datasets/ingest.py')],
  ['stored documents'])

p('C23', 'A cached download is always the complete file',
  '''A local copy of a remote file is either absent or complete: when a download fails at any point, the error reaches the caller and a later attempt
  downloads again, and a complete copy is returned without network access and unmodified. The same holds for the cache of whole datasets, and for any number
  of processes that ask for the same file at once.''',
  ['fault_sequences', 'crash_points', 'histories'],
  '''every point of failure of a download and every history of attempts''',
  '''nothing tests a failing download''',
  ['zounds/datasets/util.py', 'zounds/datasets/cache.py'],
  [('ensure_local_file', 'zounds/datasets/util.py')],
  ['local file contents'])

p('C24', 'A protected web application never serves anything without the secret',
  '''When an application is started with a secret, every route other than signing in refuses requests that did not sign in with that secret (and executes nothing on their behalf), whatever the
  sequence of requests, cookies and wrong guesses (which are answered as such), and serves those that did; without a
  secret, every route is served.''',
  ['histories', 'configurations'],
  '''every sequence of requests over every route, method and cookie state''',
  '''tests cover single requests to a few routes''',
  ['zounds/ui/baseapp.py', 'zounds/ui/api.py', 'zounds/ui/search.py', 'zounds/ui/training_monitor.py'],
  [('secure handler', 'zounds/ui/baseapp.py')],
  ['status codes, side effects'])

p('C25', 'Partial-content responses carry exactly the requested range',
  '''A response to a request for a range of bytes (both ends inclusive) or of seconds of a feature carries exactly that part of
  it and labels it with the matching range and total (and responses with bytes say that ranges of them may be asked for); open-ended, suffix (of bytes) and over-long ranges are clamped to the
  resource, ranges outside it are refused without a body from the resource, and ranges that make no sense for it (unknown
  units, malformed or reversed) are ignored or refused.''',
  ['inputs'],
  '''every range header and resource length''',
  '''tests use two literal headers''',
  ['zounds/ui/contentrange.py', 'zounds/ui/serializer.py', 'zounds/ui/baseapp.py'],
  [('RangeRequest/ContentRange', 'zounds/ui/contentrange.py')],
  ['status, headers and body of responses'])

p('C26', 'The remote session evaluates statements in order with persistent state',
  '''Statements sent to an application are each executed exactly once, in order, in the application's own persistent namespace; each answer is the value, what the
  statement printed, or its error, and nothing of other statements; an error leaves earlier definitions intact; and every value that gets a link stays
  retrievable with the content it had then, and only from the application it belongs to, with working links to the features it mentions.''',
  ['histories'],
  '''every sequence of statements (assignments, expressions, failing code) and requests for earlier results''',
  '''tests send single statements''',
  ['zounds/ui/baseapp.py', 'zounds/ui/serializer.py'],
  [('REPL handler', 'zounds/ui/baseapp.py')],
  ['HTTP responses'])

# ---------------------------------------------------------------- misc
p('C27', 'Audio sample arrays convert and pad without losing or altering samples',
  '''Audio samples always carry a valid audio sample rate and one or two channels; taking stereo of mono duplicates the channel, taking
  mono of stereo averages the channels, silence is zero, and padding or appending silence
  keeps the original samples as an exact prefix and gives exactly the requested extra duration.''',
  ['inputs'],
  '''every sample array, channel count, sample rate and duration''',
  '''tests check shapes, not values''',
  ['zounds/timeseries/audiosamples.py'],
  [('AudioSamples', 'zounds/timeseries/audiosamples.py')],
  ['values, channels, dimensions'])

p('C28', 'The growable buffer always equals the concatenation of what was added',
  '''At every moment the logical content of a growable array equals everything appended so far, in order, whatever the growth strategy, sizes and dtype of the
  pieces; a refused addition leaves it unchanged.''',
  ['histories'],
  '''every sequence of single and bulk additions''',
  '''tests append fixed sequences''',
  ['zounds/nputil/npx.py'],
  [('Growable', 'zounds/nputil/npx.py Growable')],
  ['logical data and length'])

p('C29', 'Per-band time-frequency data keeps every band at its own place and rate',
  '''A multi-resolution representation keeps each band's coefficients in its own contiguous columns, in band order, whatever the number and
  sizes of the bands. Reading a band, by its own name or an equal one, or a range of bands gives exactly what was put in, labelled with
  exactly those bands and with the time axis of the representation; assigning to bands and moments changes those and nothing else. Building,
  slicing (by band, by columns, by moments), joining, weighting per band, re-reading from a plain labelled array and storing lose and mix up
  nothing, and columns that are no whole bands are not said to be bands. A square view holds, for every moment and band, that band's
  coefficients at the common resolution and at their original scale, and laying overlapping moments over each other adds them where they
  belong for every overlap. Bands taken out of a spectrum are the transform of their own bins and are put back onto them (overlapping ones
  added); a sound taken apart by sizes has each of its components in the band whose size can first carry it, and the bands add up to it.''',
  ['inputs', 'histories'],
  '''every number of bands, band sizes, scales, overlaps and every sequence of these operations''',
  '''tests check one layout filled with zeros, mostly looking at shapes; which columns a band means after several cuts and joins is not sampled''',
  ['zounds/spectral/frequencyadaptive.py', 'zounds/spectral/tfrepresentation.py', 'zounds/spectral/weighting.py',
   'zounds/persistence/frequencyadaptive.py', 'zounds/spectral/functional.py', 'zounds/synthesize/synthesize.py'],
  [('FrequencyAdaptive', 'zounds/spectral/frequencyadaptive.py'), ('ExplicitFrequencyDimension', 'zounds/spectral/tfrepresentation.py'),
   ('frequency_decomposition', 'zounds/spectral/functional.py'), ('BaseFrequencyAdaptiveSynthesizer', 'zounds/synthesize/synthesize.py')],
  ['bands, columns and labels after every operation'])

p('C30', 'Note names and MIDI numbers form a consistent bijection',
  '''Every MIDI number, of whatever numeric type, has exactly one note name, made of one of twelve pitch classes and an octave, and that name
  gives the number back; every name of a pitch class and an octave has exactly one number. Moving by a semitone moves to the next pitch
  class, entering the next octave after the twelfth, and an octave is exactly twelve numbers; texts that name no note are refused. The 128
  instrument programs have 128 different names, always the same ones, and no other number names an instrument.''',
  ['inputs', 'programs'],
  '''every number, pitch class, octave and every walk of semitones and octaves''',
  '''tests check seven notes''',
  ['zounds/util/midi.py'],
  [('midi_to_note/note_to_midi', 'zounds/util/midi.py')],
  ['names and numbers'])

p('C31', 'Numeric transforms are accurate to their mathematical definition',
  '''Spectral transforms, and loudness scaling compute the values of their mathematical definition to
  within numerical tolerance.''',
  ['inputs'], 'every input signal', 'a few signals are compared',
  ['zounds/spectral/functional.py', 'zounds/spectral/spectral.py', 'zounds/loudness/loudness.py'],
  [('transforms', 'zounds/spectral/functional.py')],
  ['values'])

p('C32', 'Datasets list every item of their source once, with its own metadata',
  '''Walking through a dataset (a freesound.org search, an Internet Archive item, the drum loop page, NSynth, MusicNet,
  a directory, or a composite of datasets) yields every item of its source that is asked for exactly once, in the
  source's order (a directory's in any order), and then ends; a search yields no more than n_results. Walks do not
  influence each other, and every walk sees the same items. Every item points at its own audio, whatever characters its
  name has, and carries its own metadata: an Internet Archive derivative that of its original, plus the given
  attributes. Whatever a document is made from (a url, a request, a path, an open file, a zip member, metadata), the
  root of its graph says where that audio is, with the sample rate and channels of a local sound and all given metadata,
  asks the server for the part the request named, or from the first byte on, and what is known is kept with the
  document.''',
  ['inputs', 'histories'],
  'every number and size of pages, every mix of wanted and unwanted items, every interleaving of walks, every kind of source',
  'tests iterate over one composite of two hand-written datasets; no dataset that uses the network or an archive is ever iterated',
  ['zounds/datasets/', 'zounds/soundfile/audio_metadata.py'],
  [('FreeSoundSearch', 'zounds/datasets/freesound.py'), ('InternetArchive', 'zounds/datasets/internetarchive.py'),
   ('PhatDrumLoops', 'zounds/datasets/phatdrumloops.py'), ('NSynth', 'zounds/datasets/nsynth.py'),
   ('MusicNet', 'zounds/datasets/musicnet.py'), ('MetaData/AudioMetaDataEncoder', 'zounds/soundfile/audio_metadata.py')],
  ['what datasets list', 'what is known about a source'])

p('C33', 'A resampled stream is the same sound at the same moments',
  '''Converting a stream of audio to another sample rate yields, for every pair of supported rates, mono or more
  channels, any numeric type and memory layout, and however the stream is cut into pieces (down to single samples),
  the sound at the moments its new samples stand for: nothing is delayed, dropped, repeated or filled with silence, at
  the beginning, between pieces or at the end, channels stay apart, and the result is exactly as long as the original
  (to within one new sample) and labelled with the new rate. Converting to the same rate changes nothing.''',
  ['inputs', 'chunkings'],
  'every rate pair, chunking and length',
  'tests resample one whole second and look at its length',
  ['zounds/soundfile/resample.py', 'zounds/soundfile/functional.py', 'zounds/basic/audiograph.py'],
  [('Resample/Resampler', 'zounds/soundfile/resample.py'), ('resample', 'zounds/soundfile/functional.py')],
  ['resampled streams'])

p('C34', 'Every feature of a document describes its own sound at the same moments',
  '''In a document made with one of the ready-made processing graphs, every feature (samples, windows, spectra, bands,
  chroma, cepstra, centroids, frequency-adaptive data, compressed audio, onset slices) has the resolution its graph's definition gives
  it at the requested sample rate, has exactly the rows and columns that the length of the sound requires, shows something in the rows,
  and at the frequencies, where the sound has something, and is silent where the sound is silent. This does not depend on
  the size of the chunks, on the rate of the source, on what was read before or after, or on the other documents of the same
  store; a document that is made again shows the new sound only.''',
  ['inputs', 'histories', 'chunkings'],
  'every ready-made graph, sound, sample rate, window scheme, chunk size and order of making and reading documents',
  'tests of the ready-made graphs build one document from one sound and check that features exist',
  ['zounds/basic/audiograph.py', 'zounds/spectral/spectral.py', 'zounds/spectral/sliding_window.py', 'zounds/segment/onset.py'],
  [('resampled/windowed/stft/audio_graph/frequency_adaptive/with_onsets', 'zounds/basic/audiograph.py')],
  ['features of stored documents', 'time and frequency axes'])

p('C35', 'Stretching and shifting sounds moves each of them as asked, and nothing else',
  '''Stretching a batch of sounds makes every event happen at the stretched moment (to within a window), at its own pitch,
  and the sounds exactly as long as asked; shifting pitch changes every pitch by the interval asked for and neither moments nor
  length, for sounds of any length; shifting phase delays a sound, or only the frequencies of the given band, by exactly the given
  time; a spectrum, with or without padding and along any axis, shows a frequency in the band that has it and can be inverted. Silence stays
  silent, events are neither lost nor invented, sounds of a batch don't influence each other, axes are kept, originals
  are left alone, and operations compose.''',
  ['inputs', 'histories'],
  'every sequence of operations, factor, interval, delay, batch, axis and length',
  'tests look at shapes, and at a sine wave that is delayed by a whole number of its periods',
  ['zounds/spectral/functional.py'],
  [('time_stretch/pitch_shift/phase_shift/fft', 'zounds/spectral/functional.py')],
  ['stretched, shifted and transformed arrays'])

p('C36', 'Frequency scales hold the bands they promise and add up the bins that meet them',
  '''A linear scale holds as many bands of the same width, one after the other, as it was asked for and spans the whole band it was made for; the bands of geometric, Bark and Mel
  scales have centres that are evenly spread between the requested ends on the scale's own measure, and the width that the scale
  gives to such a centre (a constant ratio, or the critical bandwidth). Centres, widths, Q and borders that are
  reported are those of the bands; bands made from a centre or a start have that centre, start and width, what two bands share is their
  intersection (nothing, if they don't overlap), and a scale is said to overlap enough exactly when each of its bands shares
  at least that part of itself with the next. Applying a scale to a spectrum with any number of axes gives, for each band, the windowed sum of exactly the bins that
  slicing by the band would return; a chroma scale adds up, for each tone, the bins within a semitone of all its octaves in the
  requested band, for twelve tones in ascending order. The nodes and functions that apply scales give the same of the magnitudes, along the same other axes.''',
  ['inputs', 'configurations'],
  'every scale, number of bands, band, window, spectrum and number of axes',
  'tests look at a few scales\' borders and never at a spectrum that a scale was applied to',
  ['zounds/spectral/frequencyscale.py', 'zounds/spectral/spectral.py', 'zounds/spectral/functional.py'],
  [('scales', 'zounds/spectral/frequencyscale.py'), ('nodes that apply scales', 'zounds/spectral/spectral.py')],
  ['bands of scales, spectra after a scale was applied'])

p('C37', 'Amplitudes are compressed, scaled and summed up as their definitions say',
  '''Mu-law and log-modulus compression keep the sign and order of all amplitudes, map each one to the value of their definition for every mu and factor
  (zero and full scale to themselves under mu-law), and their inverses give back what was compressed; decibels are twenty times the decimal logarithm. Instance scaling
  makes every slice along the axis reach a magnitude of one while keeping signs and proportions, unit scaling makes it reach exactly from zero to one;
  silent, respectively constant, slices become all zeros. One-hot categories become their place in [-1, 1). Samples become exactly one category
  each, on the mu-law scale, and come back to within one step of it. The spectral centroid is the mean bin, weighted by magnitude; spectral flatness is the ratio of the
  geometric to the arithmetic mean of magnitudes; Bark-frequency cepstral coefficients are the requested coefficients of the cosine transform of the logarithms of
  magnitudes; silent frames have centroid and flatness zero. All hold for real, complex, integer and floating point data, whatever chunks the nodes
  receive; arrays with units keep their dimensions, and what was given is not changed.''',
  ['inputs', 'configurations'],
  'every array of amplitudes, axis, mu, factor and chunking',
  'tests round-trip one random array through mu-law and look at shapes',
  ['zounds/loudness/loudness.py', 'zounds/spectral/spectral.py', 'zounds/timeseries/functional.py'],
  [('mu_law/log_modulus/decibel/instance_scale/unit_scale/inverse_one_hot', 'zounds/loudness/loudness.py'), ('SpectralCentroid/SpectralFlatness/BFCC', 'zounds/spectral/spectral.py'), ('categorical', 'zounds/timeseries/functional.py')],
  ['compressed and scaled arrays, summaries of spectra, categories of samples'])

p('C38', 'A search page shows the entries of the index that are nearest to its query',
  '''Whatever was indexed before, the search application answers a query, as encoded in an earlier answer or composed anew, with exactly as many entries as it was configured to
  show (or all, when there are fewer), each once, none of which is farther from the query than an entry left out; it answers a request without a query
  with the same for a code from the index, not always the same one. Each answer carries the query it is for, so that its link shows
  the same query again, even after more was indexed, and each hit carries the document and time span of its entry with links that
  lead to the sound and the picture of that document, whatever characters its id contains. The page is served with all its scripts.''',
  ['histories', 'inputs'],
  'every sequence of additions, random pages, queries and followed links, with every number of results and every id',
  'tests never start the search application',
  ['zounds/ui/search.py', 'zounds/ui/serializer.py', 'zounds/index/index.py'],
  [('SearchHandler', 'zounds/ui/search.py'), ('SearchResultsSerializer', 'zounds/ui/serializer.py')],
  ['answers of the search application and what its links lead to'])

p('C39', 'Endless learning always leaves the pipeline of the last round it finished',
  '''A class made endless by infinite_streaming_learning_pipeline learns in rounds from all documents that are there when a run begins: in every
  round each step learns once, in order, from what the steps before make of the drawn samples, and when the last one has finished, the whole pipeline takes
  the place of the one before. However the run ends, by an error, an interrupt or a kill at any point, the exception gets through, and what can be
  loaded, also meanwhile, is the pipeline of the last round that was finished, all of whose steps are of that round and whose network
  doesn't train on. Before the first run there is no network, and loading one is an error.
  The samples are rows the filter lets through, of the asked for type, never more than asked for, none is lost
  from round to round, every row has its turn, and documents contribute according to the number of their rows, in parallel or not.''',
  ['histories', 'schedules', 'crash_points'],
  'every sequence of rounds, of documents that arrive and of pipelines that are loaded meanwhile, with a failure, interrupt or kill at every point',
  'tests never run an endless pipeline',
  ['zounds/learn/graph.py', 'zounds/learn/random_samples.py', 'zounds/learn/pytorch_model.py', 'zounds/learn/preprocess.py'],
  [('infinite_streaming_learning_pipeline', 'zounds/learn/graph.py'), ('InfiniteSampler', 'zounds/learn/random_samples.py'), ('PyTorchPreprocessResult', 'zounds/learn/pytorch_model.py')],
  ['what trainers are given', 'pipelines loaded during and after runs'])

p('C40', 'Torch transforms of batches treat every item by itself and keep its order',
  '''What the torch counterparts make of a batch is what they make of each of its items alone, in the same order, never NaN for sensible items: norms and
  normalisations of batches, gated, multi-resolution, sinc and other convolutions, filter banks, embeddings of raw samples, and any network applied in
  chunks of any size, none of which is larger than asked for. A DctTransform, however often and for whatever sizes, axes and windows it was used before,
  can be inverted and keeps the energy; resampling cuts off coefficients or makes room for them at the end and zeroes only those asked for, decomposing gives every
  coefficient to one band, which it leaves in its place, so that bands add up to the whole, and the short-time transform gives the
  coefficients of every windowed frame in the order of the frames. Every sample is in the nearest category of its scale, in embeddings as in losses, and
  losses compare each sample with the one at the same place.''',
  ['inputs', 'histories'],
  'every sequence of sizes, resamplings, decompositions and windows with one transform, every batch and chunk size',
  'tests only look at the shape of a single transform and at one norm',
  ['zounds/learn/dct_transform.py', 'zounds/learn/util.py', 'zounds/learn/gated.py', 'zounds/learn/multiresolution.py', 'zounds/learn/sinclayer.py',
   'zounds/learn/spectral.py', 'zounds/learn/sample_embedding.py', 'zounds/learn/loss.py'],
  [('DctTransform', 'zounds/learn/dct_transform.py'), ('apply_network', 'zounds/learn/util.py'), ('RawSampleEmbedding', 'zounds/learn/sample_embedding.py')],
  ['what modules and transforms return for batches'])


if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    print(len(P))
