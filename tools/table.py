I, CF, SC, HI = 'inputs', 'configurations', 'schedules', 'histories'
prop('C01', 'Time-based slicing returns exactly the overlapping samples',
     'Indexing a time series with a time slice, or with a start:stop pair of durations, returns the contiguous run of exactly those samples whose interval overlaps the requested interval, at any position and at any sample rate (a sample the interval reaches into by less than one percent of a sample period may be left out). The result keeps the sample frequency and duration and knows its new size, and assigning through such an index changes exactly those samples. A slice that lies entirely before the beginning or after the end selects nothing.',
     ['inputs', 'configurations'],
     'for all array lengths, slice starts and durations (negative, zero, missing, in any time unit) and all sample-rate schemes in the list, up to 40 hours of audio',
     'Tests use a handful of short arrays with round numbers; off-by-one errors of floating point quotients and of the rounding rule only appear at particular lengths, rates and positions.',
     ['zounds/timeseries/timeseries.py', 'zounds/core/axis.py', 'zounds/timeseries/duration.py'],
     [('conversion of a time slice into sample positions', 'TimeDimension.integer_based_slice'),
      ('dispatch of indices to dimensions', 'ArrayWithUnits.__getitem__')])
prop('C02', 'A windowed time series says exactly where its windows lie',
     'Cutting a time series into windows by a window duration and a step duration yields windows k whose samples are those starting at k * step, with as many samples per window as a slice of the window duration takes. The frequency of the windows axis is the distance between the first samples of neighbouring windows, its duration lasts from the first sample of a window to the end of its last sample, the inner axis keeps the frequency and duration of the samples, sizes are known, and end and span of the series are those of its last window. Without padding every window that fits is produced (the leftovers are the samples from the next window start on); with padding all samples are used and the padding is silence. This also holds for windows over windows, for multi-channel audio and for series of vectors, and end and span stay right under slicing and concatenation.',
     [I, CF], 'for all lengths up to 50000 samples (200000 for audio) and the listed sampling and windowing schemes',
     'Tests check a few lengths and one or two schemes; errors in derived frequencies and durations only show for lapped windows with particular ratios or trailing samples.',
     ['zounds/core/axis.py', 'zounds/timeseries/timeseries.py', 'zounds/timeseries/audiosamples.py'],
     [('windowing an array with units', 'ArrayWithUnits.sliding_window, sliding_window_with_leftovers'),
      ('derived dimensions', 'TimeDimension.modified_dimension')])
prop('C05', 'Mixed and multidimensional indexing keeps data and dimensions in step',
     'Indexing an array with units by any combination of integers (python or numpy), slices, steps, integer lists or arrays, boolean masks, Ellipsis, newaxis, time slices, frequency bands and None selects exactly the elements plain numpy indexing would select once time slices and bands are translated into positions; each dimension of the result describes the axis it came from (type, frequency, duration, scale), integer indices drop their axis, newaxis adds an axis without units, and missing trailing indices take the whole axis. Assigning through such an index changes exactly the selected elements.',
     [I, CF], 'for all axis sizes up to the stated bounds, all positions, and all index combinations listed (1 to 3 axes)',
     'The number of index combinations times positions is far larger than the few combinations the tests try.',
     ['zounds/core/axis.py', 'zounds/core/dimensions.py'],
     [('index translation', 'ArrayWithUnits._tuple, _compute_indices, _new_dims, __getitem__, __setitem__')])
prop('C06', 'Sliding windows hold the right samples, for any size and step',
     'windowed and sliding_window return, for every window and step size that fit, as window k exactly the elements from k * step up to k * step + window along each windowed axis (row-major order over several axes), as many windows as fit without padding (an input not longer than one window may be left over as a whole), and with padding enough windows to use all samples, missing ones being zero. The result for lists of windows over strided or reversed views is the same as for contiguous copies, and memory outside of the input is never touched.',
     [I, CF], 'for all lengths, window and step sizes within the stated bounds, 1 to 3 axes, contiguous and strided inputs',
     'Stride tricks read arbitrary memory when a count is off by one, and only for particular size, window and step combinations.',
     ['zounds/nputil/npx.py'],
     [('stride based windows', 'windowed, sliding_window, _wpad, _wcut')])
prop('C07', 'Streaming windows do not depend on how the stream is cut into chunks',
     'The sliding window node, fed any sequence of chunks of a stream, emits in total exactly the same windows however the stream is cut into chunks: window k holds the samples from k * step on, multiplied by the window function, with as many windows as it takes to reach the last sample (and no more), the last one padded with zeros, and with the dimensions of the windowing scheme.',
     [I, SC], 'for all chunk lengths up to the stated bounds in streams of up to 4 chunks, for windowing schemes with and without overlap',
     'The result depends on the alignment between chunk borders and windows; tests feed one or two chunkings.',
     ['zounds/spectral/sliding_window.py', 'zounds/nputil/npx.py'],
     [('buffering between chunks', 'SlidingWindow._enqueue, _dequeue, _process')])
prop('C03', 'Slicing by frequency selects the overlapping bands, and keeps their scale',
     'Indexing an array with a frequency axis by a frequency band (or by a pair of frequencies) returns the contiguous bands of its scale which overlap the requested band, at any position; the resulting axis carries the scale made of exactly those bands, so that slicing in several steps selects the same bands as one slice, and the same holds for frequency-adaptive arrays, whose bands have different numbers of coefficients, and for time and frequency sliced together. Slices of an always-even scale have an even number of bands.',
     [I, CF], 'for all band edges, for scales of up to 6 bands (explicit, linear, bark, mel, geometric edges symbolic or computed) and axis sizes a multiple of the bands',
     'Tests slice one scale at two or three positions; off-by-one bands appear only for edges in particular positions, and nested slices are not tested at all.',
     ['zounds/spectral/frequencyscale.py', 'zounds/spectral/frequencydimension.py', 'zounds/spectral/frequencyadaptive.py'],
     [('bands that overlap', 'FrequencyScale.get_slice, __getitem__'),
      ('array axes', 'FrequencyDimension.integer_based_slice, modified_dimension; ExplicitFrequencyDimension')])
prop('C04', 'Frequency units, bands and scales are consistent with one another',
     'A frequency band knows its start, stop, center and bandwidth in hertz consistently however it was built; intersection, containment and equality of bands are those of intervals; hertz, bark and mel values are converted without changing the frequency and compare and compute as frequencies; scales consist of bands in order that do not leave gaps between start and stop, cover the frequency range they were built for, never exceed the nyquist frequency of the sample rate, parts of a scale consist of its bands, and two scales (and the hashes of bands) are equal exactly when their bands are; a sample rate knows nyquist, overlap and samples per second exactly.',
     [I, CF], 'for all real-valued edges up to 10^6 Hz; scales of up to 6 bands',
     'Relations between pairs of bands and units hold or fail for orders of edges that the tests do not enumerate.',
     ['zounds/spectral/frequencyscale.py', 'zounds/timeseries/samplerate.py'],
     [('bands', 'FrequencyBand'), ('scales', 'FrequencyScale, LinearScale, GeometricScale, ExplicitScale, BarkScale, MelScale'), ('units', 'Hertz, Bark, Mel')])
prop('C08', 'Sample rates, durations and silence agree on how many samples there are',
     'Sample rates are exact: the audio sample rates map to the nearest picosecond period and back to the same rate in hertz, any rate algebra (product by a factor, multiples, half-lapped and windowing rates, discrete samples) yields the frequency and duration it says, samples are counted so that a duration of n samples is n samples, and generated or padded silence has exactly that many samples (zero), for any number of channels, with the axes of the audio.',
     [I, CF], 'for all durations up to 40 hours and the listed sample rates; any rate from 1 Hz to 1 MHz',
     'Rounding of picosecond periods only shows at long durations and particular rates.',
     ['zounds/timeseries/samplerate.py', 'zounds/timeseries/audiosamples.py', 'zounds/synthesize/synthesize.py'],
     [('sample rate algebra', 'SampleRate, AudioSampleRate, HalfLapped'), ('silence', 'AudioSamples.silence, silence_like, pad_with_silence')])
prop('C13', 'Time slices behave as intervals of time',
     'A time slice with a start and a duration covers exactly that interval whatever units it was given in: end is start plus duration, shifting moves it without changing its duration, the intersection of two slices is the interval that both have in common (empty when they have nothing in common), a moment or a slice is contained exactly when it lies strictly inside, slices are equal (and hash equally) exactly when start and duration are the same moments, they are ordered by their starts, and the slices cut between timestamps lie between neighbouring timestamps in order.',
     [I], 'for all moments up to 55 hours in seconds, milliseconds, microseconds and picoseconds, and up to 4 timestamps',
     'Tests check one or two overlapping positions out of the 13 ways two intervals can lie.',
     ['zounds/timeseries/duration.py', 'zounds/timeseries/timeseries.py'],
     [('time slices', 'TimeSlice')])
prop('C09', 'What is stored is what is read back',
     'Encoding a feature and decoding it again gives back the same thing: arrays keep their class, shape, type and elements; arrays with units keep the dimensions of every axis (class, sample frequency and duration to the picosecond, size, scale with exactly its bands); audio keeps its sample rate; frequency-adaptive arrays keep their scale and time axis; time slices keep start and duration, whether they lie before or after zero or have no end; collections of time slices keep their order; durations, frequencies and scales survive their dictionary encodings.',
     [I, CF], 'for all sizes, frequencies and durations within the stated bounds and all listed kinds of axes and scales',
     'Lossy conversions (seconds as floats, missing durations, sizes that are not multiples) only show for particular values.',
     ['zounds/persistence/', 'zounds/core/dimensions.py', 'zounds/timeseries/timeseries.py', 'zounds/spectral/frequencyadaptive.py'],
     [('encoding of dimensions', 'DimensionEncoder, DimensionDecoder and their subclasses'),
      ('features', 'ArrayWithUnitsEncoder, ArrayWithUnitsDecoder, TimeSliceEncoder')])
prop('C12', 'A variable rate series keeps each slice with its data, ordered by start',
     'A series of time slices of any duration, given in any order, holds all of them ordered by their starts (slices with one start in the order given), each with its own data; its end is the latest end of its slices and its span reaches from the first start to that end. Integer indices, slices and masks select by position; indexing with a time slice selects exactly the slices that overlap it. Concatenation holds the slices of both in order, nothing is changed by indexing or concatenation, and encoding and decoding return the same slices and data.',
     [I, CF], 'for up to 4 slices with arbitrary starts and durations up to 55 hours in s, ms, us and ps',
     'The relations between slice ends and starts that matter (a long early slice, ties, overlaps) are not in the sampled tests.',
     ['zounds/timeseries/variablerate.py'],
     [('selection and order', 'VariableRateTimeSeries.__init__, __getitem__, end, span, concat'),
      ('storage', 'VariableRateTimeSeriesEncoder, VariableRateTimeSeriesDecoder')])
prop('C10', 'Hamming distance counts the bits in which codes differ',
     'The hamming distance of a 64 bit code and each of an array of codes is the number of bit positions in which they differ, for every pair of codes; the packed distance of codes of several words is the sum over all their words, whatever the memory layout of the array (contiguous or part of a larger one); counting bits counts the ones of every word. There is one distance per code and in order.',
     [I], 'for every content of up to 3 codes of 1 to 5 words of 64 bits',
     'There are 2^128 pairs of words, and native code with its own copy of the loop; tests try a few.',
     ['zounds/nputil/countbits.pyx', 'zounds/nputil/npx.py'],
     [('bit counting in Cython', 'countbits.pyx'), ('distances', 'hamming_distance, packed_hamming_distance, count_bits')])
prop('C15', 'A range request is answered with the range it asks for',
     'A range header in bytes or seconds selects exactly the interval it names (open ended when no end is given), other units are refused, no header means no range. The content range announced for a slice of bytes or of time names the unit, the start and the end of what is actually sent - never beyond the end of the resource - and the total, and the default serializer reads exactly those bytes.',
     [I], 'for all positions up to 10^12 bytes, or 10^5 seconds with picosecond totals',
     'The tests request two or three ranges, none of them beyond the end.',
     ['zounds/ui/contentrange.py', 'zounds/ui/serializer.py'],
     [('parsing', 'RangeRequest.range'), ('answers', 'ContentRange.from_slice, from_timeslice'), ('partial bodies', 'DefaultSerializer.serialize')])
prop('C16', 'MIDI numbers and note names are the same thing',
     'Every integer MIDI number has the note name of its place in the octave and the octave number that, counted in twelves, gives the number back; every note name with every octave (sharps, negative octaves) maps to the number from which exactly that name comes back.',
     [I], 'for all MIDI numbers up to 10^9 in size and all octaves up to 10^8',
     'Tests list a few notes; octaves below zero and multi-digit octaves are outside of them.',
     ['zounds/util/midi.py'], [('conversion', 'midi_to_note, note_to_midi')])
prop('C22', 'A growable array holds what was put into it',
     'After any sequence of appends and extensions a growable array holds, in order and unchanged, its initial content up to its position and everything added since; its logical size counts exactly these, its physical size has room for them, and memory grows by its growth rate, or by what is needed when that is more, and only when it is full. The growth rate must be positive.',
     [HI, I], 'for up to 3 operations of up to 3 items on initial arrays of up to 3 rows, 1 to 3 axes, any content',
     'The state after a growth step depends on the position, the rate and the sizes of later additions; tests follow two histories.',
     ['zounds/nputil/npx.py'], [('growth', 'Growable.append, extend, _grow')])
prop('C17', 'Random samples are samples of what was seen',
     'A reservoir holds, in every slot that was given a sample, the last sample given to that slot, and hands out only such samples (never more than it has); a multiplexed reservoir keeps the rows of all features together; this also holds when several threads add at the same time. Shuffled samples come once, when the whole stream was seen. A reservoir sample of a stream is made of samples of the stream: all of them if they fit, and otherwise every sample of the stream had the same chance, wherever the stream was cut into chunks. An endless sampler draws from every document there is, again and again, each in proportion to its length but at least once if it has samples, and yields batches of at most the size asked for. Units of the axes are kept.',
     [I, SC], 'for every draw of the random numbers, every content, up to 3 slots and streams of up to 5 samples in up to 4 chunks; up to 3 threads preempted twice at any line',
     'Tests use real random numbers and look at shapes; the draws and schedules that lose or mix samples have small probability.',
     ['zounds/learn/random_samples.py'],
     [('reservoirs', 'Reservoir, MultiplexedReservoir'), ('nodes', 'ShuffledSamples, ReservoirSampler, InfiniteSampler')])
prop('C18', 'Preprocessing pipelines transform as they say and can be inverted',
     'Each preprocessing stage computes from training data what it says (mean, norm, extremes, codebook, hyperplanes) and transforms new data with that and nothing else; a pipeline applies its stages in order, each on what the one before makes; inverting the result in reverse order gives back the data, up to what a stage says it cannot recover, and stages that cannot be inverted refuse to. Parts of a pipeline are pipelines of these stages. Transformed arrays keep the units of the axes that survive, and get them back when inverted. Two stages have the same version exactly when they do the same. The training data is not changed.',
     [I, CF], 'for any 2 or 3 training examples and 2 new ones with up to 4 features, for every stage and 14 combinations of 2 or 3 stages',
     'Tests check shapes and a few round trips on random data; corner cases (zero examples, constant features, versions) do not occur in it.',
     ['zounds/learn/preprocess.py', 'zounds/learn/learn.py', 'zounds/learn/sklearn_preprocessor.py', 'zounds/core/axis.py'],
     [('stages', 'UnitNorm, Log, AbsoluteValue, MeanStdNormalization, InstanceScaling, Weighted, Multiply, Slicer, Reshape, Binarize, SimHash, KMeans'),
      ('pipelines', 'Pipeline, PreprocessingPipeline, PipelineResult, Op, Learned')])
prop('C19', 'Amplitude compression can be undone, and scaling scales',
     'Mu-law compression maps [-1, 1] onto itself, keeps the sign, is increasing and is undone by its inverse; the log modulus transform keeps the sign, is increasing and can be undone; units of the axes are kept. Scaling to the unit interval (or instance scaling) maps the smallest and largest element of each group onto the ends of the range and everything else in proportion, and constant groups to zero. One-hot and categorical encodings name exactly one category for each sample, and decoding gives a sample within one quantization step.',
     [I], 'for all samples in [-1, 1] (resp. up to 1000), 4 to 256 categories, arrays of up to 4 elements and any axis',
     'Tests round trip random noise: silence, full scale and constant inputs are measure zero.',
     ['zounds/loudness/loudness.py', 'zounds/learn/functional.py', 'zounds/spectral/functional.py'],
     [('compression', 'mu_law, inverse_mu_law, log_modulus, inverse_log_modulus'), ('scaling', 'unit_scale, instance_scale'),
      ('categories', 'categorical, inverse_categorical, inverse_one_hot')])
prop('C14', 'Onsets cut a stream into segments that tile it',
     'The segments found by a peak picker, over all chunks of a stream, start at its beginning, at each onset (counted from the start of the chunk it lies in) and end at the next onset or the end of what was seen, in order and without gaps. The moving average picker takes a frame for an onset exactly when the detection function has just peaked and the middle of its window exceeds 1.25 times the aggregate (mean by default) of the window. The measure of transience and spectral flux give one value per frame, with the time dimension of the frames: each frame is compared with the one before it, in the same or an earlier chunk, and the first one with itself, so that values do not depend on the chunks; the data they are computed from is not changed.',
     [I, SC], 'for any hop and chunk length up to 10^4 frames, up to 4 onsets in up to 3 chunks; any content of 3 frames of up to 4 bins cut into up to 3 chunks',
     'State is carried over chunk borders; tests use one long file and look at positions within a frame hop (and say the last one is not right).',
     ['zounds/segment/onset.py'],
     [('segments', 'BasePeakPicker._process, _last_chunk'), ('onsets', 'MovingAveragePeakPicker._onset_indices'),
      ('detection functions', 'MeasureOfTransience, Flux')])
prop('C24', 'Processing nodes compute frame by frame, whatever the chunks',
     'Merging puts the frames of all sources side by side in the order of the sources, frame i with frame i, as far as the shortest source reaches, however each source is cut into chunks, and takes at least two sources. Pooling applies its operation to the frames of each segment, whichever of segments and frames arrive first, once everything has arrived. Sum, maximum, slice, binarization and spectral centroid over the features of each frame do not depend on the chunks. A frequency weighting multiplies (or divides) every band by its own weight, along whichever axis holds the frequencies, and all coefficients of a band of a frequency-adaptive array by the weight of the band. The time dimension of frames (resp. the scale of the bands) is kept and input data is not changed.',
     [I, SC], 'for any content of up to 4 frames in up to 4 chunks from up to 3 sources; up to 3 bands on any of 3 axes',
     'Buffers of several sources get out of step only for particular chunkings; the tests use constant zeros and check sizes.',
     ['zounds/basic/basic.py', 'zounds/spectral/spectral.py', 'zounds/spectral/weighting.py', 'zounds/spectral/tfrepresentation.py'],
     [('merging and pooling', 'Merge, Pooled'), ('per frame', 'Sum, Max, Slice, Binarize, SpectralCentroid'), ('weights', 'FrequencyWeighting, FrequencyDimension.weights, ExplicitFrequencyDimension.weights')])
prop('C20', 'Transforms are what they are named after, and synthesizers undo them',
     'Frames of a series that overlap, added up by a synthesizer, give as each sample the sum over all frames that cover it, at the sample rate of the frames. DCT and DCTIV compute the orthonormal type II and IV transform of every frame and their synthesizers give the frames back; MDCT computes the lapped transform of its window, and its synthesizer restores the samples covered by two frames. FFT along any axis, with any zero padding, computes the real Fourier transform, describes the transformed axis by linear bands up to half the sample rate, and (for windows of even size) its synthesizer restores the frames times its window. stft frames, windows and transforms. Frequency-adaptive transforms whose bands do not overlap hold for each band the inverse transform of its coefficients, and are undone by their inverse; bands squared up are resampled to one time resolution with the same maximum, and overlap-added where frames overlap. Frequency decompositions hold what is lost between one size and the next, and add up to the signal. The rate is recognised for frames of any size up to 10^5; the frame axis and input data are kept.',
     [I, CF], 'for any real content of up to 4 frames of up to 34 samples at each listed size, hop and sample rate',
     'Tests check shapes and a few round trips of noise within a tolerance, for one size (usually 512 or a power of two) and hop of a half.',
     ['zounds/spectral/spectral.py', 'zounds/spectral/functional.py', 'zounds/spectral/frequencyadaptive.py', 'zounds/synthesize/synthesize.py'],
     [('transforms', 'FFT, DCT, DCTIV, MDCT, fft, stft'), ('synthesizers', 'BaseFrequencyToTimeSynthesizer, WindowedAudioSynthesizer, FFTSynthesizer, DCTSynthesizer, MDCTSynthesizer'),
      ('bands', 'FrequencyAdaptive, frequency_decomposition, apply_scale')])
prop('C21', 'Sounds are as long as asked for, and audio keeps its rate',
     'Synthesized silence, noise, sine waves and ticks have as many samples as fit into the duration asked for, at the sample rate of the synthesizer; sine waves are the mean of the sines of the frequencies given, noise lies within full scale, ticks decay from full scale and come back at every multiple of the tick frequency. Mono, stereo, channel sums, padding with silence, silence alike, mixing, concatenation and arithmetic keep the sample rate, mix and duplicate channels as documented and do not change the samples they were made from; adding or concatenating audio of different rates, building audio from other than an audio sample rate or from more than two axes is an error. The size of a chunk of an encoded file is that of as many samples as fit into its duration.',
     [I, CF], 'for any duration up to 10 minutes (lengths and chunk sizes) resp. up to 9 samples (content), each standard sample rate, up to 3 samples of up to 3 channels',
     'Tests use durations of whole seconds at one or two rates, where rounding and drift cannot be seen.',
     ['zounds/synthesize/synthesize.py', 'zounds/timeseries/audiosamples.py', 'zounds/soundfile/chunksize.py'],
     [('synthesizers', 'SilenceSynthesizer, NoiseSynthesizer, SineSynthesizer, TickSynthesizer'), ('audio', 'AudioSamples'), ('chunks', 'ChunkSizeBytes')])
prop('C25', 'Units follow the axes they describe through array operations',
     'The result of an operation on an array with units has one dimension for each axis, that of the axis it came from: elementwise operations with scalars, plain arrays and arrays with units keep dimensions; sum and max drop those of the axes that are summed up (or keep an axis without units); transposing and swapping axes reorder them; reshape and squeeze keep the units of the axes that keep their size, and add axes without units; dot keeps those of the axes that remain; concatenation joins arrays along an axis and fails when units disagree; packing bits keeps the other axes. Values are those plain numpy computes, and operands are not changed.',
     [I, CF], 'for arrays of 1 to 3 axes of up to 4 elements of any content, all combinations of axes listed',
     'The number of operations times axes times kinds of units is far larger than the couple of cases the tests try.',
     ['zounds/core/axis.py', 'zounds/core/dimensions.py'],
     [('operations', 'ArrayWithUnits.sum, max, dot, T, transpose, swapaxes, reshape, squeeze, concatenate, packbits, zeros_like, from_example, __array_wrap__, __array_finalize__')])
prop('C26', 'A stream of encoded audio comes out as the audio that went in',
     'However a stream of encoded audio is cut into chunks, reading it yields every frame of it exactly once and in order, as audio samples at the sample rate of the file, with all of its channels or summed to one. The memory it is decoded from returns what was written to it in order, as much as there is, whatever is read, written and sought in between and however much of what was read has been discarded meanwhile; positions are those of the whole stream, and its end is the length announced for the stream. From chunks of more than seven seconds as much is read as leaves six seconds to decoders which cannot wait for more, and otherwise one second.',
     [I, SC], 'for uncompressed audio of 8 to 32 bits of 1 or 2 channels in up to 4 chunks of any size up to 30 MB; any 3 operations after the first write on the memory, each of any size up to 30 MB',
     'Memory is discarded only after 10 MB have been read, which no test does, and chunk boundaries within a frame are left to chance.',
     ['zounds/soundfile/audiostream.py', 'zounds/soundfile/byte_depth.py'],
     [('streams', 'AudioStream._process, _last_chunk, _get_samples'), ('memory', 'MemoryBuffer.read, readinto, write, seek, tell'), ('amounts', 'chunk_size_samples')])
prop('C11', 'The index finds the nearest codes, and nothing gets lost or mixed up',
     'Searching a Hamming index yields the data of as many different records as asked for (or all, if there are fewer), such that no other record has a code nearer to the query, in order of distance when sorted, with or without several threads, for codes of one or more words, whichever instance of the database the records were added by, and also after it was closed and opened again. A random search is for one of the codes in the database. Codes of another size than that of the database are rejected, and a write that fails leaves nothing behind that can be found. A search while another thread adds a record sees the database as it was before or after. An index over the slices of documents returns the document and the time of each slice (and further data asked for) next to the code that was made of it; encoding and decoding queries keeps all bits. An index that follows an event log indexes every slice of every document of its feature and version, and no other, exactly once, and at least once when it stopped at any write and was started again.',
     [I, SC, CF, HI], 'for up to 3 codes of 1 to 3 words of any content (and any query), added by any of 2 instances; 2 threads preempted once at any line; one failure at any write while up to 3 slices are indexed',
     'Tests look for a handful of documents among random codes, never ask for as many results as there are, never restart an index nor stop it in between, and use one thread.',
     ['zounds/index/hammingdb.py', 'zounds/index/index.py'],
     [('search and storage', 'HammingDb.append, search, random_search, _catch_up_on_in_memory_store'), ('documents and events', 'HammingIndex.add, _listen, search, encode_query, decode_query')])
prop('C23', 'Datasets yield what there is, and ingesting processes each item',
     'Ingesting a dataset processes each of its items that has no document yet (or all of them, when asked to) exactly once, under the address of the item and with its metadata, one after another or by several threads or processes, whether or not others cannot be processed, looked up or have no address, and returns when all of it is done; a dataset that breaks off is an error, which does not keep the items before from being processed. Files fetched by datasets and cached items are complete: what an interrupted download leaves behind, also when the process ends in its middle, is never taken for the file, failures are reported, and what is complete is not downloaded again. Datasets yield, in order, every item there is (a search as many results as asked for, or all, over any pages), each with its own address and metadata; composite datasets yield the items of all of them, one after another.',
     [SC, CF, 'crash_points', 'fault_sequences'], 'for up to 3 items that fail in any combination, downloads broken off at any read, up to 3 pages of up to 2 results',
     'The tests need no network and so exercise none of it: nothing is ingested, searched or downloaded by any of them.',
     ['zounds/datasets/ingest.py', 'zounds/datasets/util.py', 'zounds/datasets/cache.py', 'zounds/datasets/freesound.py', 'zounds/datasets/internetarchive.py', 'zounds/datasets/phatdrumloops.py', 'zounds/datasets/nsynth.py', 'zounds/datasets/composite.py', 'zounds/datasets/filesystem.py', 'zounds/datasets/predownload.py'],
     [('ingesting', 'ingest, ingest_one'), ('downloads', 'ensure_local_file, DataSetCache'), ('datasets', 'FreeSoundSearch, InternetArchive, PhatDrumLoops, NSynth, CompositeDataset, Directory, PreDownload')])
prop('C27', 'Encoded files are cut by time, and written anew, without a loss',
     'A time slice of an encoded file yields consecutive frames of it as audio samples at its rate: those at exactly the position and of exactly the number asked for when these are whole seconds or whole samples of audio of that rate, however late in the file, and otherwise less than one frame away, as far as the file reaches; open ends and empty slices reach to the end, and iterating over the file yields every frame once and in order, whatever is read in between. Writing a stream of encoded audio anew hands every frame of it to the encoder exactly once and in order, however the stream is cut into chunks, at its rate and with its channels, and passes on all that the encoder makes in order; a stream which is in the right format already is passed on unchanged.',
     [I, SC], 'for files, starts and durations of up to 10 minutes (whole seconds), or one minute (single samples, picoseconds); streams of up to 3 chunks of any size up to 30 to 500 kB',
     'Tests slice 10 seconds of audio at whole seconds; rounding errors of the sample period add up to a sample only after minutes.',
     ['zounds/soundfile/ogg_vorbis.py', 'zounds/soundfile/audiostream.py'],
     [('slices', 'OggVorbisWrapper.__getitem__, iter_chunks'), ('re-encoding', 'OggVorbis._enqueue, _dequeue, _process')])
prop('C28', 'Bands, classes and descriptors gather the frequencies they stand for',
     'Applying a scale to a spectrogram yields for each frame and band the sum of the frequencies which the band meets (those which slicing by the band selects), multiplied by the window stretched to their number, or plainly summed without one; the result keeps the frames and has the scale as its frequency axis, for plain functions (of magnitudes) and nodes (bark bands of magnitudes) alike. Bark and mel bands are as many as asked for, centered evenly on their scale between the limits of the band and as wide as the equivalent rectangular bandwidth (0.108 f + 24.7 Hz); chroma sums the A-weighted tones which are octaves apart into the same of twelve classes. Bark frequency cepstral coefficients are the cosine transform of the logarithm of the bands from the first one not excluded on, spectral flatness is the geometric mean over the mean, and shifting the phase turns coefficient k by k cycles per length and sample of the shift, of the coefficients in the given band alone and along the given axis.',
     [I, CF], 'for any coefficients, up to 2 bands with any limits over up to 4 frequencies and any window; up to 16 concrete bands of up to 64 frequencies, up to 2 frames in up to 2 chunks',
     'Tests look at shapes and dimensions of the results, at one scale, and never at which frequencies were added up.',
     ['zounds/spectral/frequencyscale.py', 'zounds/spectral/spectral.py', 'zounds/spectral/functional.py'],
     [('gathering', 'FrequencyScale.apply, _basis, ChromaScale._basis, apply_scale, BaseScaleApplication, BarkBands, Chroma'), ('descriptors', 'BFCC, SpectralFlatness, phase_shift'), ('scales', 'BarkScale, MelScale')])
prop('C29', 'An exhaustive search finds the nearest slices',
     'A brute force search yields as many results as asked for, or as many as there are, each of them the time slice of one frame of the document it comes from and none of them twice, nearest first by the metric given (of packed codes: the number of differing bits), and no other frame of any document is nearer than any result; the query of a random search is one of the frames, the nearest of which is itself.',
     [I], 'for up to 3 frames in 2 documents, of any codes of up to 128 bits, or any two numbers, queries of any content, and any period and duration of frames',
     'Tests search among a few random vectors and check the number and order of results for one query.',
     ['zounds/index/brute_force.py'],
     [('search', 'BruteForceSearch, HammingDistanceBruteForceSearch, random_search')])
prop('C30', 'The web apps serve what there is, and only to those who may see it',
     'An app with a secret shows nothing (no page, feature, result, evaluation or message) to a request without the secret, whatever it sends, and lets in who knows it, from then on; pages which are public, and apps without a secret, are open to everyone. Features of documents are served as stored, whole or the range asked for, with the type of their content, and time slices of series and of encoded audio are those asked for; expressions yield their value, errors and output, and values are shown as their kind demands. A search by the web yields the results of the index with the slices they stand for, links in pages lead to what they name, and the training history and the messages of the training monitor are complete, in order, and belong to the epoch and batch they name.',
     [I, SC], 'for secrets of 2 characters, any other text of up to 3, any range of resources of up to 10^9 bytes, series of up to 10^4 frames and audio of up to 100 s, up to 4 batches',
     'Tests start no server; only one content range is parsed and a few values are serialized.',
     ['zounds/ui/baseapp.py', 'zounds/ui/api.py', 'zounds/ui/search.py', 'zounds/ui/training_monitor.py', 'zounds/ui/serializer.py', 'zounds/ui/contentrange.py'],
     [('who may see it', 'BaseZoundsApp, SessionHandler and the handlers'), ('content', 'feature, time slice, REPL, search and training handlers, serializers')])
prop('C31', 'Ready-made graphs do what they are told, whatever the sound comes from',
     'The features of the ready-made graphs (resampled, windowed, stft, frequency adaptive, audio graph, onsets) are those of the processing nodes they are named after, with the windows, padding, scale and sample rate asked for and however the sound is cut into chunks; stored is exactly what was asked for, sounds are read in chunks of the size and resampled to the rate asked for, and audio of that rate is kept as it is; resampling takes every frame and channel in its place, however the samples lie in memory. Scales whose bands overlap too little are refused on demand. Addresses, requests, files and metadata all name a sound, which is asked for from its beginning (or from where the request says), and its metadata is encoded completely; metadata is equal when all of it is. Audio is written to files, of any format, completely, in order, at its rate and with its channels, and reading a file yields all of it at the rate of the file.',
     [I, CF], 'for up to 14 samples or frames in up to 2 chunks, all combinations of what is stored, files of up to 50 s of audio',
     'Tests process a few seconds of silence with one setting, look at what features exist, and never at what settings do.',
     ['zounds/basic/audiograph.py', 'zounds/soundfile/audio_metadata.py', 'zounds/timeseries/audiosamples.py', 'zounds/soundfile/resample.py', 'zounds/ui/serializer.py'],
     [('graphs', 'resampled, windowed, stft, frequency_adaptive, audio_graph, with_onsets'), ('sources', 'MetaData, AudioMetaData, AudioMetaDataEncoder'), ('files', 'AudioSamples.encode, from_file, AudioSamplesSerializer')])
prop('C32', 'Training goes over the data as often as asked for, and its results stay',
     'A trainer takes as many steps as asked for: batches are drawn from the data alone, inputs stay with their labels, the part held out for tests is never trained on; each of the models alternates as documented; gradients are cleared before and parameters updated after each step, and critics stay within their limits. Callbacks registered with a trainer get each batch (and its errors of training and of test, not mixed up) until they are unregistered, at any time. A trained network is applied to each example exactly once and in order, however it is cut into chunks, in evaluation mode and without keeping gradients; results keep the units of the axes that stay, and the network that is loaded from storage is the network which was stored, of the same version; running out of memory while learning or applying is reported as such, and other errors are raised as they are.',
     [I, SC], 'for up to 4 samples with any draw of batches of any size, up to 3 epochs of up to 3 rounds; 2 examples of any content, networks with any weights, chunks of up to 3',
     'Tests train small networks for one epoch on random data and look at the shape of what comes out.',
     ['zounds/learn/trainer.py', 'zounds/learn/supervised.py', 'zounds/learn/embedding.py', 'zounds/learn/wgan.py', 'zounds/learn/pytorch_model.py', 'zounds/learn/util.py', 'zounds/learn/preprocess.py'],
     [('training', 'SupervisedTrainer, TripletEmbeddingTrainer, WassersteinGanTrainer, Trainer'), ('application', 'PyTorchNetwork, PyTorchAutoEncoder, PyTorchGan, apply_network, Op')])
prop('C33', 'Tensors are transformed as arrays are',
     'The cosine transform of tensors is that of arrays (orthonormal) and is undone by its inverse; resampling keeps the frequencies which both lengths have, adds none, and removes just those asked for; frequency decomposition yields, for each factor in order, a band that has the frequencies between it and the next smaller factor, and no others, and the short time transform has the transform of window k in column k, with the windowing function asked for. Normalizing a batch scales (resp. shifts and scales) each example, or each sample over all channels, to norm or standard deviation one. The size of a feature map is the number of positions of the kernel.',
     [I], 'for any content of up to 8 samples or 4 values; feature maps of inputs of up to 10^6 samples and any kernel, stride and padding up to 1000',
     'The only test of it looks at the shape of one result.',
     ['zounds/learn/dct_transform.py', 'zounds/learn/util.py', 'zounds/spectral/functional.py'],
     [('transforms', 'DctTransform.dct, idct, dct_resample, frequency_decomposition, short_time_dct'), ('norms', 'sample_norm, batchwise_unit_norm, batchwise_mean_std_normalization'), ('sizes', 'feature_map_size')])
