GENERIC = ('Exhaustive for the design model within its constants; the code is checked on every behaviour of the '
           'bounded model that is replayed and on the recorded traces, not on all inputs. ')
NOT['C31'] = ('numeric accuracy of real-valued transforms (FFT, DCT, MDCT, loudness) is outside what a TLA+ state '
              'model can express or TLC can evaluate; nothing here is a state or history property')
NOTES['C01'] = ('TimeSlicing.tla', GENERIC + 'Times are integer multiples of the unit; assumes numpy slicing semantics.')
NOTES['C02'] = ('ArrayUnits.tla', GENERIC + 'Values and labels are compared in full after every operation. Step slices on labelled axes and indices that mix integers with lists are outside the model.')
NOTES['C03'] = ('FreqScale.tla', GENERIC + 'Band borders are compared exactly for integer borders and by rank for real-valued scales.')
NOTES['C04'] = ('TimeAlgebra.tla', GENERIC + 'Times are integer multiples of a unit, written in mixed numpy units; open-ended spans are covered by C01.')
NOTES['C05'] = ('VariableRate.tla', GENERIC + 'Spans have positive length; positional cuts keep ascending order.')
NOTES['C06'] = ('Windowing.tla', GENERIC + 'How many padded windows are cut is left open as long as every sample is reached and none is only padding.')
NOTES['C07'] = ('SlidingStream.tla', GENERIC + 'Padding (padwith) is counted in windows; windowing functions are checked with exactly representable factors.')
NOTES['C08'] = ('StreamNodes.tla', GENERIC + 'Row values are exact integers or rationals, so the aggregate of each row is decided exactly; real-valued row functions (flatness, BFCC) are compared with the same node fed that row alone.')
NOTES['C12'] = ('Segments.tla', GENERIC + 'What counts as an onset is the detection rule of the picker, applied to each frame alone.')
NOTES['C09'] = ('ByteFeed.tla', GENERIC + 'libsndfile is trusted to decode a complete file; FLAC is streamed in chunks of at least eight seconds of uncompressed audio, the smallest the node is designed for.')
NOTES['C27'] = ('AudioBuffer.tla', GENERIC + 'Sample values are exact binary fractions; encoding is decided for lossless formats (WAV, AIFF, FLAC) at the precision they store.')
NOTES['C10'] = ('CompressedRead.tla', GENERIC + 'Positions are decided on formats libsndfile seeks in exactly; Ogg Vorbis is read in order, because the installed libsndfile (1.2.2) lands on other samples when it seeks in it.')
NOTES['C11'] = ('OverlapAdd.tla', GENERIC + 'Adding plain windows is decided exactly on integers; transforms are floating point, so their round trips are decided to one part in twenty thousand, for windows of at least 64 samples where the Ogg window is used (its squared halves only then add up to one).')
NOTES['C13'] = ('ArrayStore.tla', GENERIC + 'Values and axes are compared by their exact text; chunks of one stream share a dtype; rows have at least one value. Stores used: in memory, files, lmdb (reopened).')
NOTES['C14'] = ('HammingStore.tla', GENERIC + 'Handles live in forked processes; crashes and failing commits are injected at the begin, put and commit of the write transaction, and by SIGKILL at any time of concurrent appends. Crashes are of processes, not of the machine.')
NOTES['C15'] = ('NearestSearch.tla', GENERIC + 'Distances are computed in the specification from the bits of the codes (or exactly, from integer vectors, for the metrics of BruteForceSearch that are exact on them).')
NOTES['C16'] = ('IndexListener.tla', GENERIC + 'Interruptions: an extra-data function raising or the process dying at any frame, and dying or failing at the begin, put and commit of the index\'s write transactions; instances live in forked processes over documents on disk and an lmdb event log.')
NOTES['C28'] = ('Growable.tla', GENERIC + 'Values are given in halves so that the specification decides what each type of values makes of them.')
NOTES['C19'] = ('SampleReservoir.tla', GENERIC + 'Offers are interrupted at every step of the reservoir\'s use of the offered arrays while a second thread offers or reads; evenness of the one-pass sampler is a 7 sigma test on seeded runs against the proportion the specification derives by enumeration.')
NOTES['C17'] = ('LearnedPipeline.tla', GENERIC + 'Learned parameters and outputs are exact fractions in the specification, compared with the code within tolerance; transforms of one pipeline also run concurrently.')
NOTES['C18'] = ('StepVersion.tla', GENERIC + 'Versions are computed in three fresh interpreters with different hash seeds, from a catalogue of steps, each built in different forms (memory layouts, places of definition, orders of arguments); learned features are cached in a shared database.')
NOTES['C20'] = ('LearnBarrier.tla', GENERIC + 'Items of one set arrive in any order, but an input does not deliver its next item before the set is complete; collected inputs end in any order. The training itself is a stand-in that records what it is given.')
NOTES['C21'] = ('Training.tla', GENERIC + 'Four trainers (supervised, triplet, Wasserstein GAN, a subclass of Trainer) over one-weight networks whose numbers the specification computes; callbacks come and go between calls, within steps and within the telling of others; a web socket of the monitor is one of them.')
NOTES['C22'] = ('Ingest.tla', GENERIC + 'Serial, threaded and multi-process ingestion over in-memory, lmdb and file system databases (multi-process: files), with the order of starts and ends of items held to that of the behaviours.')
NOTES['C23'] = ('LocalFile.tla', GENERIC + 'Clients are processes that download from a local server which answers step by step; failures are statuses, cut and reset connections, interrupts, a full disk (file size limit) and SIGKILL, with plain, chunked and compressed bodies.')
NOTES['C24'] = ('Gate.tla', GENERIC + 'The applications (REPL, search and all training monitors) run on loopback ports and are compared with twins started without a secret; cookies are absent, forged, altered, from an application with another secret, or handed over.')
NOTES['C25'] = ('RangeServe.tla', GENERIC + 'Raw bytes, audio (bytes and seconds) and arrays (seconds, as pictures) in in-memory, lmdb and file databases; whole requests for arrays, which the application does not serve, are not judged. Audio longer than libsndfile can write at once is asked for in a separate process.')
NOTES['C26'] = ('ReplSession.tla', GENERIC + 'Two applications (REPL or training monitor) in one process, over HTTP; statements are spelled in many ways, and links show arrays, audio, documents, onsets and search results. What other threads print meanwhile is not judged; code that is given different globals and locals sees Python\'s scoping for those.')
NOTES['C29'] = ('BandStore.tla', GENERIC + 'Values are integers, so bands and columns are compared exactly; square views are judged where resampling is the identity or the band is constant; decomposition is judged by the components (whole cycles, away from the Nyquist frequency of a band) found in each band.')
NOTES['C30'] = ('NoteNames.tla', GENERIC + 'Every number from -60 to 399, every name in octaves -12 to 139, walks from the model, several numeric types; flats are not judged.')
NOTES['C32'] = ('Listing.tla, SourceMeta.tla', GENERIC + 'The internet is replaced by answers given below requests (HTTPAdapter.send); archives, tables and sounds are made in a scratch directory. Links to drum loops with a dot in their name and derivatives of files that are not listed are not judged.')
NOTES['C33'] = ('Resampling.tla', GENERIC + 'Sounds are sums of smooth pulses, known at every moment, whose spectrum both rates carry; what the converter does to frequencies the new rate cannot carry is not judged.')
NOTES['C34'] = ('AudioGraph.tla', GENERIC + 'Sounds are windowed tones of known place and frequency in silence; source rates are all supported ones, graphs work at 11025, 22050 and 44100 Hz. Numeric values are judged only by which rows are loud or silent and which band is strongest; features that are not stored are not read.')
NOTES['C35'] = ('Stretching.tla', GENERIC + 'Sounds are windowed tones and clicks of known place and frequency; moments are known to a window per operation that works with windows, pitches to 2 percent, and loudness is not judged (a phase vocoder changes it). Floating point sounds of at least a window; the last, partial window of a stretched sound is not judged.')
NOTES['C36'] = ('Scales.tla', GENERIC + 'Borders of bands are given by rank, so that meeting, holding and adding up are exact; cases whose borders coincide only within floating point are skipped. Which semitone the chroma starts with and tones next to the ends of the band are free; the Bark and Mel scales are judged in hertz. Magnitudes are absolute values of real coefficients.')
NOTES['C37'] = ('Amplitudes.tla', GENERIC + 'Amplitudes are fractions or powers whose compressed values are exact fractions; real results are compared to 1/20000. Every step starts from exact values, since scaling may amplify rounding. Categories may be rounded either way; logarithms of silence (decibel, cepstra of zeros) are not judged.')
NOTES['C38'] = ('SearchPage.tla', GENERIC + 'Codes are eight bits that are widened to those of the index, so that distances are known exactly. Hits may come in any order, and of equally near entries any may be shown; searches of an empty index are not judged.')
NOTES['C39'] = ('EndlessLearning.tla', GENERIC + 'Pipelines are stored in files (a process is forked and killed), documents in memory or files. What can be loaded between the begin of a run and the end of its first round is not judged: featureflow has opened the stream by then.')
NOTES['C40'] = ('BatchTransform.tla', GENERIC + 'Coefficients are small integers, which float32 keeps exact enough to be told; the kind of DCT is not prescribed, only that it is orthonormal and in the order of frequencies. Factors are such that the products with the sizes are whole numbers; dropout and batch statistics are off.')
