TO = "source/Tools/src/"
IO = "source/IOHaptics/src/"
TY = "source/Types/src/"
prop("P01", "A haptic model survives a write/read of the binary file format",
     "Writing any haptic model to a binary haptic file and reading that file back gives a model with the same "
     "attribute values, up to the documented quantisation of real-valued fields and the attributes the format "
     "does not carry. No attribute is exchanged with another, shifted, truncated, duplicated or lost, whatever "
     "combination of effect types, band types and optional attributes the model uses, and the reader consumes "
     "exactly what the writer emitted.",
     ["inputs", "programs"], "every model whose values fit the field widths of the format and whose strings are at most 255 characters",
     "the tests write and read a few hand-made models; the guarantee is over all combinations of optional attributes, counts, effect and band types",
     [IO + "IOBinary.cpp", IO + "IOBinaryBands.cpp", IO + "IOBinaryPrimitives.cpp", "source/IOHaptics/include/IOBinaryFields.h"],
     [("file header and body, writer", IO + "IOBinary.cpp: writeFileHeader, writeFileBody"),
      ("file header and body, reader", IO + "IOBinary.cpp: readFileHeader, readFileBody"),
      ("band headers and bodies", IO + "IOBinaryBands.cpp"),
      ("field widths", "source/IOHaptics/include/IOBinaryFields.h")],
     ["model attributes after IOBinary::loadFile"])
prop("P02", "The binary file layout is the published one",
     "A binary haptic file consists of the published fields in the published order, each with the published width "
     "in bits, presence condition, repetition count and numeric range; files written earlier remain readable with "
     "the same meaning, and files written now are readable by other readers.",
     ["inputs", "programs"], "every model written and every well-formed file read",
     "a test that writes and reads with the same code cannot see a layout change made on both sides, and a fixed file exercises only the fields it contains",
     [IO + "IOBinary.cpp", IO + "IOBinaryBands.cpp", "source/IOHaptics/include/IOBinaryFields.h"],
     [("field widths and masks", "source/IOHaptics/include/IOBinaryFields.h"),
      ("writer", IO + "IOBinary.cpp, IOBinaryBands.cpp: write*"), ("reader", IO + "IOBinary.cpp, IOBinaryBands.cpp: read*")],
     ["bytes of the written file", "model decoded from a given file"])
prop("P03", "Bit-field primitives are exact and invert each other",
     "Writing an n-bit unsigned or signed integer appends exactly its n low bits, most significant first, and reading "
     "n bits, from a file or from a bit buffer, at any bit offset, yields that value and advances by n bits; bits are "
     "packed into bytes most significant first with zero padding at the end only. Strings are a length byte followed by "
     "that many characters, and real numbers are scaled linearly over the stated range onto the full code range after clamping.",
     ["inputs", "histories"], "every value, every field width used, every bit offset left over by earlier reads",
     "tests check a few values and widths; the property is over all bit patterns, widths and leftover bits from previous reads",
     ["source/IOHaptics/include/IOBinaryPrimitives.h", IO + "IOBinaryPrimitives.cpp"],
     [("templates writeNBits/readNBits, float fields, bit buffers", "source/IOHaptics/include/IOBinaryPrimitives.h"),
      ("strings and vectors", IO + "IOBinaryPrimitives.cpp")],
     ["bit vectors and values"])
prop("P07", "The haptic data model stores and returns exactly what was put into it",
     "Every accessor of the data model (Haptics, Perception, Channel, Band, Effect, Keyframe, Avatar, ReferenceDevice, Sync, "
     "Direction, Vector) reads or changes exactly the attribute it names and nothing else: setters store the given value, "
     "getters return the stored value or the documented default when it is absent, indexed accessors use the given index "
     "and refuse an index out of range, generators and add functions create elements with the given attributes in the "
     "right place (keyframes and effects sorted by position), replacing metadata changes exactly the metadata of the "
     "addressed element and keeps its content, and equivalence tests compare every attribute they are documented to compare.",
     ["inputs", "histories"], "every object state reachable by any history of calls, and every argument value",
     "a test sets a few attributes on a few objects; the guarantee is over every attribute, every combination of present and absent values and every index",
     [TY + "Haptics.cpp", TY + "Perception.cpp", TY + "Channel.cpp", TY + "Band.cpp", TY + "Effect.cpp", TY + "Keyframe.cpp", TY + "Avatar.cpp", TY + "ReferenceDevice.cpp", TY + "Sync.cpp"],
     [("accessors and generators", "source/Types/src/*.cpp"), ("metadata replacement", TY + "Haptics.cpp: replace*MetadataAt"),
      ("keyframe insertion", TY + "Effect.cpp: addAmplitudeAt, addFrequencyAt, addKeyframe"), ("effect insertion", TY + "Band.cpp: addEffect")],
     ["return values and attribute values of model objects"])
prop("P08", "Signal synthesis from keyframes and effects follows the model's definition",
     "Evaluating a haptic model at a time gives the value its definition prescribes: a channel is the sum "
     "of its bands limited to [-1, 1]; a band contributes the effect active at that time, positioned relative to the effect start; vectorial "
     "effects are base signals whose amplitude and phase follow the linear interpolation of the keyframes before and after the time; transients "
     "decay as defined from their keyframe; wavelet effects give the decoded sample at that time; outside every effect the value is zero. The sampled evaluation of "
     "bands and channels, effect and model durations and the tests for overlapping effects follow the same definition.",
     ["inputs", "histories"], "every model, time, sampling frequency and padding",
     "tests evaluate a few effects at a few times; the definition is over all keyframe configurations and all times, and its boundaries (exactly at a keyframe, an effect's end, missing attributes) are rarely sampled",
     [TY + "Effect.cpp", TY + "Band.cpp", TY + "Channel.cpp", TY + "Perception.cpp", TY + "Haptics.cpp"],
     [("vectorial and transient evaluation", TY + "Effect.cpp: EvaluateVectorial, EvaluateTransient, EvaluateKeyframes, computeBaseSignal"),
      ("band evaluation", TY + "Band.cpp: Evaluate, EvaluationBand, isOverlapping, getBandTimeLength"),
      ("channel evaluation", TY + "Channel.cpp: Evaluate, EvaluateChannel, EvaluationSubset")],
     ["the doubles returned by Evaluate*, EvaluationBand, EvaluateChannel, get*TimeLength"])
prop("P11", "The same input gives the same result, every time and everywhere",
     "What a conversion, encoder, decoder, synthesiser or model operation returns or writes depends on its arguments, the object it is called on and the files it reads, and on nothing "
     "else: not on the clock (but for the date of a JSON file without a valid date and of a model made from OHM metadata), random numbers, the environment, the "
     "thread schedule or addresses, not on calls made before on other objects or with other arguments, and not on memory that was never given a value.",
     ["inputs", "histories"], "every function of the source tree and every sequence of calls",
     "a test runs each operation once or twice in a fixed order in one process; a value kept from an earlier call with other arguments, or memory that happens to be zero, goes unnoticed",
     ["source/IOHaptics/src/IOJson.cpp", "source/Types/src/Haptics.cpp", "source/Types/src/Band.cpp", "source/WaveletDecoder/src/WaveletDecoder.cpp", "source/Encoder/src/IvsEncoder.cpp",
      "source/PsychohapticModel/src/PsychohapticModel.cpp"],
     [("date defaults, the only clock readers", "source/IOHaptics/src/IOJson.cpp: writeFile; source/Types/src/Haptics.cpp: loadMetadataFromOHM"),
      ("rates and durations derived from arguments", "source/Types/src/Band.cpp: getTransientDuration; source/Encoder/src/IvsEncoder.cpp: millisecondsToTimeScale"),
      ("model of one block length", "source/PsychohapticModel/src/PsychohapticModel.cpp: getSMR")],
     ["results and files of any two runs, or of a second call in one process"])
prop("P13", "Wavelet coefficients survive significance coding: coder and decoder mirror",
     "Coding a block of quantised wavelet coefficients (set partitioning in bit planes followed by the adaptive binary arithmetic coder) and decoding the bytes gives back exactly "
     "the same integers, the block scale on its grid and the number of bit planes, for every block length, number of planes, sign pattern and zero pattern. To that end decoder and "
     "coder visit the same lists in the same order, use the same context for the same decision, adapt the same probabilities and renormalise the same ranges; the bits that end the "
     "stream identify the last interval, dropped trailing zeros read as zeros, and nothing of one block (probabilities, lists, descendants' maxima) is left for the next.",
     ["inputs", "histories"], "every block of coefficients, length, bit budget and scale; every sequence of blocks through one coder or decoder",
     "tests code a handful of fixed blocks; interval underflow, probability rescaling, exhausted input, and state left over between blocks depend on long bit patterns",
     ["source/Spiht/src/Spiht_Enc.cpp", "source/Spiht/src/Spiht_Dec.cpp", "source/Spiht/src/ArithEnc.cpp", "source/Spiht/src/ArithDec.cpp"],
     [("set partitioning", "source/Spiht/src/Spiht_Enc.cpp: encode, encodeEffect, initMaxDescendants; source/Spiht/src/Spiht_Dec.cpp: decode, sortingPass, refinementPass"),
      ("arithmetic coder", "source/Spiht/src/ArithEnc.cpp: encode, remainder; source/Spiht/src/ArithDec.cpp: initDecoding, decode")],
     ["coded bytes; decoded coefficients, scale and bit count; probabilities left behind"])
prop("P14", "Wavelet filter bank, block encoder and band decoder implement their transform",
     "The wavelet transform and its inverse are the stated two-channel filter bank with symmetric extension over the given number of levels; "
     "encoding a signal cuts it into consecutive blocks of the block length, one effect each at consecutive positions, with coefficients scaled and "
     "quantised to the allocated bits and bit allocation bounded by the budget; decoding a band gives, for every effect, the inverse transform of its "
     "coefficients times the block's scale divided by two to the block's number of bits, at the sample or tick position of that effect, whatever the "
     "timescale and whatever was decoded before, and leaves other bands alone.",
     ["inputs", "histories"], "every signal, block length, level count, bit budget, timescale and sequence of blocks",
     "tests transform a few impulses and count samples; the transform, the scaling and the independence of blocks concern every signal and history, and the encoder's tests are not even built",
     ["source/FilterBank/src/Wavelet.cpp", "source/WaveletDecoder/src/WaveletDecoder.cpp", "source/Encoder/src/WaveletEncoder.cpp"],
     [("filter bank", "source/FilterBank/src/Wavelet.cpp"), ("band decoder", "source/WaveletDecoder/src/WaveletDecoder.cpp: decodeBand, transformBand, decodeBlock"),
      ("block encoder", "source/Encoder/src/WaveletEncoder.cpp: encodeSignal, encodeBlock, uniformQuant, maxQuant, updateNoise")],
     ["samples, quantised coefficients, effect positions and band attributes"])
prop("P15", "AHAP and IVS files convert to the effects they describe",
     "Converting an AHAP file gives one transient keyframe per transient event and one vectorial effect per continuous event, at the event's time times the timescale, with the "
     "event's intensity and sharpness mapped to the stated amplitude and frequency ranges and modulated by the intensity and sharpness curves: interpolated between the control "
     "points around the start and the end, one keyframe per control point inside, clamped to the stated range, unmodified where the curve has no control point; entries that are "
     "incomplete or of another kind are skipped or rejected, never read. Converting an IVS file gives, for every timeline, one effect per launched basis effect with its period, "
     "magnitude, duration and time (overrides first), its attack and fade ramps, every repeat event repeating the effects inside it (nested repeats included) and delaying what follows, "
     "and effects that overlap going to different bands.",
     ["inputs"], "every AHAP and IVS document and timescale",
     "tests convert a few fixed files and fragments; the positions of curves relative to events, ramps longer than the effect, nested repeats and damaged entries are combinations no sample covers",
     ["source/Encoder/src/AhapEncoder.cpp", "source/Encoder/src/IvsEncoder.cpp", "source/Encoder/include/IvsEncoder.h"],
     [("AHAP events and curves", "source/Encoder/src/AhapEncoder.cpp: encode, extractKeyframes, extractTransients, extractContinuous, modulateContinuousOnAmplitude, modulateContinuousOnFrequency"),
      ("IVS effects", "source/Encoder/src/IvsEncoder.cpp: encode, convertToEffect, injectIntoBands, getLaunchedEffect and the attribute readers"),
      ("IVS repeats", "source/Encoder/include/IvsEncoder.h: RepeatNode::pushRepeat, pushEffect, linearize")],
     ["the perception filled in by encode; the effects filled in by extract* and convertToEffect; results"])
prop("P17", "Signal tools compute their stated formula for every input",
     "The numeric tools do what they state for every input: interpolation goes through the given control points and uses "
     "the given method between them, local extrema are exactly the points where the direction of the signal changes, spectral and error "
     "helpers compute their formula, and the command-line option parser returns the value that follows the requested option and reports an option as "
     "present exactly when it was given.",
     ["inputs"], "every signal, every set of control points, every command line",
     "tests use a few fixed signals; the formulas must hold for every length, order and position, including equal values, ends and empty inputs",
     ["source/Tools/src/Tools.cpp", "source/Tools/src/InputParser.cpp"],
     [("interpolation, extrema", "source/Tools/src/Tools.cpp"), ("option parsing", "source/Tools/src/InputParser.cpp")],
     ["return values"])
prop("P19", "Refactoring and linearising a model keep its effects",
     "Linearising the effect library puts in place of every reference effect of a band that names a library effect an effect with the referenced effect's content at "
     "the reference's position, and removes the library; refactoring "
     "moves effects into the library only when they are equivalent, leaves at the original position a reference to the library effect with that "
     "content, and changes no other effect, so that expanding the references gives the original effects back.",
     ["inputs"], "every model and library content",
     "tests use one or two small models; the guarantee is over all combinations of bands, channels, repeated and nested effects",
     [TY + "Haptics.cpp", TY + "Perception.cpp"],
     [("linearize", TY + "Haptics.cpp: linearize; " + TY + "Perception.cpp: linearizeLibrary"),
      ("refactor", TY + "Haptics.cpp: refactor; " + TY + "Perception.cpp: refactorEffects, searchForEquivalentEffects")],
     ["the model after linearize() or refactor()"])
prop("P06", "Enumerated attributes keep one name and one code each",
     "Every enumerated attribute (perception modality, avatar type, actuator type, body part target, band type, curve type, base signal, effect "
     "type, effect semantic) has exactly one name in text files and one code in binary files and streams; the names and codes are the "
     "published ones, every value has a name, and reading the name or code that was written gives back the same value. Names accepted for "
     "compatibility keep their meaning. The mask, packet and unit codes of binary files and streams are the published ones.",
     ["inputs", "programs"], "every enumerated value, every name and every code",
     "tests use a handful of the more than 150 values, and a table changed on the writing and the reading side alike passes every round trip",
     ["source/Types/include/EffectSemantic.h", "source/Types/include/BodyPartTarget.h", "source/Types/include/Perception.h", "source/Types/include/Effect.h", "source/IOHaptics/include/IOStream.h"],
     [("name tables", "source/Types/include/*.h: *ToString, stringTo*"), ("codes", "the enumerations of source/Types/include, IOHaptics/include and Tools/include/OHMData.h")],
     ["names in JSON files, codes in binary files and streams"])
prop("P05", "A haptic model survives writing to and reading from the JSON file format",
     "The JSON (hjif) writer puts every element and attribute the format has, under its published member name, nested as the model nests it, an optional "
     "attribute exactly when it has a value; the reader gives every member back to the attribute it came from, in order, and rejects a document that "
     "lacks a required member or has one of the wrong type. Wavelet bit streams pass through base64 text unchanged up to trailing zeros.",
     ["inputs"], "every model and every JSON document",
     "tests load and save a few files; a member mapped to another attribute, dropped for some band type or read under another name on both sides shows only on models that use it",
     ["source/IOHaptics/src/IOJson.cpp", "source/IOHaptics/src/IOJsonPrimitives.cpp"],
     [("readers", "source/IOHaptics/src/IOJson.cpp: load*"), ("writers", "source/IOHaptics/src/IOJson.cpp: extract*, writeFile"),
      ("bit streams in text", "source/IOHaptics/src/IOJson.cpp: bytes2bits, base642bits, bits2*"), ("member access", "source/IOHaptics/src/IOJsonPrimitives.cpp")],
     ["the JSON document written, the model read and the reader's result"])
prop("P18", "The conformance verdict follows the published semantic rules",
     "The semantic conformance check answers conformant exactly when the rules it states hold of the whole document: version, date and mesh URI well formed; profile and "
     "level among the published ones and the timescale within the profile's limit; identifiers of avatars, perceptions, reference devices, channels and library effects "
     "unique among their kind; every avatar and reference device named by a perception or channel present; modalities, band and effect types allowed by the profile; numbers "
     "of channels and bands within the level's limits; directions unit vectors; actuator targets within the resolution; curve types, block lengths, frequency limits, keyframes and "
     "semantic keywords of bands and effects as their kind prescribes. Every element of every list counts, in any order.",
     ["inputs"], "every document with the members the schema requires",
     "tests check two or three documents; a rule applied to the first element only, to the wrong counter or with the wrong limit passes them",
     ["source/IOHaptics/src/IOJson.cpp"],
     [("rules", "source/IOHaptics/src/IOJson.cpp: *Check")],
     ["the verdict returned for a document"])
prop("P04", "A haptic model survives the streaming (MIHS) format, packet by packet",
     "Writing a haptic model as MIHS units and packets and reading them gives back the same perceptions, channels, bands, effects, keyframes and library, up to the "
     "documented quantisation. Every packet is a header with its type and exact length followed by the published fields; every unit's length covers all its packets; every "
     "effect and keyframe is in the packet of its time slice and put back at its position in its own band, channel and perception; units are in time order with silent units "
     "for the gaps; identifiers select the element they name; an unreadable unit or file is reported. CRC packets cover the packets they protect, in order.",
     ["inputs", "histories"], "every model within the field widths, every packet duration, every sequence of packets",
     "the tests write and read one model; packets crossing time slices, several perceptions with the same channel ids, empty elements, references and wavelets at slice boundaries are not among them",
     [IO + "IOStream.cpp", "source/IOHaptics/include/IOStream.h", IO + "IOBinaryBands.cpp"],
     [("units", IO + "IOStream.cpp: writeUnits, writeMIHSUnit*, readMIHSUnit"), ("packets", IO + "IOStream.cpp: writeMIHSPacket, readMIHSPacket, write*/read* of each packet type"),
      ("time slices", IO + "IOStream.cpp: packetizeBand, createPayloadPacket, writeEffectBasis, sortPacket"), ("protection", IO + "IOStream.cpp: writeCRC, checkCRC, computeCRC")],
     ["bits of units and packets, model after readFile or readMIHSUnit"])

prop("P09", "Haptic object metadata survives its OHM file",
     "Writing metadata to an OHM file and loading it gives back the same version, description and elements, each with its file name, description and channels with "
     "description, gain and body part mask (texts up to the field width, masks over the full 32 bits). The file is the published layout: the header, big-endian version and counts, "
     "zero-padded fixed-width texts, and the counts are those of the elements and channels that follow. Loading replaces what the object held, and a file that cannot be opened, "
     "has another header or ends early is reported, as is a file that could not be written.",
     ["inputs", "fault_sequences"], "every metadata content, every text length, every body part mask, every byte sequence read, every point at which reading or writing fails",
     "the one test writes and loads a single element with an empty mask; masks with the top bit of a byte set, reloading, truncated files, overlong texts and write errors never occur",
     [TO + "OHMData.cpp", "source/Tools/include/OHMData.h"],
     [("loadFile", TO + "OHMData.cpp: loadFile"), ("writeFile", TO + "OHMData.cpp: writeFile, fillString")],
     ["bytes of the file, the object after loadFile, the results"])
prop("P10", "Reading or writing a binary file succeeds exactly when nothing was lost",
     "Loading a binary file (or buffer) answers true exactly when it could be opened and held every part it announces, and then the model is what those bytes say: each "
     "header, device, channel, library effect, band, effect and keyframe read adds exactly the elements counted, replaces only what it replaces, and consumes exactly its own bits; a "
     "part that cannot be read ends the reading with failure. Writing appends to what is already there exactly the bits of the element given, leaves the model as it was, and "
     "answers true only when every part, and the file itself, was written. This holds whatever the model, the buffer or the left-over bits hold beforehand.",
     ["inputs", "fault_sequences"], "every file content and length, every prior content of the model and of the left-over bits, every point at which the file ends or cannot be opened",
     "tests read back complete files into empty models; files cut short, files that cannot be created, bands read into channels that already hold some and left-over bits from the previous field never occur",
     [IO + "IOBinary.cpp", IO + "IOBinaryBands.cpp", "source/IOHaptics/include/IOBinary.h", "source/IOHaptics/include/IOBinaryBands.h"],
     [("files", IO + "IOBinary.cpp: loadFile, loadMemory, writeFile"), ("parts", IO + "IOBinary.cpp: read*, write*; " + IO + "IOBinaryBands.cpp: read*, write*")],
     ["results, model and read position after reading; bits after writing"])

prop("P20", "WAV files convert to the bands that describe them, and back",
     "Loading a WAV file gives the sample rate, the number of channels and samples and each channel's own samples, or reports that it could not be read; saving writes one 16 bit "
     "PCM frame per sample with the channels interleaved in order, every value rounded and clipped to the range, at the rate given, and reports a file that could not be written. Encoding a WAV "
     "file gives one channel per channel of the file (placeholders only for those missing), each with a curve band through the local extrema of its low-frequency part - every extremum at its "
     "rounded time, in order, at most one per time - and a wavelet band of what the curve leaves, as the configuration enables them; a perception with another number of channels is refused.",
     ["inputs", "fault_sequences"], "every signal, number of channels, sample rate, timescale and encoder configuration, every failure to open or write",
     "the tests of this part need libraries that are not in the build, and sample two signals; plateaus, extrema falling on the same tick, channel mixes and unreadable files are not among them",
     ["source/Tools/src/WavParser.cpp", "source/Encoder/src/PcmEncoder.cpp", "source/Encoder/include/PcmEncoder.h"],
     [("WAV files", "source/Tools/src/WavParser.cpp: loadFile, saveFile"), ("conversion", "source/Encoder/src/PcmEncoder.cpp: encode, convertToCurveBand, localExtrema"),
      ("configuration", "source/Encoder/include/PcmEncoder.h: EncodingConfig")],
     ["the perception after encode, the frames written, the results"])
prop("P16", "The perceptual model finds the peaks and masks its formulas define",
     "For every block the perceptual model answers, per frequency band of the wavelet decomposition, the signal energy and the ratio of it to the masking threshold: the spectrum of the "
     "zero-padded block in decibels, its local maxima (one per plateau, in the middle) that are high enough and prominent enough against the valleys up to the next higher peak, the largest "
     "mask any of them spreads, plus the threshold of perception at each frequency (constant from the first one on at which it reaches one). The inputs are left as they were.",
     ["inputs"], "every block, block length and sampling rate",
     "the one test needs a library that is not in the build; peaks at the border, plateaus, equal heights, no peak at all and a valley on one side only decide the bit allocation and do not occur in it",
     ["source/PsychohapticModel/src/PsychohapticModel.cpp", "source/PsychohapticModel/include/PsychohapticModel.h"],
     [("ratio per band", "source/PsychohapticModel/src/PsychohapticModel.cpp: getSMR"), ("masks", "source/PsychohapticModel/src/PsychohapticModel.cpp: globalMaskingThreshold, peakMask, perceptualThreshold"),
      ("peaks", "source/PsychohapticModel/src/PsychohapticModel.cpp: findPeaks, findAllPeakLocations, peakProminence, filterPeakCriterion")],
     ["modelResult of getSMR, the peaks of findPeaks, the mask of peakMask"])
prop("P21", "Wavelet coding stays within a bound of the signal",
     "Decoding an encoded wavelet band gives the original signal up to an error that shrinks with the bit budget, the largest one bounded by half a step of the coarsest quantiser in use.",
     ["inputs"], "every signal and bit budget",
     "the error depends on the values of every sample; tests compare a few signals",
     ["source/Encoder/src/WaveletEncoder.cpp", "source/WaveletDecoder/src/WaveletDecoder.cpp"],
     [("encoder", "source/Encoder/src/WaveletEncoder.cpp: encodeSignal"), ("decoder", "source/WaveletDecoder/src/WaveletDecoder.cpp: decodeBand")],
     ["the decoded samples"])
na("P21", "a bound on accumulated floating-point values through a data-dependent bit allocation: no sound static argument in reach bounds it; the transform, the quantiser and both coders are decided exactly by P13 and P14")
prop("P22", "Encoding and synthesis take time in proportion to their input",
     "Loading, streaming and rendering take time and memory at most proportional to the size of the file and the number of samples asked for.",
     ["inputs"], "every file",
     "tests use small files",
     ["source/Synthesizer/src/Helper.cpp", "source/IOHaptics/src/IOStream.cpp"],
     [("rendering", "source/Synthesizer/src/Helper.cpp: playFile"), ("streaming", "source/IOHaptics/src/IOStream.cpp: loadFile")],
     ["running time"])
na("P22", "a resource bound over nested data-dependent loops and library containers; the analyses here decide results (an endless loop is one), not costs")
prop("P23", "Rendered audio is what a listener expects of the effect",
     "The rendered signal of an effect feels like the effect that was described: the perceptual quality of interpolation, masking and transients is that of the reference.",
     ["inputs"], "every effect and every listener",
     "quality is a judgement of people",
     ["source/Types/src/Effect.cpp", "source/PsychohapticModel/src/PsychohapticModel.cpp"],
     [("evaluation", "source/Types/src/Effect.cpp: Evaluate*"), ("masking", "source/PsychohapticModel/src/PsychohapticModel.cpp: globalMaskingThreshold")],
     ["the rendered signal"])
na("P23", "not a property of the program text: the formulas are decided by P08 and P16, their perceptual adequacy is an empirical question")
prop("P24", "The command-line tools report every failure through their exit code",
     "Encoder, decoder and synthesizer end with a nonzero exit code exactly when the output was not produced.",
     ["inputs", "fault_sequences"], "every command line and every failure to read or write",
     "the tools' main functions are not called by any test",
     ["source/Encoder/src/main.cpp", "source/Decoder/src/main.cpp", "source/Synthesizer/src/main.cpp"],
     [("encoder", "source/Encoder/src/main.cpp: main"), ("decoder", "source/Decoder/src/main.cpp: main"), ("synthesizer", "source/Synthesizer/src/main.cpp: main")],
     ["exit code"])
na("P24", "the saving functions the tools call have no result for the text format and the intended exit codes are nowhere stated, so which exit is right is undecidable from the source; results the libraries do report are decided by P09, P10 and P20")
