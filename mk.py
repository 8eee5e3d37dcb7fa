#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing; the results are committed)."""
import json, sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/props'); sys.path.insert(0, HERE + '/engine')
import importlib
P = []
def prop(id, title, statement, over, q, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = state
    if observe: a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why, anchors=a))

prop('C01', 'The decoder\'s hash table behaves as a finite map',
 'After any sequence of insertions, look-ups and clearings, looking up a key gives the value of the last insertion of that key since the last clearing and the caller\'s default when there is none, and the reported number of entries is the number of distinct keys present. Every call returns, also on a full table and for keys that collide, and growing the table loses, changes or invents no entry.',
 ['histories', 'inputs'], 'every capacity, every key and value, every operation sequence; keys need only equality and a hash function',
 'Three fixed tests insert a few keys; they do not reach colliding probe sequences, growth in the middle of a history or stale slots after clearing.',
 ['src/hashtable.h', 'src/hashtable.cc'], [('open addressing with quadratic probing', 'src/hashtable.h HashTable::Lookup'), ('growth and re-insertion', 'src/hashtable.h ExtendBuckets'), ('generation counter for clearing', 'src/hashtable.h Clear'), ('table sizes', 'src/hashtable.cc')])
prop('C02', 'Pooled objects are never shared, lost or destroyed twice',
 'Every allocation from a pool gives an object that is constructed from exactly the given arguments and shares no storage with another live object; releasing it runs its destructor exactly once, and clearing or destroying the pool runs the destructor of exactly the objects still live. The reported number of allocated objects is always the number of live ones, and live objects keep their contents and address until released.',
 ['histories'], 'every sequence of allocations, releases and clearings, every block size, trivial and non-trivial element types',
 'The pool test allocates and frees one pattern; reuse after clearing, block boundaries and destructor accounting depend on the history.',
 ['src/pool.h'], [('block cursor and free list', 'src/pool.h Pool::Alloc, Pool::Dealloc'), ('clearing', 'src/pool.h Pool::Clear')])
prop('C03', 'Garbage collection frees exactly the unreachable nodes',
 'A collection keeps every node reachable from the given roots through predecessor links, unchanged and at its address, and releases every other allocated node exactly once, notifying it first. This holds for repeated collections interleaved with allocations and for nodes freed earlier.',
 ['histories'], 'every link structure and root set, every interleaving of allocations, releases and collections, every block size',
 'One test collects one small chain; which nodes survive depends on the whole link structure and on the marks left by earlier collections.',
 ['src/pool.h'], [('mark and sweep', 'src/pool.h GCPool::GC'), ('node state', 'src/pool.h Collectable')])
prop('C04', 'FST arc access returns exactly the arcs of the state',
 'For every state of a loaded transducer, iterating gives exactly its arcs in order, and looking up a label gives an arc of that state with that input label when there is one and reports failure otherwise, without looking at other states\' arcs. The start state and the final weights are those of the file.',
 ['inputs'], 'every transducer with arcs sorted by input label in each state, including states without arcs and the last state, every label',
 'One small FST file is tested; binary search boundaries and the end of a state\'s arc block depend on the shape of the transducer.',
 ['src/fst.h', 'src/fst.cc'], [('arc block boundaries', 'src/fst.cc Fst::CountArcs'), ('search by label', 'src/fst.cc Fst::GetArc'), ('iteration', 'src/fst.cc Fst::IterateArcs, Fst::ArcIterator')])
prop('C05', 'Language model look-up follows backoff arcs and subtracts the small model',
 'Looking up a word in the language model gives the arc of the first state on the backoff chain that has the word, with the backoff weights passed on the way added, and fails only when the chain ends without it; final weights follow the chain in the same way. The difference model gives the same successor with the small model\'s weight of the word subtracted, starts after the sentence-begin word and ends with the sentence-end word.',
 ['inputs'], 'every model whose backoff chains end, every state and word, with and without the table for state 0',
 'Tests query a handful of words of one model; chains of several backoffs, missing words and the direct table for state 0 need other shapes.',
 ['src/fst.h', 'src/fst.cc'], [('backoff', 'src/fst.cc LmFst::GetArc, LmFst::Final'), ('direct table', 'src/fst.cc LmFst::InitBucket0'), ('difference', 'src/fst.cc DeltaLmFst::GetArc, DeltaLmFst::Final, DeltaLmFst::StartState')])
prop('C06', 'The arc cache is transparent',
 'Looking up an arc through the cache gives the same success and the same arc as looking it up directly, whatever was looked up before and however small the cache is. Start state and final weights pass through unchanged.',
 ['histories', 'inputs'], 'every underlying transducer, cache size and sequence of look-ups, including colliding and failing ones',
 'The tests use a cache larger than the working set; stale and colliding entries need particular histories.',
 ['src/fst.h', 'src/fst.cc'], [('direct-mapped cache', 'src/fst.cc CachedFst::GetArc'), ('hash', 'src/fst.h CachedFst::Hash')])
prop('C07', 'Binary model readers restore the content or report an error',
 'Reading a well-formed vector, matrix, transducer or network section gives exactly the stored content and leaves the file directly after the section. A truncated section, a wrong section name or inconsistent sizes give an error status; no input makes a reader crash or touch memory outside its buffers.',
 ['inputs', 'fault_sequences'], 'every section content including empty ones, every truncation point, arbitrary damage of sizes and names',
 'The tests read a few good files; damaged and empty sections and every truncation point are not tried.',
 ['src/vector.cc', 'src/matrix.cc', 'src/fst.cc', 'src/nnet.cc', 'src/util.cc'], [('vector section', 'src/vector.cc Vector::Read'), ('matrix section', 'src/matrix.cc Matrix::Read'), ('FST section', 'src/fst.cc Fst::Read'), ('network', 'src/nnet.cc Nnet::Read, Nnet::ReadLayer'), ('file primitives', 'src/util.cc ReadableFile')])
prop('C08', 'Samples do not depend on how the byte stream is cut',
 'Whatever pieces a stream of PCM bytes is delivered in, the concatenated output is the sequence of decoded little-endian samples of the whole stream, each call giving exactly the samples completed so far (8-bit samples are unsigned around 128, 16- and 32-bit ones signed). A stream in an unsupported format (more than one channel, a rate other than 16 kHz, other sample widths) is rejected, and bad arguments give an error without disturbing the stream.',
 ['inputs', 'histories'], 'every byte content, every way to cut it (also inside a sample), the widths 8, 16 and 32, every format triple',
 'No test feeds the stream reader; only whole files are read.',
 ['src/pcm_reader.cc', 'src/pcm_reader.h'], [('carry-over of incomplete samples', 'src/pcm_reader.cc WaveReader::Process'), ('format check', 'src/pcm_reader.cc WaveReader::SetFormat')])
prop('C09', 'WAV headers are accepted exactly when consistent',
 'A canonical PCM WAV header is accepted exactly when its chunk names, sizes, byte rate and block alignment are consistent with its channels, rate and sample width, and the returned format is the one in the header, with the file positioned at the first sample. Any other header, including a truncated one, gives an error.',
 ['inputs', 'fault_sequences'], 'every 44-byte header, every truncation',
 'The test suite has no test of the header parser.',
 ['src/pcm_reader.cc'], [('header fields', 'src/pcm_reader.cc ReadPcmHeader')])
prop('C10', 'Filter bank features do not depend on how samples arrive',
 'After n samples exactly the frames whose 400 samples are complete (one every 160 samples) have been returned, each once and in order, however the samples were divided into calls, and instances do not influence each other. Each frame is the log mel energy of its own 400 samples: mean removed, pre-emphasised by 0.97, Hamming windowed, 512-point power spectrum, 40 triangular mel filters from 20 to 8000 Hz, floored at the single-precision epsilon.',
 ['inputs', 'histories'], 'every sample sequence, every division into calls including empty ones; values within floating point tolerance',
 'The test processes one file in one call; carry-over between calls is only visible with other divisions.',
 ['src/fbank.cc', 'src/fbank.h'], [('carry-over buffer', 'src/fbank.cc Fbank::Process'), ('frame count', 'src/fbank.cc Fbank::CalcNumFrames'), ('window', 'src/fbank.cc Fbank::ExtractWindow'), ('mel filters', 'src/fbank.cc Melbanks')])
prop('C11', 'Every frame gets exactly one acoustic score row with its own context',
 'Over a stream ended once, the acoustic model returns one row of scores per frame, in order, each available as soon as a chunk with its right context is complete. Row i is the network\'s output for frame i with the left and right context frames around it, the first and last frame repeated beyond the ends, minus the log prior, and does not depend on the chunk size or on other streams.',
 ['histories', 'configurations', 'inputs'], 'every number of frames, left and right context, chunk size, and network whose receptive field is that context',
 'No test runs the acoustic model.',
 ['src/am.cc', 'src/am.h'], [('padding and batching', 'src/am.cc AcousticModel::Process, AcousticModel::EndOfStream'), ('batch', 'src/am.cc AcousticModel::ComputeBatch')])
prop('C12', 'Vector and matrix operations compute their definition inside their view',
 'Every vector and matrix operation (copy, zero, set, scale, add, element-wise product, floor, log, softmax, log-softmax, dot product, transposition, products, resizing with each policy, swap, move) gives the mathematically defined value at every element of the object or view it is applied to, for every size and stride. It changes no element outside that view and no operand, and memory is released exactly once.',
 ['inputs'], 'every dimension, stride, offset and element value (floating point tolerance for sums), operands not overlapping the result',
 'Tests use a few small shapes; padded strides, views and last elements are hardly touched.',
 ['src/vector.cc', 'src/vector.h', 'src/matrix.cc', 'src/matrix.h'], [('element loops', 'src/vector.cc VectorBase'), ('stride arithmetic', 'src/matrix.h MatrixBase, src/matrix.cc SubMatrix'), ('resizing', 'src/vector.cc Vector::Resize, src/matrix.cc Matrix::Resize')])
prop('C13', 'Network layers compute their definition and compose in order',
 'Each layer gives, for every non-empty input, the output of its definition: affine map, rectifier, row normalisation to unit mean square, softmax, log-softmax, splicing of rows at the given offsets with the edge rows repeated, scale and offset, and dropping the given rows at both ends when more rows remain. A network applies its layers in order, whatever the output matrix held before, and leaves its input unchanged.',
 ['inputs', 'configurations'], 'every layer parameter and every input with at least one row and column (finite results), every stack of layers with matching sizes',
 'The tests check a few layers on one small matrix each.',
 ['src/nnet.cc', 'src/nnet.h'], [('layers', 'src/nnet.cc *Layer::Propagate'), ('composition', 'src/nnet.cc Nnet::Propagate')])
prop('C14', 'Quantisation is accurate to one step and the product is exact on integers',
 'Quantising a matrix uses a positive step of at most 1/255 of its value range, and converting back differs from every element by at most about one step, for positive, negative, mixed and constant matrices. The quantised product equals the product of the dequantised matrices up to rounding of single precision.',
 ['inputs'], 'every non-empty matrix whose spread is at least 1/500 of its largest magnitude or zero; products of matrices with at least two elements',
 'The test quantises one random matrix with both signs.',
 ['src/matrix.cc'], [('range', 'src/matrix.cc FindMinMax, ComputeQuantizationParams'), ('rounding', 'src/matrix.cc Quantize'), ('product', 'src/matrix.cc MatMat_U8U8F32')])
prop('C15', 'Mean normalisation uses the last 600 frames and the global prior',
 'Fetching the frames in order, frame t is the raw frame minus the mean of the frames of a window of the last 600 up to t; when fewer than 600 exist, min(200, 600 - count) frames of the global mean are added to the average. The result depends on no later frame.',
 ['inputs', 'histories'], 'every feature matrix with 40 columns and any number of rows, every global statistic with positive count; within floating point tolerance',
 'The only test of this part is not built.',
 ['src/cmvn.cc'], [('running sums', 'src/cmvn.cc CMVN::ComputeStats'), ('smoothing', 'src/cmvn.cc CMVN::SmoothStats'), ('application', 'src/cmvn.cc CMVN::Apply')])
prop('C16', 'The FFT equals the discrete Fourier transform and its inverse undoes it',
 'For every power-of-two size from 4 and every real input, the forward transform gives the discrete Fourier transform in the documented packed layout, up to floating point error, and applying the backward transform multiplies the input by the size. The result does not depend on the contents of the scratch buffer, and nothing outside the data and the buffer is written.',
 ['inputs'], 'sizes 4 to 4096, every real input',
 'One 128-point vector is tested.',
 ['src/srfft.cc', 'src/srfft.h'], [('butterflies', 'src/srfft.cc SRFFT::ComplexfftComputeRecursive'), ('bit reversal', 'src/srfft.cc SRFFT::BitReversePermute'), ('real packing', 'src/srfft.cc SRFFT::Compute')])
prop('C17', 'The C interface gives the same result for every way to deliver the audio',
 'The final hypothesis and score of an utterance depend only on its samples, the model and the format, not on how the audio is cut into calls, on other utterances or on earlier ones, and equal the result of feeding all samples through the components in one piece; each call returns the number of samples completed. Missing or damaged models, incomplete or wrong configurations, unsupported formats and null utterances give the documented failure value with an error message, and destroying everything releases all memory.',
 ['inputs', 'histories', 'configurations', 'fault_sequences'], 'every audio content and division, with and without a large language model, every missing or truncated file and setting',
 'There is no end-to-end test.',
 ['src/ce_stt.cc', 'src/ce_stt.h'], [('streaming', 'src/ce_stt.cc ce_stt_process, ce_stt_end_of_stream'), ('initialisation', 'src/ce_stt.cc ce_stt_init, ce_utt_init'), ('result text', 'src/ce_stt.cc StoreHypText')])
prop('C18', 'Configuration look-up returns what the file says',
 'After reading a configuration file, every key (case-insensitive, surrounding white space ignored, later lines override earlier ones, comment and empty lines skipped) gives its value as text, as number or as path, where relative paths are relative to the file\'s directory and absolute ones unchanged; absent keys give the default or an error. A line that is not of the form key=value, and a number setting that is no number, are reported as errors.',
 ['inputs'], 'every file content in this grammar, lines of any length, with either line ending and with or without a final line break',
 'One three-line file is tested.',
 ['src/configuration.cc', 'src/configuration.h'], [('parsing', 'src/configuration.cc Configuration::Read'), ('look-up', 'src/configuration.cc GetStringOrElse, GetPathOrElse, src/configuration.h GetInteger')])
prop('C19', 'Text helpers, lines and the symbol table are exact',
 'Trimming, splitting, lower-casing and number parsing give their definition for every string, and reading lines gives every line of the file in order without its line ending, of any length, with or without a final line break. The symbol table maps every listed word to its number and back, other words to the not-found value, and rejects files with malformed lines, ids that are negative or no numbers, or without the sentence boundary words.',
 ['inputs'], 'every string and file content without zero bytes, non-empty delimiters',
 'No built test covers these; the symbol table test is not built.',
 ['src/util.cc', 'src/symbol_table.cc'], [('string helpers', 'src/util.cc Trim, Split, Tolower, StringToLong'), ('lines', 'src/util.cc ReadableFile::ReadLine'), ('symbols', 'src/symbol_table.cc SymbolTable::Read, Get, GetId')])
prop('C20', 'Bounded string copy never overflows and always terminates',
 'Copying a string into a buffer of given size writes only inside the buffer, leaves it zero-terminated whenever the size is not zero, and the copied text is the longest prefix that fits. The returned value is the length of the source.',
 ['inputs'], 'every source string and every size',
 'No test calls it.',
 ['src/strlcpy.cc'], [('copy loop', 'src/strlcpy.cc pasco_strlcpy')])
prop('C21', 'The decoder returns a best path and its cost',
 'At the end of an utterance the result is the word sequence of a complete path through the decoding graph (composed with the language model when there is one) for exactly the frames given, together with a cost that a path with these words has; when all alternatives stay within the beam it is the cheapest path, and at every frame each reachable state is held once with its lowest cost. When no path continues, processing reports failure (now and for later frames) without crashing, and tokens that are pruned or replaced are released.',
 ['inputs', 'histories'], 'every decoding graph without negative weights, language model, score sequence of finite values and number of frames',
 'No test runs the decoder.',
 ['src/decoder.cc', 'src/decoder.h'], [('token passing', 'src/decoder.cc Decoder::ProcessEmitting, ProcessNonemitting, InsertTok'), ('pruning', 'src/decoder.cc Decoder::GetCutoff'), ('result', 'src/decoder.cc Decoder::BestPath')])

def main():
    with open(HERE + '/properties.jsonl', 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    checks = []; na = []
    for p in P:
        id = p['id']
        if not os.path.exists('%s/props/%s.py' % (HERE, id)):
            na.append(dict(property=id, reason='no check yet')); continue
        m = importlib.import_module(id); lv = getattr(m, 'LEVEL', 'proof')
        checks.append(dict(property=id, quick_cmd='python3-vt check.py %s quick' % id, thorough_cmd='python3-vt check.py %s thorough' % id,
            technique=getattr(m, 'TECHNIQUE', 'contract-based deductive verification of the real code (own VC generator on LLVM IR, z3/cvc5); native driver as labelled bounded stand-in and counterexample search'),
            level=lv, level_note=getattr(m, 'NOTE', '')))
        if hasattr(m, 'THEOREMS'): checks[-1]['theorems'] = m.THEOREMS
    json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na, notes='See DESIGN.md.'), open(HERE + '/MANIFEST.json', 'w'), indent=1)
main()
