import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
p("C01","Pixels do not depend on thread count or scheduling",
 "For the same input bytes and the same options apart from the number of threads, a decode gives the same answer every time: the same pixels byte for byte, or a failure. Neither the number of worker threads nor the order and speed in which they run can change it.",
 ["schedules","configurations","inputs"],"every interleaving of the calling thread and its workers, every thread count, baseline and progressive images of every sampling, valid or damaged",
 "The tests decode a few files once, with the scheduling the machine happens to give, and only look at whether decoding succeeded, never at pixels.",
 ["src/mcu.rs","src/mcu_prog.rs","src/worker.rs"],
 [("each strip of the output is a disjoint chunk handed to one job","src/mcu.rs decode_mcu_ycbcr_baseline"),("post-processing reads only its own coefficients and shared immutable metadata","src/worker.rs post_process"),("progressive strips are zipped with output chunks","src/mcu_prog.rs finish_progressive_decoding")],
 ["Decoder::decode_buffer result"])
p("C02","A decode returns only after all of its work is finished",
 "When a decode call returns, successfully or not, no thread it started is still working on that image: the returned pixels are complete and nothing writes to them, or to memory the call has released, afterwards.",
 ["schedules","fault_sequences"],"every interleaving, including workers that are stalled for the whole decode, on success and on decoding errors found while strips are in flight",
 "A late write needs a worker to be descheduled past the return of the call; tests never control that and do not inspect pixels.",
 ["src/mcu.rs","src/mcu_prog.rs"],
 [("scoped thread pool joins before the scope ends","src/mcu.rs scoped_pools.scoped"),("same for progressive","src/mcu_prog.rs pool.scoped")],
 ["returned buffer after the call","heap blocks released by the call"])
p("C03","Worker threads and memory are bounded and given back",
 "A decode never has more worker threads alive than the caller allowed, and once the decoder is dropped every thread it started ends. Repeating the same calls, failing ones included, does not accumulate memory or threads.",
 ["schedules","histories","fault_sequences"],"every sequence of successful and failed decodes, thread count and interleaving",
 "Tests neither count threads nor measure memory, and a leak on an error path needs an error while workers are busy.",
 ["src/mcu.rs","src/mcu_prog.rs","src/options.rs"],
 [("pool sized by the thread option and dropped with the call","src/mcu.rs scoped_threadpool::Pool::new"),("thread option","src/options.rs get_threads")],
 ["threads alive during and after decode calls","heap in use after repeated calls"])
p("C04","Decoding a file equals decoding the bytes the file delivered",
 "Decoding a file gives exactly what decoding a buffer with the delivered bytes gives. Short reads, interrupted system calls, wrong or changing size hints and files that grow or shrink while being read make no difference.",
 ["fault_sequences","inputs"],"every split of the file into reads, every placement of interrupted calls, every reported size, every concurrent change of the file's length",
 "Tests read ordinary files that arrive in one read; they cannot make a read short or interrupted.",
 ["src/decoder.rs"],[("whole file is read before decoding","src/decoder.rs decode_file")],["Decoder::decode_file result"])
p("C05","A failed file operation is an error, and only for that call",
 "If a file cannot be opened or a read fails at any point, decoding the file returns an error: no panic, no pixels made from the part that was read. The decoder stays usable, and its next calls give the same results as if the failed call had not been made.",
 ["fault_sequences","crash_points","histories"],"every system call of the file path failing with every errno, at every point in the file, followed by further calls",
 "Tests never make a file operation fail after it started.",
 ["src/decoder.rs","src/errors.rs"],[("I/O errors are converted and propagated","src/decoder.rs decode_file; src/errors.rs From<io::Error>")],["Decoder::decode_file result","results of later calls"])
p("C06","Damaged image data never crashes the decoder",
 "Whatever happened to the stored bytes - flipped, lost, torn, misplaced, truncated or foreign data - and whatever the options, decoding or reading headers returns pixels or an error, and setting options succeeds or is refused: nothing panics on any thread, aborts the process or accesses memory the decoder does not own.",
 ["inputs","fault_sequences","configurations","schedules"],"every corruption of every image, every option combination, every interleaving of the workers that process the damaged strips",
 "Only a handful of hand-made invalid inputs exist as tests; a panic in a worker additionally takes other strips or the whole process down depending on scheduling.",
 ["src/headers.rs","src/decoder.rs","src/bitstream.rs","src/huffman.rs","src/mcu.rs","src/mcu_prog.rs","src/worker.rs","src/components.rs"],
 [("header validation","src/headers.rs"),("table and component checks","src/mcu.rs check_tables; src/decoder.rs check_component_dimensions"),("bounded table lookups","src/bitstream.rs"),("checked output indexing","src/worker.rs; src/color_convert")],
 ["Decoder::decode_buffer","Decoder::read_headers"])
p("C07","Every decode finishes within work bounded by its input",
 "Decoding ends after an amount of work bounded by the input length and by the size and number of scans the image declares, however the bytes are damaged and however threads are scheduled: no endless loop, deadlock or lost wake-up.",
 ["inputs","schedules","fault_sequences"],"every damaged input and every interleaving, spurious wake-ups included",
 "Tests cannot distinguish slow from stuck and never run hostile streams or schedules.",
 ["src/bitstream.rs","src/mcu.rs","src/mcu_prog.rs","src/decoder.rs"],
 [("zero fill after the end of data","src/bitstream.rs refill/read_u8"),("scan limit","src/mcu_prog.rs max_scans"),("marker search stops at end of data","src/mcu_prog.rs get_marker"),("pool join","src/mcu.rs")],
 ["steps until a decode call returns"])
p("C08","Successful output has the announced size, format and metadata",
 "After a successful decode the buffer holds exactly width x height x channels bytes, where width, height and channels are those the decoder reports and the width, height, component count, sample precision and coding process (baseline or progressive) are those in the image's frame header. Grayscale images come out with one channel; otherwise the reported colour space is the requested one.",
 ["inputs","configurations","fault_sequences","schedules"],"every image that decodes, intact or damaged, every colour space and limit, dimensions up to 65535",
 "Tests never compare the length of the output with the metadata.",
 ["src/mcu.rs","src/mcu_prog.rs","src/headers.rs","src/decoder.rs"],
 [("output truncated to the declared size","src/mcu.rs global_channel.truncate; src/mcu_prog.rs out_vector.truncate"),("metadata taken from the frame header","src/headers.rs parse_start_of_frame")],
 ["length of the returned buffer","Decoder::info","Decoder::width/height","Decoder::get_output_colorspace"])
p("C09","Size and scan limits hold for every input",
 "An image wider or taller than the configured maximum, or with more scans than the configured maximum (of at least one), is refused, and one within the limits is not refused because of them. Memory used by a decode stays proportional to the configured maximum size plus the input length, whatever the headers claim.",
 ["inputs","configurations","fault_sequences","histories"],"every combination of limits, declared dimensions and scan counts, including limits changed between calls and headers damaged in storage",
 "One test raises a limit; boundaries, scan counts and memory are never exercised.",
 ["src/headers.rs","src/options.rs","src/mcu_prog.rs"],
 [("dimension check in the frame header","src/headers.rs parse_start_of_frame"),("scan counter","src/mcu_prog.rs decode_mcu_ycbcr_progressive"),("limits","src/options.rs")],
 ["result of decode_buffer and read_headers","peak heap during the call"])
p("C10","What a decoder did before does not change what it does next",
 "The result of a call on a decoder depends only on that call's input and on the options in force: decoding, failing, or only reading headers of any sequence of other images beforehand, on any thread, changes nothing.",
 ["histories","fault_sequences","schedules"],"every sequence of decodes, header reads, option changes and failed calls on one decoder, in any order",
 "Every test uses a fresh decoder.",
 ["src/decoder.rs","src/headers.rs","src/mcu.rs","src/mcu_prog.rs"],
 [("state is reset when headers are parsed","src/decoder.rs decode_headers_internal"),("predictors reset per scan","src/mcu_prog.rs parse_entropy_coded_data")],
 ["results of successive calls"],
 [dict(name="Decoder fields",meaning="tables, components, sampling maxima, restart interval, progressive flag, output colour space",where="src/decoder.rs struct Decoder")])
p("C11","Decoders running at the same time do not affect each other",
 "Any number of decoders used from different threads at the same time each give the result they would give alone, and a decoder may be handed from one thread to another between calls.",
 ["schedules","histories","configurations"],"every interleaving of several callers and all of their workers, with different images and options, failing calls included",
 "No test decodes two images at the same time under controlled interleavings.",
 ["src/decoder.rs","src/mcu.rs","src/mcu_prog.rs","src/worker.rs","src/upsampler","src/idct","src/color_convert"],
 [("no shared mutable state between decoders","src/decoder.rs Decoder owns everything"),("one pool per decode","src/mcu.rs; src/mcu_prog.rs")],
 ["results of calls made concurrently"])
p("C12","Damage never reaches pixels stored before it",
 "Corruption or loss of entropy-coded bytes cannot change rows whose data, together with that of the rows post-processed with them, lies completely in front of the damage: if the decode still succeeds those rows are identical to those of the intact image. In images of several scans, baseline or progressive, this holds for changed bytes that neither make nor destroy markers, and for the rows whose data lies in front of the damage in every scan that is hit.",
 ["fault_sequences","crash_points","schedules"],"every truncation point and every damage position after the first scan header of a baseline image of one scan, every in-place change of entropy-coded bytes of the others, every interleaving",
 "Tests never compare the pixels of a truncated or damaged image with the intact one.",
 ["src/mcu.rs","src/mcu_prog.rs","src/bitstream.rs","src/worker.rs"],
 [("strips are decoded in stream order and post-processed independently","src/mcu.rs"),("bit reader looks ahead a few bytes only","src/bitstream.rs refill"),("the next scan is looked for behind the data of the last one","src/mcu_prog.rs")],
 ["pixels of a damaged image"])
p("C13","Results never contain stale memory",
 "Every byte of a result is determined by the input and options alone: contents of uninitialised or previously used memory never show up in pixels, and no byte outside a buffer is written.",
 ["inputs","schedules","configurations","fault_sequences"],"every heap content, image and option combination, SIMD and portable code paths",
 "Tests do not look at pixels and run with whatever the allocator returns, usually zeroed pages.",
 ["src/idct/avx2.rs","src/upsampler/avx2.rs","src/upsampler/sse.rs","src/color_convert/avx.rs","src/color_convert/sse.rs","src/unsafe_utils.rs","src/worker.rs"],
 [("bounds of unchecked loads and stores","src/upsampler/sse.rs; src/upsampler/avx2.rs; src/idct/avx2.rs; src/color_convert/avx.rs"),("buffers are zero-initialised","src/mcu.rs; src/worker.rs")],
 ["pixels under different heap contents","guard bytes around heap blocks"])
p("C14","Running out of threads is contained",
 "If the operating system refuses to create some or all worker threads, the call either gives the normal result or fails in the calling thread; it never hangs, aborts the process, returns wrong pixels or leaves threads behind, and the same call succeeds once threads are available again.",
 ["fault_sequences","schedules","histories"],"every subset of thread creations refused, every interleaving, baseline and progressive",
 "Tests never run out of threads.",
 ["src/mcu.rs","src/mcu_prog.rs"],[("pool creation before any work is queued","src/mcu.rs Pool::new; src/mcu_prog.rs Pool::new")],
 ["result of the call and of its repetition"])
p("C15","Reading headers agrees with decoding",
 "Reading only the headers accepts every image that decodes and reports the same metadata as the decode, and an image whose headers it refuses does not decode. What it reports depends only on the bytes up to the first scan header: losing or corrupting anything after them changes nothing.",
 ["inputs","crash_points","fault_sequences"],"every damaged image, every truncation point after the first scan header, before or after other calls on the decoder",
 "Header reading is tested on intact files only.",
 ["src/decoder.rs","src/headers.rs"],[("both paths share the header parser","src/decoder.rs decode_headers_internal")],
 ["Decoder::read_headers result","Decoder::info"])
p("C16","Foreign bytes between headers are skipped, or refused when strict",
 "Application and comment segments of any content and length, and stray bytes between header segments, do not change the decoded pixels. In strict mode more than a few stray bytes are refused; strict mode otherwise only ever turns a result into an error, never into a different result.",
 ["inputs","fault_sequences","configurations"],"every placement, length and content of foreign segments and stray bytes, damaged images, both modes",
 "Strict mode and inserted bytes are not covered by tests.",
 ["src/decoder.rs","src/headers.rs"],[("unknown segments skipped by length","src/decoder.rs parse_marker_inner"),("marker search between segments and strict-mode counter","src/decoder.rs decode_headers_internal")],
 ["Decoder::decode_buffer result"])
p("C17","Decoded pixels conform to the JPEG standard",
 "The pixels of every intact supported image are those a conforming decoder produces, up to rounding: each component is within two of the exact inverse transform of the stored, dequantised coefficients, sub-sampled chroma lies between the chroma samples next to the pixel, and RGB output is the standard conversion of these. It holds for every pixel up to the last row and column, whatever the picture size, the worker that processed it, the scans the coefficients arrived in and the way the file is read.",
 ["inputs","configurations","schedules","fault_sequences"],"every intact image - baseline with one or several scans or progressive - of every size, sub-sampling, quantisation, restart interval and segment layout, every output colour space, thread count, interleaving and split of the file into reads",
 "Tests only check that decoding a few files succeeds and compare a few vectors of single kernels; whole decoded pictures are compared with nothing.",
 ["src/bitstream.rs","src/mcu.rs","src/mcu_prog.rs","src/worker.rs","src/idct","src/idct.rs","src/upsampler","src/upsampler.rs","src/color_convert","src/color_convert.rs","src/headers.rs"],
 [("dequantisation and inverse DCT","src/idct/avx2.rs; src/idct/scalar.rs"),("up-sampling of chroma","src/upsampler/*.rs"),("colour conversion and cropping","src/worker.rs post_process_inner; src/color_convert.rs"),("placement of blocks","src/mcu.rs decode_mcu_ycbcr_baseline; src/mcu_prog.rs parse_entropy_coded_data")],
 ["Decoder::decode_buffer and decode_file result"])
p("C18","SIMD and portable code paths give the same pixels",
 "Decoding with the code for vector instructions and decoding without it give the same pixels for every image, intact or damaged, in every colour space and under every schedule.",
 ["inputs","configurations","schedules","fault_sequences"],"every image, valid or damaged, size, sub-sampling, output colour space, thread count and interleaving",
 "Tests compare a few vectors of single kernels, not decoded pictures; the ends of rows and saturation on extreme coefficients are never compared.",
 ["src/idct","src/idct.rs","src/upsampler","src/upsampler.rs","src/color_convert","src/color_convert.rs","src/decoder.rs","src/worker.rs"],
 [("run-time selection of kernels","src/idct.rs choose_idct_func; src/upsampler.rs; src/color_convert.rs choose_ycbcr_to_rgb_convert_func"),("option to leave vector code out","src/options.rs use_unsafe")],
 ["Decoder::decode_buffer result with and without ZuneJpegOptions::use_unsafe"])
p("C19","Output colour spaces are consistent with each other",
 "The results of decoding an image, intact or damaged, in different colour spaces describe the same picture: RGBA is RGB plus an opaque alpha channel, RGBX is RGB plus a fourth byte without meaning, grayscale is the first channel of YCbCr, and RGB is the standard conversion of the YCbCr result within rounding.",
 ["inputs","configurations","schedules","histories"],"every image that decodes, valid or damaged, every pair of colour spaces, thread count and interleaving, and every way of setting the colour space on a new or used decoder",
 "Tests never compare outputs; a row tail written at the wrong place for four channels went unnoticed.",
 ["src/worker.rs","src/color_convert.rs","src/color_convert","src/decoder.rs","src/options.rs"],
 [("choice of conversion","src/worker.rs post_process_inner"),("conversion of the end of a row","src/worker.rs color_convert_ycbcr"),("conversion selected for the colour space","src/color_convert.rs; src/decoder.rs")],
 ["Decoder::decode_buffer results in different colour spaces"])
p("C20","Intact images decode, however they are packaged",
 "Every intact image of the supported kinds - baseline with one or several scans or progressive, grayscale or colour with full, halved or quartered chroma - decodes successfully, whatever the thread count, the schedule and the way the file arrives. Restart intervals, the choice of Huffman codes, the division into scans, the order of header segments, additional segments before and between scans, and fill bytes before markers do not change its pixels.",
 ["inputs","schedules","configurations","fault_sequences"],"every intact image, restart interval, set of Huffman tables, scan script, segment layout, thread count and interleaving, every split of the file into reads, and every preceding decode on the same decoder",
 "The tests decode a few sample files; intact images whose codes happen to straddle a refill, with restart intervals, several scans, or tables behind the frame header failed or came out wrong without any test noticing.",
 ["src/bitstream.rs","src/huffman.rs","src/mcu.rs","src/mcu_prog.rs","src/headers.rs","src/decoder.rs","src/marker.rs"],
 [("bit buffer refills and markers met by reading ahead","src/bitstream.rs refill"),("restart handling","src/mcu.rs handle_rst"),("end-of-band runs","src/mcu_prog.rs parse_entropy_coded_data"),("fast tables","src/huffman.rs make_derived_table"),("segments between scans","src/mcu_prog.rs; src/decoder.rs parse_marker_inner")],
 ["Decoder::decode_buffer and decode_file result"])
p("C21","A progressive image that ends early shows what its scans carried",
 "A progressive image that ends properly after any of its scans, once the first DC scan of every component is complete, decodes successfully, and its pixels are those of an image whose coefficients have exactly the bits the scans carried so far: nothing of the refinement is guessed, and what has arrived is shown at its full weight.",
 ["inputs","crash_points","schedules","configurations"],"every progressive image, scan script and scan after which it ends, restart interval, Huffman tables, segment layout, thread count and interleaving",
 "The tests decode complete files only, in which wrong handling of coefficients that are not yet refined, or of bands that never came, can be repaired by later scans or does not occur.",
 ["src/mcu_prog.rs","src/bitstream.rs","src/decoder.rs"],
 [("successive approximation: first and refinement scans","src/bitstream.rs decode_prog_dc_first, decode_mcu_ac_first, decode_mcu_ac_refine"),("the end of the image is found between scans","src/mcu_prog.rs decode_mcu_ycbcr_progressive"),("components keep their coefficients from scan to scan","src/mcu_prog.rs parse_entropy_coded_data")],
 ["Decoder::decode_buffer and decode_file result"])
p("C22","Restart markers contain damage",
 "Changed bytes of entropy-coded data that neither make nor destroy markers affect only rows in which the damaged restart intervals have a part, and in progressive images those in which the intervals of later scans of the same components over the same rows have one: if the decode succeeds, all other rows, together with those post-processed with them, equal those of the intact image.",
 ["fault_sequences","inputs","schedules"],"every image with restart intervals, baseline or progressive, of one or several scans, every damaged byte or run of bytes in entropy-coded data, thread count and interleaving",
 "Tests contain no damaged image with restart intervals and compare no pixels; that a single interval which leaves bits behind or runs over its end shifts the rest of the picture shows in no intact file.",
 ["src/mcu.rs","src/mcu_prog.rs","src/bitstream.rs"],
 [("state is reset at restart markers","src/mcu.rs handle_rst; src/bitstream.rs reset"),("what an interval leaves unread is skipped","src/mcu.rs; src/mcu_prog.rs"),("end-of-band runs end with their interval","src/mcu_prog.rs parse_entropy_coded_data")],
 ["pixels of a damaged image"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
