import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs,state=None,hook=None):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
L="cloudini_lib/src/"; I="cloudini_lib/include/cloudini_lib/"
p("C01","Losslessly encoded fields decode to exactly the bytes that were encoded",
 "For every cloud layout, wire version (3 to 5), encoding mode, compression and threading option, decoding an encoded cloud gives back, point for point and in order, exactly the original bytes of every field that is not quantized. That covers every integer field in every mode, every field when the encoding mode is none or lossless, and every floating-point field without a resolution in lossy mode. It holds for every value (type extremes, NaN payloads, infinities, signed zeros, denormals) and every number of points.",
 ["inputs","configurations"],"All field lists, point counts (0, 1, around every internal block boundary, many chunks), values, modes, versions 3-5, compressions, thread options.",
 "Tests round-trip about twenty hand-made clouds of smooth LIDAR-like values; the claim quantifies over all value sequences (which select different codings per column), all layouts and all counts.",
 [L+"cloudini.cpp",L+"v4_codec.cpp",L+"v5_codec.cpp",L+"codec_common.cpp",I+"field_encoder.hpp",I+"field_decoder.hpp",I+"encoding_utils.hpp"],
 [("integer delta + zigzag varint","encoding_utils.hpp encodeVarint64/decodeVarint"),("adaptive integer columns (delta, palette, RLE, delta-RLE)","v5_codec.cpp"),("XOR / Gorilla coding of floats","field_encoder.hpp, field_decoder.hpp")],
 ["PointcloudEncoder::encode","PointcloudDecoder::decode"],
 [dict(name="prev_value_/prev_bits_/window",meaning="per-field predictor state, reset per chunk",where="field_encoder.hpp"),dict(name="committed_mode",meaning="coding of an integer column, fixed on the first chunk",where="v5_codec.cpp")])
p("C02","Quantized floats stay within half a resolution step; NaN stays NaN",
 "For every cloud encoded in lossy mode, each value of a floating-point field that has a resolution decodes to a finite value at most half the resolution away from the original (plus the rounding of the field's own floating-point type), as long as the value divided by the resolution fits in 31 bits for 32-bit floats and 53 bits for 64-bit floats. A NaN decodes to a NaN and a non-NaN value never becomes one, independently of the other fields and of the neighbouring points. The error does not accumulate along the cloud.",
 ["inputs","configurations"],"All value sequences including any placement of NaNs, all positive normal resolutions, all positions of the field in the layout (leading group of 3 or 4 floats or any other), all point counts and chunk boundaries, versions 3-5.",
 "Tests check a full resolution of tolerance on a few ramps and at most one NaN pattern; drift after NaNs, at chunk starts, and per-layout routing need all sequences.",
 [I+"field_encoder.hpp",L+"field_encoder.cpp",I+"field_decoder.hpp",L+"field_decoder.cpp",I+"intrinsics.hpp",L+"codec_common.cpp"],
 [("SIMD quantization of the leading float group","field_encoder.cpp FieldEncoderFloatN_Lossy"),("scalar quantization","field_encoder.hpp FieldEncoderFloat_Lossy"),("NaN marker 0 resets the predictor on both sides","field_encoder.hpp/field_decoder.hpp")],
 ["PointcloudEncoder::encode","PointcloudDecoder::decode"])
p("C03","The header describes the cloud completely, in both of its encodings",
 "For every description of a cloud (version 2 to 5, size, point step, encoding, compression, configuration string in the text form, and fields with name, offset, type and optional resolution) reading a header written from it gives an equal description and consumes exactly the header's bytes, for the text and the binary header encoding alike. Resolutions come back bit for bit, and the text form (YAML) alone round-trips the same way. A description that the binary form cannot hold (more than 65535 fields, names of more than 65535 bytes) is refused. A header with a wrong magic, an unsupported version, or cut anywhere before its end is rejected.",
 ["inputs","configurations"],"All descriptions with printable field names without line breaks or YAML-special characters (any bytes for the binary form), positive finite resolutions; all truncation points.",
 "Tests use one or two descriptions with round resolutions such as 0.01 that any number formatting preserves.",
 [L+"cloudini.cpp",I+"yaml_parser.hpp",I+"encoding_utils.hpp"],
 [("text header writer/reader","cloudini.cpp EncodingInfoToYAML/EncodingInfoFromYAML"),("binary header","cloudini.cpp EncodeHeader/DecodeHeader"),("magic and version check","cloudini.cpp DecodeHeader")],
 ["EncodeHeader","DecodeHeader","EncodingInfoToYAML","EncodingInfoFromYAML"])
p("C04","Clouds are framed as independently decodable, length-prefixed chunks",
 "For every cloud and option, the encoded payload is a sequence of length-prefixed chunks that tile it exactly; each chunk holds the next 32768 points (the last one the remainder) in input order, and an empty cloud has none. Every chunk decodes on its own: removing or reordering other chunks (and adjusting the declared size) never changes the points obtained from it.",
 ["inputs","configurations"],"All point counts, in particular around multiples of 32768, all layouts, modes, compressions, thread options, versions 3-5.",
 "Tests decode whole clouds of at most two chunks; no test looks at the framing or decodes chunks separately, so state leaking from one chunk into the next on both sides passes.",
 [L+"cloudini.cpp",L+"chunk_writer.cpp",L+"v4_codec.cpp",L+"v5_codec.cpp"],
 [("per-chunk predictor reset","codec_common.cpp ResetEncoders/ResetDecoders"),("length prefix","chunk_writer.cpp, cloudini.cpp compressionWorker"),("chunk loop","cloudini.cpp PointcloudDecoder::decode")],
 ["bytes returned by PointcloudEncoder::encode","PointcloudDecoder::decode on single chunks"])
p("C05","Background compression never changes the result, whatever the schedule",
 "For every cloud, layout, version and compression, encoding with the background compression thread returns exactly the same bytes and size as encoding without it, for every interleaving of the two threads and every number of chunks. Encoding always finishes (no deadlock, no lost wake-up), and once it has returned nothing more is written to the output or to the scratch buffers.",
 ["schedules","inputs"],"All interleavings of caller and worker at every synchronisation operation and compression call; 0 to many chunks; repeated calls on one encoder.",
 "Tests run each multi-chunk threaded encoding once under whatever schedule the OS picks; the hand-over protocol has to be right for all of them.",
 [L+"cloudini.cpp"],
 [("double-buffer hand-over","cloudini.cpp PointcloudEncoder::encode write_stage1_chunk"),("worker loop","cloudini.cpp compressionWorker"),("completion wait","cloudini.cpp waitForCompressionComplete")],
 ["PointcloudEncoder::encode result","calls into the compressors","pthread mutex/condvar operations"],
 [dict(name="has_data_to_compress_",meaning="a chunk is handed over and not yet picked up",where="cloudini.hpp"),dict(name="compression_done_",meaning="no chunk is being compressed",where="cloudini.hpp"),dict(name="should_exit_",meaning="worker must stop",where="cloudini.hpp"),dict(name="worker_failed_",meaning="worker ended with an exception",where="cloudini.hpp"),dict(name="buffer_/buffer_compressing_",meaning="scratch buffer of caller / of worker",where="cloudini.hpp")])
p("C06","Compression failures reach the caller; the encoder recovers and shuts down",
 "If compressing any chunk fails during an encode call, that call throws (it never returns a truncated or corrupt result as success), in the threaded and the unthreaded mode and for every interleaving. The same encoder then works again: the next call, if nothing fails, returns exactly what a new encoder would. Destroying an encoder always terminates, at any point of its life: unused, after success, after one or several failures.",
 ["fault_sequences","schedules","histories"],"Every choice of failing chunk and call, every sequence of failing and succeeding calls followed by destruction, every interleaving, both compressors.",
 "No test injects a compressor failure, so the failure, respawn and shutdown paths are never executed.",
 [L+"cloudini.cpp",L+"codec_common.cpp",L+"chunk_writer.cpp"],
 [("worker exception hand-over","cloudini.cpp compressionWorker catch / waitForCompressionComplete"),("worker respawn","cloudini.cpp encode need_respawn"),("shutdown","cloudini.cpp ~PointcloudEncoder")],
 ["exceptions and results of PointcloudEncoder::encode","completion of ~PointcloudEncoder"],
 [dict(name="worker_failed_/worker_exception_",meaning="pending failure",where="cloudini.hpp")])
p("C07","Encoders and decoders can be reused: results depend only on the current call",
 "For every sequence of encode calls on one encoder, of decode calls on one decoder, or of both interleaved (including calls that throw on bad arguments or corrupt data, and clouds of different sizes and descriptions), each call gives exactly the result a freshly constructed object would give for the same arguments. The output buffer's previous contents and size never influence the result.",
 ["histories","inputs"],"All call sequences, all earlier arguments, including failing calls.",
 "Tests use each encoder and decoder once or repeat the same cloud; they never mix descriptions, sizes and failures on one object.",
 [L+"cloudini.cpp",L+"v4_codec.cpp",L+"v5_codec.cpp",L+"codec_common.cpp"],
 [("state reset at encode entry","cloudini.cpp encode"),("decoder rebuilt per call","cloudini.cpp updateDecoders"),("scratch buffers grown, never shrunk","cloudini.cpp ensureScratchBuffer")],
 ["PointcloudEncoder::encode","PointcloudDecoder::decode"])
p("C08","The worst-case size is a real bound and output buffers are never overrun",
 "For every cloud and description, the encoded size never exceeds the advertised worst-case size for that number of points, so an output buffer of that size always suffices and encoding succeeds. Encoding writes only inside the buffer it is given and returns exactly the number of bytes used. A smaller buffer, a zero point step, or data that is not a whole number of points is refused with an exception before anything outside the buffer is touched.",
 ["inputs","configurations"],"All value sequences (in particular adversarial ones that make every field or column as long as possible), layouts, versions 3-5, compressions, buffer sizes.",
 "Tests always pass growable vectors and compressible data, so the bound is never approached.",
 [L+"cloudini.cpp",L+"codec_common.cpp",L+"v5_codec.cpp",L+"chunk_writer.cpp"],
 [("MaxCompressedSize","cloudini.cpp"),("per-field maxima","codec_common.cpp MaxSerializedFieldSize"),("capacity check","cloudini.cpp encode")],
 ["MaxCompressedSize","both PointcloudEncoder::encode overloads"])
p("C09","Decoding arbitrary bytes either succeeds in bounds or throws",
 "For every byte string given to the decoder as payload, or as header plus payload, decoding either fills the declared points or throws a standard exception; it always terminates, never reads outside the input and never writes outside the output buffer it was given. A corrupt stream that the wire format gives no meaning to (impossible chunk sizes, over-long or overflowing numbers, unknown column codings, out-of-range palette indexes, runs that do not add up, data left over in a column chunk) is rejected, not decoded to something.",
 ["inputs"],"All byte strings: random, and valid streams with any mutation, for every layout, mode, version 2-5 and compression; output buffers of every size.",
 "Tests try a handful of hand-made corruptions; memory safety and rejection must hold for all byte strings.",
 [L+"cloudini.cpp",L+"v4_codec.cpp",L+"v5_codec.cpp",L+"codec_common.cpp",I+"field_decoder.hpp",L+"field_decoder.cpp",I+"encoding_utils.hpp"],
 [("chunk size and point count checks","cloudini.cpp PointcloudDecoder::decode"),("varint bounds and overflow","encoding_utils.hpp decodeVarint"),("column checks","v5_codec.cpp decodeV5AdaptiveIntSection"),("bounded decompression","codec_common.cpp DecompressChunk")],
 ["DecodeHeader","PointcloudDecoder::decode under AddressSanitizer"])
p("C10","Cut or extended payloads are always rejected, never decoded as a shorter cloud",
 "For every valid payload of wire version 3 to 5 and the description it was encoded with, decoding any strict prefix of the payload throws, and so does decoding it with extra bytes appended. Decoding a whole payload with a description that declares more or fewer points than were encoded throws as well whenever the number of chunks differs.",
 ["inputs","crash_points"],"All payloads, every cut position (a crash while the file or message was being written), every non-empty extension.",
 "Tests cut two or three payloads at one position each.",
 [L+"cloudini.cpp",L+"v4_codec.cpp",L+"v5_codec.cpp"],
 [("framing checks","cloudini.cpp PointcloudDecoder::decode"),("per-point minimum input check","v4_codec.cpp"),("trailing-bytes check","v5_codec.cpp")],
 ["PointcloudDecoder::decode"])
p("C11","The wire format is stable: every legal stream decodes to the points it denotes",
 "Every stream that is legal in wire versions 2 to 5, including forms the present encoder would not choose (any of the four codings for any integer column in any chunk, split runs, unordered or repeated palette entries), decodes to exactly the points it denotes. Compressed streams are legal when every chunk is no larger than its worst case before compression. Every stream the encoder writes is legal for the version in its header, so files and messages stay readable across releases and by other implementations.",
 ["inputs","configurations"],"All legal streams of versions 2, 3, 4 and 5 over all layouts; all encoder outputs.",
 "Tests only decode what the same build just encoded, so matching changes on both sides pass unnoticed.",
 [L+"cloudini.cpp",L+"v4_codec.cpp",L+"v5_codec.cpp",I+"encoding_utils.hpp",I+"field_encoder.hpp",I+"field_decoder.hpp",L+"field_encoder.cpp",L+"field_decoder.cpp"],
 [("version dispatch","v5_codec.cpp UsesV5Codec, codec_common.cpp CreateCompatible*"),("byte layout of every coding","field_encoder.hpp, v5_codec.cpp")],
 ["bytes returned by PointcloudEncoder::encode","PointcloudDecoder::decode"])
p("C12","Decoding writes only the declared fields of the declared points",
 "For every description and payload, a successful decode changes only the bytes of the declared fields inside the first width x height points of the output; padding between and after fields and everything after the last point keep their previous contents. A field marked as decode-but-do-not-store is consumed without being written anywhere, for every field type, wire version and column coding, and the other fields come out as without the mark.",
 ["inputs","configurations"],"All layouts with gaps and any field order, any subset of fields marked as skipped, any previous contents and any larger output buffer.",
 "Tests use packed layouts or compare only the fields; the skip mark is exercised for one PCL point type.",
 [L+"v4_codec.cpp",L+"v5_codec.cpp",I+"field_decoder.hpp",L+"field_decoder.cpp",I+"basic_types.hpp",I+"pcl_conversion.hpp"],
 [("offset-addressed stores","field_decoder.hpp, v5_codec.cpp writeRawBitsToPoint"),("skip marker","basic_types.hpp kDecodeButSkipStore")],
 ["output buffer of PointcloudDecoder::decode"])
p("C13","Integer columns use the cheapest coding and never cost more than delta coding",
 "In wire version 5, for every cloud of at most 4096 points each integer column is stored in whichever of the four codings (delta, palette, run-length, delta-run-length) takes the fewest bytes, with delta coding on ties against it. For larger clouds the coding is the cheapest one for the column's first 4096 points and it is kept for the whole cloud.",
 ["inputs"],"All value sequences of every integer type of 16 bits or more, all lengths, several columns at once, later chunks with different statistics.",
 "Tests assert the choice for three or four extreme columns only; the size accounting must be exact for all columns.",
 [L+"v5_codec.cpp"],
 [("size accounting","v5_codec.cpp analyzeAdaptiveIntField"),("mode selection","v5_codec.cpp selectBestAdaptiveIntMode, commitAdaptiveIntMode")],
 ["column mode byte and section length in the payload"])
p("C14","ROS 2 messages survive compression and decompression",
 "For every well-formed little-endian sensor_msgs/PointCloud2 message (padding between rows allowed), converting it to a compressed message and back gives a message with the same stamp, frame, height, width, fields, point step, density flag, with the padding between rows removed and row step equal to width x point step, and with point data as the codec promises (identical where lossless). The compressed message is itself a well-formed CompressedPointCloud2 with the same metadata, the format name cloudini, and a payload of exactly the announced length; empty clouds are carried too. Messages truncated anywhere up to and including the density flag are rejected with an exception.",
 ["inputs"],"All messages with is_bigendian false, one element per field and field names as the text header allows: any frame id length, field list, dimensions (organised or not, empty), density flag, stamps, alignments; all encodings; every truncation.",
 "Tests convert a few messages with one frame id and layout; alignment of what follows depends on every string and data length.",
 [L+"ros_msg_utils.cpp",I+"ros_msg_utils.hpp",I+"contrib/nanocdr.hpp"],
 [("message parsing","ros_msg_utils.cpp getDeserializedPointCloudMessage"),("message writing","ros_msg_utils.cpp convertPointCloud2ToCompressedCloud / convertCompressedCloudToPointCloud2")],
 ["bytes of the produced messages"])
p("C15","CDR values are written and read at the aligned place with the right byte order",
 "For every sequence of values (integers and floats of every size, booleans, strings, byte blocks, arrays and vectors), decoding what was encoded gives the same sequence, in both byte orders and for both 4- and 8-byte maximum alignment. Each value lies at the next multiple of its alignment counted from the end of the four-byte header, and decoding any truncated buffer, or one with a count that the rest of the buffer cannot hold, throws instead of reading past its end.",
 ["inputs","programs"],"All sequences of typed values, both byte orders, plain CDR and XCDR2 alignment, every truncation point, every count replaced by one that is too large (also by ones whose product with the element size wraps around).",
 "Existing tests cover one struct; alignment depends on the whole prefix.",
 [I+"contrib/nanocdr.hpp"],
 [("alignment","nanocdr.hpp alignment()"),("endianness swap","nanocdr.hpp swapEndianness"),("bounds checks","nanocdr.hpp Decoder::decode")],
 ["nanocdr::Encoder","nanocdr::Decoder"])
p("C16","Resolution profiles change exactly the fields they name",
 "Applying a resolution profile removes exactly the fields whose profile resolution is zero, sets the resolution of exactly the other fields it names, gives the default resolution (when there is one) to exactly the 32-bit float fields it does not name, and leaves names, offsets, types and order of the remaining fields unchanged. A cloud encoded after that restores the remaining fields at their original offsets.",
 ["inputs","configurations"],"All field lists (including several removed in a row, first, last, repeated names) and all profiles, with and without default.",
 "Tests apply two profiles to one list.",
 [L+"ros_msg_utils.cpp"],[("applyResolutionProfile","ros_msg_utils.cpp")],["field list after the call"])
p("C17","Visualization preprocessing keeps the first point of every occupied voxel only",
 "For every non-empty cloud whose first three fields are 32-bit floats at consecutive offsets inside the point with one common positive resolution, preprocessing drops exactly the points with a non-finite coordinate and, for each voxel of that size (coordinates rounded to the nearest multiple), every point but the first; the survivors keep their bytes and order, and width, height, row step and data describe exactly them. 64-bit float fields without a resolution get one microsecond. Any other cloud is left untouched.",
 ["inputs"],"All clouds (coordinates not within rounding errors of the boundary of a voxel), all orders and duplications, all layouts that do or do not have such a leading triple; repeated application.",
 "Tests use a few points and one layout; deduplication has to be right for all point sequences.",
 [L+"ros_msg_utils.cpp"],[("applyVizLossyPreprocessing","ros_msg_utils.cpp"),("packed voxel key","ros_msg_utils.cpp packVoxelKey21")],["RosPointCloud2 after the call"])
p("C18","Copying or moving a cloud message never leaves it viewing foreign or freed data",
 "For every sequence of copy and move constructions, assignments (to itself too), modifications and destructions of cloud messages, a message that owned its data keeps owning an identical independent copy: its view refers to its own storage with the same contents, whatever happens to the message it came from. A message that viewed external data keeps viewing the same external data.",
 ["histories"],"All sequences of operations on any number of messages, with owned, external and empty data.",
 "Tests copy and move one message once.",
 [I+"ros_msg_utils.hpp"],[("copy/move members","ros_msg_utils.hpp RosPointCloud2")],["data view and contents after each operation"],
 [dict(name="owned_data/data",meaning="own storage and the view used by everybody",where="ros_msg_utils.hpp")])
p("C19","PCL clouds survive the conversion to the encoded form and back",
 "For every PCL cloud (generic message or typed points), with one element per field and without padding between rows, encoding and decoding gives back the same width, height, field list, point step and data: floats within half the resolution, everything else bit for bit, including 8-byte integer and double fields. Decoding into a point type that lacks some of the fields fills exactly the common ones and touches nothing else; a type conflict is an error.",
 ["inputs","configurations"],"All PCL field types and layouts with padding, dimensions, resolutions, point types; PCD files of all field types.",
 "Tests load one PCD file and two point types.",
 [L+"pcl_conversion.cpp",I+"pcl_conversion.hpp"],
 [("type mapping","pcl_conversion.cpp ConvertToEncodingInfo, ReadEncodingInfoFromPCD"),("field matching","pcl_conversion.hpp PointcloudDecode")],["PCLPointCloudEncode","PCLPointCloudDecode","PointcloudEncode","PointcloudDecode"])
p("C20","The C interface agrees with the library and fails by returning 0",
 "For every input, each function of the C interface used by the WebAssembly build returns the same bytes and sizes as the corresponding library calls, writes nothing beyond the size it reports or the buffer the caller is documented to provide, and reports any failure (malformed message, header or payload, sizes that contradict each other, output that does not fit) by returning 0 rather than by throwing or crashing. The size functions agree with what the conversion functions then produce.",
 ["inputs","histories"],"All messages, headers and payloads, valid and corrupt; all call sequences.",
 "The C interface is not compiled in the test build at all.",
 [L+"wasm_functions.cpp",I+"wasm_functions.h"],[("cldn_* functions","wasm_functions.cpp")],["return values and output memory"])
p("C21","Bag conversion transforms point cloud messages and carries everything else over",
 "Encoding a bag rewrites exactly the point cloud messages (and their schema) to the compressed type and copies every other message, schema, channel and metadata record unchanged, in the same order, on the same topics and with the same times; decoding does the reverse. Encoding followed by decoding gives a bag whose point clouds equal the originals within the requested resolutions, and the resolution profile given as text is applied as written, malformed profiles being rejected.",
 ["inputs","configurations","histories"],"All bags (any number and interleaving of schemas, channels, messages and metadata), all profiles, all writer compressions, with and without preprocessing.",
 "The tools are not built by the tests.",
 ["cloudini_lib/tools/src/mcap_converter.cpp","cloudini_lib/tools/include/mcap_converter.hpp"],
 [("schema and channel remapping","mcap_converter.cpp duplicateSchemasAndChannels"),("message loop","mcap_converter.cpp encodePointClouds/decodePointClouds"),("profile parser","mcap_converter.cpp addProfile")],["records written to the output bag"])
p("C22","The ROS transport plugins deliver the published cloud to the subscriber",
 "For every published point cloud (any layout with one element per field, rows padded or not, with or without points) and configured resolution, decoding what the publisher plugin produced gives the subscriber a cloud with the same header, dimensions, fields, point step and density flag and with packed rows, float fields within half the resolution and all other fields identical. The same holds for what SerializeCompressedPointCloud2 writes, and ReadEncodingInfo and ConvertToRosPointCloud2 report the fields and dimensions of the encoded cloud. Big-endian clouds are refused. A compressed message whose metadata contradicts its payload (size, step, field name, offset or type) is rejected instead of delivered. Messages do not influence each other.",
 ["inputs","histories"],"All clouds, resolutions, sequences of messages through one pair of plugins, and all single metadata contradictions.",
 "The plugins need ROS to build and are not covered by the reliable tests.",
 ["cloudini_ros/src/cloudini_publisher_plugin.cpp","cloudini_ros/src/cloudini_subscriber_plugin.cpp","cloudini_ros/src/conversion_utils.cpp"],
 [("encodeTyped","cloudini_publisher_plugin.cpp"),("decodeTyped checks","cloudini_subscriber_plugin.cpp"),("field mapping","conversion_utils.cpp")],["messages returned by encodeTyped/decodeTyped"])
p("C23","Pooled subscriber clouds are never shared, leaked or freed twice",
 "For every sequence of incoming messages, of clouds kept or dropped by the user (from any thread) and of the subscriber's destruction, a cloud handed to the user by CloudiniSubscriberPCL carries the header, dimensions, fields, density and points of its message, stays valid and unchanged as long as the user holds it, is never handed out a second time meanwhile, and all storage is released exactly once in the end; at most four idle clouds are kept. A message that cannot be decoded is reported and delivers nothing, without losing later messages; an exception of the callback loses nothing else.",
 ["histories","schedules"],"All sequences of deliveries, releases and destruction, more than the pool's capacity held at once, concurrent releases, malformed messages in between.",
 "The subscriber needs ROS to build; its one test receives a single message.",
 ["cloudini_ros/src/cloudini_subscriber_pcl.cpp","cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp"],
 [("object pool","cloudini_subscriber_pcl.cpp acquireCloudFromPool")],["clouds passed to the user callback"],
 [dict(name="cloud_pool_",meaning="idle clouds kept for reuse, at most four",where="cloudini_subscriber_pcl.hpp")])
p("C24","The topic converter republishes every message once, converted, and stays alive",
 "For every configuration (direction, topics, resolution, offered QoS) and every sequence of messages and of listeners coming and going, the topic converter subscribes to and publishes on the configured topics with the message types of its direction and a QoS compatible with what is offered, publishes for every convertible message received while someone listens exactly one message, which is the specified conversion of it, and publishes nothing when nobody listens. A message that cannot be converted is reported and publishes nothing; the node stays alive and converts later messages unaffected.",
 ["histories","inputs"],"All sequences of messages (convertible, malformed, truncated) and of changes of the number of listeners; all sets of offered QoS; both directions.",
 "The node needs ROS to build and has no test.",
 ["cloudini_ros/src/topic_converter.cpp"],
 [("callback","topic_converter.cpp messageCallback"),("QoS adaption","topic_converter.cpp")],["messages published by the node"])
p("C25","The Python decoder returns the cloud a compressed message denotes",
 "For every compressed message whose cloud has points and whose field names are distinct and plain, decoding it in Python returns a structured array of width times height rows that has exactly the header's fields, with their names, types and offsets, holding the values the library decodes, next to the header's description of the cloud; reading only the header gives the same description. A message that cannot be decoded, or whose payload contradicts its sizes, raises an exception and returns nothing. Calls do not influence each other: results stay as they were, whatever the size of the clouds, and also when the module runs out of memory in between. The decoder touches only memory of the module that it has allocated and that is large enough for what the module writes, frees nothing twice, and repeating a call takes no further memory.",
 ["inputs","histories"],"All compressed messages (also larger than the initial buffer, long headers, damaged ones), all sequences of calls and failing allocations.",
 "The Python decoder needs a WebAssembly runtime and has no test.",
 ["cloudini_py/cloudini_decoder.py"],
 [("buffers in the module's memory","cloudini_decoder.py CloudiniDecoder._decompress*"),("header parsing and dtype","cloudini_decoder.py")],["decode_message, get_header_info"],
 [dict(name="output buffer of the module",meaning="grown when a cloud is larger than it",where="cloudini_decoder.py")])
p("C26","The Foxglove extension converts compressed messages to the clouds they denote",
 "For every compressed message whose payload decodes to as many bytes as its width, height and point step announce, the registered converter returns the PointCloud2 with the message's header, size, fields and density, packed rows and the bytes the library decodes; the message is not modified and the result does not change later. A message whose payload cannot be decoded or contradicts its sizes, and any message before the module is loaded, gives an error instead of a cloud. The module is loaded once. The converter touches only memory of the module it has allocated and that is large enough for what the module writes, and releases all of it after every call, failed ones included.",
 ["inputs","histories"],"All messages (any layout, damaged payloads, contradicting sizes, no points), all sequences of conversions, of failing allocations and of the end of loading.",
 "The extension has no tests.",
 ["cloudini_foxglove/src/PointCloudConverter.tsx","cloudini_foxglove/src/index.ts","cloudini_foxglove/src/Schemas.tsx"],
 [("conversion and memory of the module","PointCloudConverter.tsx convertPointCloudWasm"),("loading","PointCloudConverter.tsx loadCloudiniWasm"),("registration","index.ts activate")],["convertPointCloudWasm, activate"])
TC="cloudini_lib/tools/src/cloudini_rosbag_converter.cpp"
p("C27","The bag converter command writes the converted bag and touches nothing else",
 "Every run of cloudini_rosbag_converter that converts leaves in the output file the conversion of the whole input bag with the options of its command line: direction, resolution, profile (given as text or as the file that contains it), visualization and compression method. The output is the file named with -o (.mcap is appended to other extensions) or else, with suffix _encoded or _decoded, a bag in the sibling directory of an input that has a metadata.yaml and a file in the current directory otherwise; directories are created as needed. If the input has a metadata.yaml, the output gets one next to it in which the type of the converted topics and the name of the bag's file are the new ones and everything else is as before. No other file is created, changed or removed, in particular not the input and its metadata; a file that exists is overwritten only with -y or after the answer y. Requests that are contradictory or incomplete, that name no bag, nothing to convert in that direction or a malformed profile, or whose output would replace the input or its metadata exit with a failure status, declined ones and bags without clouds with 0, and all of them change no file. No input makes it crash.",
 ["inputs","histories"],"All combinations of options, spellings of paths, places of input, output and current directory, answers, and sequences of commands working on what earlier ones left.",
 "The tool has no tests; what it overwrites depends on combinations of options, directories and earlier runs.",
 [TC,"cloudini_lib/tools/src/mcap_converter.cpp"],
 [("choice of input and output, safety checks","cloudini_rosbag_converter.cpp main"),("transformed metadata","cloudini_rosbag_converter.cpp generateMetadataYaml"),("profiles","cloudini_rosbag_converter.cpp main, mcap_converter.cpp addProfile")],["exit status and file system after each run"])
TP="cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp"
p("C28","The PCD converter command encodes its PCD files and touches nothing else",
 "Every file that pcd_to_cloudini_converter writes is a cloudini stream that decodes to the points of its PCD file: same width, height, point step and fields (names, offsets, types), with the encoding (-e), compression (-c), resolution of float fields (-r) and resolution of the field intensity (-i) of its command line (defaults lossy, zstd, 0.001 and 0.001); lossy float fields are within half the resolution, NaN stays NaN and all else is exact. With -f it converts that file into the one named with -o or else next to it, with the extension .cldn in either case; with -b every .pcd file of the directory into the .cldn file next to it, and a file that cannot be read does not keep the others from being converted. A file that exists is overwritten only with -y or after the answer y. Nothing else is created, changed or removed, no PCD file is ever changed, and a run that cannot convert the file it is asked for, has contradictory or unknown options, or no input, exits with a failure status; one that converts everything exits with 0. No input makes it crash.",
 ["inputs","histories"],"All combinations of options, places, answers and contents, and sequences of commands.",
 "The tool has no tests.",
 [TP,"cloudini_lib/src/pcl_conversion.cpp"],
 [("choice of files, overwriting","pcd_to_cloudini_converter.cpp main"),("encoding of one file","pcl_conversion.cpp PCLPointCloudEncode")],["exit status and file system after each run, decoded contents"])
p("C29","The cutter keeps the first messages of cloud channels; the inspector the header",
 "mcap_cutter leaves in its output exactly the channels of the input that carry raw point clouds (topic, message encoding, metadata) and of each of them the first n messages (-n, 1000 by default; all if there are fewer) in time order, byte for byte with their times and sequence numbers, and no others; the output is the file named with -o (with .mcap appended to other extensions) or else <name>_cut.mcap in the current directory. mcap_header_inspector prints the topic, time and sizes of the first compressed message in time order and what its header says (version, dimensions, options, fields with name, offset, type and resolution). Neither changes, creates or removes any other file; an output equal to the input, a file that is missing, is no bag or has the wrong extension, an n that is not positive, an output that cannot be written and a header that cannot be read are failures; a bag without such channels is none. Neither crashes on any bag, also with channels that have no schema.",
 ["inputs","histories"],"All bags, places, options and sequences of commands.",
 "The tools have no tests.",
 ["cloudini_lib/tools/src/mcap_cutter.cpp","cloudini_lib/tools/src/mcap_header_inspector.cpp"],
 [("selection of channels and messages","mcap_cutter.cpp McapCutter::cut"),("choice of files","mcap_cutter.cpp main"),("description","mcap_header_inspector.cpp main")],["exit status, file system and text after each run"])
p("C30","The web page shows exactly what the file it was last given contains",
 "The page of cloudini_web takes one .mcap file at a time, dropped or chosen in the dialog it opens; what is dropped or chosen while a file is under way changes nothing, and afterwards the page takes files again, the same one included, whether or not the last one could be analysed. When it is idle it shows what the file taken last contains: its name, the number of channels and of schemas in use, and either every channel whose schema is sensor_msgs/msg/PointCloud2, and no other, with its topic, schema, schema encoding, id and the number of its own messages, together with the summed size of the messages that fit into a quarter of the module's memory and that the library can compress, their summed compressed size at one millimetre as the library computes it, and the ratio of the two; or, without such a channel, the names of the schemas in use. Names are shown as text, whatever characters they contain. A file that is no bag, or a module that cannot be loaded, is shown as an error; a message that cannot be compressed does not keep the others from being counted. The page writes only to memory of the module it has allocated, gives the library the bytes of each message, and releases all memory, failures included.",
 ["inputs","histories","schedules"],"All files (channels sharing topics, schemas with other names, any names), all sequences of user actions interleaved with the completion of the page's work, all failing loads, allocations and messages.",
 "The page has no tests; which files it takes depends on when earlier ones finish.",
 ["cloudini_web/main.js","cloudini_web/index.html"],
 [("files and their order","main.js handleFile, disableDropZone, enableDropZone"),("channels, messages and memory","main.js analyzeFile")],["the document after each action, calls of the module"])
p("C31","The MCAP listing script lists every compressed cloud of a bag, decoded",
 "decode_mcap.py takes the messages of a bag in the order of their log time and lists each one whose type is CompressedPointCloud2, and no other, numbered from one: its topic, its log time in seconds with three decimals, and either the names of its fields, its first point and the ratio between the size of its points and the size of the message, or, exactly if the message cannot be decoded, a failure that keeps nothing after it from being listed. With --max-messages N it lists the first N of them (none for 0, all for a negative number). It ends with the number of clouds listed and status 0; a bag or a module that is missing, or a bag that breaks off, is an error. Bags without summary or statistics are listed too, no file is changed.",
 ["inputs","configurations","fault_sequences"],"All bags (channels sharing topics, channels without schema, other types, messages out of order, undecodable messages, with and without summary) and all limits.",
 "The script has no tests.",
 ["cloudini_py/decode_mcap.py","cloudini_py/cloudini_decoder.py"],
 [("selection, order, limit","decode_mcap.py decode_mcap_file"),("arguments and exit status","decode_mcap.py main")],["printed listing, exit status, files"])
p("C32","The codec benchmark reports what the codec makes of exactly the chosen messages",
 "mcap_codec_benchmark takes, of each topic that carries raw point clouds, the first --max-messages messages (all for 0) in time order, and of these the first and every --sample-every-th after it; it leaves out those that cannot be parsed, whose size does not fit their dimensions, or that have no points. It reports once per topic with such messages, in the order of the names, and once about the file if there are several topics: the number of messages and points, the size of the points without padding of rows, and for every mode asked for (V4, V5, and both after the visualization preprocessing) the size of what the library encodes them to with the resolution and compression asked for, and the ratio of that to the size of the points encoded; messages a mode cannot encode count for neither, and nothing is reported for modes not measured. Throughputs are never higher than the whole run allows. --decode-replay decodes exactly the messages encoded, as often as asked for, and --hash prints the FNV-1a fingerprint of their decoded points in the order of the messages. --explain describes the first message of each topic: its fields, its points before and after the preprocessing, and the fields that quantizes. Contradictory options, a missing file, a file that is no bag and a bag without such topics are failures without a report. It never crashes and changes no file.",
 ["inputs","configurations"],"All bags (topics shared by channels, other types, damaged, contradictory and empty messages, padded rows, every layout) with all combinations of options.",
 "The tool has no tests.",
 ["cloudini_lib/tools/src/mcap_codec_benchmark.cpp"],
 [("selection and sums","mcap_codec_benchmark.cpp main"),("report","mcap_codec_benchmark.cpp printTable"),("description","mcap_codec_benchmark.cpp explainOneMessage")],["printed report, exit status, files"])
p("C33","Text headers are read as what they say, however they are laid out",
 "A text header (EncodingInfoFromYAML, and DecodeHeader behind the magic) is read as exactly the description it spells out, and exactly its bytes are consumed, whatever its layout: top-level keys in any order, the list of fields before, between or after them, its items at any indentation (also that of the key), the keys of an item in any order, blanks around keys and values and at the ends of lines, CR line ends, blank lines and comments anywhere, unknown keys, options by name or by number, a missing last line end. The version behind the magic overrides the one in the text. A header in which a key is missing, or in which a number, an option, a type or a resolution is none (negative numbers, fractions, letters behind the digits, values beyond 32 bits, other names), is an error instead of another description. Reading neither crashes nor hangs on any text.",
 ["inputs"],"All texts of the subset of YAML that is used, with any values and layout; other texts only must not crash.",
 "Tests read two hand-written headers and what the library itself writes.",
 ["cloudini_lib/include/cloudini_lib/yaml_parser.hpp","cloudini_lib/src/cloudini.cpp"],
 [("layout","yaml_parser.hpp Parser"),("numbers","yaml_parser.hpp Node::parseScalar"),("meaning","cloudini.cpp EncodingInfoFromYAML, DecodeHeader")],["EncodingInfo returned, exceptions, bytes consumed"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
try:
    import jsonschema
except ImportError:
    raise SystemExit
S=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,S)
print(len(P))
