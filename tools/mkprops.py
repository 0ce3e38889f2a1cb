import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if obs: a["observe_at"]=obs
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
p("C01","TS packetisation of a media packet loses, adds and reorders nothing",
"For every audio or video packet, muxing it writes a whole number of 188-byte transport packets that start with the sync byte, carry the PID of that media and set the payload-unit-start flag on exactly the first one. An adaptation field holds nothing but an optional PCR and stuffing. Removing the packet headers and adaptation fields from them yields exactly one PES header followed by the media bytes, unchanged and in order. Muxing never panics, and if the output fails the error is returned and nothing more is written.",
["inputs","fault_sequences"],"every media length and content, audio / key frame / other frame, every pts and dts, every starting state of the muxer, every write at which the output may fail",
"Tests mux one canned frame per media type and compare bytes; the stuffing, adaptation-field and multi-packet boundaries depend on the length of the frame modulo the packet capacity, which they never sweep.",
["container/ts/muxer.go","container/ts/table/pes.go"],[("packet loop with stuffing and payload copy","container/ts/muxer.go Muxer.Mux"),("adaptation field stuffing","container/ts/table/pes.go Pes.WriteStuff")],["bytes given to the io.Writer"])
p("C02","TS continuity counters advance by one per packet of their PID, modulo 16",
"In the transport stream produced by one muxer, the continuity counter of each packet of the video PID is one more, modulo 16, than that of the previous video packet, and likewise for the audio PID, however audio and video are interleaved. Successive program association tables, and successive program map tables, carry counters that advance by one modulo 16 on their own PID. Muxing one stream never disturbs the counter of another.",
["inputs","histories"],"every sequence of mux and table calls on one muxer and every frame length",
"Wrap-around after 16 packets and interleavings of the four counters are history properties; tests look at one call from the initial state.",
["container/ts/muxer.go"],[("videoCc / audioCc / patCc / pmtCc counters","container/ts/muxer.go Muxer")],["byte 3 of each 188-byte packet"])
p("C03","PES header, timestamps and PCR encode the given pts, dts and length",
"The PES packet starts with the start code and the stream id of the media, its packet-length field equals the number of bytes that follow it (or 0 when that exceeds 65535), and its header length and flags describe exactly the timestamp fields present. The 33-bit presentation timestamp always, and the decoding timestamp exactly when a video frame's differs from it, are encoded with the standard marker bits and prefixes so that decoding them returns the given values modulo 2^33. The first transport packet of a key frame, and no other packet, carries a PCR whose base equals the dts modulo 2^33.",
["inputs"],"all non-negative pts and dts below 2^34, all media types and all media lengths",
"A bit-field encoding over 33-bit values; the only unit test uses pts = dts = 0.",
["container/ts/table/pes.go","container/ts/muxer.go"],[("PES header generation","container/ts/table/pes.go Pes.GeneratePesHeader, encodeTs"),("PCR","container/ts/table/pes.go Pes.WritePcr, container/ts/muxer.go")],["first transport packet of each frame"])
p("C04","SDT, PAT and PMT are well-formed PSI sections with a valid CRC",
"Every service description, program association and program map table is a single 188-byte packet on its PID whose section-length field delimits the section, whose last four section bytes are the MPEG-2 CRC of the section, and whose remaining bytes are 0xff. The PAT maps program 1 to the PID the PMT is sent on, the PMT lists exactly the requested streams in the requested order with the PIDs the media is muxed on, and the SDT contains the given descriptor bytes unchanged. This holds for every descriptor of up to 163 bytes, every list of stream types that fits and every earlier use of the muxer.",
["inputs","histories"],"all descriptor contents up to 163 bytes, all media-type lists up to 30 entries, all prior states of the muxer (stale table buffers included)",
"Tests compare three canned tables; a stale tail after a shorter descriptor or a wrong length field for other stream lists is not exercised.",
["container/ts/muxer.go","container/ts/table/pat.go","container/ts/table/pmt.go","container/ts/table/sdt.go","container/ts/table/program.go"],[("table builders","container/ts/muxer.go SDT, PAT, PMT"),("templates","container/ts/table")],["returned 188-byte slices"])
p("C05","The table CRC is CRC-32/MPEG-2 for every input",
"For every byte string, the checksum computed for transport-stream tables equals CRC-32/MPEG-2 (polynomial 0x04C11DB7, initial value 0xFFFFFFFF, most significant bit first, no final inversion) computed bit by bit. Equivalently, a section followed by its checksum always has residue zero.",
["inputs"],"all byte strings of any length, all 256 table entries",
"The tests use a handful of sections; a wrong entry in the 256-word table is only seen by inputs that index it.",
["container/ts/crc32.go"],[("256-entry table and byte-wise update","container/ts/crc32.go GenerateCrc32")])
p("C06","TS timestamps follow the source clock exactly and audio stays in sync",
"For every 32-bit millisecond timestamp and composition offset, the video decoding timestamp used for muxing is 90 times the packet time and the presentation timestamp exceeds it by 90 times the offset, without wrap-around. For every AAC audio stream, the timestamp used is within 10 ms (900 ticks) of the packet's own time, and consecutive audio timestamps are exactly one frame duration (90000*1024/sample-rate, rounded down) apart unless the source drifts or jumps by more than 10 ms, in which case it restarts from the packet's time. An audio packet before any audio codec is known is refused with an error.",
["inputs","histories"],"all 32-bit packet times and offsets, all supported sample rates, all histories of audio packets",
"Drift accumulates over histories and overflow needs hours of stream time; tests check a few packets.",
["container/ts/mixer.go","container/ts/sync.go"],[("time conversion","container/ts/mixer.go Mixer.Update"),("audio sync","container/ts/sync.go syncAudioTs")],["pts/dts in the muxed PES headers"],[("frameNum, frameDts","frames since, and time of, the last resynchronisation","container/ts/sync.go sync")])
p("C07","FLV tags are framed so that a reader can walk them forwards and backwards",
"For every audio or video packet with fewer than 2^24 data bytes and every 32-bit timestamp, the FLV muxer writes an 11-byte tag header with the right tag type, the data size, the timestamp split into its low 24 bits and high 8 bits, and stream id 0, then the packet's data unchanged, then a 32-bit previous-tag size equal to 11 plus the data size. The framing does not depend on earlier tags written by the same mixer. An unknown packet type writes nothing and is an error, and an error from the output is returned.",
["inputs","histories","fault_sequences"],"all data contents and lengths below 2^24, all timestamps, any earlier tags, failure at any write",
"Tests compare one canned tag per type; the timestamp-extension byte and length bytes above 255 are not swept.",
["container/flv/muxer.go","container/flv/mixer.go"],[("tag framing","container/flv/muxer.go muxer.mux")],["bytes given to the io.Writer"])
p("C08","FLV stream start: file header flags, then cached metadata and sequence headers",
"The stream start written by the FLV mixer is the 9-byte FLV file header whose flags announce audio and video exactly as the saved sequence headers do, a zero previous-tag size, and then, in this order and each at most once, the most recently saved metadata, video sequence header and audio sequence header, each as a complete tag at timestamp 0. Saving a new header replaces the old one completely. Writing the start again gives the same bytes.",
["inputs","histories"],"every history of saved headers and packets, all contents",
"Replacement of a longer cached header by a shorter one and repeated starts are histories the tests do not enumerate.",
["container/flv/mixer.go","container/flv/muxer.go","packet/types.go"],[("cache and header writing","container/flv/mixer.go SetFlvHeader, SaveAVCHeader, SaveAACHeader, SaveMetadata")])
p("C09","FLV demux recovers every header field and never panics",
"For every byte string presented as the body of an audio, video or metadata tag, demuxing either returns an error or succeeds, and never panics. On success for video the frame type, codec id, packet type and the signed 24-bit composition time reported are those in the tag header and the media is exactly the bytes after it; for audio the format and AAC packet type are reported likewise, and sound formats other than AAC and MP3 are refused; for metadata the media is the whole body. The outcome depends only on the body, not on what was demuxed before.",
["inputs","histories"],"all byte strings of any length, the three packet types and any other type value",
"Negative composition times, truncated bodies and frame types other than key and inter frames are not in the test vectors.",
["container/flv/demuxer.go","container/flv/tag.go"],[("tag header parsing","container/flv/tag.go ParseMediaTagHeader")])
p("C10","Adding and removing the RTMP metadata header are inverse",
"For every byte string that starts with a decodable AMF string, adding the set-data-frame header to it yields a byte string that starts with that header, adding is idempotent, and removing the header afterwards gives back the original bytes. Removing leaves data that does not start with the header unchanged, and removes exactly the encoded header and nothing else when it does, whichever AMF encoding of the string was used. Data that does not start with a decodable string is refused with an error, and no input makes either operation panic.",
["inputs"],"all byte strings, the AMF0 and AMF3 decoders",
"Tests use one canned metadata block in one encoding.",
["amf/metadata.go"],[("AddMetaHeader / DelMetaHeader","amf/metadata.go")])
p("C11","The GOP cache replays headers and the most recent GOPs, oldest first",
"After any history of written packets, replaying the cache sends the latest metadata, the latest video sequence header and the latest audio sequence header (those that exist, in this order), followed by the video packets of the most recent N groups of pictures, where N is the configured number, oldest group first and in the order written. A group starts at a key frame, sequence headers and audio frames are never part of it, and replaying does not change the cache. A write error of the receiver stops the replay and is returned.",
["inputs","histories","fault_sequences"],"all histories of video, audio and metadata packets, every positive number of groups, failure at any packet of the replay",
"The ring order after the buffer wraps, and histories with non-key frames first, need sequences longer than those in the tests.",
["gop/cache.go","gop/gop.go","gop/array.go","gop/frame.go"],[("ring of groups","gop/gop.go gopCache.Write, SendTo"),("cache dispatch","gop/cache.go")],["packets given to the packet.Writer"])
p("C12","The GOP cache is bounded and refuses what it cannot hold",
"A group of pictures holds at most 1024 packets: the packet that would exceed it is refused with an error and the packets already cached are kept unchanged. An inter frame written before any key frame is refused with an error and not cached, and a cache configured with zero groups stores no frames. No history of writes makes the cache panic or store more than the configured number of groups.",
["inputs","histories"],"all histories, all group counts",
"The bound is only reached after more than a thousand writes, and the tests do not look at what is cached after a refusal.",
["gop/gop.go","gop/array.go"],[("group capacity","gop/array.go array.write"),("index handling","gop/gop.go gopCache.Write")])
p("C13","AAC frames are wrapped in an ADTS header that matches config and length",
"After an AAC sequence header has been accepted, every raw AAC frame of 1 to 8184 bytes is written as a 7-byte ADTS header followed by the frame unchanged, where the header's profile, sampling-frequency index and channel configuration are those of the latest accepted configuration and its frame length is the frame's length plus 7. A raw frame before any accepted configuration is refused and writes nothing, a configuration that is too short or uses an explicit sampling frequency is refused and leaves the previous one in force, and no input panics. The reported sample rate is the one the standard assigns to the configured index.",
["inputs","histories"],"all frames up to 8184 bytes, all configurations of object types 1-4, all histories of configurations and frames",
"Tests check one configuration and one 9-byte frame, which never uses the upper length bits.",
["parser/aac/parser.go","parser/aac/type.go"],[("ADTS header","parser/aac/parser.go addADTSToFrame"),("configuration","parser/aac/parser.go specificInfo")])
p("C14","H.264 access units are converted to Annex B without losing or altering slices",
"For every well-formed sequence of 4-byte length-prefixed NAL units of slice, IDR, SEI, parameter-set and delimiter types, the parser writes an access-unit delimiter followed by each slice, IDR and SEI unit in order, each exactly once behind a 4-byte start code and byte for byte unchanged. Input that already starts with a start code is passed through unchanged. A unit whose length is zero or exceeds the remaining data, a truncated length field and an unsupported unit type are refused with an error, the output's own error is returned, and no byte string makes the parser panic.",
["inputs","fault_sequences"],"all byte strings and all numbers and sizes of units, failure at any write",
"The number of NAL units per frame and their lengths are unbounded; tests use one or two units.",
["parser/h264/parser.go"],[("AVCC to Annex B loop","parser/h264/parser.go getAnnexbH264")])
p("C15","Every IDR access unit carries the parameter sets in force",
"Before the first IDR unit of an access unit, and only there, the parser writes parameter sets: those that precede it in the same access unit if there are any, and otherwise exactly the sequence and picture parameter set of the latest accepted sequence header, each behind a start code. Access units without an IDR unit get none. A sequence header that is truncated or has an empty parameter set is refused and leaves the parameter sets in force unchanged.",
["inputs","histories"],"all access units, all sequence headers, all histories of the two",
"A second sequence header, trailing bytes after the picture parameter set and several IDR slices per frame are not in the tests.",
["parser/h264/parser.go"],[("parameter-set extraction","parser/h264/parser.go parseSpecificInfo"),("injection","parser/h264/parser.go getAnnexbH264")],None,[("specificInfo","parameter sets of the latest sequence header","parser/h264/parser.go Parser")])
p("C16","The codec parser hands each packet to its codec and refuses the rest",
"A video packet is parsed as H.264 exactly when its codec id says so, an audio packet as AAC or MP3 exactly as its sound format says, and every other codec, packet type, missing header or missing media is refused with an error without writing anything. Parser state persists across packets, so a configuration seen earlier governs later packets of that codec. The reported sample rate is that of the audio codec seen (44100 until a configuration says otherwise), and asking for it before any audio is an error.",
["inputs","histories"],"all packets and all histories of packets",
"Tests exercise the happy path of each codec separately.",
["parser/parser.go","parser/mp3/parser.go"],[("dispatch","parser/parser.go CodecParser.Parse"),("sample rate","parser/parser.go SampleRate, parser/mp3/parser.go")])
p("C17","The TS mixer's stream start and frames carry the parsed media end to end",
"The stream start written by the TS mixer is exactly three packets, the SDT, PAT and PMT in this order, where the SDT holds the provider and service names saved as metadata (each up to 255 bytes with a total that fits one packet) and the PMT lists exactly the media whose headers were saved. Muxing a packet parses it with the codec state accumulated so far and writes the resulting media as one PES packet with the current timestamps; a packet that cannot be parsed writes nothing and its error is returned. An error of the output is returned and stops the writing.",
["inputs","histories","fault_sequences"],"all metadata names, all histories of saved headers and muxed packets, failure at any write",
"It is a composition of parser, timing and muxer state over histories; tests mux one packet.",
["container/ts/mixer.go","container/ts/table/descriptor.go"],[("mixer","container/ts/mixer.go"),("service descriptor","container/ts/table/descriptor.go Service")])
p("C18","AMF3 29-bit integers survive encoding and use the shortest form",
"Every unsigned integer below 2^29 is encoded by the AMF3 encoder in one to four bytes, using exactly as many as the specification's ranges call for, and decoding that encoding yields the integer again and consumes exactly those bytes. Larger values are not encoded as 29-bit integers. Decoding never reads more than four bytes and never panics, and a truncated encoding is an error.",
["inputs","fault_sequences"],"all 2^32 values, all byte sequences",
"2^29 values with boundaries at 2^7, 2^14 and 2^21; tests check a handful.",
["amf/amf3.go"],[("U29 codec","amf/amf3.go writeUint29, readUint29")])
p("C19","AMF0 values survive an encode/decode round trip",
"Decoding the AMF0 encoding of a value consumes exactly the encoded bytes and yields the same value, for numbers (every 64-bit floating-point pattern and every integer exactly representable), booleans, null, strings of any length, dates to the second, and objects, typed objects, associative and strict arrays built from them to any depth. Strings up to 65535 bytes use the short and longer ones the long string form, and a key or type name that does not fit its 16-bit length field is refused rather than truncated. The encoder and decoder keep no state that changes the result for reference-free values.",
["inputs","programs"],"all values of the supported kinds, all nesting depths",
"The domain of nested values is infinite; tests use a few literals.",
["amf/amf0.go","amf/helper.go"],[("encoder and decoder per marker","amf/amf0.go")])
p("C20","AMF3 values survive an encode/decode round trip",
"Decoding the AMF3 encoding of a value consumes exactly the encoded bytes and yields an equal value, for null, booleans, every integer of up to 32 bits including negative ones, 64-bit integers and floating-point numbers, strings, byte arrays, dates to the second, and arrays and anonymous or typed objects of them to any depth (an array is decoded as the dense part of an associative array, a typed object as the object it holds). An integer of up to 32 bits from 0 to 2^29-1 comes back as an integer, any other number as a float64. String lengths and integers at the boundaries of the variable-length form are included. Strings, byte arrays and arrays of 2^28 and more (up to 2^31) are refused with an error.",
["inputs","programs"],"all values of the supported kinds, all nesting depths",
"The domain of nested values is infinite; tests use a few literals.",
["amf/amf3.go"],[("encoder and decoder per marker","amf/amf3.go")])
p("C21","AMF decoders never panic and consume only what they decode",
"For every byte stream and every way the reader splits it into reads, decoding one value with the AMF0 or AMF3 decoder returns a value or an error and never panics, whatever references, lengths or nesting the bytes contain. The result depends on the bytes only and not on how reads are split. A stream that ends inside a value is an error and never yields a partial value.",
["inputs","fault_sequences","schedules"],"all byte strings and all splittings into short reads",
"Hostile lengths, dangling references and short reads are adversarial inputs; tests feed whole valid buffers.",
["amf/amf0.go","amf/amf3.go","amf/amf3_external.go","amf/helper.go"],[("byte reading helpers","amf/helper.go readBytes"),("reference tables","amf/amf0.go decodeReference, amf/amf3.go")])
p("C22","AMF encoders report exactly what they wrote and never hide a write error",
"When an AMF0 or AMF3 encoding call succeeds, the count it returns is the number of bytes it gave to the writer. When any write fails, at whatever point, the call returns a non-nil error and writes nothing further. This holds for every supported kind of value and every public encoding entry point.",
["inputs","fault_sequences"],"all supported values, failure at any write",
"Tests always write to a buffer that cannot fail.",
["amf/amf0.go","amf/amf3.go","amf/helper.go"],[("error propagation","amf/amf0.go, amf/amf3.go encode functions")])
p("C23","SIP methods, versions and status codes parse back from what they print",
"Every SIP method, and both protocol versions, parses back from its printed form to itself, in any letter case. A method or version string that is not one of the known ones is refused with an error. Every status code prints as its decimal digits, and every known status code has a non-empty reason text.",
["inputs"],"all method, version and status values, all strings of ASCII characters",
"A finite but wide table whose pairs are written out twice in the code; tests check a few entries.",
["sips/method.go","sips/version.go","sips/status.go"],[("tables","sips/method.go, sips/version.go, sips/status.go")])
p("C24","SIP header lookup is case-insensitive and understands compact forms",
"A header stored under a name is found under that name in every letter case, and setting it again replaces it. A header that a message carries only under its RFC 3261 compact name is found under its long name, and when both are present the long form wins. Looking up a header that is absent yields an empty result and never panics or changes the message.",
["inputs","histories"],"all header names of ASCII characters, all values, all sets of headers, all 19 compact forms",
"The compact-form table and the case folding are only exercised for a few names.",
["sips/header.go"],[("lookup and compact names","sips/header.go GetHeader, GetFirstHeader, SetFirstHeader")])
p("C25","The SIP parser never panics on any input",
"For every byte string, parsing it as a SIP message, or parsing any string as a user, request URI, via, cseq, authorization or argument list, returns a result or an error and never panics. Message parsing fails with an error when the first line has fewer than three parts, an unknown method or an unknown version.",
["inputs"],"all byte strings",
"Robustness against arbitrary network input cannot be sampled; tests parse well-formed messages.",
["sips/sips.go","sips/user.go","sips/request.go","sips/via.go","sips/cseq.go","sips/header_args.go","sips/auth.go"],[("hand-written state machines","sips/*.go"),("header continuation lines","sips/sips.go ParseHeader")])
p("C26","The SIP body is exactly Content-Length bytes",
"Parsing a message from a stream yields as its payload the blank line that ends the headers, as it was sent, followed by exactly the number of bytes its content-length header announces (none for a negative number), and leaves the bytes after them unread for the next message, however the stream splits its reads. A stream that ends before the announced length yields the bytes that were there. A missing or non-numeric content-length is an error, and never a panic.",
["inputs","schedules"],"all bodies and lengths, all trailing data, all read splittings",
"Tests parse single messages from whole buffers, so over-reading into the next message is invisible.",
["sips/sips.go"],[("body reading","sips/sips.go SIP.fillBody")])
p("C27","SIP URIs, users, vias and cseqs survive a build/parse round trip",
"Printing a request URI, user address, via or cseq whose parts contain no delimiter characters and parsing the result gives back the same scheme, user, host, port, transport, sequence number and method. The printed form contains each part exactly once in the standard order, with the port present exactly when it is set.",
["inputs"],"all part strings over the allowed characters, all lengths, port present or not",
"Part lengths and contents are unbounded; tests use a few literal addresses.",
["sips/request.go","sips/user.go","sips/via.go","sips/cseq.go"],[("printers and state-machine parsers","sips/request.go, sips/user.go, sips/via.go, sips/cseq.go")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import re
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
