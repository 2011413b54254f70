import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
A="dash7/src/app/action.rs";C="dash7/src/app/command.rs";O="dash7/src/app/operation/mod.rs";Q="dash7/src/app/query.rs"
L="dash7/src/app/operation/length.rs";U="dash7/src/utils.rs";I="dash7/src/app/interface.rs";S="dash7/src/session/mod.rs"
N="dash7/src/network/mod.rs";AD="dash7/src/network/addressee.rs";F="dash7/src/file/mod.rs";V="dash7/src/types.rs"
W="dash7/src/app/interface_final.rs";WS="dash7/src/session/interface_final.rs"
FR="dash7/src/link/frame.rs";NF="dash7/src/network/network.rs";TF="dash7/src/transport/mod.rs"
p("C01","Every command survives encoding and decoding unchanged",
 "For every command whose redundant fields agree with its content and whose compressed numbers are representable, encoding it and decoding the bytes gives back an equal command. This holds for every kind of action with every operand value, for any number and order of actions (an indirect forward only last), and in each of the three dialects.",
 ["inputs","configurations"],"all commands over all action kinds and operand values, in the spec, sub-iot and wizzilab builds",
 "The tests round-trip a few dozen hand-written values; operand ranges, length-size boundaries, optional parts and combinations of actions are not sampled.",
 [C,A,O,Q,I,S,N,AD,F,V],[("Command reader/writer loop",C),("opcode dispatch on read and write",A),("operand layouts",O),("length-prefixed file data",O)],["Command::to_bytes","Command::try_from","Command::from_bytes"])
p("C02","Encoded commands follow the ALP wire layout of the selected dialect",
 "The bytes of an encoded command are exactly those the protocol's layout prescribes: opcode and flag bits, field order, field widths, byte order, zero padding, length prefixes and the dialect's own fields.",
 ["inputs","configurations"],"all encodable commands, in each dialect",
 "A round trip cannot notice a reader and writer that are wrong together; the tests pin the bytes of single examples per operand only.",
 [A,C,O,Q,I,S,N,AD,"dash7/src/data/mod.rs","dash7/src/physical/mod.rs",F],[("field attributes (bits, endian, padding, ids)",O),("opcode constants",A),("dialect cfg switches",AD)],["Command::to_bytes","Action::to_bytes"])
p("C03","Decoding yields what the wire layout says, or refuses",
 "For any byte string, decoding it as a command either gives the sequence of actions that the protocol's layout assigns to those bytes, or fails with an error when the layout assigns it none (unknown opcode, reserved code, missing bytes, content that does not fill its length). Reserved bits and non-minimal number forms are read leniently and do not change the result.",
 ["inputs","configurations"],"all byte strings, in each dialect",
 "The tests decode only bytes they also encode; corrupted, truncated, reserved and non-canonical input is not decoded at all.",
 [A,C,O,Q,I,S,N,F,V,L],[("opcode dispatch and rejection",A),("command loop",C),("typed or raw file data",O)],["Command::try_from","Action::try_from"])
p("C04","No input makes a decoder panic",
 "Every public decoder returns a value or an error for every byte string and every starting bit of its first byte; it never panics, overflows or loops. A value that was decoded can always be formatted, compared, cloned and encoded again without a panic.",
 ["inputs","configurations"],"all byte strings and start offsets, over all exported decodable types, in each dialect",
 "Tests feed well-formed input only; a panic hides behind one unusual length, code or truncation point.",
 [A,C,U,O,L,V,F,Q,FR,NF,TF],[("Result-returning readers",U),("bounds on the remaining input",U)],["from_bytes","from_reader","try_from of all exported types"])
p("C05","Decoding then encoding is stable and canonical",
 "If bytes decode to a command, that command encodes without error, the result decodes to the same command again, and encoding that gives the same bytes: one round reaches the canonical form. Bytes that already are canonical come back bit for bit.",
 ["inputs","histories","configurations"],"all accepted byte strings, and repeated decode/encode rounds on them",
 "Only values made by constructors are re-encoded in the tests; states only a decoder can produce (absent masks with a length, lenient number forms, partial files) are not.",
 [C,A,O,Q,L,V,F],[("derived length and flag fields kept from the input",Q),("length prefix recomputed from content",U)],["Command::try_from","Command::to_bytes"])
p("C06","A decoder consumes exactly its message and reports the rest",
 "Decoding an action, command, file or frame from a buffer leaves exactly the bytes behind it, and the strict conversion accepts a buffer only when nothing is left over. An encoding cut short is refused, except that a command cut between two actions is the command of the actions before the cut; reading actions one by one from a stream gives the same actions as reading the command.",
 ["inputs","histories"],"all encodings, every truncation point, all trailing bytes, all groupings of stream reads",
 "The tests decode buffers that end exactly with the message and never look at the remainder.",
 [A,C,U,F],[("consumed-bits accounting",U),("opcode peek and seek back",A),("end-of-input test",C)],["from_bytes remainder","from_reader bit count","try_from"],
 [("bits_read","bits consumed so far","deku Reader")])
p("C07","Length-prefixed payloads stay within their announced length",
 "File data and interface statuses take up exactly as many bytes as the length in front of them announces, whatever the payload is, so the actions that follow are unaffected by it. Data that is not exactly one whole file of the known format is kept as raw bytes, and a status that does not fill its length, or needs more, is refused; on encoding the length always equals the size of the payload.",
 ["inputs","configurations"],"all file ids, payload sizes and contents, announced lengths, and following actions",
 "The tests use payloads whose length matches their type and mostly end the command there.",
 [O,W,U,F],[("read within the announced length",U),("length computed from the encoded payload",U)],["Command::try_from","Command::to_bytes"])
p("C08","Length and offset fields are exact, minimal and bounded",
 "Every number below 2^30 is written as a length or offset in the fewest of one to four bytes, with the size in the top two bits, and reads back as the same number; longer forms than needed are read as well. A number of 2^30 or more is refused when encoding.",
 ["inputs"],"all 32-bit numbers, all byte strings of up to four bytes",
 "Three values are tested; the size boundaries and the upper bound are not.",
 [L,"dash7/src/app/operation/file_offset.rs"],[("size computation from required bits",L)],["Length","FileOffset"])
p("C09","Compressed integers keep their value or round as asked",
 "A number up to the maximum is written with the smallest exponent that can hold it, rounded down or up to that step as requested, and reads back as that rounded value; representable numbers are exact and decoding any byte then encoding the value gives an equal number. Larger numbers, and exponents or mantissas out of range, are refused with the matching error.",
 ["inputs"],"all 32-bit numbers, both rounding directions, all exponent/mantissa pairs",
 "Four exact values are tested; rounding, and whatever lies between them, is not.",
 [V],[("compress/decompress",V)],["VarInt::new","VarInt::compress","VarInt::decompress","VarInt to_bytes/from_bytes"])
p("C10","Header fields derived from the content always match it",
 "Values made by a constructor carry type codes, presence flags and counts that match their content. After any sequence of changes to public content, an update brings the derived fields back in line, so that the value encodes exactly like a newly constructed one and decodes to itself.",
 ["inputs","histories"],"all sequences of content changes on addressees, queries, channel lists, indirect forwards, status and status operands",
 "No test changes a value after building it or calls update.",
 [AD,Q,O,"dash7/src/file/phy_status.rs"],[("constructors",Q),("update attributes",AD)],["new","update","to_bytes"])
p("C11","A system file decodes by its id to its own format",
 "For every file id the decoder picks the format reserved for that id, and raw bytes for all others; each format encodes to its fixed layout and decodes to an equal file. Names shorter than their field come back as written, longer ones are cut at a character boundary.",
 ["inputs","configurations"],"all 256 file ids, all field values of all system files",
 "The system files have hardly any test; the mapping from id to format is not tested.",
 [F,"dash7/src/file/firmware_version.rs","dash7/src/file/factory_settings.rs","dash7/src/file/phy_status.rs","dash7/src/file/dll_config.rs","dash7/src/file/dll_status.rs","dash7/src/file/engineering_mode.rs","dash7/src/file/access_profile.rs","dash7/src/file/security_key.rs","dash7/src/link/mod.rs","dash7/src/physical/mod.rs",U],[("file enum keyed by file id",F),("fixed-length strings",U),("arrays of sub-profiles and sub-bands",U)],["File::from_bytes","to_bytes of the file types","file data actions"])
p("C12","Frames carry their fields and command by the control bits",
 "A transport frame holds exactly the optional fields its control bits announce, in the fixed order, followed by the command; network and foreground frames wrap it with the hopping, address and checksum fields their control bits announce, and background frames have their fixed six bytes. Every frame laid out that way is accepted, consumed as far as it reaches, and encodes to the same bytes; any other is refused.",
 ["inputs","configurations"],"all control bits, optional fields, addresses, embedded commands and frame lengths, and corrupted frames, in each dialect",
 "No frame is tested at all.",
 [FR,NF,TF,C],[("cond attributes on control bits",TF),("command bounded by the frame length",C)],["transport::Frame","network::Frame","ForegroundFrame","BackgroundFrame"])
p("C13","Values that do not fit their field are refused, not truncated",
 "Encoding a value whose field exceeds its width on the wire, a number beyond its number format, a key or list of the wrong size, or bytes that disagree with their length field fails with an error, wherever in the message it sits. Values at the limit are still encoded and read back unchanged.",
 ["inputs"],"all over-wide field values at every position in a message, and all values at the limit",
 "Tests only encode values that fit.",
 [O,Q,L,V,I,"dash7/src/link/mod.rs","dash7/src/physical/mod.rs","dash7/src/file/phy_status.rs"],[("bit widths checked by the writer",O),("assert attributes",Q)],["to_bytes"])
p("C14","Command queries report the first matching action",
 "The request id, response id, tag id, last-response flag and interface status of a command are those of its first request tag, response tag or interface status, and absent when there is none; the tag id prefers the request. The list without interface statuses keeps every other action once and in order.",
 ["inputs"],"all sequences of actions, with any number of tags and statuses at any position",
 "The tests do not call these functions, or only on one command.",
 [C],[("linear scans",C)],["Command::request_id","response_id","tag_id","is_last_response","interface_status","actions_without_interface_status"])
p("C15","The text of a command shows its tag, state and all its actions",
 "The printed form of a command names its tag if it has one, says executing, completed without error or completed with error according to its response tag, and lists every action other than interface statuses once and in order. It ends with the interface status, with all its values, if there is one.",
 ["inputs"],"all commands",
 "Only one or two commands are printed in the tests.",
 [C,S],[("Display implementations",C)],["Display for Command","Display for InterfaceStatus"])
p("C16","Every protocol code maps to one meaning and back",
 "Each enumerated field (opcodes, interface, address, security, response, retry, query, channel, storage, chunk, logic, permission, status and error codes, file ids) has a fixed code for every value: encoding gives that code and decoding the code gives that value. Codes without a meaning are refused or kept as unknown, never taken for another value, and exactly the status codes from 0x80 up count as errors.",
 ["inputs","configurations"],"all codes of every enumerated field, exhaustively, in each dialect",
 "Most codes never occur in a test; swapped or duplicated codes in reader and writer alike pass any round trip.",
 [A,O,Q,S,N,F,I,"dash7/src/physical/mod.rs","dash7/src/data/mod.rs","dash7/src/file/engineering_mode.rs",TF,WS],[("id attributes",S),("status code order",O)],["to_bytes","from_bytes","StatusCode::is_err"])
p("C17","The command line tool shows what the library decodes",
 "The parse command decodes the given hex digits, ignoring white space and letter case, as the type and file id asked for, prints the decoded value and succeeds exactly when the library accepts the bytes; bad hex or refused bytes end in a failure status with nothing printed, and so does an output that cannot be written. Without a type it prints the first of foreground frame, background frame, command and system file that accepts the bytes.",
 ["inputs","configurations"],"all byte strings, types, file ids, spacing and letter case",
 "The tool has no tests.",
 ["dash7-cli/src/parse.rs","dash7-cli/src/main.rs"],[("parse type dispatch",'dash7-cli/src/parse.rs'),("white space removal",'dash7-cli/src/parse.rs')],["exit status and stdout of `dash7 parse`"])
p("C18","Decoding and dropping values is free of undefined behaviour",
 "For every input, complete, truncated or corrupted at any point, decoding it, dropping what was built, and encoding what was decoded performs no invalid memory access, reads no uninitialised memory and leaks nothing.",
 ["inputs","fault_sequences"],"all inputs, in particular every truncation point inside arrays of structures",
 "An ordinary test run does not notice undefined behaviour, and no test cuts an array short.",
 [U,"dash7/src/link/mod.rs"],[("array reader with partial-initialisation guard",U)],["File::from_bytes of access profiles and every other decoder, under an interpreter that checks memory"],
 [("initialized_count","elements already read","TransientDropper")])
p("C19","Memory for decoding is bounded by the size of the input",
 "Decoding n bytes never holds more memory than a fixed multiple of n plus a constant, whatever lengths and counts the input announces. What a call used is given back with its result, so that memory does not grow with the number of calls.",
 ["inputs"],"all inputs, in particular short ones announcing up to 2^30 bytes",
 "Tests do not measure memory and announce only lengths that are present.",
 [O,Q,F,S,U],[("bytes are read as they come, not reserved ahead",U)],["allocator high-water mark during decoding"])
p("C20","Decoding and encoding are pure and silent",
 "Decoding and encoding give the same result for the same argument every time and in any order of calls, whatever was processed before, and on any thread. They leave their arguments as they were and write nothing to standard output or standard error.",
 ["inputs","histories","schedules"],"all inputs, interleaved with any other calls, repeated and from several threads",
 "Tests make single calls, and the test runner captures their output.",
 [C,A,U],[("no state outside the reader",U)],["results and output of repeated and concurrent calls"])
p("C21","Identifiers convert to and from their byte",
 "Every byte converts to a file id and to an interface type; known ids convert back to the same byte, and different known bytes give different ids. A status made from an interface's data carries that interface's id.",
 ["inputs","configurations"],"all 256 bytes, all statuses, in each dialect",
 "No test converts ids.",
 [F,S,O,W],[("TryFrom<u8>/Into<u8>",F),("From conversions",O)],["FileId","InterfaceType","From<InterfaceStatus>"])
p("C22","A command is the concatenation of its actions",
 "The encoding of a command is the encodings of its actions in order, and decoding the joined encodings of two commands gives the actions of the first followed by those of the second (the first not ending in an indirect forward). An action therefore encodes and decodes the same at any position, after and before any other, and flags of one never affect another.",
 ["inputs","histories"],"all pairs and sequences of actions and commands",
 "Tests use a handful of fixed sequences.",
 [C,A],[("command loop",C)],["Command::to_bytes","Command::try_from","Action::to_bytes"])
p("C23","The dialects agree on everything they share",
 "Messages without dialect-specific parts encode to the same bytes and decode to the same values in all three dialects, and bytes free of those parts are accepted by all dialects or by none.",
 ["inputs","configurations"],"all dialect-independent commands, files and byte strings",
 "Each test run builds a single dialect; nothing compares them.",
 [AD,N,I,A,S],[("cfg switches",AD)],["Command::to_bytes and try_from in the three builds"])
p("C24","Each exported part encodes alone as it does inside a message",
 "Addressees, addresses, qualities of service, interface configurations and statuses, queries, channels, file headers, permissions, access classes and system files are codecs of their own: encoding one alone gives the bytes it contributes to a message, decoding those gives an equal value, and any other bytes are judged as they would be inside a message.",
 ["inputs","configurations"],"all values of all exported structures, and corrupted encodings of them",
 "Few of the exported structures are tested alone, with one or two values.",
 [I,S,N,AD,Q,O,"dash7/src/data/mod.rs","dash7/src/physical/mod.rs","dash7/src/link/mod.rs"],[("derived readers and writers",I)],["to_bytes/from_bytes/try_from of the exported structures"])
p("C25","All ways of decoding the same bytes agree, and all ways of encoding a value",
 "The library offers several doors to one codec: a slice, a reader (however it portions its bytes), a context in the middle of other data, a later byte of the input, strict conversion from a whole slice; and for encoding a vector, a conversion, a given slice, a writer that already holds other bytes. For every input all of them give the same value, consume the same number of bits and refuse the same inputs; for every value all of them give the same bytes or all refuse, a slice is filled exactly as far as the value needs and refused if it is too small; an action's identifier is the opcode it encodes to, and an announced length that a command does not use changes nothing.",
 ["inputs"],"all byte strings, all portionings by a reader, all expressible values",
 "Tests use one door per type (mostly from_bytes and to_bytes).",
 [C,A,AD,N,I,S,L,Q,O,TF,F,"dash7/src/data/mod.rs"],[("Command readers and writers",C),("Action readers and writers",A)],["from_bytes/from_reader/try_from/to_bytes/to_slice/to_writer of the exported structures"])
p("C26","A failing reader or writer is reported, never taken for content",
 "When the reader given to a decoder or the writer given to an encoder fails, at whichever of its calls (read, seek, write) and once or for good, the operation ends with an I/O error of that kind: the failure is never taken for the end of the input, for data, or for success. What was written before the failure is the beginning of the encoding. Interrupted calls are repeated, and reading or writing in portions of any size gives the same result.",
 ["inputs","fault_sequences"],"all inputs and values, every call of the underlying reader or writer as the one that fails, every error kind, all portionings",
 "Tests only read from and write to memory, which never fails.",
 [U,C,A,O,L,N,F,FR],[("look at the next byte",U),("opcode peek and seek back",A),("nested writers",U)],["from_reader, from_reader_with_ctx, to_writer of the exported structures"])
p("C27","Values are equal exactly when they mean the same",
 "Two commands, actions or parts of them, made or decoded, compare equal if and only if they hold the same actions, fields and payload; equality does not depend on the direction, a copy is equal to its original, equal values print alike and are written alike, and values that are written differently are not equal. Status codes and opcodes are ordered by their number.",
 ["inputs","configurations"],"all pairs of values of all exported types, in particular pairs that differ in one field, one payload byte or the order of actions, in each dialect",
 "Tests compare a value with its own decoding; that two different values differ is never asked, so a comparison that ignores a field passes.",
 [A,C,O,Q,I,S,N,AD,F,V],[("equality and copies of actions and operands",O),("equality of commands",C),("equality of parts","dash7/src/physical/mod.rs")],["==, !=, clone and Debug of the exported structures","Command::to_string"])
p("C28","Constructors, conversions and defaults give what they say",
 "A constructor puts each argument into the field of that name and derives the redundant fields from them, so that the value is up to date and is written as the protocol says. Conversions between a status and its wrappers, chunk step and chunk, and numbers and lengths keep the content and set the matching type. An action is written with the opcode of its kind whatever the operand's own opcode field holds, and a decoder sets that field. Defaults are the zero, off, absent or broadcast value; they can be written and come back equal.",
 ["inputs","configurations"],"all arguments of the public constructors, all convertible values, all opcode fields, the default of every type that has one, in each dialect",
 "Tests build values with a few arguments, mostly equal or zero ones that hide exchanged fields, and never set the operand's opcode to anything else.",
 [O,Q,I,AD,"dash7/src/link/mod.rs","dash7/src/physical/mod.rs","dash7/src/file/phy_status.rs",A,C,V,W],[("new functions",Q),("status conversions",O),("opcode of an action",A),("no access class","dash7/src/link/mod.rs")],["new, no_offset, unavailable, From/Into and Default of the exported structures"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
