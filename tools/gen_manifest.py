"""Writes rules.json and MANIFEST.json. Run after changing what a check does."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = ("the reference codec in harness/src/refcodec.rs, written bit by bit from the ALP layout and independent of "
       "deku and of the crate's types")
MSG = ("Commands of 0 to about 8 actions drawn over all action kinds and all operand values, biased to the edges of "
       "every field (length-size boundaries, extreme ids, all flags)")
BYTES = ("Byte strings that are valid encodings, encodings with non-minimal numbers, encodings with one to four "
         "mutations (bit flips, cuts, insertions, splices, copied blocks), opcode-led noise and plain noise")
A_REF = "The layout in refcodec.rs is the protocol's, as read from the crate's tests, its layout comments and the specification it follows."
A_STACK = "The build has debug assertions and overflow checks on, opt-level 1, stable toolchain."
T = {}
def t(id, rule, technique, note, *assume):
    T[id] = dict(rule=rule, technique=technique, note=note, assumptions=list(assume) + [A_STACK])
t("C01", MSG + "; non-trivial: the command has an action longer than one byte (single actions always count).",
  "generated values, round-trip oracle", "Equality of the decoded value with the value that was encoded, for generated commands and single actions in three builds. Nothing is proved beyond the cases drawn.",
  "Compressed numbers are drawn from the representable ones; redundant fields agree with the content.")
t("C02", MSG + "; non-trivial: an action longer than one byte.",
  "generated values, differential oracle (reference codec)", "The encoded bytes are compared with " + REF + ".", A_REF)
t("C03", BYTES + "; plus all 65536 two-byte strings. Non-trivial: the input is accepted with at least one action, or is refused and longer than one byte.",
  "generated and mutated bytes, differential oracle (reference codec)", "Accept/refuse and the decoded value are compared with " + REF + ".", A_REF)
t("C04", BYTES + ", against every exported decoder at each of the eight starting bits; all single bytes and byte pairs; inputs of up to 100 kB. Non-trivial: more than one byte.",
  "generated and mutated bytes, crash oracle", "A panic, an overflow, an abort or 40 s of processor time on one case fails. Whatever is decoded is also formatted, cloned, compared and encoded.",
  "Starting bits beyond the first byte are left to deku.")
t("C05", BYTES + "; non-trivial: the input is accepted and has at least one action.",
  "generated bytes, metamorphic oracle (decode, encode, decode, encode)", "Two rounds on every accepted input; encodings already canonical by the reference codec must come back bit for bit.",
  "Statuses of unknown interfaces are the known finding K1 and are accepted only with exactly that defect.")
t("C06", "Encodings of actions, commands, files and frames with trailing bytes, at every cut (a spread for those over 400 bytes), and streams read action by action through readers that deliver in generated portions. Non-trivial: there are trailing bytes, more than one byte to cut, or more than one action.",
  "generated values with every truncation, invariant on the remainder", "Remainder, bit count, strict conversion and refusal of cuts are compared with the known size of the encoding.", A_REF)
t("C07", "File-data actions and interface statuses with any file id or interface, payloads that are whole files, whole files of another id, files with bytes missing or added, and noise, an announced length that matches or not, and following actions. Every case is non-trivial.",
  "generated payloads and lengths, differential oracle and independence of what follows", "The actions after the payload must be those that were put there; the payload's meaning comes from the reference codec.", A_REF)
t("C08", "All numbers below 2^16 (2^22 in the thorough tier), all numbers near powers of two, random numbers over 32 bits, all two-byte strings and random strings up to six bytes, for Length and FileOffset and inside messages. Non-trivial: over 63, or more than one byte.",
  "enumeration and generated numbers, arithmetic oracle", "Closed-form oracle for size, bytes, value and refusal.")
t("C09", "All numbers up to the maximum with both rounding directions, the 3000 numbers behind it, random 32-bit numbers, all 65536 exponent and mantissa pairs, all bytes. Non-trivial: over 31 (blocks of numbers count once).",
  "exhaustive enumeration, arithmetic oracle", "The domain up to the maximum is enumerated completely in the thorough tier, block-wise sampled otherwise as reported under labels.")
t("C10", "Values made by constructors or decoders and then changed by generated sequences of up to twelve assignments to public content and updates. Non-trivial: more than one change.",
  "stateful generation, model of the content", "After each update the value must encode like a newly constructed one and decode to itself.",
  "The compare length of a maskless comparison with zero is not kept by update (it has no content to derive it from).")
t("C11", "Field values of all system files, all 256 file ids with own, foreign and damaged contents, names of every length including multi-byte characters. Non-trivial: not empty.",
  "generated files, differential oracle and round trip", "Format by id, bytes and values are compared with " + REF + ".", A_REF)
t("C12", "Transport, network, foreground and background frames with all control bits and fields, frame lengths that do and do not fit, frames differing in one field, all background headers, corrupted frames and noise. Non-trivial: over six bytes, or a valid frame.",
  "generated frames, differential oracle", "Acceptance, consumed bytes and re-encoding are compared with " + REF + "; the fields of frames with private fields are compared through equality and re-encoding.", A_REF)
t("C13", "Messages in which one field is replaced by a value that does not fit or is exactly at its limit, at any position; transport timeouts and parts alone. Every case is non-trivial.",
  "generated over-wide values, expected-refusal oracle", "Over-wide must be refused; the twin at the limit must encode and read back unchanged.")
t("C14", "Commands dense in request tags, response tags and interface statuses at any position, ordinary commands, and decoded ones. Non-trivial: more than one action and at least one tag or status.",
  "generated commands, model oracle", "A model scans the list of actions.")
t("C15", "Commands dense in tags and statuses, and ordinary ones. Non-trivial: at least one action.",
  "generated commands, model oracle on the text", "Tag, state word, the debug text of each listed action in order, absence of statuses from the list and the values of the interface status are looked for in the text; wording and spacing between them are free.",
  "The text of an action is its Debug or Display form as given by the crate.")
t("C16", "Every code of every enumerated field, alone and in the bytes of a message, in each dialect. Non-trivial: every code.",
  "exhaustive enumeration, table oracle", "The tables are written down in codes.rs, independent of the crate.", A_REF)
t("C17", "Runs of the built command line tool with generated bytes, type, file id, spacing and letter case, and bad hex. Non-trivial: at least one byte.",
  "generated command lines, differential oracle (the library)", "Exit status and output are compared with the library called in the harness.")
t("C18", "Complete, cut and mutated messages, files and frames decoded, compared, encoded and dropped under Valgrind memcheck, and mostly system files under Miri; non-trivial: at least two bytes and at least one allocation.",
  "generated and mutated bytes under memory checkers (Miri, memcheck) and a leak counter", "Miri checks every access, memcheck every access and the use of unset bytes; live bytes are compared around each case. Native code at opt-level 1.",
  "Miri runs without its experimental aliasing model, which the bitvec dependency does not satisfy.")
t("C19", "Inputs announcing up to 2^30 bytes in every place a length occurs, followed by few bytes; mutated input; long input; histories of calls. Non-trivial: an announced length over 100000, any non-empty input, a history of far more bytes than may be held.",
  "generated lengths, allocator high-water mark as oracle", "A counting allocator measures the peak during each decode against a fixed multiple of the input, and what is still held after many calls.")
t("C20", "Histories of up to dozens of mixed decode and encode calls, replayed in other orders, repeated, and on several threads, with standard output and error captured. Non-trivial: more than one call, or more than one byte.",
  "generated call histories, metamorphic oracle", "Every call must give the result it gives alone in a fresh order; nothing may be written.")
t("C21", "All 256 bytes for file ids and interface types; statuses of every interface and files. Non-trivial: not host or serial.",
  "exhaustive enumeration and generated statuses, table oracle", "Ids are compared with a table of the protocol.",
  "Ids without a meaning panic on conversion back (known findings K2 and K3) and are accepted only with exactly that defect.")
t("C22", "Pairs and sequences of actions and commands, as values and as accepted byte strings. Non-trivial: both sides non-empty.",
  "generated commands, metamorphic oracle (concatenation)", "Encoding and decoding must commute with joining.")
t("C23", "Values and byte strings (valid, mutated, noise) of commands, files and frames that the reference codec reads the same way in all dialects. Non-trivial: more than a few bytes.",
  "generated inputs, differential oracle (the three builds)", "The answers of the three builds (accepted value as text, remainder, re-encoding) are compared.",
  "The wizzilab-only fields of an addressee are removed from the text when they have their default.")
t("C24", "Values of every exported structure alone with trailing bytes, and corrupted encodings of them. Non-trivial: not empty.",
  "generated values, differential oracle (reference codec)", "Encoding alone, decoding, remainder and refusal are compared with the reference codec's part.", A_REF)
t("C25", "Byte strings (noise, valid and damaged parts, messages) and portionings, each tried as every one of about 55 types; values that may not fit. Non-trivial: more than one byte.",
  "generated inputs, differential oracle (the library's own entry points)", "Slice, reader, slow reader, context, second byte and strict conversion are compared in value, bits read and refusal; vector, conversion, slice and writer behind other bytes in bytes and refusal.")
t("C26", "Byte strings (commands, parts, damaged, noise) with a failure plan: error kind, lasting or not, portion sizes; in each case up to 16 of the calls fail in turn. Non-trivial: more than one byte.",
  "fault injection over generated inputs, invariant on the outcome", "Every type is read from and written to a buffer that counts its calls and fails the chosen one; the outcome has to be that error, or the undisturbed result if the call was merely interrupted.",
  "Failures of kind UnexpectedEof mean the end of the input, by the definition of Read.")

t("C27", "Pairs: a message and the same after up to two changes (actions swapped, dropped, repeated, bytes changed), built or decoded; encodings of parts and any bytes with up to two mutations, decoded as every type. Non-trivial: the pair differs before decoding.",
  "generated pairs, metamorphic oracle (reference model's equality, encodings)", "Equality of built and decoded messages is compared with equality of the reference model; for the other types equality has to coincide with being written alike.",
  "Values that do not come back from what they are written as (K1, K2) may be written alike without being equal.")
t("C28", "Constructor arguments, statuses, actions with any opcode in the operand; all types with a default. Non-trivial: everything, for opcodes only a different one.",
  "generated arguments, differential oracle (field values and reference codec)", "Fields are compared with the arguments, encodings with the reference codec; opcodes, small constructors, action statuses and defaults are enumerated.",
  "The default foreground frame has length 0, which means unbounded, and LoRaWAN keys default to nothing, which cannot be written; both are left out.")

GUIDED = "C01 C02 C03 C04 C05 C06 C10 C11 C12 C14 C15 C19 C20 C22 C24 C25 C26 C27".split()
for k in GUIDED:
    T[k]["technique"] += "; random and coverage-guided search"
    T[k]["rule"] += (" Part of the cases come from a search: cases are changed as data, those that make the instrumented "
                     "library take new edges or meet rarely met constants are kept and changed further.")

json.dump({k: dict(rule=v["rule"], assumptions=v["assumptions"]) for k, v in T.items()},
          open(os.path.join(HERE, "rules.json"), "w"), indent=1)
checks = [dict(property=k, quick_cmd=f"python3 check.py {k}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {k}",
               evidence_file=f"evidence/{k}.json", technique=v["technique"], level="exploration", level_note=v["note"])
          for k, v in T.items()]
json.dump(dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=[],
               notes="No hooks in /repo: everything is reached through the public interface."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
