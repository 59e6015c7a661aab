#!/usr/bin/env python3
"""Single source of truth for /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

EXP="src/tags/standard/explicit/mod.rs"; IMP="src/tags/standard/implicit/mod.rs"; FAC="src/tags/standard/factory/mod.rs"
TAGS="src/tags/mod.rs"; IO="src/io/mod.rs"; STD="src/io/std_io/mod.rs"; ARR="src/io/array/mod.rs"; DATA="src/io/data/mod.rs"
ILI="src/ilint/mod.rs"; SER="src/tags/serialization/mod.rs"; RAW="src/tags/raw/mod.rs"; UTIL="src/tags/util/mod.rs"; PAY="src/tags/payload/mod.rs"

p("C01","Tags cross imperfect byte streams unchanged, in order, exactly once",
"Any sequence of tags (every standard kind, custom ids, nested containers, custom payloads) serialized to any of the library's sinks and deserialized from any of its sources arrives complete, in order and exactly once, with equal ids, concrete types and values, however the underlying streams legally split, interrupt (EINTR) or stall reads and writes and however producer and consumer interleave. The bytes on the wire are exactly the ILTags encoding of each tag, the size a tag reports is the number of bytes it puts there, and decoding a tag consumes exactly those bytes.",
["inputs","schedules","fault_sequences"],
"all tag sequences x all legal behaviours of the byte streams (short reads and writes, interruptions, stalls, chunk sizes) x all producer/consumer interleavings over a bounded pipe",
"The unit tests serialize a few fixed values per tag into a Vec or a std::io::Cursor, which never splits, interrupts or blocks; no test sends a tag through a stream that accepts or returns fewer bytes than asked.",
[TAGS,EXP,IMP,FAC,STD,ARR,SER,DATA,ILI,PAY],
[("id, size, value framing","ILTag::serialize / ILTag::size in "+TAGS),("std::io adapters","ReadReader, WriteWriter, blanket Reader/Writer in "+STD),("decode dispatch","ILStandardTagFactory::deserialize in "+FAC)],
observe=["bytes on the simulated sink","decoded tags","bytes taken from the simulated source"])

p("C02","Serialization success means every byte reached the sink; failure is clean",
"Serializing a tag reports success only if the sink accepted the tag's complete encoding; if the sink fails, fills up or stops accepting bytes at any point, an I/O error is reported, the sink holds exactly an in-order prefix of the encoding, and nothing is sent after the failure. The stream adapters for plain writers hand the sink's own error back, and the tag itself is unaffected: serializing it again to a healthy sink gives the full encoding.",
["inputs","fault_sequences","crash_points"],
"all tags x all sinks x a failure (hard error, disk full, zero-length write, read-only flip, transient error) at every byte or call position",
"The tests only write to sinks that never fail half way (VecWriter with its read-only flag set up front, Cursor); no test places a failure inside a tag.",
[TAGS,EXP,IMP,SER,DATA,ILI,STD,ARR],
[("error propagation with ?","serialize_value of every tag in "+EXP+", "+IMP),("all-or-nothing writer contract","Writer in "+IO),("WriteWriter","src/io/std_io/mod.rs")],
observe=["result of serialize/to_bytes","bytes on the simulated sink"])

p("C03","A truncated or failing source never yields a tag",
"When a byte source ends or fails at any position, every tag lying completely before that position is decoded with its right value and every attempt at the tag containing it reports an I/O error: never a tag, never success with made-up bytes, never a panic. The plain stream reader hands back the source's own error, and bytes handed over by an interrupted or short read are never lost, repeated or invented.",
["inputs","crash_points","fault_sequences"],
"all tag sequences x every cut or error position x all sources (memory, std::io::Read, Read+Seek, user Reader, limited) x every decoding entry point",
"Existing tests cut a handful of fixed encodings at the end only; they do not fail a source in the middle of a header, a size, a nested element or a multi-byte value.",
[FAC,EXP,IMP,SER,DATA,ILI,IO,STD,ARR,TAGS],
[("all-or-nothing reader contract","Reader in "+IO),("read_exact based adapters",STD),("error propagation","deserialize_value of every tag")],
observe=["result and value of each decode call","bytes taken from the source"])

p("C04","Damaged stored bytes are rejected or decoded to what they say, never worse",
"For any bytes whatever - in particular stored tags damaged by bit flips, torn or misplaced sector writes, and splices - decoding ends with an error or with the one tag those bytes encode, and it succeeds exactly when the bytes are a well-formed encoding (sizes consistent, booleans 0 or 1, valid UTF-8, no value out of range, no unread or trailing bytes). It never panics, aborts, loops or returns a value the bytes do not encode.",
["inputs","fault_sequences"],
"all byte strings reachable from valid encodings by sequences of storage faults, for strict and non-strict factories and with custom registrations",
"Tests try a few hand-made malformed encodings per tag; the acceptance boundary (which of all possible damaged encodings must be refused) is an infinite set with interactions between nesting levels.",
[FAC,EXP,IMP,ILI,TAGS,SER,UTIL,IO],
[("size and emptiness checks","deserialize_tag_value_into in "+FAC+", limited_reader_ensure_empty in "+UTIL),("range checks","decode_body in "+ILI),("from_bytes trailing check","ILTagFactory::from_bytes in "+TAGS)],
observe=["accept/reject decision","decoded value","bytes consumed"])

p("C05","Decoding never reads past the declared extent",
"A size-limited reader never takes more bytes from its source than its limit, refuses any larger request before touching the source, and its remaining count always equals the limit minus the bytes successfully delivered or skipped, whatever mix of reads, skips and source failures occurs and however deeply such readers are nested. Consequently decoding a tag - including tags with misbehaving user-defined payloads and corrupted children - never takes bytes beyond the extent its header declares, and a value that leaves declared bytes unread is an error.",
["inputs","histories","fault_sequences"],
"all operation histories over nested limited readers on failing sources; all declared sizes smaller or larger than the real content; payloads that under-read or over-read",
"Tests use limits of at most 11 bytes on an infallible counter source and single-chunk reads; skip beyond the limit in several chunks, nesting and failing sources are not exercised.",
[IO,FAC,EXP,UTIL,TAGS],
[("LimitedReader","available counter in "+IO),("factory wraps every value in a limited reader",FAC)],
state=[("available","bytes the limit still allows","LimitedReader in "+IO)],
observe=["bytes taken from the innermost source","available()","decode results"])

p("C06","Every reader behaves like one in-order cursor over its data",
"For any history of reads, bulk reads, skips, repositionings and typed reads, every reader of the library returns exactly the bytes of its data in order, with typed values big-endian or ILInt as specified; each operation either delivers everything asked for or fails. A failed operation on a memory reader, a request refused by a limited reader, and a failed skip on a seekable stream change neither position nor later results, also for counts far beyond the data or near the integer limits.",
["histories","fault_sequences","inputs"],
"all operation histories x all reader implementations x source fragmentation, interruption and end-of-data position",
"Tests run each operation once or twice on tiny arrays; mixed histories, failure followed by further use, fragmented sources, and skip counts near u64::MAX are not covered.",
[IO,ARR,STD,DATA,SER,ILI],
[("ByteArrayReader / VecReader",ARR),("blanket Reader for Read+Seek, ReadReader",STD),("typed readers",DATA+", "+SER)],
state=[("offset","cursor of the memory readers",ARR)],
observe=["returned bytes and values","offset()/available()/stream position"])

p("C07","Every writer behaves like one in-order cursor over its buffer",
"For any history of writes, bulk writes, typed writes, repositionings and read-only switches, every writer of the library leaves exactly the bytes written, at the positions written, encoded big-endian or as ILInt as specified, with untouched bytes preserved. Each write is all or nothing: a write refused because the writer is read-only or its array is full changes neither content nor position, and sinks that split or interrupt writes still receive every byte once.",
["histories","fault_sequences","inputs"],
"all operation histories x all writer implementations x capacity, read-only and fragmentation faults",
"Tests write short constant sequences to each writer; they do not mix overwrites, growth, refusal and continued use, nor sinks that split or interrupt writes.",
[ARR,STD,DATA,SER,ILI,IO],
[("VecWriter / BorrowedVecWriter / ByteArrayWriter",ARR),("WriteWriter and blanket Writer",STD),("typed writers",DATA+", "+SER)],
state=[("offset, read_only","cursor and lock of the memory writers",ARR)],
observe=["buffer content","get_offset()/bytes_written()/available()","results"])

p("C08","Raw scanning reports extents that tile the stream, on any stream",
"Scanning a stream of tags without decoding reports, for each top-level tag in order, its id and the extent it really occupies: extents start where the previous one ended, cover the stream without gap or overlap, agree with what full decoding consumes, and slicing the bytes with them yields exactly that tag and its value; nested extents mapped to the parent's space do the same. This holds for every source and for streams that fragment or interrupt; when the stream ends inside a tag, fails, or declares an impossible size the scan reports an error instead of an extent, without panicking.",
["inputs","fault_sequences","crash_points"],
"all streams of tags (any kind, any valid header encoding, including longer than necessary) x all sources x cut, failure and corruption positions",
"Two tests scan one fixed sequence of small tags in memory; sizes needing several bytes, non-minimal integers, seekable and fragmented streams, truncation inside skipped values and huge sizes are not covered.",
[RAW,STD,IO,ILI,IMP],
[("RawTagScanner::next_tag",RAW),("skip implementations",STD+", "+IO)],
state=[("offset","scanner's position in the stream","RawTagScanner in "+RAW)],
observe=["reported id/offset/sizes","source position after each scan step"])

p("C09","Serialized bytes do not depend on hashing, history or process",
"The serialized form of a tag is a function of its logical value only: dictionaries built by any order of inserts, overwrites and removals, with any hash seed, in any thread or after a process restart serialize to the same bytes with keys in lexicographic byte order, and comparing or cloning tags agrees with that. Decoding and re-serializing canonical bytes reproduces them exactly on every node.",
["histories","configurations","inputs"],
"all construction histories x all hash seeds (one per simulated process start) x all nested dictionaries and containers",
"Hash seeds differ on every run and cannot be chosen by a test; the tests use dictionaries of two or three short keys built in one order.",
[EXP,UTIL,TAGS],
[("keys sorted before serialization","ILDictTag/ILStrDictTag::serialize_value in "+EXP),("iltag_are_equal, iltag_clone",UTIL)],
observe=["to_bytes on several simulated nodes"])

p("C10","Factories and tags shared between threads behave as if used alone",
"Any number of threads may decode through one shared factory and serialize, size or clone the same shared tags at the same time: under every interleaving each operation returns exactly what it would return if it ran alone, and all operations finish. A failure, slow source or abandoned operation in one thread never affects results in another.",
["schedules","fault_sequences","inputs"],
"all interleavings, at every I/O call, callback and allocation, of concurrent decode/encode operations on shared factories and tags, with faults in some of them",
"The tests are single-threaded; Send and Sync are only checked by the compiler, which says nothing about results.",
[FAC,TAGS,EXP,IMP,UTIL,PAY],
[("stateless &self decode","ILTagFactory: Send + Sync in "+TAGS),("creators are Send + Sync",TAGS)],
observe=["per-thread results compared with a run alone","progress of every thread"])

p("C11","Memory taken while decoding is bounded whatever sizes the input claims",
"A tag whose declared size exceeds the library's maximum tag size is refused as too large, at any nesting level, before memory for it is taken; a declared size up to and including the maximum is not refused for its size. While decoding any input, damaged and truncated ones included, memory in use never exceeds the maximum tag size plus a small multiple of the bytes actually received, so element counts and sizes claimed but not delivered cannot exhaust memory, and a failed decode releases what it took.",
["inputs","fault_sequences","crash_points"],
"all inputs whose headers and counts are inflated by corruption, cut at every position, under a simulated memory limit",
"No test observes allocation; sizes near the maximum are only tested on the conversion function.",
[TAGS,FAC,EXP,SER,DATA],
[("tag_size_to_usize and MAX_TAG_SIZE",TAGS),("count checked against the value size","ILILIntArrayTag/ILTagArrayTag::deserialize_value in "+EXP)],
observe=["allocator seam: live and peak bytes, largest request","result kind"])

p("C12","Every operation finishes within bounded work",
"Decoding, scanning, serializing, sizing, comparing and cloning finish within a number of steps (stream calls, callbacks into user tags, allocations) bounded by a low-order polynomial of the amount of data and the nesting depth involved, on every input and every failing, slow or endlessly interrupted-then-resumed stream. Once stream faults stop, the pending operation completes within that bound; claimed counts and sizes that are not backed by data add no work.",
["inputs","fault_sequences","schedules"],
"all inputs and nesting shapes x all fault sequences that eventually stop",
"Tests use one or two nesting levels with a few elements; growth of the work with depth and element count, and progress after faults, are not measured.",
[TAGS,EXP,FAC,IO,STD,RAW],
[("size computation","ILTag::size in "+TAGS+", value_size of the containers in "+EXP),("loops bounded by data",EXP+", "+IO)],
observe=["counted calls at the stream, callback and allocator seams"])

p("C13","Failed or repeated operations leave no residue",
"Decoding into an existing tag gives exactly the state a fresh decode of the same bytes gives, whatever the tag held before and however many earlier attempts on it, or on the same factory, failed at whatever point; an attempt with another id is refused as a type mismatch without changing the tag. After any number of failures, tags, factories and memory writers keep working exactly as new ones do.",
["histories","fault_sequences","crash_points"],
"all histories of decode-into attempts, failures at every position, setter calls and re-serialization on the same objects",
"Tests decode once into a fresh or default tag; none decodes after a failure half way or over previous content of another size.",
[EXP,IMP,FAC,TAGS,SER,PAY],
[("containers cleared before decoding","deserialize_value in "+EXP),("buffers resized to the exact size","deserialize_bytes_into_vec in "+SER)],
observe=["tag state after each attempt compared with a fresh decode"])

p("C14","A tag journal recovers every acknowledged record after any crash",
"When tags are appended to a durable byte store and a crash cuts or tears the unsynced tail at any byte, reopening, scanning and decoding the store yields exactly a prefix of the appended tags that includes every tag whose write was acknowledged and made durable, and reports the torn tail as an error rather than as a tag. Cutting the store at the end of the last reported extent and appending again continues the journal without losing or duplicating records, through any number of crashes.",
["crash_points","histories","fault_sequences"],
"all histories of append, flush/sync, I/O fault, crash (losing or tearing unsynced bytes) and recovery",
"There is no test that stores tags and restarts; it needs serializer, adapters, scanner, size queries and decoder together under crashes.",
[RAW,STD,TAGS,FAC,EXP,IMP,IO,ARR],
[("self-delimiting encoding","ILTag::serialize in "+TAGS),("RawTagScanner offsets",RAW),("SizedSeek and blanket Reader/Writer",STD)],
observe=["records recovered after each simulated restart against the journal model"])

p("C15","Decoding follows the registrations in force",
"Each tag, at any nesting level, is decoded by the creator currently registered for its id: after any history of registrations, replacements and removals interleaved with decodes, standard ids yield their standard types until replaced, registering returns the creator it replaces, and removed or never-registered ids yield a raw tag holding the exact value bytes in non-strict mode. Unregistered implicit ids always, and any unregistered id in strict mode, fail as unknown tags, and a failed decode changes no registration.",
["histories","inputs","fault_sequences"],
"all histories of register, deregister, create and decode (with stream faults) on strict and non-strict factories, standard and custom ids",
"Tests register one or two custom ids and check creation; histories with replacement, removal and nested decoding are not covered.",
[TAGS,FAC,EXP,PAY],
[("ILTagCreatorEngine",TAGS),("create_std_engine",FAC)],
state=[("creators, strict","registration table","ILTagCreatorEngine in "+TAGS)],
observe=["concrete type and id of decoded tags","error kind"])

p("C16","Position and length queries on seekable streams are exact and side-effect free",
"On any seekable stream, asking for length, offset, available bytes or emptiness returns the true value and leaves the position where it was, also when the position lies beyond the end (nothing is available then), after any mix of reads, writes, skips and seeks. If the stream's own seek fails the query reports an error, and it never panics or returns a made-up number.",
["histories","fault_sequences","inputs"],
"all histories of stream operations x seek failures at any call x positions before, at and beyond the end",
"There is no test for these queries on streams that fail, nor for positions beyond the end.",
[STD],
[("SizedSeek for std::io::Seek",STD),("skip_u64 for Read + Seek",STD)],
observe=["returned values","stream position before and after"])

p("C17","Failures of user-defined tags and payloads reach the caller unchanged",
"When user code plugged into the library (tags, payloads, creators' tags, factories, readers or writers) reports an error in any callback at any nesting level, the outermost operation fails with that same error, nothing further is read, written or called on behalf of it (the two operands of a comparison are serialized independently), and comparison reports not-equal. User payloads receive the exact declared value size, the caller's factory and a reader confined to their value, and once the fault is gone the same objects work.",
["fault_sequences","inputs","histories"],
"all positions of a failing callback in nested containers x serialization, sizing, decoding, cloning, comparison x error kinds",
"One doc-test and a few tests use one well-behaved payload at top level; no test makes a nested callback fail.",
[PAY,EXP,FAC,UTIL,TAGS],
[("error propagation with ?","containers in "+EXP),("ILGenericPayloadTag delegation",PAY),("iltag_clone_with_factory, iltag_are_equal",UTIL)],
observe=["error returned by the outermost call","calls recorded by the user objects"])

p("C18","Signed integers map one-to-one to unsigned ILInt values",
"Mapping a signed 64-bit integer to its unsigned form and back is the identity in both directions for all values, small magnitudes of either sign map to small numbers, and the reported encoded size is the size of the mapped value.",
["inputs"],
"all 2^64 values",
"Tests sample a few values; the claim is about every value of a pure function.",
[ILI],[("encode_sign / decode_sign / signed_encoded_size",ILI)])

p("C19","Tag classification and typed access are exact",
"An id is implicit exactly when it is at most 15 and reserved exactly when it is at most 31, and typed access to a tag through a generic reference succeeds exactly when the concrete type (and, where asked for, the id) matches.",
["inputs"],
"all ids and all pairs of requested and actual type",
"Tests sample a few ids and two types.",
[TAGS],[("is_implicit_tag, is_reserved_tag, tag_downcast_*, tag_id_downcast_*, assert_tag_id_and_type",TAGS)])

p("C20","Programs with different vocabularies exchange tags without loss",
"When programs that know different sets of tag types (older, newer or extended ones, strict or not) store tags and pass them on, a program that does not know a type carries its tags unchanged: whatever a non-strict program receives it serializes again byte for byte, nested, copied or stored, and a program that knows every type involved sees the original value however many others handled it. A strict program refuses exactly the tags that contain a type it does not know, as unknown tags, without harm to what it holds or to other traffic, and records kept by one version are read in full by a later one that knows their types. Over a network that loses, duplicates, reorders, cuts and delays messages, with crashes and version changes, every tag reaches every connected program able to take it within a bounded number of rounds once faults stop.",
["schedules","histories","fault_sequences","crash_points"],
"all sets of vocabularies x all network topologies and message schedules x loss, duplication, reordering, truncation, partitions, crashes and version changes",
"Tests decode one unknown tag with one factory; none passes a tag through programs with other registrations, restarts one as another version, or nests unknown types in containers handled by both.",
[TAGS,FAC,EXP,UTIL,RAW,PAY],
[("raw tag for unknown ids in non-strict mode","ILTagCreatorEngine::create_tag and ILRawTag in "+TAGS),("containers decode elements through the factory",EXP),("RawTagScanner independent of registrations",RAW)],
observe=["bytes of every frame sent and stored","tags held by every node during and at the end of the run","error of every refused frame"])

p("C21","A tag always reflects its current value",
"After any history of setter calls, edits of its mutable parts (tags nested at any depth included), insertions, removals, exchanges of content, copies, decodes, and failed or abandoned serializations, a tag's accessors, id, sizes, serialized bytes and comparisons are those of a freshly built tag holding its current value, whatever was asked of it before. Copies, decoded tags and parts taken out or put in elsewhere are independent: changing one never changes another.",
["histories","inputs","fault_sequences"],
"all histories of changes, questions and failed operations on groups of tags",
"Tests build a tag, ask it once and drop it; none asks, changes a nested part and asks again, nor after a failed serialization.",
[EXP,IMP,TAGS,PAY,UTIL],
[("setters and mut_value() of every tag",EXP+", "+IMP),("size() and to_bytes() computed on demand","ILTag in "+TAGS),("iltag_are_equal, iltag_clone",UTIL)],
observe=["every public answer of a tag, on the way to a change, after it, and of bystanders"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),"properties")
