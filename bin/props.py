"""Every property: what it says, what its check runs, what it assumes."""

TRUSTED = [
    "Kani 0.68.0 / CBMC 6.11.0 (translation of MIR to goto, bit-precise machine arithmetic, cadical)",
    "rustc/MIR and the Rust standard library as compiled (including its unsafe code)",
    "Verus 0.2026.09.13 / Z3, vstd's specifications of the standard library (Vec, VecDeque, Option, Result, Box)",
    "the mechanical extraction of bin/verusrun.py (what it drops and replaces is listed per unit in verus_units: drops, substitutions)",
    "the stand-ins listed per unit as assumed (external_body): raw memory of chunks, Arc identity and count, default methods of bytes::Buf",
    "SerError constructors are stubbed under Kani: they build an error without message text",
]
ASSUMPTIONS = [
    "Verus units: machine integers are checked for overflow; memory is modelled by position (a byte counts from when its owner marks it as written until the buffer is free again)",
    "Kani decides single-threaded executions with panic=abort; termination is not proved",
    "dependencies (bytes, uuid, rustc-hash, sequence_trie, crossbeam, toml ...) are executed as they are, not specified separately",
]

A_BYTES = "inputs"
LIFE = "kompact_verif_lifecycle"

PROPS = {}


def prop(id, **kw):
    PROPS[id] = kw


prop("C01",
    title="Frame heads and control frames decode to exactly what was encoded",
    statement="Every frame the network layer can send (Hello, Start, Ack, Bye and Data) is written as a nine-byte head (magic number, big-endian length of the body, type) followed by exactly that many bytes of body, and its announced encoded length is what it writes. Decoding those bytes gives back the same frame: the same socket address (IPv4 or IPv6), session id and payload. A head is accepted exactly if nine bytes with the right magic number are there.",
    over=["inputs"], quant="all addresses, ports, session ids, payloads and all byte strings offered as a head",
    why="The tests round-trip one address and one session; the layout must hold for all 2^128 IPv6 addresses, all ports, ids and payload lengths, and for every byte of a head.",
    files=["core/src/net/frames.rs"],
    mech=[("FrameHead encode/decode", "core/src/net/frames.rs"), ("Hello, Start, Data encode_into/decode_from/encoded_len", "core/src/net/frames.rs")],
    level="proof",
    note="Every function that writes or reads a frame or its head proved by Verus for all frames and all bytes, with the lemmas that what is written is read back, relative to the contracts of bytes::{Buf,BufMut} and of socket addresses; heads, Hello and Start also by Kani on the real dependencies.",
    verus=["frames"],
    cfgs=["kompact_verif_net"], kani=["frames::proofs"], secs=6,
    functions=["FrameHead::{new,encode_into,decode_from,content_length,frame_type}", "Hello::{encode_into,decode_from,encoded_len}",
               "Start::{encode_into,decode_from,encoded_len}", "FrameType::from"],
    assumptions=["flow label and scope of IPv6 socket addresses are not transmitted", "bodies of frames are at most 2^32 - 1 bytes"])

prop("C02",
    title="A byte stream decodes to the frames written, however it is cut up",
    statement="When frames are written one after the other to a byte stream and the stream arrives in arbitrary portions, the receiving buffer yields exactly those frames, in order and with equal content, and none before its last byte has arrived. This holds across any number of buffer swaps, with any buffer size the configuration allows, and while earlier payloads are still being read.",
    over=["inputs", "histories"], quant="all sequences of frames (bodies may span several buffers), all ways of cutting the stream, all valid buffer sizes, all orders of dropping payloads",
    why="Tests cut a stream in a few fixed places; the defects found here needed a cut inside a head at a buffer boundary or a frame spanning three buffers.",
    files=["core/src/net/buffers/decode_buffer.rs", "core/src/net/buffers/chunk_lease.rs", "core/src/net/buffers/mod.rs"],
    mech=[("DecodeBuffer::get_frame / swap_buffer", "core/src/net/buffers/decode_buffer.rs")],
    level="proof",
    note='DecodeBuffer (all of get_frame, swap_buffer and what they use), FrameHead::decode_from and the chain operations proved by Verus for all streams, cuts and buffer sizes; the threads and sockets around them are executed natively.',
    cfgs=["kompact_verif_net"], secs=25,
    functions=["DecodeBuffer::{with_config,get_frame,get_writeable,advance_writeable,swap_buffer,...}", "ChunkLease"],
    verus=['decode'],
    assumptions=['the socket writes what get_writeable offers before advance_writeable is called', 'Hello/Start bodies are opaque functions of their bytes here (see C01)'])

prop("C03",
    title="Addresses survive serialisation, in the documented layout",
    statement="Every system path and every actor path (unique or named, over any transport and any IPv4 or IPv6 address and port) that is serialised and then deserialised is equal to the original, uses exactly the number of bytes its size hint says, and leaves the following bytes unread. The header byte keeps path kind, transport and address kind apart, and a named path whose name does not fit its 16-bit length is refused.",
    over=["inputs"], quant="all transports, addresses, ports, ids, and segment lists up to and beyond the length limit",
    why="Tests use a handful of IPv4 paths; the header overwrote the transport for IPv6 paths (fixed here) although every test passed.",
    files=["core/src/messaging/framing.rs", "core/src/messaging/bitfields.rs", "core/src/actors/paths.rs"],
    mech=[("SystemPath/ActorPath Serialisable and Deserialiser", "core/src/messaging/framing.rs"), ("BitField store/get", "core/src/messaging/bitfields.rs")],
    level="proof",
    note="All system paths and unique paths proved; named paths (strings) run natively, bounded.",
    cfgs=["kompact_verif_net"], kani=["paths::proofs::system_v4", "paths::proofs::unique_v6", "paths::proofs::bitfields"],
    kani_thorough=["paths::proofs::system_v6", "paths::proofs::unique_v4"], harness_timeout=400, secs=8,
    functions=["<SystemPath as Serialisable>::{serialise,size_hint}", "<SystemPath as Deserialiser>::deserialise",
               "<ActorPath as Serialisable>::{serialise,size_hint}", "<ActorPath as Deserialiser>::deserialise",
               "SystemPathHeader::{from_path,from_system,try_from,put_into}", "BitFieldExt::{store,get_as}"],
    assumptions=["named paths are executed on generated names only (bounded)"])

prop("C04",
    title="Malformed bytes are refused with an error and never crash the receiver",
    statement="Whatever bytes arrive (as a frame, a datagram, a control frame, a message or a serialised value of any built-in type), decoding either yields a value or reports an error. It never panics, never reads past the bytes of that message and never fails to return.",
    over=["inputs"], quant="all byte strings, including truncations and mutations of valid messages",
    why="Only well-formed input is tested; a peer can send anything, and a panic takes the network thread down.",
    files=["core/src/net/frames.rs", "core/src/messaging/framing.rs", "core/src/serialisation/default_serialisers.rs", "core/src/serialisation/serde_serialisers.rs", "core/src/serialisation/ser_helpers.rs"],
    mech=[("deserialisers", "core/src/serialisation/"), ("deserialise_chunk_lease, deserialise_bytes", "core/src/serialisation/ser_helpers.rs"), ("control frame decoding", "core/src/net/frames.rs")],
    level="exploration",
    note="Frames, their heads and the built-in values (unit, u64, strings, system and actor paths) and whole messages proved by Verus to be read without panic for all bytes; serde values, integers and datagrams are executed on arbitrary and mutated bytes (bounded).",
    verus=["messages", "decode"],
    cfgs=["kompact_verif_net"], kani=["frames::proofs::hooked::head_decode_total"], secs=25,
    functions=["Deserialiser::deserialise of every built-in type", "ser_helpers::{deserialise_chunk_lease,deserialise_chunk_ref,deserialise_bytes}", "Hello/Start::decode_from", "FrameHead::decode_from"])

prop("C05",
    title="The text of a path parses back to the same path",
    statement="Every system path and actor path prints as text which parses back to an equal path, whichever parsing entry point is used, for IPv4 and IPv6 hosts and names with any characters that paths allow. Any other text is either refused with an error or accepted as a path that itself prints and parses consistently; parsing never panics.",
    over=["inputs"], quant="all paths and all texts",
    why="Tests print a few IPv4 paths; IPv6 paths printed as text that could not be parsed (fixed here).",
    files=["core/src/actors/paths.rs"],
    mech=[("Display and FromStr of SystemPath, UniquePath, NamedPath, ActorPath", "core/src/actors/paths.rs")],
    level="exploration",
    note="Formatting and parsing of strings is out of reach of both verifiers (core::fmt, regex-like splitting); contract executed natively on generated paths and texts.",
    cfgs=["kompact_verif_net"], secs=15,
    functions=["FromStr/Display/TryFrom of SystemPath, ActorPath, UniquePath, NamedPath, Transport"])

prop("C06",
    title="Only well-formed names become path segments",
    statement="A segment is accepted for registration exactly if it is non-empty and contains none of the characters / * ? #; for lookup the last segment may additionally be one of the routing markers * or ?, standing alone, and a broadcast or select marker appears nowhere else. Every way to build, extend, parse, register or receive a named path enforces this, returning an error (or panicking where documented) otherwise.",
    over=["inputs"], quant="all strings and lists of strings, all construction routes",
    why="Tests try a few bad characters; markers embedded in longer names were accepted (fixed here).",
    files=["core/src/actors/paths.rs", "core/src/runtime/system.rs"],
    mech=[("validate_insert_path, validate_lookup_path, push, append, with_system", "core/src/actors/paths.rs")],
    verus=["store"],
    level="exploration",
    note="The checks of whole paths and segments proved by Verus for all lists of all strings, and that the table of actors refuses what they refuse; short segments (<= 2 bytes) also under Kani on the real strings, bounded; all construction routes natively.",
    cfgs=["kompact_verif_net"], kani=["paths::proofs::short_segments"],
    bounded={"short_segments": "one segment of at most 2 bytes"}, secs=10,
    functions=["validate_insert_path_segment", "validate_lookup_path_segment", "validate_insert_path", "validate_lookup_path", "NamedPath::{new,push,append,with_system}", "SystemPath::into_named_with_*"])

prop("C07",
    title="Serialised values deserialise to equal values with exactly their bytes",
    statement="For every built-in serialisable type and every serde-serialisable value, serialising and deserialising gives an equal value, by every serialisation entry point. The number of bytes written is the size hint where one is given, reading consumes exactly the bytes written, and local (in-memory) conversion yields the original value.",
    over=["inputs"], quant="all values of the built-in types and arbitrarily nested serde values",
    why="Tests round-trip a few values per type.",
    files=["core/src/serialisation/default_serialisers.rs", "core/src/serialisation/serde_serialisers.rs", "core/src/serialisation/ser_helpers.rs"],
    mech=[("Serialisable/Deserialiser implementations", "core/src/serialisation/default_serialisers.rs"), ("Serde serialiser/deserialiser", "core/src/serialisation/serde_serialisers.rs")],
    level="exploration",
    note="Unit, u64, strings, system and actor paths, and the entry points of serialisation, proved by Verus for all values; the visitors of serde are out of its reach (dyn BufMut, generic visitors) and executed natively over generated nested values.",
    verus=["messages"],
    cfgs=["kompact_verif_net"], secs=15,
    functions=["Serialisable/Deserialiser of unit, integers, floats, bool, String, Bytes, system/actor paths", "SerdeSerialiser and SerdeDeserialiser visitors", "ser_helpers::{serialise_to_*,...}"])

prop("C08",
    title="A received message unpacks as exactly the type its id names",
    statement="Unpacking a received message as a type with the message's serialisation id gives the value that was sent; unpacking it as any other type returns the very same message, unharmed and still unpackable, however often this was tried before. The branches of a typed match select by that id, fall to the default branch with the message intact when none fits, and report undecodable data in the error branch; no two built-in types share an id.",
    over=["inputs", "histories"], quant="all values, types and orders of attempts, for messages in memory, heap-serialised and in network buffers",
    why="Tests match one or two types in one order.",
    files=["core/src/messaging/net_message.rs", "core/src/messaging/deser_macro.rs", "core/src/serialisation/core.rs"],
    mech=[("NetMessage::try_deserialise*, match_deser!", "core/src/messaging/")],
    verus=["messages"],
    level="proof", note="Every way to unpack a message proved by Verus on the real functions for all messages, types and deserialisers, and ids of built-in types distinct, relative to contracts of buffers (proved under C10, C11) and of downcasting; the match_deser! macro, which expands in user code, is executed natively.",
    cfgs=["kompact_verif_net"], secs=12,
    functions=["NetMessage::{try_deserialise,try_deserialise_unchecked,try_into_deserialised,...}", "match_deser!", "SerialisationId constants"])

prop("C09",
    title="Every way of sending a message frames the same content",
    statement="A message sent eagerly, lazily, preserialised or by forwarding a received one is framed with the right head, sender, receiver, serialisation id and data, such that the receiver reconstructs equal sender, receiver, id and data. Cloning or forwarding a message, also after part of it was read, transmits the same remaining data.",
    over=["inputs", "histories"], quant="all senders, receivers, values and representations of a message",
    why="Tests send one small message each way over TCP.",
    files=["core/src/messaging/dispatch.rs", "core/src/messaging/serialised.rs", "core/src/serialisation/ser_helpers.rs", "core/src/net/buffers/chunk_ref.rs"],
    mech=[("DispatchData serialisation, serialise_msg, embed_msg, preserialise_msg", "core/src/serialisation/ser_helpers.rs")],
    verus=["messages", "chunks"],
    level="proof", note="Every function that frames, embeds, reads or clones a message proved by Verus on the real code for all paths, values and representations, with the lemma that what is framed is read back as what was sent, relative to contracts of the buffers (proved under C10, C11) and of text; replayed natively end to end.",
    cfgs=["kompact_verif_net"], secs=15,
    functions=["serialise_msg", "serialise_msg_with_preserialised", "preserialise_msg", "embed_msg", "DispatchData::*", "HeapOrSer/ Serialised clones"])

prop("C10",
    title="The encode buffer hands out exactly what was written",
    statement="Each chunk taken from the encode buffer contains exactly the bytes written since the previous one was taken, in order, however many buffers they span, and its length is their number. Bytes handed out are never overwritten by later writes, and when the pool has no buffer left writing fails with an error without harming what was written before; with enough buffers it never fails.",
    over=["inputs", "histories"], quant="all sequences of writes, reservations, chunk requests and drops, all buffer configurations",
    why="Tests write a few sizes; after a failed swap the write position used to move into leased memory (fixed here).",
    files=["core/src/net/buffers/encode_buffer.rs", "core/src/net/buffers/mod.rs", "core/src/net/buffers/buffer_pool.rs"],
    mech=[("BufferEncoder::{put_slice,get_chunk_lease,get_chunk,pad}", "core/src/net/buffers/encode_buffer.rs")],
    level="proof", note='EncodeBuffer, BufferEncoder and BufferPool proved by Verus for all histories; the destructor of EncodeBuffer (hand-over of locked buffers to the dispatcher) is executed natively.',
    cfgs=["kompact_verif_net", "kompact_verif_pool"], secs=15,
    functions=["EncodeBuffer::{with_config,get_buffer_encoder,swap_buffer}", "BufferEncoder::{put_slice,try_reserve,pad,get_chunk,get_chunk_lease,remaining_mut,...}"],
    verus=['encode'],
    assumptions=['custom allocators give chunks of one non-zero length'])

prop("C11",
    title="Chained buffers read as one byte string",
    statement="A chain of leased buffers reads as the concatenation of the unread bytes of its parts; its length is their number and reading never goes beyond it. Splitting a chain cuts this byte string in two, converting to a shareable reference keeps exactly the unread bytes, appending adds exactly the unread bytes of the other, and clones read independently.",
    over=["inputs", "histories"], quant="all chains, split points, partial reads, nestings and orders of operations",
    why="Tests chain two buffers and read them from the start; partly read chains lost or repeated bytes (fixed here).",
    files=["core/src/net/buffers/chunk_lease.rs", "core/src/net/buffers/chunk_ref.rs"],
    mech=[("ChunkLease: Buf, split_at, append_to_chain, into_chunk_ref", "core/src/net/buffers/chunk_lease.rs"), ("ChunkRef: Buf, chain, clone", "core/src/net/buffers/chunk_ref.rs")],
    level="proof",
    note='Every operation of ChunkLease and ChunkRef proved by Verus for chains of any length and shape; cloning and create_byte_clone are executed natively and, for short chains, by Kani (bounded).',
    cfgs=["kompact_verif_net"], kani=["chunks::proofs::ref_chain", "chunks::proofs::lease_view", "chunks::proofs::lease_split"],
    kani_thorough=["chunks::proofs::lease_into_ref"], harness_timeout=400,
    bounded={k: "chains of at most 2 segments of at most 4 bytes" for k in ("ref_chain", "lease_view", "lease_split", "lease_into_ref")},
    secs=10,
    functions=["ChunkLease::{new,append_to_chain,split_at,into_chunk_ref,into_chunk_ref_with_tail} and its Buf", "ChunkRef::{new,chain,clone} and its Buf"],
    verus=['chunks'])

prop("C12",
    title="The buffer pool never hands out memory still in use and respects its limit",
    statement="A buffer returned to the pool is handed out again only after every chunk leased from it has been dropped, its bytes do not change before that, and the pool never creates more buffers than configured. No buffer is lost: once its chunks are dropped it becomes available again, and a request fails only when the limit is reached and all buffers are in use. A buffer configuration is accepted exactly if its documented constraints hold.",
    over=["histories", "configurations"], quant="all histories of taking, leasing, returning and dropping, all configurations",
    why="Tests return one or two buffers; a failed reservation used to lose reclaimed buffers (fixed here).",
    files=["core/src/net/buffers/buffer_pool.rs", "core/src/net/buffers/mod.rs", "core/src/net/buffers/mod.rs"],
    mech=[("BufferPool::{get_buffer,return_buffer,try_reclaim}", "core/src/net/buffers/buffer_pool.rs"), ("BufferConfig::validate", "core/src/net/buffers/mod.rs")],
    level="proof",
    note="BufferPool (get_buffer, return_buffer, try_reserve, ...) and BufferChunk's locking proved by Verus for all histories; acceptance of valid configurations by Kani; dropping leases on other threads is not modelled (the count is any value that is observed).",
    cfgs=["kompact_verif_net", "kompact_verif_pool"], kani=["pool::proofs"], secs=12,
    functions=["BufferPool::{with_config,get_buffer,return_buffer,try_reclaim}", "BufferChunk::{free,get_lock,lock}", "BufferConfig::{validate,chunk_size,...}"],
    verus=['pool'])

prop("C13",
    title="The table of local actors behaves like a map",
    statement="After any history of inserting, removing, replacing and cleaning up, looking up a name, id or path finds exactly the actor or routing policy inserted last under it, and nothing if it was removed or never inserted; copies of the table taken earlier do not change. Inserting returns the entry it replaced, removing reports whether (or how many) entries there were, and names that are prefixes of other names are independent. Invalid names are refused without any change.",
    over=["histories", "inputs"], quant="all histories of table operations over nested, colliding and prefix names, ids and policies",
    why="Tests insert a few fixed names.",
    files=["core/src/dispatch/lookup/mod.rs"],
    mech=[("ActorStore: ActorLookup", "core/src/dispatch/lookup/mod.rs"), ("path trie", "core/src/dispatch/lookup/")],
    verus=["store"],
    level="proof", note="Every operation of ActorStore and of the trie below it proved by Verus on the real functions, for all tables, names and histories, relative to the contracts of hash maps and strings; replayed natively against a map model (which also covers copies of the table and collisions of hashes).",
    cfgs=["kompact_verif_net", "kompact_verif_lookup"], secs=12,
    functions=["ActorStore::{new,insert,set_routing_policy,get_by_uuid,get_by_named_path,get_by_actor_path,contains,remove,remove_by_*,cleanup}", "PathTrie::{new,value,is_leaf,is_empty,insert_owned,get_node,get,remove,remove_recursive,retain,retain_recursive}"])

prop("C14",
    title="A group address reaches exactly the actors registered below its name",
    statement="Looking up a name at which a routing policy is set gives a group whose members are exactly the actors registered below that name, one per registration, and messages to it are routed by that policy. With a broadcast or select marker appended the same group is found if the policy is of that kind, and an error otherwise or where an actor is registered at the name. Policies set below the name are not members, and a name without policy or actor finds nothing.",
    over=["histories", "inputs"], quant="all tables, prefixes and markers",
    why="Tests use two or three actors below one prefix.",
    files=["core/src/dispatch/lookup/mod.rs", "core/src/routing/groups.rs"],
    mech=[("lookup of groups in ActorStore", "core/src/dispatch/lookup/mod.rs")],
    verus=["store"],
    level="proof", note="get_by_named_path with its groups, the traversal of the trie below it and RoutingGroup::new proved by Verus for all tables, names and markers; the dispatch to the members natively against a set model.",
    cfgs=["kompact_verif_net", "kompact_verif_lookup"], secs=12,
    functions=["ActorStore::get_by_named_path (groups)", "PathTrie::{get_node,values}, Values::next", "RoutingGroup::{new,members,policy,route}"],
    assumptions=["the optional feature implicit_routes is off in this build: a marker without a policy then finds nothing"])

prop("C15",
    title="Collecting dead references removes exactly the dead ones",
    statement="Collecting removes exactly the table entries, by name and by id, whose actor no longer exists, and reports their number. References to living actors and routing policies keep resolving, before, during and after.",
    over=["histories"], quant="all tables and sets of dead actors",
    why="Tests collect one dead actor.",
    files=["core/src/dispatch/lookup/mod.rs", "core/src/dispatch/lookup/gc.rs"],
    mech=[("ActorStore::cleanup, remove_by_*", "core/src/dispatch/lookup/mod.rs"), ("ActorRefReaper::run", "core/src/dispatch/lookup/gc.rs")],
    verus=["store"],
    level="proof", note="cleanup, remove and the filtering of the trie below them proved by Verus for all tables and all sets of dead actors (which do not change during one call); the reaper around it natively.",
    cfgs=["kompact_verif_net", "kompact_verif_lookup"], secs=12,
    functions=["ActorRefReaper::run (native)", "ActorStore::{cleanup,remove,remove_from_uuid_map,remove_from_name_map,remove_deallocated_entries,remove_by_uuid,remove_by_named_path}", "PathTrie::{retain,retain_recursive,remove,remove_recursive}"])

prop("C16",
    title="Routing policies deliver as promised",
    statement="A select policy hands every message to exactly one member of a non-empty group: round robin takes the members in turns whatever the number of messages or changes of the membership, and hash buckets send equal keys to the same member as long as the membership stays. A broadcast hands one copy to every member. A message to a group without members is dropped without panic.",
    over=["histories", "inputs"], quant="all groups, senders, message sequences and hash values",
    why="Tests route to groups of three; wrap-around, empty groups and extreme hashes are not sampled.",
    files=["core/src/routing/groups.rs"],
    mech=[("RoundRobinRouting, FieldHashBucketRouting, BroadcastRouting", "core/src/routing/groups.rs")],
    level="proof",
    verus=["routing"],
    note="Turn taking, bucket choice and the iteration over members proved for all group sizes, hashes and numbers of messages; delivery to the members' mailboxes natively.",
    cfgs=["kompact_verif_net", "kompact_verif_lookup"], kani=["lookup::proofs"], secs=10,
    functions=["RoundRobinRouting::{new,get_and_increment_index}", "FieldHashBucketRouting::{hash_field,hash_message,get_bucket}", "RoutingPolicy::route of all policies (native)"],
    bounded={"round_robin_index": "the first three turns"},
    assumptions=["bucket = hash modulo group size (as the documentation of get_bucket says)", "the turn counter is one atomic; each call is decided alone"])

prop("C17",
    title="The interval between collections stays within its bounds",
    statement="After every collection the interval before the next is adjusted by the configured strategy (shortened by the decrease factor if something was collected, otherwise lengthened by adding or multiplying with the increase) and then limited to the configured minimum and maximum. It never leaves these bounds and never overflows, for any strategy and any history of collections.",
    over=["inputs", "histories"], quant="all strategies and parameters, all current intervals and results of a collection",
    why="Tests make a few adjustments with default parameters; extreme factors overflowed (fixed here).",
    files=["core/src/dispatch/lookup/gc.rs"],
    mech=[("UpdateStrategy::{incr,decr}", "core/src/dispatch/lookup/gc.rs"), ("ActorRefReaper::schedule / strategy_curr", "core/src/dispatch/lookup/gc.rs")],
    verus=["gc"],
    level="proof", note="All adjustments of every strategy proved by Verus for all parameters and histories (lemma stays_within); Kani repeats them on the compiled code, multiplication bounded to factors <= 2.",
    cfgs=["kompact_verif_net"], kani=["word::proofs::interval"], bounded={}, secs=5,
    functions=["UpdateStrategy::{new,incr,decr,curr}", "ActorRefReaper::{new,strategy_curr,...}"])

prop("C18",
    title="A component is scheduled exactly when it goes from idle to having work",
    statement="The recorded number of outstanding work items is the number added minus the number finished, and changing the lifecycle state never alters it, nor does adding or finishing work alter the state. Adding work schedules a component exactly when it had none and is able to run; after running, it is rescheduled exactly when work is left, and it stops when blocked, faulty or destroyed.",
    over=["inputs", "histories"], quant="all lifecycle states, all work counts, all numbers of added and finished items",
    why="Tests observe only whole-component runs with few messages; state and count share one word, so corner values matter.",
    files=["core/src/component/lifecycle.rs", "core/src/component/core.rs", "core/src/component/mod.rs"],
    mech=[("packed state/count word and its transitions", "core/src/component/lifecycle.rs"), ("ComponentCore increment_work/decrement_work", "core/src/component/core.rs")],
    verus=["enqueue", "execute"],
    level="proof", note="All transitions of the packed word proved for every state and count (Kani); that whatever queues work counts it first, schedules exactly on the transition from idle, and that a run counts down what it did and stops when blocked, faulty or destroyed, by Verus on the real functions; interleavings natively.",
    cfgs=["kompact_verif_net", LIFE], kani=["word::proofs"], secs=4,
    functions=["lifecycle::{initial_state,set_*,is_*,increment_work,decrement_work}", "SchedulingDecision::{or_use,or_from,...}", "TypedMsgQueue::push, ConvertingMsgQueueContainer::push_and_schedule, Component::{enqueue_control,schedule,inner_execute}, ports' enqueue"],
    assumptions=["Verus: references, weak references, mutexes and queues are by contract; one operation at a time", "atomicity of the word is that of AtomicU64; the contracts decide each operation alone"])

prop("C19",
    title="Timers fire once or periodically when due, and never after being cancelled",
    statement="A handler scheduled once runs exactly once, after its time has passed and not before; a periodic handler runs once for every period that has passed; timeouts of a component run in the order in which they fell due, each told which timer it belongs to. If a component cancels a timer, even one that is already waiting to be handled, its handler never runs again and no other timer is disturbed, and no timer outlives its component.",
    over=["histories", "inputs"], quant="all sequences of scheduling, cancelling, passing time and running the component, from inside and outside handlers, all delays and periods in whole milliseconds",
    why="Tests let single timers expire; a timeout cancelled while it waited in the queue left the component rescheduling itself without end (fixed here).",
    files=["core/src/timer/timer_manager.rs", "core/src/component/core.rs", "core/src/component/context.rs"],
    mech=[("TimerManager", "core/src/timer/timer_manager.rs"), ("execution of timeouts", "core/src/component/actual_component.rs")],
    verus=["timer"],
    level="proof", note="TimerManager's bookkeeping (scheduling, cancelling, what a due timeout runs) proved by Verus for all histories, relative to the contracts of the timer crate and of its queue; the run of the whole component on simulated time natively.",
    cfgs=["kompact_verif_net"], secs=10,
    functions=["TimerManager::{new,schedule_once,schedule_periodic,cancel_timer,try_action,drop}", "TimeoutHandler, OutputStateHolder", "Component::execute (native)"],
    assumptions=["Verus: references, weak references, mutexes and queues are by contract; one operation at a time", "the timer thread triggers a timer when due and not before (contract of hierarchical_hash_wheel_timer)"])

prop("C20",
    title="Configuration is layered, looked up, validated and converted faithfully",
    statement="The configuration of a system is what its sources say, where a later source overrides an earlier one key by key, tables are merged, and a single value goes where its dotted key says. A lookup finds exactly the value at its path or reports the path and why there is none. Reading a typed entry gives the value there, the default only if nothing is there, and an error for a value of the wrong type or one its validator refuses; every value that is written reads back unchanged.",
    over=["inputs", "histories"], quant="all sequences of TOML texts and single values, all paths, all typed entries, all values of every converter",
    why="Tests read a few keys from one or two documents; merging order, conflicts between tables and values, and round trips hold for all.",
    files=["core/src/config/mod.rs", "core/src/config/converters_for_config_values.rs", "core/src/runtime/config.rs", "core/src/runtime/system.rs"],
    mech=[("Config merge, lookup and entries", "core/src/config/mod.rs"), ("ConfigSource, KompactConfig, override_from_config", "core/src/runtime/config.rs")],
    level="exploration", note="Postconditions against an independent model of nested tables, checked natively on generated documents and sources (bounded).",
    cfgs=["kompact_verif_net"], secs=10,
    functions=["Config::{get,select,read,read_or_default,merge,insert_value}", "ConfigLookup", "ConfigEntry::{read,read_or_default,validate}", "ConfigValueType converters", "KompactConfig::{load_config_str,set_config_value,override_from_config}"],
    assumptions=["TOML parsing and printing is that of the toml crate"])

prop("C21",
    title="Port events reach exactly the connected ports, once and in order",
    statement="An event triggered on a port is handled exactly once by every component whose port is connected to it at that time, in the order of triggering, and by nobody else; events triggered before a connection or after its removal are not delivered over it. Ports of one component that have events waiting are served in turns, so that none waits for ever.",
    over=["histories"], quant="all networks of components with several ports, all sequences of connecting, disconnecting, triggering and running, all throughput settings",
    why="Tests connect two components once; several connections, disconnection and events that trigger events are not sampled.",
    files=["core/src/ports.rs", "core/src/component/definition.rs", "macros/component-definition-derive/src/lib.rs"],
    mech=[("ProvidedPort/RequiredPort, CommonPortData", "core/src/ports.rs"), ("execute derived for component definitions", "macros/component-definition-derive/src/lib.rs")],
    verus=["enqueue"],
    level="proof", note="Triggering, connecting, disconnecting, sharing and dequeuing proved by Verus on the real port functions (every connected port's queue gets the event, counted and scheduled; nothing is taken but the oldest); exactly-once over whole runs and the turns among ports natively.",
    cfgs=["kompact_verif_net"], secs=10,
    functions=["ProvidedPort/RequiredPort::{uninitialised,trigger,connect,disconnect_port,disconnect_component,share,set_parent,dequeue}", "ProvidedRef/RequiredRef::{clone,eq,enqueue,is_live,owned_by_component_with_id}", "CommonPortData::{new,clear_by_id,cleanup}", "for_each_with (inlined)", "ComponentDefinition::execute (derived, native)"],
    assumptions=["Verus: references, weak references, mutexes and queues are by contract; one operation at a time", "a port's parent is the component that reads its queue", "delivery is stated as at least once per connected port; that nothing is delivered twice is checked natively"])

prop("C22",
    title="Every ask is answered by its own reply exactly once, or fails",
    statement="A future returned by an ask completes with the reply given to that very request, whatever other requests are pending and in whichever order they are answered. If the request is dropped without a reply, or its component ends before answering, the future fails instead of waiting for ever. Replying reports an error exactly if nobody is waiting for the answer any more.",
    over=["histories"], quant="all sequences of asking, replying (at once, later, from futures, in any order), dropping either side and ending components",
    why="Tests ask and get a reply at once; postponed, dropped and crossing replies are not sampled.",
    files=["core/src/utils/mod.rs", "core/src/utils/ask.rs", "core/src/actors/refs.rs"],
    mech=[("Ask, WithSender", "core/src/utils/ask.rs"), ("promise, KPromise, KFuture", "core/src/utils/mod.rs")],
    verus=["enqueue"],
    level="proof", note="Promises, futures, asks and the references they travel through proved by Verus on the real functions, relative to the contract of the oneshot channel (a reply reaches the future of that very request; a dropped request fails it; replying errs exactly if nobody waits); ends of components natively.",
    cfgs=["kompact_verif_net"], secs=8,
    functions=["promise, KFuture::poll, KPromise::fulfil", "Ask::{new,of,request,take,reply,complete}", "WithSender::{new,sender,content,take_content,reply}", "ActorRef/ActorRefStrong::{new,enqueue,hold,tell,ask_with,ask}, Recipient::{from,tell,clone}, DynActorRef::{enqueue,can_upgrade_component}"],
    assumptions=["Verus: references, weak references, mutexes and queues are by contract; one operation at a time", "futures::channel::oneshot by its contract"])

prop("C23",
    title="Messages queued for a connection leave in order, priority ones first",
    statement="Frames queued for a remote system that is not connected yet leave its queue in the order they were enqueued, except that priority frames (such as those a failed attempt gave back) leave before all others, in their own order. Queues of different systems never mix, nothing is lost or duplicated unless the queue is dropped, and data is reported exactly while some is queued.",
    over=["histories"], quant="all interleavings of enqueueing, taking, putting back and draining for several systems",
    why="Tests queue a few messages for one system.",
    files=["network/src/queue_manager.rs"],
    mech=[("QueueManager", "network/src/queue_manager.rs")],
    verus=["queue"],
    level="proof", note="Every operation of QueueManager proved by Verus for all histories, relative to the contract of HashMap and VecDeque; replayed natively against a model of two queues per address.",
    cfgs=["kompact_verif_net", "kompact_verif_netqueue"], features=["net"], secs=8,
    functions=["QueueManager::{enqueue_data,enqueue_priority_data,has_data,pop_data,try_drain,...}"])

prop("C24",
    title="The last rule about a remote system or network decides whether it is blocked",
    statement="A remote system is blocked exactly if the most recent of the block and allow requests that cover it says so: rules for its exact socket address take precedence over rules for IP addresses and IP networks, among which the last matching one counts. Every request reports whether it changed anything. Requests for other systems, hosts or networks never change this.",
    over=["histories", "inputs"], quant="all sequences of block and allow requests for addresses, hosts and overlapping networks",
    why="Tests block and unblock one address at a time; combinations decided wrongly (fixed here).",
    files=["network/src/transport/network_thread.rs"],
    mech=[("BlockList", "network/src/transport/network_thread.rs")],
    verus=["blocklist"],
    level="proof", note="Every operation of BlockList proved by Verus for all histories, relative to the contract of hash sets and of the iprange crate; replayed natively against a model of the rules.",
    cfgs=["kompact_verif_net", "kompact_verif_netqueue"], features=["net"], secs=8,
    functions=["BlockList::{block_*,allow_*,socket_addr_is_blocked,ip_addr_is_blocked,...}"])

prop("C25",
    title="What a component is sent is handled exactly once and in order",
    statement="Every message and every port event sent to a started component is handled exactly once and in the order of sending per source, whatever the throughput and however work is mixed. While a handler blocks on a future nothing else runs in the component, and it resumes once the future is ready. Messages that arrive while a component is blocked or stopped are handled after it has resumed or been started again.",
    over=["histories", "schedules"], quant="all sequences of sending, blocking, spawning futures, starting, stopping and running from four sources, all throughput settings",
    why="Tests send few messages to running components; a future that itself waited for another left its component stuck for ever (fixed here).",
    files=["core/src/component/actual_component.rs", "core/src/component/core.rs", "core/src/component/future_task.rs"],
    mech=[("Component::execute and inner_execute", "core/src/component/actual_component.rs"), ("blocking and non-blocking futures", "core/src/component/future_task.rs")],
    verus=["execute", "enqueue"],
    level="proof", note="The run of a component (what is taken, handled, counted, and what happens when blocked) and every way into its queues proved by Verus on the real functions for all queues, throughputs and handlers; order over whole histories and futures natively.",
    cfgs=["kompact_verif_net"], secs=12,
    functions=["Component::{inner_execute,handle_handler_error,enqueue_control,schedule}", "TypedMsgQueue::{push,push_net,pop}, ConvertingMsgQueueContainer::{convert,push_and_schedule,enqueue_into}", "references' enqueue and tell, ports' trigger and dequeue", "BlockingFuture/NonBlockingFuture, ComponentContext::set_blocking (native)"],
    assumptions=["Verus: references, weak references, mutexes and queues are by contract; one operation at a time", "only the running thread changes a component's flags while it runs", "handlers and the derived ComponentDefinition::execute by contract", "the mutex around the definition is not poisoned; what is behind it is treated as fields", "fewer than usize::MAX control events"])

prop("C26",
    title="What a handler returns decides what becomes of its component",
    statement="After a benign error a component carries on; after a recoverable error or a panic it becomes faulty and its recovery function runs exactly once; after an unrecoverable error it is destroyed; after a request to shut down, or a kill, on_kill runs exactly once and then it is destroyed. Nothing runs in a component that is faulty or destroyed. Notifications of starting, stopping and killing complete exactly when that state has been reached; shutting the system down kills all that runs, and completes once nothing does.",
    over=["histories"], quant="all handlers (message, port, lifecycle, future, timeout) and outcomes, alone and in every sequence with lifecycle commands and pending work",
    why="Tests trigger single failures; events queued behind a kill revived the component and the notification of a kill could be lost (fixed here).",
    files=["core/src/component/actual_component.rs", "core/src/component/core.rs", "core/src/supervision.rs", "core/src/component/lifecycle.rs", "core/src/runtime/system.rs"],
    mech=[("Component::execute, run_recovery_function", "core/src/component/actual_component.rs"), ("ComponentSupervisor", "core/src/supervision.rs")],
    verus=["execute", "supervise"],
    level="proof", note="What a run does with every outcome of a handler (fault, destruction, on_kill, recovery) and what the supervisor does about it and tells to whom proved by Verus on the real functions; panics unwinding through the run and whole histories natively.",
    cfgs=["kompact_verif_net"], secs=12,
    functions=["Component::{inner_execute,handle_handler_error,handle_recoverable_error,handle_unrecoverable_error,handle_secondary_lifecycle_result,shutdown_from_handler,report_benign_error,notify_started,set_passive,set_destroyed}", "Component::{execute,set_fault,run_recovery_function} (native)", "KompactSystem::shutdown (native)", "ListenEvent::id, ComponentSupervisor::{notify_listeners,drop_listeners,shutdown_if_no_more_children,handle}", "KompactSystem::{start,stop,kill,start_notify,stop_notify,kill_notify}"],
    assumptions=["Verus: references, weak references, mutexes and queues are by contract; one operation at a time", "handlers and the derived ComponentDefinition::execute by contract", "the future given to shutdown is kept until it completes", "events of the supervisor's port arrive in one copy", "that a listener is registered before the command is sent is checked natively"])

prop("C27",
    title="A component with its own thread runs there only, and is never forgotten",
    statement="Everything a component with a dedicated thread executes (messages, port events, timeouts, lifecycle handlers and futures) runs on that one thread and never on the system's pool. Whatever it is sent while the thread is busy, asleep or about to fall asleep is handled. Once the component is destroyed the thread ends and lets go of it.",
    over=["schedules", "histories"], quant="all sequences of sending from five sources, starting, blocking, spawning, stopping and killing, against a thread running at its own pace",
    why="Tests send messages only; port events and timeouts of such components ran on the pool (fixed here).",
    files=["core/src/dedicated_scheduler.rs", "core/src/component/actual_component.rs", "core/src/ports.rs", "core/src/timer/timer_manager.rs"],
    mech=[("DedicatedThreadScheduler::run", "core/src/dedicated_scheduler.rs"), ("CoreContainer::schedule", "core/src/component/actual_component.rs")],
    verus=["enqueue"],
    level="exploration", note="That a component with its own thread is scheduled there and never on the pool, by whoever queues work for it, proved by Verus; the thread's loop natively with real threads (schedules are those the machine happens to produce, bounded).",
    cfgs=["kompact_verif_net"], secs=10,
    functions=["DedicatedThreadScheduler::{new,pre_run,run,schedule_custom}", "Component::{schedule,execute}"],
    assumptions=["Verus: references, weak references, mutexes and queues are by contract; one operation at a time"])

prop("C28",
    title="Messages to other systems arrive intact, in order and exactly once",
    statement="A message sent over TCP to an actor of another system is handled there exactly once, with the content and sender it was sent with, whatever its size, the buffer settings and the way it was sent, forwarded or replied. Messages from one sender to one receiver are handled in the order sent, including those sent before the connection is established and while both sides open one, as long as the connection is not interrupted. What arrives over connections closed in between, and datagrams that arrive, are intact and arrive once at most.",
    over=["inputs", "histories", "schedules"], quant="all sequences of messages among actors of two systems, of all sizes, under several buffer settings, with the timing the machine happens to produce",
    why="Tests send a few fixed messages after the connection is up.",
    files=["network/src/dispatcher.rs", "network/src/transport/network_thread.rs", "network/src/transport/network_channel.rs", "network/src/transport/udp_state.rs"],
    mech=[("NetworkDispatcher", "network/src/dispatcher.rs"), ("NetworkChannel", "network/src/transport/network_channel.rs"), ("NetworkThread", "network/src/transport/network_thread.rs")],
    level="exploration", note="That a channel sends what it is given once and in order, keeps count of partly sent frames, reads what arrives whole and changes state as the protocol says, and that datagrams are sent and read one by one, is proved by Verus for all inputs (trusted: streams and sockets by contract). What the network threads and dispatchers of two systems do with channels is checked natively on two real systems connected over the loopback interface (bounded).",
    verus=["channel"], cfgs=["kompact_verif_net", "kompact_verif_netqueue"], features=["net"], secs=20,
    functions=["NetworkDispatcher::{route,route_remote,on_event,...}", "TcpChannel::{new,send_frame,read_state,initialise,handle_hello,handle_start,handle_ack,handle_bye,swap_buffer,take_outbound,read_frame,receive,send_bye,initiate_graceful_shutdown,shutdown,decode,enqueue_serialised,try_drain,write_serialized}", "is_control_frame", "SerialisedFrame::{len,is_empty,bytes,make_contiguous}", "NetworkThread::{run,...}", "UdpState::{new,try_write,try_read,swap_buffer,decode_message,enqueue_serialised}"])

prop("C29",
    title="What is registered with a system is reached under its path",
    statement="Registering an actor or a routing policy succeeds exactly if its path is well-formed and either free or to be updated, and yields the path under which it is reached from then on; a refused registration changes nothing. A message sent to a path of the own system, by any way of sending or forwarding, is handled once by the actor registered there when it is routed, or by those members of a group that its policy picks, in the order sent and with its content, sender and receiver, and by the deadletter box if nobody is registered there.",
    over=["inputs", "histories"], quant="all histories of registering actors and policies under names and ids, updating, sending and forwarding to paths of every form, with and without a network dispatcher",
    why="Tests register one or two actors and send to them; updating, refusing, markers, nested names and the other ways of sending are sampled once or not at all.",
    files=["core/src/default_components.rs", "network/src/dispatcher.rs", "core/src/runtime/system.rs", "core/src/messaging/registration.rs", "core/src/actors/paths_dispatch.rs"],
    mech=[("LocalDispatcher", "core/src/default_components.rs"), ("NetworkDispatcher::{register_actor,register_policy,route_local}", "network/src/dispatcher.rs"), ("KompactSystem::{register,register_by_alias,update_alias_registration,set_routing_policy}", "core/src/runtime/system.rs")],
    level="exploration", note="Postconditions of registering and sending against a map from paths to actors and policies, checked natively on real systems with either dispatcher (bounded); the table they use is proved (C13, C14).",
    cfgs=["kompact_verif_net", "kompact_verif_netqueue"], features=["net"], secs=12,
    functions=["LocalDispatcher::{resolve_path,route_local,register_actor,register_policy,receive_local}", "NetworkDispatcher::{resolve_path,route,route_local,register_actor,register_policy,receive_local}", "KompactSystem::{register,register_by_alias,update_alias_registration,set_routing_policy}", "ActorPath::{tell,tell_with_sender,tell_serialised,tell_preserialised,forward_with_original_sender,forward_with_sender}", "DispatchData::into_local"],
    assumptions=["actors stay alive while they are registered", "messages to a path whose actor is gone are not constrained"])

NOT_APPLICABLE = [
    dict(id="N01", title="No two threads ever execute a component at once",
        statement="At any time at most one thread runs handlers, futures or lifecycle events of a component, and each run sees everything the run before it did.",
        over=["schedules"], quant="all schedules of the system's pool, own threads and whoever holds a reference",
        why="Tests see the few schedules the machine produces.",
        files=["core/src/component/actual_component.rs", "core/src/component/lifecycle.rs"],
        mech=[("Component::execute", "core/src/component/actual_component.rs")],
        reason="A statement about interleavings of real threads: neither verifier here takes crossbeam's queues, std's Mutex and thread pools under a concurrent memory model, and contracts on single operations cannot express it. Exclusion itself rests on std::sync::Mutex around the component and Rust's type system. What contracts can say of it (who schedules, on which transition of the packed word, and that a run starts and ends it correctly) is C18, C25 and C27."),
    dict(id="N02", title="Whatever is sent or asked to end is eventually dealt with",
        statement="Under every fair schedule each message sent to a running component is eventually handled, and starting, stopping, killing and shutting down eventually complete.",
        over=["schedules"], quant="all fair schedules of threads, timers and sockets",
        why="Liveness needs all infinite schedules.",
        files=["core/src/runtime/system.rs", "core/src/dedicated_scheduler.rs"],
        mech=[("KompactSystem::shutdown", "core/src/runtime/system.rs")],
        reason="Contracts decide safety and termination of sequential functions; liveness under fair schedules of threads and sockets is outside this family. The safety half (work is counted, the idle-to-work transition schedules, nothing due is forgotten in a run) is C18, C25, C26 and C27."),
    dict(id="N03", title="Messages survive an interrupted connection in order",
        statement="Messages sent while a connection is lost, closed or replaced arrive in order and without loss once the systems are connected again.",
        over=["histories", "fault_sequences"], quant="all times at which a connection is interrupted",
        why="Tests interrupt connections at a few points.",
        files=["network/src/dispatcher.rs", "network/src/transport/network_thread.rs"],
        mech=[("NetworkDispatcher", "network/src/dispatcher.rs")],
        reason="kompact does not promise it (frames under way when a connection ends are lost, at most once), and the parties are two network threads, two kernels and a clock, for which no contract within reach can be stated. What holds over interruptions (intact, at most once) is checked in C28."),
]

HOOK_COMMITS = ["0a7b056a62a999d1d2182dadb4d13bc876e2f172", "b17988db2b1a1c940436503933a8829977ec75b3"]
