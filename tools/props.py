W = "src/core/transport/wire/"
S = "src/core/server/"

prop("C01", "Every message arrives byte for byte, whatever the packet order",
 "For every non-empty message up to the supported size, every authenticator/cipher/nonce-cache/transmission-size configuration shared by both ends, and every order in which the packets of one or several interleaved messages arrive, feeding each packet once to the receiving wire yields each message exactly once, byte-identical, at the arrival of its last missing packet, and nothing else.",
 ["inputs", "configurations", "schedules"],
 "All payloads x wire configurations x permutations and interleavings of packet arrival.",
 "Unit tests send one or two short messages in order over mocked crypto; packet-boundary lengths, out-of-order encrypted groups and interleaving are not reached (out-of-order encrypted groups did fail).",
 [W+"input/decoder.rs", W+"input/mod.rs", W+"output/encoder.rs", W+"output/mod.rs", W+"packet.rs", W+"mod.rs"],
 [("splitting a message into packets", W+"output/encoder.rs"), ("regrouping packets and joining data", W+"input/decoder.rs"), ("sign/encrypt and verify/decrypt", W+"output/mod.rs, "+W+"input/mod.rs")],
 "Held on the sampled configurations, payloads and arrival orders; payloads up to 64 KiB. Oracle: byte equality and exactly-once delivery at the wire boundary.",
 "runtime monitor: offline delivery-history oracle over randomized packet orderings",
 observe=["bytes returned by the inbound wire for each packet fed"])

prop("C02", "Packet faults never deliver a partial, mixed, repeated or corrupt message",
 "Whatever packets are lost, duplicated, delayed, reordered, mixed between messages or hand-crafted (consistent or contradictory indices, several final markers, extreme indices), the receiving wire delivers only byte strings that were sent as whole messages (or whole consistent crafted groups), each at most once per full set of its packets, never panics, and keeps delivering later undisturbed messages.",
 ["fault_sequences", "inputs", "schedules"],
 "All loss/duplication/reordering/mixing sequences and all well-formed packets an authorised peer can produce.",
 "Tests check a few decoder insertions by hand; they never combine faults with real encoded groups nor use contradictory or extreme indices (two of which were defects).",
 [W+"input/decoder.rs", W+"input/mod.rs", W+"packet.rs"],
 [("group bookkeeping: is_complete / gaps / duplicates", W+"input/decoder.rs"), ("packet validity", W+"packet.rs")],
 "Held on the sampled fault sequences. Crafted packets are produced through a mirror of the public wire format.",
 "runtime monitor: fault injection on the packet stream + delivery-history oracle",
 observe=["bytes returned by the inbound wire"])

prop("C03", "Packets altered in transit or made with another key are never delivered",
 "With an authenticating configuration, no message is ever delivered from a packet stream in which any byte of a packet was changed, truncated, extended or spliced, or whose packets were signed (or, for authenticated ciphers, encrypted) with a different key, unless what is delivered equals a message really sent; and neither case panics nor stops the wire delivering later genuine messages.",
 ["inputs", "fault_sequences", "configurations"],
 "All single- and multi-byte alterations, truncations, splices and foreign keys x configurations.",
 "Tests flip one thing on mocked signers; they do not walk every byte position of real packets for every authenticator and cipher.",
 [W+"input/mod.rs", "src/core/transport/auth/digest.rs", "src/core/transport/auth/impls.rs", "src/core/transport/auth/split.rs", "src/core/transport/crypto/aes/mod.rs", W+"packet.rs"],
 [("signature verification before any use", W+"input/mod.rs"), ("digest comparison", "src/core/transport/auth/digest.rs")],
 "Held on the sampled tampering. Trusts the cryptographic primitives' crates.",
 "runtime monitor: tamper injection + delivery-history oracle",
 observe=["bytes returned by the inbound wire"])

prop("C04", "Encrypted transport hides messages and never reuses a nonce",
 "With an encrypting configuration, no packet contains the plaintext of its message, the same message sent twice gives different ciphertext, every message carries a fresh random nonce that uses the whole size its cipher requires, decryption with the matching key returns exactly the plaintext, key bytes become a key only at a size a cipher has, unchanged, and decryption with a different key, altered ciphertext (authenticated ciphers), missing or wrongly sized nonce is an error and never a panic or a wrong plaintext.",
 ["inputs", "configurations"],
 "All plaintexts, keys, nonces and ciphers.",
 "Unit tests cover one key and one buffer per cipher; uniqueness over long runs and across clones, threads and configurations is a history property.",
 ["src/core/transport/crypto/aes/mod.rs", "src/core/transport/crypto/nonce/mod.rs", "src/core/transport/crypto/mod.rs", "src/core/transport/crypto/key.rs", W+"output/mod.rs"],
 [("nonce generation", "src/core/transport/crypto/nonce/mod.rs"), ("encrypt before splitting", W+"output/mod.rs")],
 "Held on the sampled messages; the nonce uniqueness oracle sees every packet of the run.",
 "runtime monitor: uniqueness and leak oracle over recorded packets",
 observe=["bytes of every packet produced"])

prop("C05", "A nonce is accepted at most once while the cache remembers it",
 "A nonce-caching cipher accepts, for each of the most recent distinct nonces up to its capacity, exactly one decryption (or encryption) and refuses every later use with an error, including uses racing on several threads or through clones, and a refused or failed operation never makes another, fresh nonce unusable or a remembered nonce usable; at wire level a replayed recording of a whole session delivers nothing again.",
 ["schedules", "histories", "inputs"],
 "All sequential histories against a bounded LRU model and all interleavings of concurrent uses of one nonce.",
 "Tests use one nonce twice from one thread; the check-then-mark race needs concurrent uses (it was a defect).",
 ["src/core/transport/crypto/nonce/cache.rs", W+"input/mod.rs"],
 [("check and mark under one lock", "src/core/transport/crypto/nonce/cache.rs")],
 "Held on the sampled histories and schedules (thousands of barrier-started races per run).",
 "runtime monitor: sequential cache model + exactly-once oracle over racing threads",
 observe=["Result of each encrypt/decrypt call"])

prop("C06", "No packet ever exceeds the transmission size",
 "For every message, configuration and transmission size, sending either produces packets each no longer than the transmission size that reassemble to the message, or reports an error; with the sizes the transports use (508 bytes and more) it always succeeds and never silently drops or truncates data.",
 ["inputs", "configurations"],
 "All payload lengths (including every length around each packet boundary and integer-encoding width change) x transmission sizes x configurations.",
 "Tests pick one or two sizes with a tiny payload; overhead changes with index, length and signature encodings (it was exceeded at some lengths).",
 [W+"output/encoder.rs", W+"packet.rs", W+"output/mod.rs", "src/core/transport/net/mod.rs"],
 [("space estimate per packet", W+"output/encoder.rs")],
 "Held on the sampled and swept sizes.",
 "runtime monitor: size and reassembly oracle over swept payload sizes",
 observe=["length of every packet produced"])

prop("C07", "Unfinished messages expire; finished messages leave nothing behind",
 "A message all of whose packets arrive within the configured lifetime (the TTL to collect all packets of a message) of the first of them is delivered; once that lifetime has passed an unfinished message is forgotten and can never be completed by older and newer packets together; a message sent afresh after that gets through; and however many messages were finished, expired or rejected, the memory the wires retain stays bounded.",
 ["histories", "schedules", "inputs"],
 "All arrival timings and arbitrarily long message histories.",
 "Tests look at one expiry of one group and never at memory after long histories (per-message growth was a defect).",
 [W+"input/decoder.rs", W+"input/mod.rs", W+"output/encoder.rs", "src/utils/mod.rs"],
 [("TTL cleanup of groups", W+"input/decoder.rs"), ("removal of a finished group", W+"input/mod.rs")],
 "Held on the sampled timings (timings with generous margins; cases disturbed by a stalled machine are discarded as inconclusive) and heap measurements with a counting allocator.",
 "runtime monitor: timed delivery oracle + live-heap accounting over long histories",
 observe=["bytes returned by the inbound wire", "live heap bytes"])

prop("C08", "Every reply reaches the request that asked for it, exactly once",
 "Over TCP and UDP, with any number of concurrent requests from one or several clients, each ask resolves exactly once, with the reply the server produced for that very request (carrying the request's header as parent header) or with an error/timeout at its timeout, never with another request's or another client's reply, an unrelated, duplicate, late or unsolicited message, whatever packets are lost, duplicated, delayed or reordered; the server runs each delivered request once and in order per TCP connection; without faults every ask, including sequences and batches with operations that have no reply of their own, is answered; after faults stop, or an unreachable UDP server comes back, asks on the same client are answered again.",
 ["schedules", "fault_sequences", "histories"],
 "All interleavings of asks and tells from many clients, network fault schedules, late replies, timeouts, server restarts, message-id collisions between peers.",
 "Tests make a few sequential asks over loopback with no faults (and the TCP ones cannot run on this toolchain).",
 ["src/core/client/connected.rs", "src/core/client/mod.rs", "src/core/client/inbound.rs", "src/core/msg/mod.rs", "src/utils/callback.rs", "src/core/server/mod.rs", "src/core/server/action/mod.rs", "src/core/event/tcp.rs", "src/core/event/udp.rs"],
 [("parent header id matching", "src/core/client/mod.rs"), ("callback taken on first use", "src/utils/callback.rs"), ("reply carries the request's header", "src/core/server/action/mod.rs")],
 "Held on the sampled histories: real clients and servers through fault-injecting proxies; replies are a function of the request so each identifies its request. UDP histories in which the kernel itself dropped datagrams, and deadlines missed while the machine stalled, are inconclusive.",
 "runtime monitor: request/reply correlation oracle over fault-injected client/server histories",
 observe=["result of each ask", "execution log of the server's custom handler"])

prop("C09", "TCP messages survive any segmentation of the byte stream",
 "However the network cuts or lumps the bytes of a TCP connection, and however many messages of whatever size are in flight in both directions, each side reads exactly the messages the other wrote, whole, in order and once, attributed to the peer's address; a peer's end of stream or reset is reported as an error after its last message instead of being waited out or spun on.",
 ["schedules", "inputs"],
 "All cut positions of the byte stream x message sequences x configurations.",
 "Tests write one small message and read it in one piece; segmentation is up to the kernel and network.",
 ["src/core/transport/wire/tcp.rs", "src/core/transport/net/tcp.rs", "src/core/event/tcp.rs"],
 [("packet framing on the stream", "src/core/transport/wire/tcp.rs"), ("whole-packet writes", "src/core/transport/wire/tcp.rs")],
 "Held on the sampled segmentations and on every cut offset of the sampled short streams.",
 "runtime monitor: stream-equality oracle behind a segmenting TCP proxy",
 observe=["messages returned by the TCP inbound wire", "execution log of the server's custom handler"])

prop("C10", "No peer can crash, wedge or starve a server or client, nor leak it",
 "Whatever bytes, packets or messages a peer sends (random, altered, forged, deeply nested, oversized, contradictory, requests with any ids, paths or transforms, replies nobody asked for, groups never completed), and however it ends (reset, half-close, silence), nothing panics, other clients keep getting the right answers to their requests, new clients are served, requests nobody sent are not executed, a peer that finished sending still gets its replies and then the end of its connection, and a connection over which something undecodable came keeps being served, and once peers are gone their connections, descriptors and CPU use are released; asks that timed out leave no memory behind in the client.",
 ["inputs", "fault_sequences", "histories"],
 "All byte sequences, packet sequences and message values from any number of peers, and all ways a connection can end.",
 "Tests use friendly peers only, and never look at resources.",
 ["src/core/event/mod.rs", "src/core/event/tcp.rs", "src/core/event/udp.rs", "src/core/transport/wire/input/mod.rs", "src/core/transport/wire/input/decoder.rs", "src/core/transport/wire/tcp.rs", "src/core/server/mod.rs", "src/core/server/action/mod.rs", "src/core/client/connected.rs", "src/core/msg/mod.rs"],
 [("undecodable input is dropped, not fatal", "src/core/event/mod.rs"), ("connection removed when its stream ends", "src/core/event/tcp.rs"), ("depth limit", "src/core/server/action/mod.rs")],
 "Held on the sampled attacks. A peer that keeps a connection open but stops reading is excluded (see DESIGN.md).",
 "runtime monitor: hostile-peer fault injection + availability, panic and resource-gauge oracles",
 observe=["answers to a well-behaved client", "panics", "open descriptors, CPU time, live heap"])


FS = ["src/core/server/fs/mod.rs", "src/core/server/fs/file.rs", "src/core/server/action/handler/fs.rs", "src/core/client/connected.rs"]
FSN = "Held on the sampled histories. Real server, clients, files; the oracle is a model of the file service plus the real directory tree and open descriptors, compared after every request; racing requests are checked for the existence of a sequential explanation."
FST = "runtime monitor: model-based history checker (linearizability for racing requests) over real requests"

prop("C11", "A file operation with an outdated signature is refused and changes nothing",
 "Every write, rename or removal through a handle changes the file's signature; every operation through a handle whose signature is not the current one is refused as such (reported to the client with the file's current signature) and has no effect on contents, name, existence or openness of any file, so that of several writers or renamers racing with the same signature exactly one succeeds; an operation with the current signature is never refused for its signature; the handle a client holds follows its own successful operations and nothing else.",
 ["histories", "schedules", "inputs"],
 "All histories and races of file requests from several clients, with current, outdated, guessed and unknown handles.",
 "Tests use a wrong signature once per operation against a fresh state; races and histories of signatures are never exercised (and the client function reported the refusal as an unrelated error).",
 FS, [("signature comparison and renewal", "src/core/server/fs/file.rs"), ("signature mismatch reply", "src/core/server/action/handler/fs.rs"), ("error mapping, client handle follows", "src/core/client/connected.rs")],
 FSN, FST, observe=["reply of each request", "directory tree on disk"])

prop("C12", "Reading a file returns exactly what was written last",
 "A successful write replaces the whole contents of the file on disk (shorter, longer or empty), a read returns exactly the contents written last under whatever handle, path spelling or client, at any later time, also after renames, permission upgrades, refused operations and reopening; a read without read access or a write without write access fails without changing anything; nothing but the named file changes.",
 ["histories", "schedules", "inputs"],
 "All histories of opens, writes, reads, renames and removals, all contents and permission combinations.",
 "Tests write once and read once; overwriting longer contents, reads after renames or permission upgrades and racing writers are histories.",
 FS, [("truncate and write from the start", "src/core/server/fs/file.rs"), ("rewind and read to the end", "src/core/server/fs/file.rs")],
 FSN, FST, observe=["reply of each request", "contents on disk"])

prop("C13", "An open file keeps one identity, its permissions, and is protected",
 "A file is open under one id however often and under whatever spelling or symlinked path it is opened; opening it again adds permissions and never loses any, invalidates no handle and keeps its signature; different open files have different ids, ids of closed or removed files do not work; nothing renames, replaces or removes a file that is open (or a directory with one inside) except through its own handle; each open file holds one descriptor and each closed or removed one none.",
 ["histories", "schedules", "inputs"],
 "All histories and races of opens, closes, renames, removals over overlapping paths and directories.",
 "Tests open a file twice; identity across renames, removals, symlinks, directories and races is a history property (three defects were found).",
 FS, [("lookup by canonical path, permission merge", "src/core/server/fs/mod.rs"), ("check_no_open_files", "src/core/server/fs/mod.rs")],
 FSN, FST, observe=["reply of each request", "descriptors in /proc/self/fd", "directory tree on disk"])

prop("C22", "Directory and unopened-file requests do exactly what they say",
 "Creating (with or without parents), renaming, removing (empty or recursively) and listing directories, and renaming or removing unopened files, have exactly the named effect on the file system and nothing else, or fail with an I/O error and have no effect; listings report every entry once with its right kind; failures have the error kind the file system reports.",
 ["histories", "schedules", "inputs"],
 "All histories and races of directory and unopened-file requests over existing, missing, overlapping and differently spelled paths.",
 "Tests run each operation once in a fresh directory.",
 ["src/core/server/fs/dir.rs", "src/core/server/fs/mod.rs", "src/core/server/fs/file.rs", "src/core/server/action/handler/fs.rs"],
 [("create / rename / remove / entries", "src/core/server/fs/dir.rs")],
 FSN, FST, observe=["reply of each request", "directory tree on disk"])

prop("C14", "Idle files are closed in time, files in use are not",
 "A file used (opened, read, written, renamed) within its lifetime is still open under its handle at every moment until that lifetime has passed, however close to its end it was used and whatever else is evicted; a file left alone for longer than its lifetime and the cleanup interval is closed, its descriptor released and its handle refused, without touching its contents, and can be opened again as a new file.",
 ["schedules", "histories"],
 "All timings of uses relative to the lifetime and the cleanup ticks, all mixes of files.",
 "Tests touch entries with a zero or infinite lifetime and evict once by hand; the race of use against cleanup is not reachable (it was a defect).",
 ["src/core/server/state.rs", "src/core/server/mod.rs", "src/utils/ttl.rs", "src/core/server/action/handler/fs.rs"],
 [("touch and evict", "src/core/server/state.rs"), ("cleanup loop", "src/core/server/mod.rs"), ("expiry", "src/utils/ttl.rs")],
 "Held on the sampled timings. Sound on any machine for files kept (bounds come from when requests were sent and answered); lateness of eviction is judged with 600 ms slack and only if the machine did not stall.",
 "runtime monitor: timed interval oracle over requests and open descriptors",
 observe=["reply of each request with the times it was sent and answered", "descriptors in /proc/self/fd"])

PR = ["src/core/server/proc.rs", "src/core/server/action/handler/proc.rs", "src/core/client/connected.rs"]
prop("C15", "Process output and input arrive complete, in order, exactly once",
 "What clients read from a process's stdout and stderr is, over all reads of all clients together, exactly the bytes the process wrote to each, in order, none lost, repeated or swapped between streams or processes, including output of a process that has already ended; inputs reach its stdin whole and in the order of their requests (racing ones in some order).",
 ["schedules", "inputs", "histories"],
 "All output sizes, piece sizes and pauses of the processes, all interleavings of reads and writes by several clients and batches.",
 "Tests read one short line from one process.",
 PR, [("reader task and buffers", "src/core/server/proc.rs"), ("drain on read", "src/core/server/proc.rs"), ("write_all to stdin", "src/core/server/proc.rs")],
 "Held on the sampled processes (up to 300 KB per stream). Output that a process produced but that is killed by request before it was read is not covered (the protocol has no place for it).",
 "runtime monitor: stream conservation oracle over real processes",
 observe=["output returned by each read"])

prop("C16", "Processes run as asked; life and exit are reported truthfully",
 "A process is started with exactly the given command, arguments and directory and only the requested pipes (using another is refused), or an I/O error is reported; it is reported alive while it runs and dead, with its true exit code (none after a signal), soon after it ended, also if descendants live on; exactly one of several kill requests succeeds, after which the process is gone and unknown, and no other process is affected; when the server goes, the processes it started go.",
 ["schedules", "histories", "inputs"],
 "All histories and races of process requests and all ways a process can end.",
 "Tests start one process that ends by itself (and never noticed that every exit counted as success).",
 PR, [("exit status polling", "src/core/server/proc.rs"), ("kill and wait", "src/core/server/action/handler/proc.rs"), ("spawn options", "src/core/server/action/handler/proc.rs")],
 "Held on the sampled histories; the monitor controls the life of every process and compares with /proc.",
 "runtime monitor: life-cycle oracle over real processes",
 observe=["reply of each request", "/proc/<pid>/stat"])

prop("C17", "Idle processes are killed in time, processes in use are not",
 "A process used (any request naming it) within its lifetime keeps running and answering at every moment until that lifetime has passed; one left alone for longer than its lifetime and the cleanup interval is killed and forgotten; once its end has been reported, it can be asked about for the dead-process lifetime since it was last asked and is forgotten after it; eviction of one affects no other.",
 ["schedules", "histories"],
 "All timings of uses and deaths relative to both lifetimes and the cleanup ticks.",
 "Tests evict once by hand with a zero lifetime.",
 ["src/core/server/state.rs", "src/core/server/mod.rs", "src/core/server/action/handler/proc.rs", "src/utils/ttl.rs"],
 [("touch and evict", "src/core/server/state.rs"), ("shorter lifetime once dead", "src/core/server/action/handler/proc.rs")],
 "Held on the sampled timings; bounds as for C14.",
 "runtime monitor: timed interval oracle over requests and /proc",
 observe=["reply of each request with the times it was sent and answered", "/proc/<pid>/stat"])

ACT = "src/core/server/action/mod.rs"
TRF = "src/core/msg/content/request/transform.rs"
prop("C18", "A sequence runs in order, passes results on and stops at an error",
 "A sequence runs its operations one after another, each only once the one ahead has ended, and replies with one result per operation in their order; from the second on, each operation is first changed by its rules, in their order, from the reply directly ahead of it (a rule whose value matches nothing, several things or does not fit, and a malformed path, make that operation an error instead of running it; a target that does not exist changes nothing); after an error result nothing more of that sequence runs and every later result is an error; sequences and batches nest to five levels, and deeper operations are errors and are not executed; an operation without a reply is an error result.",
 ["inputs", "histories"],
 "All trees of operations, rules, results, failures and nesting.",
 "Unit tests run three operations without rules and transform single requests by hand; rules applied to real previous replies across nested trees, and what must not run, are not covered.",
 [ACT, TRF, "src/core/msg/content/request/sequence.rs"],
 [("sequence loop and abort", ACT), ("rule application", TRF), ("depth limit", ACT)],
 "Held on the sampled trees. Paths are limited to keys, indices and [*]; error texts are compared only for errors of the user's own handler.",
 "runtime monitor: model-based oracle over replies and the handler's execution record",
 observe=["reply to the sequence", "start and end of each operation in the handler", "file contents"])

prop("C19", "A batch runs its operations independently, in parallel, in place",
 "A batch executes every one of its operations exactly once, independently of each other's failures (a failing or panicking operation only makes its own result an error), concurrently (an operation that waits for the effect of another one of the batch completes), and replies with one result per operation, each at the position of its operation; nesting and depth as for sequences.",
 ["inputs", "schedules"],
 "All trees of operations, failures and panics, and all orders in which the operations of a batch progress.",
 "Unit tests run three operations that succeed.",
 [ACT, "src/core/msg/content/request/batch.rs", "src/core/msg/content/reply/batch.rs"],
 [("spawn and join in order", ACT), ("panic becomes an error result", ACT)],
 "Held on the sampled trees; concurrency is shown by rendezvous between operations of different kinds (custom handlers themselves run one at a time by design).",
 "runtime monitor: model-based oracle plus rendezvous workload",
 observe=["reply to the batch", "start and end of each operation in the handler"])

prop("C20", "Every message is read by the peer as exactly what was written",
 "Every message (any request or reply kind with any numbers, text, bytes, addresses and dates, nested arbitrarily) can be encoded, and its encoding is decoded to an equal message, on the wire and in the JSON and s-expression text formats of the command line (one line each); different messages have different encodings; a message cut short is refused; whatever altered bytes decode to can itself be written and read.",
 ["inputs"],
 "All values of all message types.",
 "Tests encode a handful of messages with default arguments (forwarding requests could not be decoded at all).",
 ["src/core/msg/mod.rs", "src/core/msg/content/mod.rs", "src/core/msg/content/request/mod.rs", "src/core/msg/content/reply/mod.rs", "src/core/msg/content/reply/io/mod.rs", "src/utils/serializers/socket_addr.rs", "src/cli/format.rs"],
 [("wire encoding", "src/core/msg/mod.rs"), ("tagging of requests and replies", "src/core/msg/content/mod.rs"), ("text formats", "src/cli/format.rs")],
 "Held on the sampled messages (every kind). Known finding: s-expression input.",
 "runtime monitor: round-trip and collision oracle over generated messages",
 observe=["decoded value"])

prop("C21", "Errors reach the client as the errors they were",
 "An operation that fails on the server fails on the client with the same kind of error and OS code as the same operation done locally, never as success, a timeout or another category; converting any I/O error to its reply, over the wire and back keeps kind, code and text (kinds unknown to the protocol become Other), adding a prefix changes only the text, and a client error that is stored is read back equal.",
 ["inputs"],
 "All OS codes, kinds, texts and failing operations.",
 "Tests convert a few errors and check that some operations fail, not how.",
 ["src/core/msg/content/reply/io/mod.rs", "src/utils/serializers/io_error.rs", "src/utils/serializers/error_kind.rs", "src/core/client/connected.rs", "src/core/client/error.rs", "src/core/server/action/handler/fs.rs", "src/core/server/action/handler/proc.rs"],
 [("I/O error to reply and back", "src/core/msg/content/reply/io/mod.rs"), ("stored errors", "src/utils/serializers/io_error.rs"), ("reply to client error", "src/core/client/connected.rs")],
 "Held for all codes 0-259 and kinds; failing operations are compared with std on a copy of the tree (as root, so permission errors arise only from exec).",
 "runtime monitor: differential oracle against std on the same tree",
 observe=["error returned by the client"])

prop("C23", "The program does what its command line says, and shows it truthfully",
 "Each command of `over-there client` does on the server exactly what the operation of that name does there and nothing else, and prints its result (as text or as one JSON content); a failure is printed as an error and has no effect; exec passes stdin, stdout and stderr of the remote process byte for byte (to redirected files too, appended or replaced as asked) and its exit status, reattach continues with the rest; raw mode answers each input line with one line, in order, carrying the request's header as parent if asked; a client with other keys or ciphers than the server's is never obeyed; --timeout, --working-dir and the server's lifetimes and cleanup interval are honoured; nothing that is typed or answered makes either program panic.",
 ["inputs", "configurations", "histories"],
 "All commands, arguments, contents, options, formats, transports and key configurations.",
 "No test runs the program: argument parsing, command execution and output formatting of the command line are untested (nine defects were found there).",
 ["src/cli/mod.rs", "src/cli/builder/mod.rs", "src/cli/builder/auth.rs", "src/cli/builder/crypto.rs", "src/cli/format.rs", "src/cli/opts/mod.rs", "src/cli/opts/client/mod.rs", "src/cli/opts/server/mod.rs", "src/main.rs"],
 [("running commands, starting servers", "src/cli/mod.rs"), ("keys and ciphers", "src/cli/builder/mod.rs"), ("printing results", "src/cli/format.rs")],
 "Held on the sampled command lines, run as real client and server processes (built from /repo's library and the same main as its own). Exit codes of the client are not part of it.",
 "runtime monitor: differential oracle over real client and server processes",
 observe=["stdout and stderr of the client process", "disk below the server's directory", "redirected files"])

prop("C24", "Servers listen where they say, clients connect where they can, both notice ends",
 "Over TCP and UDP, IPv4 and IPv6: given a list of addresses a server takes the first that can be bound, reports exactly that one, answers there (whatever the address family of the client and the size of request and reply), takes no other and frees it when it ends, or fails if there is none; a client takes the first that listens, or fails if none does; a UDP client believes only datagrams from its server's address; when the server ends, closes or resets, wait() returns and every pending and later ask of its clients ends with an error; a configuration that cannot work is an error and binds nothing; a server told to shut down stops serving.",
 ["configurations", "fault_sequences"],
 "All address lists, transports, and ways and moments in which a server ends.",
 "Tests use one address, and never an unavailable one, a second server or a server that ends.",
 ["src/core/server/mod.rs", "src/core/server/listening.rs", "src/core/client/mod.rs", "src/core/client/connected.rs", "src/core/event/mod.rs", "src/core/event/tcp.rs", "src/core/transport/net/udp.rs", "src/core/transport/net/mod.rs"],
 [("binding", "src/core/server/mod.rs"), ("connecting", "src/core/client/mod.rs"), ("waiting for the end", "src/core/event/mod.rs")],
 "Held on the sampled lists and endings; loopback addresses only. Known finding: shutdown().",
 "runtime monitor: oracle over bound addresses, replies and termination",
 observe=["addresses reported and bound", "result of connect, ask and wait"])

prop("C25", "Delimited messages survive any chunking of the stream",
 "Whatever the delimiter and messages (not empty, not containing it, no longer than the reader's maximum), and however few bytes each write or read of the stream takes (or fails in between), the delimited writer puts exactly each message and one delimiter on the stream and the delimited reader, blocking or async, gives back exactly the messages in order, each once; a longer message costs only itself; a failing sink or source is reported.",
 ["inputs", "fault_sequences"],
 "All messages, delimiters, maxima and chunkings.",
 "Tests read whole messages in one call each; split ones lost data or panicked.",
 ["src/utils/delimiter.rs"],
 [("search and retained data", "src/utils/delimiter.rs"), ("short writes", "src/utils/delimiter.rs")],
 "Held on the sampled streams.",
 "runtime monitor: round-trip oracle over randomly chunked and failing streams",
 observe=["bytes given to the sink", "messages returned by the reader"])

prop("C26", "One-shot helpers act once, in time, and not after being cancelled",
 "A delayed function runs at most once, never before its time, always if not cancelled, and never if its cancellation returned before its time; a value with a lifetime is expired exactly when its lifetime has passed since it was made or last touched; each registered callback is invoked or taken at most once, by its own id, the newest replacing an older one; of values captured and taken by racing threads none is taken twice; a retry loop returns the first result or error, calls no more after it, and times out no earlier than told.",
 ["schedules", "histories"],
 "All timings, cancellations, histories and races.",
 "Tests use fixed sleeps, one thread and a few steps.",
 ["src/utils/delay.rs", "src/utils/ttl.rs", "src/utils/callback.rs", "src/utils/capture.rs", "src/utils/exec.rs"],
 [("cancel against time", "src/utils/delay.rs"), ("expiry", "src/utils/ttl.rs"), ("take on first use", "src/utils/callback.rs"), ("take under lock", "src/utils/capture.rs")],
 "Held on the sampled timings and races; lateness (more than 150 ms) must be seen twice on a machine that does not stall.",
 "runtime monitor: timed and model-based oracles over helper histories and races",
 observe=["times at which functions ran", "values taken"])

prop("C27", "The published schemas describe exactly the messages the program reads",
 "For every type that `schema list` lists, `schema info` prints one JSON schema; every message written as JSON is valid by the schemas of its own type, of its side (request or reply) and of its content; a message with a field left out, of another kind or of an unknown name is valid by the schema exactly if the program can read it; every request and reply type has a schema listed; a name that is not listed is refused with a failure, as is any other word.",
 ["inputs", "configurations"],
 "All types, messages, mutations of messages and schema queries.",
 "No test compares a schema with the messages it describes; one gave replies the arguments of requests.",
 ["src/cli/opts/schema.rs", "src/cli/mod.rs", "src/core/mod.rs", "src/core/msg/content/mod.rs", "src/core/msg/content/request/mod.rs", "src/core/msg/content/reply/mod.rs"],
 [("schema of each type", "src/core/mod.rs"), ("printing schemas", "src/cli/mod.rs"), ("reading raw messages", "src/cli/mod.rs")],
 "Held on the sampled messages and mutations; the validator covers the JSON schema keywords the crate emits and stops on an unknown one.",
 "runtime monitor: schema validator against the program's own reading of generated and mutated messages",
 observe=["output of schema list and schema info", "messages written and read as JSON"])

prop("C28", "Event managers carry messages between exactly the peers they belong to",
 "For a manager over a TCP listener, a TCP stream or a UDP socket, any number of peers and any size of its queues: every message a peer sends is handed over exactly once, with the address it came from, in order over TCP, along with a sender that reaches exactly that peer; data sent to an address through the manager, or through that sender, arrives at the peer that is at this address now, unchanged, exactly once and in order for each of the two ways, already for the very first message, and at no other peer; data for an address nobody has goes nowhere and disturbs nobody; received data that is no message is ignored; a peer that leaves, resets, or comes back from the same address costs neither others nor its new connection anything; wait() ends once the stream does.",
 ["schedules", "histories", "configurations"],
 "All numbers of peers, queue sizes, routes of messages, and moments in which peers come, go and come back.",
 "Tests send one message over one connection; they never address a second peer, a missing one, or one that came back from the same address (its answers were lost).",
 ["src/core/event/mod.rs", "src/core/event/tcp.rs", "src/core/event/udp.rs", W+"tcp.rs", W+"udp.rs"],
 [("connections by address", "src/core/event/tcp.rs"), ("inbound and outbound loops", "src/core/event/tcp.rs, src/core/event/udp.rs"), ("what is handed over", "src/core/event/mod.rs")],
 "Held on the sampled peers and schedules. UDP cases with datagrams dropped by the kernel are not judged.",
 "runtime monitor: message-routing oracle (conservation and order per peer and route)",
 state=[("connections", "the sender of the connection at each address", "src/core/event/tcp.rs")],
 observe=["messages handed over with address and sender", "messages arriving at each peer"])
