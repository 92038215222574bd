import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

p("C01","No sequence number (one-time key) is ever used for two signatures",
"Over the whole life of a private key - any interleaving of concurrent Sign calls, reservations (BorrowExactly, BorrowExactlyIfBelow), Close and reload, failed storage operations, and process crashes or power losses at any moment - no two signatures returned successfully carry the same sequence number. Within one open handle the numbers handed out are consecutive and strictly increasing, starting from the number SeqNo() reported when the key was loaded. A Sign that fails never frees a number that some signature already carries.",
["schedules","crash_points","histories","fault_sequences"],
"all interleavings of concurrent signers, all histories of sign/borrow/close/reload, every crash point and storage fault",
"Tests run one happy-path history per key; no crash, no storage fault, no reload after a reservation, and no test compares the numbers of concurrently made signatures.",
["core.go","api.go","container.go"],
[("getSeqNo: allocation under the key's mutex, write-through when nothing is borrowed","core.go"),("borrowExactly/Close: reservation bookkeeping","api.go"),("SetSeqNo/BorrowSeqNos/writeKeyFile","container.go")],
[("seqNo","first unused sequence number","PrivateKey in api.go"),("borrowed","numbers reserved from the container but unused","PrivateKey in api.go"),("seqNo, borrowed","persisted next number and reservation record","fsContainer in container.go")],
["Sign/SignFrom return values","SeqNo()","LoadPrivateKey results"])

p("C02","A number is durably retired before its signature is released",
"When Sign returns a signature, stable storage already says its sequence number is spent: whatever power loss or kill follows, the key reloads with a next number greater than that of every signature ever returned. Updates of the stored key are atomic: at every crash point the stored key is entirely the old or entirely the new state, and is loadable (unless it was reserved or moved beyond its last number, when it may be refused). If storage cannot record the new state, the operation reports an error instead of releasing a signature, and later operations still never fall behind what was released.",
["crash_points","fault_sequences","histories"],
"every crash point (between any two system calls, with any unsynced data lost) and every single storage fault in histories of generate/sign/borrow/close/reload",
"Tests never crash, never inject a storage error and cannot see whether data was synced: dropping an fsync passes every test.",
["container.go","core.go","api.go"],
[("writeKeyFile: temp file, fsync, rename, fsync of the directory","container.go"),("getSeqNo persists before it returns the number","core.go"),("rollback of in-memory state on a failed write","container.go")],
[("key file","params, next number, reservation record, secret","path/to/key")],
["system calls on the key file and its directory","LoadPrivateKey after a crash"])

p("C03","Reserved and lost sequence numbers are accounted for exactly",
"After BorrowExactly(n) succeeds exactly n numbers are reserved, each Sign consumes one reserved number if there is one, and BorrowExactlyIfBelow(n,t) does the same if and only if at most t are reserved. A properly closed key reloads with zero lost signatures and continues at exactly the next unused number, so unused reservations are given back; a key that was not closed reloads with a lost count that covers every skipped number and does not exceed the numbers reserved since the last record, and the count is repeated on every load until a new number is recorded. Without reservations a crash between operations skips nothing.",
["histories","crash_points","inputs"],
"all histories of sign/borrow(grow, shrink, zero)/close/crash/reload over all reservation amounts",
"One test borrows 4000 numbers and closes; no test shrinks a reservation, crashes with one, or looks at lostSigs after anything but a clean close.",
["api.go","core.go","container.go"],
[("borrowExactly","api.go"),("Close restores the exact next number","api.go"),("BorrowSeqNos/SetSeqNo/GetSeqNo","container.go")],
[("borrowed","reserved numbers","PrivateKey and fsContainer")],
["BorrowedSeqNos()","SeqNo()","lostSigs of LoadPrivateKey"])

p("C04","A key signs its full capacity and never past it",
"A key of full height h hands out the numbers 0,1,...,2^h-2 and every one of those signatures verifies; from then on every Sign fails with an error, produces nothing and changes no state, now and after every reload, whether or not numbers are reserved or subtree precomputation is on. Reservations that reach beyond the end never make a number at or past MaxSignatureSeqNo usable. A stored key whose next number exceeds the maximum is refused at load.",
["histories","configurations","inputs"],
"all tree shapes, all histories up to and past exhaustion including reservations across the end and reloads",
"Tests never come near exhaustion (the smallest tested key has 2^10 numbers and signs twice).",
["core.go","api.go","params.go"],
[("exhaustion check in getSeqNo","core.go"),("range check in newPrivateKey","core.go"),("MaxSignatureSeqNo","params.go")],
[("seqNo","next number","PrivateKey")],
["Sign results","SeqNo()","LoadPrivateKey results"])

p("C05","At most one open handle per key",
"While a key file is open in some handle, every other attempt to open it - from another process or from the same one, through any of the opening or signing helpers - fails with an error for which Locked() is true and disturbs nothing. Once the handle is closed, its owner has died, or the attempt to open failed, the key can be opened again. If it cannot be established that the lock is held, opening fails rather than proceeding without it.",
["schedules","histories","fault_sequences","crash_points"],
"all interleavings of open/sign/close/kill among several processes and several handles per process, stale and unreadable lock files, failed opens",
"No test opens a key that is already open, in the same process or another, and none leaves a stale or broken lock file behind.",
["container.go","api.go"],
[("OpenFSPrivateKeyContainer: lock file","container.go"),("Close: unlock","container.go"),("LoadPrivateKey/Derive/Sign helpers: release on failure","api.go")],
[("key.lock","pid lock file next to the key","path/to/key.lock")],
["Open/Load/Sign errors and Locked()"])

p("C06","Signatures and public keys are exactly those of XMSS/XMSSMT",
"For every supported parameter set, seed, sequence number and message, the public key and the signature are byte for byte the ones RFC 8391 / NIST SP 800-208 define for that parameter set (with this library's encoding of parameters in front), and the signature verifies under the key's public key for its message and for no other message tried. Signing is deterministic: the result depends only on the key, the sequence number and the message, not on what was signed before, in which order, or by how many goroutines.",
["inputs","configurations","histories","schedules"],
"all hash functions, n, w, PRF constructions, tree shapes, seeds, sequence numbers (leaf, subtree and layer boundaries), messages of any length",
"Tests compare one signature of 13 instances, all w=16, with reference vectors, at one sequence number; other instances are only checked against themselves (sign then verify).",
["core.go","wots.go","hash.go","address.go","api.go"],
[("subTreePathForSeqNo, genSubTreeInto, lTreeInto, AuthPath","core.go"),("wotsSignInto, wotsPkGenInto","wots.go"),("prf/F/H/hashMessage","hash.go"),("SignFrom","api.go")],
[],["Signature and PublicKey bytes"])

p("C07","Verification accepts exactly the genuine signatures",
"Verify returns true only if the signature is, bit for bit, a valid signature under that public key of that message with the parameters and sequence number it states. Changing any part of it - message, public key, parameter header, index, randomizer, any one-time signature chain or authentication path node, its length, or pairing it with another key or parameter set - makes it return false with an error, and a genuine signature is always accepted, also after a round trip through its serialized form.",
["inputs","configurations"],
"all single-bit changes, truncations, extensions, field swaps and header changes of genuine (message, public key, signature) triples, for all parameter shapes",
"Tests only try one wrong message; no test alters a signature, a public key or a header.",
["api.go","wots.go","core.go","hash.go"],
[("VerifyFrom","api.go"),("wotsPkFromSigInto","wots.go"),("UnmarshalBinary of Signature and PublicKey","api.go")],
[],["Verify result"])

p("C08","The subtree cache never influences what is signed",
"Whatever the state of the subtree cache - absent, empty, truncated, corrupted in any bytes, or left behind by a crash at any moment of generating, dropping or reusing cached subtrees - a key whose key file is intact loads, reports the same public key, and every signature it makes is byte for byte the one it would make with a fresh cache. A damaged cached subtree is recognised and recomputed, never used.",
["crash_points","fault_sequences","histories","schedules"],
"all corruptions of the cache file, all crash points while subtrees are generated, dropped and their storage reused, single and concurrent use after reload",
"Tests never reload a key with a damaged or missing cache and never crash; cached data is only read back after a clean close.",
["core.go","container.go","api.go"],
[("getSubTree: checksum check and regeneration","core.go"),("openCache/GetSubTree/DropSubTree/ResetCache","container.go"),("LoadPrivateKeyFrom","api.go")],
[("subTreeReady, subTreeChecked","which cached subtrees are usable","PrivateKey"),("key.cache","cached subtrees","path/to/key.cache")],
["public key and signatures after reload"])

p("C09","Retirement is exact and drops only what no signer needs",
"UnretiredSeqNos() is always the number of sequence numbers handed out by this handle whose Sign has not finished yet, in whatever order the Signs finish and whether they succeed or fail. A cached subtree is never dropped while a handed-out, unfinished number still lies under it or numbers under it are still to be handed out; and as soon as a handle has finished all numbers up to the end of a subtree, its cached copy is dropped, at every layer, so the cache does not grow with the number of signatures.",
["schedules","histories","configurations"],
"all orders in which overlapping Signs can start and finish around subtree boundaries, all tree shapes, all starting numbers including those beyond 2^32",
"One test logs (without asserting) the two counters after 4000 signatures from 4 goroutines.",
["core.go","api.go","misc.go"],
[("retireSeqNo, incLeastSeqNoInUse","core.go"),("UnretiredSeqNos, CachedSubTrees","api.go")],
[("leastSeqNoInUse, retiredSeqNos","finished-number bookkeeping","PrivateKey")],
["UnretiredSeqNos()","DropSubTree calls on the container","CachedSubTrees()"])

p("C10","Concurrent use always completes, and failures leave the key usable",
"Any number of concurrent Sign calls, with or without subtree precomputation, complete without deadlock or panic, and Close completes while background precomputation is running, after which nothing touches the container any more. A failing container operation makes the affected Signs return an error; once the container works again the same handle signs correctly again, and no goroutine stays blocked.",
["schedules","fault_sequences","histories"],
"all interleavings of signers needing the same or related subtrees, precomputation and Close, with a container failure injected at any call",
"Tests have one concurrent run without precomputation or failures, and never close while a subtree is being generated.",
["core.go","api.go"],
[("getSubTree: waiting, abort, regeneration","core.go"),("Close and wait for background workers","api.go"),("EnableSubTreePrecomputation","api.go")],
[("subTreeReady","absent / being filled / filled","PrivateKey"),("wg, cond","background workers, waiters","PrivateKey")],
["completion of Sign and Close","later Signs after a failure"])

p("C11","Serialized forms round-trip and have the documented layout and size",
"Marshalling a signature, public key or parameter set and unmarshalling it gives an equal object, for every supported parameter set and sequence number; the bytes have the documented layout (4 byte parameter header, index, randomizer, one-time signatures and authentication paths; 4 byte header, root, public seed) and exactly the size the context reports. Distinct parameter sets have distinct encodings, and parameters that cannot be represented are refused with an error. The text form of a public key is the base64 of its binary form and round-trips.",
["inputs","configurations"],
"all supported parameter sets and all sequence numbers including the largest of each index width",
"Tests round-trip the parameters of listed instances (with w changed) and one signature and public key of one instance.",
["api.go","params.go","misc.go"],
[("MarshalBinary/WriteInto/UnmarshalBinary","api.go"),("Params.WriteInto/UnmarshalBinary","params.go"),("encodeUint64Into/decodeUint64","misc.go")],
[],["MarshalBinary/UnmarshalBinary/MarshalText/UnmarshalText"])

p("C12","Malformed input is rejected with an error, never a panic",
"For arbitrary bytes given as a public key, signature or parameter encoding - truncated, over-long, with unknown hash, Winternitz, version or magic codes, impossible tree shapes, or simply random - unmarshalling either fails with an error or yields an object that verification can use without panicking. Verification of any such signature against any public key, of the same or different parameters, returns (false, error) without panic unless it is genuine. Creating a context from unsupported parameters or an ill-formed algorithm name returns an error.",
["inputs"],
"all byte strings as signature, public key or parameters; all combinations of parameter sets of key and signature; all parameter values and names",
"No test feeds malformed bytes, mismatched parameters or an invalid name to the library.",
["api.go","params.go"],
[("UnmarshalBinary length and header checks","api.go"),("NewContext validation","api.go"),("parseParamsFromName","params.go")],
[],["errors of UnmarshalBinary, Verify, NewContext, NewContextFromName2"])

p("C13","Algorithm names, OIDs and parameters are consistent",
"Every instance listed in RFC 8391 and NIST SP 800-208 is available under exactly its published name and OID with its published parameters, and is reported as from the RFC, from NIST and multi-tree exactly when it is; looking it up by name, by OID or by parameters gives the same instance. Every other supported parameter set has a name that parses back to exactly those parameters and to no others, has no OID, and is not reported as standard.",
["configurations","inputs"],
"all listed instances and the whole grid of supported non-standard parameter sets",
"Tests round-trip names of listed instances only and never check OIDs, FromRFC/FromNIST or non-standard names.",
["params.go","api.go"],
[("registry and lookup tables","params.go"),("Params.String, parseParamsFromName","params.go"),("NewContextFromName/2/Oid","api.go")],
[],["Name/Oid/FromRFC/FromNIST/MT/Params of a Context","ListNames/ListNames2"])

p("C14","No one-time signature can be turned into one of another digest",
"For every supported Winternitz parameter and hash length, two different message digests always give chain positions such that each digest has some chain (message or checksum) at a strictly smaller position than the other, so that advancing hash chains of a genuine signature never yields the signature of a different digest. In particular the checksum chains encode the complete checksum for every attainable checksum value.",
["inputs","configurations"],
"all pairs of digests, i.e. all attainable checksum values, for all supported (n, w)",
"Tests fix one digest for w=16 and otherwise check only that signing and verifying agree with each other, which they do also when the checksum is broken.",
["wots.go","params.go"],
[("wotsChainLengths: checksum","wots.go"),("WotsLen1/WotsLen2","params.go")],
[],["one-time signature chains inside a Signature"])

p("C15","The key container behaves as a faithful persistent store",
"A private-key container returns exactly the key, parameters, next number and reservation record last stored, and its subtree cache behaves as a map: a subtree exists exactly from its first retrieval until it is dropped or the cache is reset, keeps its own full-size buffer that no other live subtree overlaps, and is listed exactly while it exists. All of this survives closing and reopening, and being killed and reopened, in any history of operations; operations on a container that is uninitialised or closed return errors and change nothing.",
["histories","crash_points","inputs"],
"all histories of reset/get/drop/list/has/setSeqNo/borrow/close/reopen over several subtree addresses, parameter sets, and slot reuse",
"One test does a single fixed sequence of retrievals and one drop with one parameter set.",
["container.go"],
[("fsContainer methods","container.go"),("slot allocation: cacheFreeIdx, cacheIdxLut, subTreeOffset","container.go")],
[("cacheIdxLut, cacheFreeIdx, allocatedSubTrees","which slot holds which subtree","fsContainer")],
["PrivateKeyContainer methods of OpenFSPrivateKeyContainer"])

p("C16","Streaming equals one-shot use, and a failing source wastes only its number",
"SignFrom and VerifyFrom give the same result as Sign and Verify on the whole message, however the reader splits it. If the message source fails while signing, the call returns an error and no signature, its sequence number is retired and never used by a later signature, and all other signatures are unaffected. If the source fails while verifying, the result is false with an error.",
["inputs","histories","fault_sequences"],
"all chunkings of messages of all lengths, and a reader failure at any byte, in any history of other operations",
"No test uses the streaming interface with anything but an in-memory reader, or with a failing one.",
["api.go","hash.go","core.go"],
[("SignFrom/VerifyFrom","api.go"),("hashMessageInto: io.Copy","hash.go"),("deferred retireSeqNo","api.go")],
[],["SignFrom/VerifyFrom results","UnretiredSeqNos()"])

p("C17","Hardware acceleration and worker threads never change results",
"Public keys, signatures and verification results are identical whether or not the four-way vector implementation is available, and for every setting of the number of worker threads, for every supported parameter set including the PRF construction. A signature or key made on one kind of machine is accepted and reproduced on the other.",
["configurations","inputs","schedules"],
"all hash functions, n, w, PRF constructions and tree heights, with vector support on and off and any number of worker threads",
"Tests run on one machine with its own vector support and default threads, and compare vector code only for two hash primitives with the RFC construction.",
["api.go","wots.go","hash.go","core.go","internal/f1600x4/f1600x4_amd64.go"],
[("x4Available selection in NewContext","api.go"),("wotsPkGenInto/wotsSignInto/wotsPkFromSigInto four-way branches","wots.go"),("genSubTreeInto worker threads","core.go")],
[("x4Available","use four-way hashing","Context")],["public key and signature bytes"])

p("C18","Creating or replacing a key is all or nothing",
"When a key is generated or derived at a path, then after a crash at any point the path holds either no key (or exactly the previous key, still able to sign correctly) or exactly the complete new key with its first number unused; never a mixture, such as a new secret with subtrees or a public key of the old one. Creation that reports success is durable: after a power loss the new key loads with the same public key that was returned.",
["crash_points","fault_sequences","histories"],
"every crash point and storage fault while a key is created on an empty path or over an existing key of the same or other parameters",
"Tests create keys only on empty paths and never crash.",
["container.go","api.go"],
[("Reset: key file and cache replacement","container.go"),("DeriveInto","api.go")],
[("key and key.cache","secret and cached subtrees must belong together","files")],
["LoadPrivateKey after a crash: error, public key, signatures"])

p("C19","A container is never used by two goroutines at once",
"However many goroutines sign, reserve, close, query or precompute with one private key, calls to its container never overlap in time, so a container that is not thread safe is safe to use. After Close has returned, the container is not called again except to report that it is closed.",
["schedules","histories"],
"all interleavings of the operations of one private key, foreground and background",
"Tests use the built-in container concurrently once and would notice an overlap only by luck.",
["core.go","api.go"],
[("every container call is made with the key's mutex held","core.go, api.go")],
[],["entry and exit of container methods"])

p("C20","Advancing the sequence number by hand is safe",
"After DangerousSetSeqNo moves the next number forward - with or without numbers reserved before or after, with precomputation on or off - the following Sign uses exactly that number, its signature verifies, and from then on all guarantees about number reuse hold with respect to it: once a signature with such a number has been returned, a crash, close or reload never makes that number or an earlier one available again.",
["histories","crash_points","inputs"],
"all forward jumps at any point of a history of sign/borrow/close/crash/reload",
"Tests jump once, sign once and stop: no reservation, crash or reload after the jump.",
["api.go","core.go"],
[("DangerousSetSeqNo","api.go"),("borrowExactly, getSeqNo, Close","api.go, core.go")],
[("seqNo, borrowed, leastSeqNoInUse","bookkeeping reset by the jump","PrivateKey")],
["SeqNo()","Sign","LoadPrivateKey after a crash"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80,x['id']
print(len(P))
