#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list. CLAIMED names the properties that have a check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = open(V + "/tools/claimed.txt").read().split()
P = []
def p(id, title, statement, over, q, why, files, mech, observe=(), state=(), note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=["CEX/" + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), state=[dict(name=a, meaning=b, where=c) for a, b, c in state], hook_needed=None), _note=note))

p("C01", "Parallel processing yields exactly what sequential processing yields",
  "For every cipher mode and stream cipher that can process data on several threads, and for the library's parallel loop itself, the result of a call is byte for byte what single-threaded processing of the same data produces, for every core count, parallel degree, block size, message length, offset and thread interleaving. Worker threads never race on memory, every loop index runs exactly once before the call returns, no byte outside the requested output range is touched, and a degree the machine cannot have is refused.",
  ["schedules", "configurations", "inputs"], "every interleaving of the workers, every simulated machine (1 to 12 cores, cache sizes), every legal degree and parallel block size, messages around and beyond block boundaries, counters close to a carry, several messages per session",
  "the tests run a handful of lengths with the host's own core count and whatever interleaving the host produced; a race or an off-by-one at one degree or one remainder length never shows",
  ["ParallelTools.h", "ParallelTools.cpp", "ParallelOptions.cpp", "CTR.cpp", "ICM.cpp", "CBC.cpp", "CFB.cpp", "ECB.cpp", "GCM.cpp", "HBA.cpp", "CSX512.cpp", "ChaChaP20.cpp", "RCS.cpp", "RWS.cpp", "TSX256.cpp", "TSX512.cpp", "TSX1024.cpp", "IntegerTools.h"],
  [("thread-local counters offset by chunk", "*::ProcessParallel / DecryptParallel / GenerateParallel"), ("fork-join loop", "ParallelTools::ParallelFor"), ("profile alignment of degree and block size", "ParallelOptions::Calculate / SetBlockSize / SetMaxDegree")],
  ["Transform output", "Tag", "bytes around the output range"])

p("C02", "A failed allocation or thread never silently yields a wrong result",
  "If a memory allocation or the creation of a worker thread fails at any point inside an operation (encrypting, decrypting, hashing, authenticating, deriving or generating), the operation either reports the failure or produces exactly the result it would have produced without it; it never returns normally with missing, partial or wrong output, never accepts a forged message, and never deadlocks or crashes. An object that reported a failure can be destroyed, or initialised again with the same or another key and used correctly: nothing of the failed call is left in it, and nothing the call allocated is lost. A constructor that fails, for lack of memory or because it refuses an argument, leaves the cipher, digest, mac or provider objects its caller lent it alive and usable.",
  ["fault_sequences", "schedules", "inputs"], "the n-th allocation or thread creation of an operation fails, for every n the search draws, on the calling thread or on a worker thread, under every interleaving, followed by re-use of the object",
  "no test makes an allocation or a thread creation fail, so no test ever ran one of these paths",
  ["ParallelTools.h", "CTR.cpp", "CBC.cpp", "GCM.cpp", "HBA.cpp", "RCS.cpp", "RWS.cpp", "CSX512.cpp", "Keccak.cpp", "Blake256.cpp", "Skein256.cpp", "SHA2256.cpp", "HMAC.cpp", "HKDF.cpp", "KDF2.cpp", "PBKDF2.cpp", "ECDHBase.cpp", "CipherStream.cpp", "SecureVector.h"],
  [("worker exceptions are handed to the caller", "ParallelTools::ParallelFor"), ("owned state in smart pointers", "all engines")], ["return or exception of the call, output, later calls on the same object"])

p("C03", "Authenticated encryption accepts exactly what was sealed, whole sessions long",
  "Whatever a faulty channel does to sealed messages (bit flips, truncation, reordering, duplication, replay under another nonce, changed or dropped associated data), the opener of an authenticated mode or stream cipher rejects every message that is not what the peer sealed at that position under that key, nonce and associated data, and reports the rejection. Every message that arrives intact is accepted and yields exactly the sealed plaintext, however many messages, re-keyings, nonce changes and rejections came before on either object.",
  ["histories", "fault_sequences", "inputs"], "sessions of sealed messages through a simulated channel that corrupts, drops, duplicates and reorders, with re-initialisations of either side (new key, new nonce under the same key, full reset) at arbitrary points",
  "tests seal and open one message per fresh object and flip no bits, so state left over from an earlier message, a rejection or a re-initialisation is never exercised",
  ["GCM.cpp", "GMAC.cpp", "GHASH.cpp", "HBA.cpp", "CSX512.cpp", "ChaChaP20.cpp", "RCS.cpp", "RWS.cpp", "TSX256.cpp", "TSX512.cpp", "TSX1024.cpp"],
  [("tag computed over ciphertext, length and associated data, compared before output is released", "*::Transform / Finalize / Verify"), ("state reset between messages", "*::Initialize, Reset")], ["exception type of Transform", "decrypted bytes", "Tag()"])

p("C04", "Cipher output depends only on key, nonce and data, not on call history",
  "For every unauthenticated cipher mode and stream cipher, the bytes produced for a message depend only on the key material, the direction and the message: they are the same however the message is cut into calls at block boundaries, wherever it sits in the buffers, whatever the object processed before it was initialised, and on whichever copy of the object's saved state it is resumed. Decrypting returns the original message under any other cutting, and nothing outside the requested output range is written.",
  ["histories", "inputs", "crash_points"], "all sequences of initialise, transform, reset, re-initialise with other keys, save and crash-restart from saved state, with random call boundaries, offsets and lengths",
  "tests transform a fixed vector in one or two calls on a fresh object; the state carried between calls, and left over by earlier sessions, has histories no vector covers",
  ["CTR.cpp", "ICM.cpp", "CBC.cpp", "CFB.cpp", "OFB.cpp", "ECB.cpp", "CSX512.cpp", "ChaChaP20.cpp", "RCS.cpp", "RWS.cpp", "TSX256.cpp", "TSX512.cpp", "TSX1024.cpp", "RHX.cpp", "SHX.cpp"],
  [("running counter / chaining register", "*State::Nonce"), ("re-initialisation", "*::Initialize"), ("state serialisation", "*::Serialize and the restoring constructors")], ["Transform output"])

p("C05", "A digest depends only on the message, not on how or when it was fed",
  "For every hash function, in sequential and in tree (parallel) mode, the digest of a message is the same however the message is cut into update calls, on whichever offset it lies, whatever was hashed, reset, aborted or finalised on the object before, and under every interleaving of the tree mode's worker threads; one-shot, incremental and single-byte feeding agree. Tree modes are race free, changing the message changes the digest, and an output without room for the digest is refused untouched.",
  ["schedules", "histories", "inputs", "configurations"], "all cuttings and feeding calls, histories of earlier messages with resets and aborts, tree degrees from 2 up, all interleavings of workers, all simulated core counts",
  "tests hash fixed vectors mostly in one call and compare tree mode with itself under the host's own schedule",
  ["Blake256.cpp", "Blake512.cpp", "SHA2256.cpp", "SHA2512.cpp", "SHA3256.cpp", "SHA3512.cpp", "Keccak.cpp", "Skein256.cpp", "Skein512.cpp", "Skein1024.cpp"],
  [("message buffer and length carried between updates", "*::Update"), ("parallel permutation of leaves", "*::Update (m_isParallel)"), ("finalisation resets the state", "*::Finalize / Reset")], ["Compute / Finalize output"])

p("C06", "A MAC depends only on key and message, not on how or when it was fed",
  "For every message authentication code, the code of a message under a key is the same however the message is cut into update calls, whatever keys and messages the object handled before, and whether the object was reset, re-keyed or freshly constructed. Codes under different keys or of different messages differ, and an output without room for the code is refused untouched.",
  ["histories", "inputs"], "all cuttings, histories of re-keying, aborted messages, resets and finalisations",
  "tests compute fixed vectors on fresh or once-reset objects; leftovers of earlier keys and partial messages are not in them",
  ["HMAC.cpp", "CMAC.cpp", "GMAC.cpp", "KMAC.cpp", "Poly1305.cpp", "KPA.cpp"], [("buffering and padding", "*::Update / Finalize"), ("key schedule reset", "*::Initialize / Reset")], ["Compute / Finalize output"])

p("C07", "Key derivation and DRBG output is a function of key, parameters and request history",
  "Every key derivation function returns, for the same key material and parameters, the same bytes on every object regardless of the object's history, of output offsets, and of other derivations made before; different salts or information strings (of the same lengths) give different output. Every deterministic generator without fresh entropy gives two equally seeded instances the same output for the same sequence of requests, never repeats output within an instance, changes its output after an update with new seed, refuses keys, salts, nonces and outputs of impossible sizes without touching the output, and with a (simulated) entropy source reseeds when its counters say so.",
  ["histories", "inputs", "fault_sequences"], "all sequences of initialise, generate (sizes and offsets), update and reset; entropy sources that differ, repeat or fail at the reseed point",
  "tests compare fixed vectors and one long request; split requests, re-initialisation histories and reseeding under a chosen entropy stream are beyond them",
  ["HKDF.cpp", "KDF2.cpp", "PBKDF2.cpp", "SCBKDF.cpp", "SHAKE.cpp", "BCG.cpp", "CSG.cpp", "HCG.cpp"], [("counter and key state", "*::Expand / Generate / Derive"), ("reseed threshold", "BCG / HCG / CSG ::Generate")], ["Generate output"])

p("C08", "A failing entropy source is reported, never replaced by predictable bytes",
  "When the operating system's random source, the processor's random instructions or system information calls fail, transiently or for good, every entropy provider, generator and key generator built on them either retries successfully or reports an error; a call that returns normally has filled every requested byte with entropy that came from the source in that call, at the requested offset and nowhere else. No failure makes a provider return unfilled, repeated or predictable bytes, or hang.",
  ["fault_sequences", "inputs", "histories"], "every pattern of failing and partial calls of the simulated CSP, RDRAND/RDSEED and system calls, every request size and offset",
  "the real sources never fail on a test machine, so no failure path has ever run",
  ["CSP.cpp", "RDP.cpp", "ECP.cpp", "ACP.cpp", "CJP.cpp", "ProviderBase.cpp", "ProviderSelfTest.cpp", "SecureRandom.cpp", "BCR.cpp", "CSR.cpp", "HCR.cpp", "SymmetricKeyGenerator.cpp"],
  [("status checks around CryptGenRandom, rdrand", "CSP::Generate, RDP::Generate"), ("seeding of generators", "BCR/CSR/HCR constructors and Reset")], ["bytes returned, compared with what the simulated devices delivered"])

p("C09", "Random values stay in range and no buffered output is ever handed out twice",
  "Bounded integer requests of the random generators always return a value inside the requested range, bounded for every state of the generator, and every value of a small range is reachable. The bytes handed out over any sequence of requests of different types are successive, non-overlapping parts of the underlying generator's output: nothing is handed out twice or left at a constant, across buffer refills, resets and interleaved use from several threads with an instance each.",
  ["histories", "inputs"], "all sequences of typed, bounded, buffer and offset requests across refills and resets with every bound",
  "tests check statistics of one long stream; a repeated buffer tail at a refill boundary or an out-of-range value at one rare raw word is not sampled",
  ["SecureRandom.cpp", "PrngBase.cpp", "BCR.cpp", "CSR.cpp", "HCR.cpp", "CryptoRandomException.cpp"], [("rejection sampling", "SecureRandom::Next*(Minimum, Maximum)"), ("buffer position", "SecureRandom / PRNG Generate")], ["returned values against a model of the byte stream"])

p("C10", "Byte streams behave as one array of bytes, also when the disk misbehaves",
  "Memory, secure and file streams, and the readers and writers on top of them, behave for every sequence of reads, writes, seeks, resizes and copies like one growable array with a position: a read returns exactly the stored bytes and how many, a write stores exactly the given bytes, nothing outside the caller's range is touched and nothing is lost on flush, close and re-open. When the disk fails, delivers short or is full, the caller learns of it: no operation that reported success lost or invented data.",
  ["histories", "fault_sequences", "crash_points"], "all operation sequences with random offsets and lengths; simulated read, write, seek, open and close errors, short transfers, full disk",
  "tests write and read back a few fixed buffers on a healthy disk",
  ["MemoryStream.cpp", "SecureStream.cpp", "FileStream.cpp", "StreamReader.cpp", "StreamWriter.cpp"], [("position and length accounting", "*Stream::Read / Write / Seek / SetLength"), ("iostream state checks", "FileStream.cpp")], ["returned bytes and counts, Length, Position, stored file content"])

p("C11", "Stream processors equal one-shot processing of the whole stream",
  "Encrypting, decrypting, hashing or authenticating a stream or buffer through the stream processors gives exactly the result of processing its whole content in one call, for every length, stream position, chunking, cipher mode, padding and parallel setting, and decrypting what was encrypted restores the input exactly, padding removed. If the source ends early or delivers errors the call ends within bounded time and reports it, instead of looping or passing off a partial result as complete.",
  ["histories", "fault_sequences", "inputs", "schedules"], "all lengths around block and parallel-block boundaries, modes, paddings, source and sink kinds, short and failing sources, several streams in succession",
  "tests process a few sizes on healthy in-memory streams",
  ["CipherStream.cpp", "DigestStream.cpp", "MacStream.cpp", "PKCS7.cpp", "ESP.cpp", "X923.cpp", "ZeroOne.cpp"], [("block loop and final block", "CipherStream::BlockTransform / StreamTransform"), ("progress callback", "CalculateProgress")], ["output stream content, thrown exception, termination"])

p("C12", "Sockets deliver every sent byte once, in order, and end cleanly",
  "Between a connected client and server (IPv4 or IPv6, synchronous or asynchronous), the bytes received are exactly a prefix of the bytes the peer sent, each once and in order, for every segmentation, short transfer, delay and interleaving; once faults stop and the sender closes, the receiver gets the rest and then learns of the end within bounded time. A call reports exactly the bytes it transferred. Connecting, accepting, closing, resetting, stopping and destroying in any order neither crashes, blocks for ever nor races; a socket is closed once and only by its owner (a client until ShutDown, a stopped or destroyed SocketServer for every connected socket its user has not closed), so nothing is leaked and no foreign socket is closed when handles are reused. Each connection, disconnection or failure raises one event, failures are reported, a server is reachable at exactly the address and port it was given, names the true peer, announces every connection once and none after it was stopped, and can listen again.",
  ["schedules", "fault_sequences", "histories"], "simulated network with latency, segmentation, short reads and writes, resets, refusals and interruptions; every interleaving of caller, accept and receive threads",
  "the tests never open a socket",
  ["SocketBase.cpp", "SocketClient.cpp", "SocketServer.cpp", "NetworkTools.cpp", "Socket.h"], [("send and receive loops", "SocketBase::Send / Receive"), ("asynchronous accept and receive", "SocketServer::*, SocketClient::ReceiveCallback")], ["bytes delivered to the application, events, simulated socket table"])

p("C13", "Key exchange agrees when intact and never accepts tampering, across restarts",
  "For every key encapsulation scheme and parameter set, decapsulating an intact ciphertext with the matching private key yields the encapsulated secret, also when keys travelled through serialisation into other instances or a restarted process. A ciphertext altered in transit, or decapsulated with another private key, never yields the encapsulated secret: decapsulation reports failure or gives an unrelated secret, and keys and ciphertexts of the wrong size are refused. Altered keys never corrupt memory, and never let one side accept a secret the other does not have unless decapsulation says so (bits of a key that carry no information may change unnoticed). ECDH refuses public keys of small order, and the parties' secrets agree exactly when keys and domain keys do. Identical randomness gives identical keys and ciphertexts and different randomness different ones, also when key generation meets a rejected candidate; a failed generator or allocation reports an error and leaves the instance usable.",
  ["histories", "fault_sequences", "inputs", "crash_points"], "every parameter set; random key generation and encapsulation randomness; bit flips, truncation and substitution in serialised keys and ciphertexts; restart between any two steps",
  "tests run a few loops of the good case and one corruption per scheme with whatever randomness the host gives",
  ["Kyber.cpp", "KyberBase.cpp", "McEliece.cpp", "MPKCN4608T96.cpp", "MPKCN6688T128.cpp", "ECDH.cpp", "ECDHBase.cpp", "AsymmetricKey.cpp"], [("re-encryption check and implicit rejection", "*::Decapsulate")], ["shared secrets"])

p("C14", "Signatures verify exactly when key, message and signature are intact",
  "For every signature scheme and parameter set, a signature made by a private key over a message verifies under the matching public key and returns the signed message, also after keys and signatures travelled through serialisation and a restart; any altered, truncated or extended signature, message or public key is rejected without memory corruption. An instance signs and verifies any number of messages in succession independent of its history.",
  ["histories", "fault_sequences", "inputs", "crash_points"], "every parameter set; random keys and messages; corruption at every place; several signatures per instance; restart between any two steps",
  "tests run few loops of the good case and a single corruption per scheme",
  ["Dilithium.cpp", "DilithiumBase.cpp", "ECDSA.cpp", "ECDSABase.cpp", "SphincsPlus.cpp", "SPXBase.cpp", "XMSS.cpp", "XmssCore.cpp"], [("verification", "*::Verify")], ["return of Verify, recovered message"])

p("C15", "A stateful signer never uses a one-time key twice, whatever happens in between",
  "Every signature of an XMSS or XMSS-MT private key uses a one-time index that no earlier signature of that key used, over any history of signing, failed signing, saving the updated private key and restarting from the last saved one, as long as the caller saves the key before releasing a signature. After Sign returns, the AsymmetricKey the signer was initialised with (and so what it serialises to) holds an index above every index used so far; a call that fails never moves the index back and never gives out a signature of an index the key will use again. When the indices are used up (the very last one may stay unused), signing reports a CryptoException instead of reusing one, and the signatures of all used indices verify.",
  ["histories", "crash_points", "fault_sequences"], "all sequences of sign, save, crash, restart and failed allocations up to exhaustion of small trees",
  "tests sign a few messages in one process lifetime and never restart or exhaust a key",
  ["XMSS.cpp", "XmssCore.cpp", "XmssUtils.cpp", "AsymmetricKey.cpp"], [("index stored in the private key and advanced on signing", "XmssCore sign")], ["index in released signatures"])

p("C16", "Key containers keep, copy and serialise exactly the keys they hold",
  "Symmetric, secured and asymmetric key containers return exactly the key, nonce, info and domain parts they were given, through any sequence of cloning, serialising, restoring in another instance and destroying; keys generated for a size request have that size. A truncated or corrupted serialised container is refused or yields a well-formed container, never an out-of-bounds access, and containers do not share mutable state with their copies.",
  ["histories", "fault_sequences", "inputs"], "all sequences of construct, clone, serialise, corrupt, restore and destroy with random part sizes, under failing allocations",
  "tests check one size of each container once",
  ["SymmetricKey.cpp", "SymmetricSecureKey.cpp", "SymmetricKeySize.cpp", "SymmetricKeyGenerator.cpp", "AsymmetricKey.cpp", "AsymmetricKeyPair.cpp", "AsymmetricSecureKey.cpp", "SecureStream.cpp"], [("length-prefixed serialisation", "*::Serialize / DeSerialize"), ("encryption at rest", "SymmetricSecureKey / SecureStream / AsymmetricSecureKey")], ["parts returned, serialised bytes"])

p("C17", "Secret memory is erased before it is returned to the heap",
  "Memory in which an object keeps secrets from one call to the next (expanded round keys, chaining and authentication state, generator and digest state, buffered random output, the stored key of a container) holds nothing that depends on the secret any more when it goes back to the allocator, on every path: normal destruction, reset, re-keying, growth, and unwinding after an exception or failed allocation. The key containers and the secure stream also erase the plain copies they make inside a call, and a secure vector every block it gives up. Destroying an object leaves nothing of it allocated. The memory pool hands out zeroed, aligned blocks that never overlap a live one, takes every block back, never loses capacity, may be shared by threads, and the secure vector stays usable when locking memory or reserving it fails.",
  ["histories", "fault_sequences"], "all histories of construct, use, reset, re-key, fail and destroy of the key containers, ciphers, macs and generators, with allocation and page-lock failures",
  "a unit test cannot look at memory after it was freed",
  ["SecureVector.h", "SecureMemory.cpp", "MemoryTools.h", "LockingAllocator.h", "MemoryPool.cpp", "SymmetricKey.cpp", "SymmetricSecureKey.cpp", "CTR.cpp", "RHX.cpp", "HMAC.cpp", "HKDF.cpp"], [("clearing destructors", "*State::~*State / Reset"), ("MemoryTools::Clear, SecureMemory::SecureErase", "MemoryTools.h, SecureMemory.cpp")], ["content of heap blocks at the moment of release"])

p("C18", "The thread pool and asynchronous helpers run each task once and always finish",
  "Every task accepted by the thread pool or the asynchronous helpers runs exactly once, its result or exception reaches whoever waits for it, waiting always ends once the tasks end, and shutting down while tasks are queued or running neither hangs, crashes nor loses an accepted task. Event handlers that are attached are called once per event, and detached ones never.",
  ["schedules", "fault_sequences"], "all interleavings of submitting, running, waiting and destroying; thread-creation failures",
  "the tests never use them under more than one interleaving",
  ["ThreadPool.h", "AsyncThread.h", "ParallelCallback.h", "Event.h", "EventHandler.h", "Delegate.h", "ParallelTools.h"], [("queue under a mutex with a condition", "ThreadPool.h")], ["task execution counts, termination"])

p("C19", "Independent objects on different threads never influence each other",
  "When several threads each use their own ciphers, digests, macs, derivation functions, generators, entropy providers, key containers, streams, stream processors or asymmetric engines at the same time, every one of them gets exactly the results it gets alone, under every interleaving; the library keeps no shared mutable state that such use could race on, from the first use of the library on.",
  ["schedules", "inputs"], "all interleavings of two to four threads over all engine kinds, including the very first use of every facility",
  "tests are single threaded but for the parallel modes, so hidden shared state cannot show",
  ["CpuDetect.cpp", "ParallelOptions.cpp", "Rijndael.h", "Serpent.h", "Keccak.cpp", "Skein256.cpp", "KyberBase.cpp", "DLTMBase.cpp", "CSP.cpp", "ProviderBase.cpp"], [("no mutable statics", "all engines")], ["results against a solo run, race detector"])

NA = [
 ("C20", "Algorithms conform to their published specifications", "Every cipher, digest, mac, key derivation function and asymmetric scheme computes the function its specification defines.", "conformance to a published function is a pure function of the input: no schedule, fault or history is involved, and known-answer vectors (which the existing tests run) or proofs address it, not simulation"),
 ("C21", "Padding schemes add and remove exactly their padding", "For every block length and every amount of data in the block, removing the padding an instance added gives the original length back.", "a pure function of a block and a length with a small finite input space: enumeration decides it, nothing for a simulator to schedule or fail; its use inside streaming is covered by C11"),
 ("C22", "Integer, bit and byte-order conversions are exact inverses and carry correctly", "Conversions between integers and bytes in either byte order are mutually inverse, and multi-byte counters add with full carry.", "pure functions of their arguments: no nondeterminism; the counters' use across parallel workers is covered by C01"),
 ("C23", "Secret-dependent operations take secret-independent time", "Comparisons and constant-time primitives do not leak their operands through timing or memory access patterns.", "simulated time is not real time: a deterministic simulator owns the clock and so cannot observe the micro-architectural timing the property is about"),
]
for id, t, s, r in NA:
    p(id, t, s, ["inputs"], "every input", "needs every input, which the tests' vectors only sample", {"C20": ["RHX.cpp", "Keccak.cpp", "SHA2.cpp"], "C21": ["PKCS7.cpp", "X923.cpp", "ESP.cpp", "ZeroOne.cpp"], "C22": ["IntegerTools.h", "BitConverter.cpp"], "C23": ["IntegerTools.h", "MemoryTools.h"]}[id], [("see files", "see files")])
nar = {a: d for a, b, c, d in NA}
with open(V + "/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps({k: v for k, v in x.items() if k[0] != "_"}) + "\n")
LN = "Seeded search over simulated runs of the real library code: every interleaving, fault, datum and machine configuration comes from the seed; violations are confirmed by re-running the seed, minimised, and replayed in a fresh process before they are reported. Sampling, not exhaustive. Trusts the simulator's stand-ins for the Win32 API, CPU identification and entropy instructions, and clang's native build of the sources instead of the project's mingw build."
m = {"version": 1, "setup_cmd": "python3 sim/build.py", "checks": [], "not_applicable": [],
     "notes": "One simulator (/verif/sim) compiled with /repo/CEX's sources; one scenario file per property under /verif/sim/h. No hooks in /repo: the seams are the Win32, libc, pthread, heap and intrinsic interfaces the library already calls."}
for x in P:
    i = x["id"]
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} thorough", "technique": "deterministic simulation with fault injection (seeded schedule and fault search)", "level": "exploration", "level_note": LN, "evidence_file": f"evidence/{i}.json"})
    else:
        m["not_applicable"].append({"property": i, "reason": nar.get(i, "no check built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
