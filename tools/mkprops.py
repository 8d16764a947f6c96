import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=None)))
MIN="src/minimal.rs";RD="src/reader.rs";ST="src/status.rs";MSG="src/message.rs";AEAD="src/encryption/chacha20_poly1305_aead.rs"
ENC="src/encryption.rs";AGR="src/agreement.rs";CW="src/complete/writer.rs";CO="src/complete.rs";SER="src/complete/serde/serializer.rs";DES="src/complete/serde/deserializer.rs";FMT="src/format.rs";SEED="src/seeds.rs"
p("C01","Received bytes never crash the process",
 "Whatever bytes a peer or an attacker delivers, and whatever stage the connection is in, handing them to a read operation of the minimal or of the complete layer returns a value or an error. It never panics, never reads outside the received buffer and never overflows a length computation.",
 ["inputs","histories"],"every byte string handed to every read entry point, in every state reachable by public calls",
 "The tests feed a few dozen well-formed or slightly damaged messages; the length arithmetic and slicing must be safe for every length, every value of the 8-byte size field and every decrypted content.",
 [RD,MIN,AEAD,CO,DES,FMT],[("length checks and header parsing","src/reader.rs read, read_type_headers"),("tag split","src/encryption/chacha20_poly1305_aead.rs decrypt"),("payload and footer slicing","src/minimal.rs read_inner, verify_sig")],
 obs=["MinimalSecureLayer::read","SecureLayer::read","SecureLayer::read_bin"])
p("C02","No order of calls crashes a layer",
 "Any sequence of public operations on a layer, with any arguments, including after reported errors, after degenerate peer keys, after cloning and with any supported configuration, returns a value or an error and never panics. Failure of the operating system's random generator while drawing a seed is the only exception.",
 ["histories","inputs","configurations"],"every finite sequence of public calls on a layer or its clones, with every argument and configuration value",
 "The 'dev error' panics and unreachable!() arms rest on invariants between the negotiation status and which keys are present; tests exercise a handful of call orders and no failing key agreement.",
 [MIN,ST,AGR,ENC,MSG,SER,CW,CO],[("negotiation state machine","src/status.rs apply_action"),("key presence assumptions","src/minimal.rs compute_shared_secret, encrypt_and_write; src/message.rs prepare_message"),("format dispatch","src/complete/serde/serializer.rs serialize_inner")])
p("C03","A fatal error is final",
 "Once a layer has reported a fatal error (received data that is not a well-formed message or cannot be decrypted, a message arriving out of protocol order, too many out-of-order messages, a failed key agreement, a user message written before the negotiation succeeded or whose encapsulation, encryption or writing failed; errors in compressing, serializing, decompressing or deserializing payloads in complete mode are not fatal), it never again delivers a received message, never again produces or writes a message, and can never again be cloned.",
 ["histories","fault_sequences"],"every history containing a fatal error, continued by every sequence of public calls",
 "Each test stops at the first error; whether every fatal error path really latches, and whether anything can unlatch it later, quantifies over all error paths and all continuations.",
 [MIN,ST],[("failure latch","src/minimal.rs every assignment of the failed status; src/status.rs")],
 [("status","negotiation status, including the failed state","src/minimal.rs")],["MinimalSecureLayer::read","MinimalSecureLayer::write_message","MinimalSecureLayer::try_clone"])
p("C04","User data leaves a layer only as AEAD ciphertext",
 "User data handed to a layer for sending reaches the output only as the AEAD encryption, under the key derived from the negotiated secret, of the complete encapsulated message followed by its SHA-256 hash, immediately followed by the authentication tag; nothing else is written. It is written only once the negotiation has been successful.",
 ["inputs","histories"],"every payload, every writer and every history of calls",
 "Tests check that a round trip works, which also holds for extra clear-text copies, a missing hash or a wrong key on both sides; absence of any other output on any path is a universal claim.",
 [MIN,ENC,AEAD,CW],[("encrypt-then-write path","src/minimal.rs write_message, encrypt_and_write"),("AEAD call and tag","src/encryption/chacha20_poly1305_aead.rs encrypt")],obs=["writer passed to write operations"])
p("C05","Delivered user messages were decrypted and hash-checked",
 "A user message is delivered only if its bytes were successfully decrypted and authenticated with the session key and the SHA-256 hash that follows the encapsulated message matches it, and the delivered payload is exactly the payload part of that message. A user message received in clear, or a handshake message received encrypted, is never accepted.",
 ["inputs","histories"],"every received byte string in every reachable state, including messages kept because they arrived before the ACK",
 "Tests corrupt a few chosen bytes; acceptance of any unauthenticated or mis-sliced message by any path (direct, or replayed from the early-message store) is not sampled.",
 [RD,MIN,AEAD],[("decrypt and encryption-state check","src/reader.rs read"),("hash check","src/minimal.rs read_inner")],obs=["messages returned by read operations"])
p("C06","CONNECT is accepted only with a valid signature by the right key",
 "A CONNECT message is accepted only if the Ed25519 signature that ends it verifies, over all bytes that precede it, under the public key it announces, and, when the layer was created with an expected key, only if the announced key is that key. A rejected CONNECT message changes nothing that later decides whose messages are trusted.",
 ["inputs","histories"],"every received byte string and every history of accepted and rejected messages",
 "Tests try one wrong key and one bad signature each on a fresh layer; the claim covers every covered byte range, and what a rejected message leaves behind for later messages.",
 [MIN,RD,"src/signature.rs"],[("signature verification and key pinning","src/minimal.rs read_inner, verify_sig; src/signature.rs verify_sig")],
 [("peer_sig_pubkey","expected or established peer signature key","src/minimal.rs")],["MinimalSecureLayer::read"])
p("C07","ACK is accepted only for our own key and from the same peer",
 "An ACK message is accepted only if its challenge equals the SHA-256 of this layer's own ephemeral public key and the signature that ends it verifies, over all bytes that precede it, under the signature key expected for or established by this connection's peer. This includes an ACK received before the CONNECT message and processed later.",
 ["inputs","histories"],"every received byte string, in both orders of CONNECT and ACK",
 "Tests check one wrong challenge; they never present a correctly challenged ACK signed by another key on the early and late paths.",
 [MIN,RD],[("challenge and signature checks","src/minimal.rs read_inner, take_ack_msg_recv_too_early")],
 [("ack_msg_recv_too_early","ACK kept until the peer key is known","src/minimal.rs")],["MinimalSecureLayer::read","MinimalSecureLayer::take_ack_msg_recv_too_early"])
p("C08","User traffic and cloning need the whole handshake, each step once",
 "A layer delivers or writes user messages and can be cloned only after it has created its CONNECT, accepted the peer's CONNECT, created its ACK and accepted the peer's ACK (clones inherit this). Each of these four steps succeeds at most once per connection, and an ACK is created only after the peer's CONNECT was accepted.",
 ["histories"],"every sequence of public calls and received messages",
 "Tests run the nominal orders and a few wrong ones; the state machine has many more reachable states and orders than the tests visit.",
 [ST,MIN],[("negotiation state machine","src/status.rs apply_action")],[("status","two-thread negotiation progress","src/status.rs")])
p("C09","No user message is delivered twice",
 "Each message number is delivered at most once over the life of a layer, whatever the order, repetition or mixture of arrivals; a clone also refuses every number its original had already delivered when it was cloned. A message refused without a fatal error changes nothing in what will be accepted later.",
 ["histories","inputs","schedules"],"every arrival order and repetition of message numbers over the full 64-bit range",
 "Tests replay two or three numbers; the next-number/out-of-order-set bookkeeping must be right for every history.",
 [MIN],[("nonce checks and orphan list","src/minimal.rs read_inner")],[("next_nonce_expected","lowest number not yet delivered","src/minimal.rs"),("orphan_nonce_list","numbers delivered out of order","src/minimal.rs")],["MinimalSecureLayer::read"])
p("C10","Every fresh authentic message in the window is delivered",
 "After a successful negotiation, an authentic, well-formed user message whose number was not delivered before is always delivered by the read that receives it, in whatever order numbers arrive and whatever its size, as long as fewer than 10,000 out-of-order numbers are outstanding; a message bearing the next expected number is delivered even then.",
 ["histories","inputs"],"every arrival order, every payload length including zero, every number",
 "Tests deliver short sequences; an off-by-one in the window, a size limit or a wrongly remembered number shows only in particular histories.",
 [MIN,RD],[("nonce acceptance","src/minimal.rs read_inner"),("size handling","src/reader.rs read")])
p("C11","Sent messages are numbered 0,1,2,... without gap or repeat",
 "The user messages successfully written by a layer carry consecutive message numbers starting at zero, each exactly once, and a clone continues from its original's position. Receiving, failing or other operations never change the number the next sent message will carry.",
 ["histories"],"every sequence of public calls",
 "Tests send a few messages in sequence; the counter must be right across every interleaving with reads, errors and clones.",
 [MIN,MSG],[("send counter","src/minimal.rs write_message, encapsulate_and_encrypt_and_write_message, try_clone")],[("next_nonce_sent","number of the next sent message","src/minimal.rs")])
p("C12","What a peer can make a layer retain is bounded",
 "However many messages a peer or an attacker delivers, a layer retains at most one early ACK, at most 10,000 early user messages and at most 10,000 out-of-order message numbers; going over a bound is a fatal error.",
 ["histories","inputs"],"every sequence of received messages, including replays",
 "No test sends thousands of messages or replays early ones; unbounded growth needs long histories.",
 [MIN],[("orphan bound","src/minimal.rs read_inner"),("early-message store","src/minimal.rs read_inner")],[("tmp_stack_user_msgs","user messages received before the ACK","src/minimal.rs")])
p("C13","The session key comes from the authenticated exchange",
 "The session key is derived only from the X25519 agreement between the layer's own ephemeral private key and the ephemeral public key carried by the accepted CONNECT message, by PBKDF2-HMAC-SHA384 salted with the larger of the two ephemeral public keys. Its 48 bytes are used as 32 bytes of cipher key, 12 bytes of nonce and 4 bytes of associated data, in that order.",
 ["inputs","histories"],"every peer key and every history",
 "Both test endpoints run the same code, so any symmetric change (weaker hash, no salt, constant key) passes every round-trip test.",
 [AGR,MIN,AEAD,ENC],[("agreement and derivation","src/agreement.rs compute_shared_secret, derive"),("key split","src/encryption/chacha20_poly1305_aead.rs SecretKey::new"),("binding to CONNECT","src/minimal.rs read_inner")])
p("C14","One fresh ephemeral key per layer, one session key",
 "Every layer draws its own ephemeral key pair from the operating system's generator when it is created, announces exactly that public key, uses the private key in at most one agreement, and never replaces the session key once it is established. Random seeds, and the signing key of a layer created without a given seed, are likewise drawn entirely from the operating system's generator.",
 ["histories","inputs"],"every sequence of calls on every layer",
 "A constant, reused or re-announced key passes all round-trip tests.",
 [AGR,MIN,SEED,MSG],[("key generation and single use","src/agreement.rs EphemeralKeyPair; src/minimal.rs create, compute_shared_secret"),("seed generation","src/seeds.rs")],[("ephemeral_kp","unused ephemeral key pair","src/minimal.rs")])
p("C15","Secrets are wiped when dropped",
 "Every value of the library's own types that stores secret seed, shared-secret or session-key bytes overwrites all of those bytes when it is dropped, and such bytes are not copied into vectors, strings or fields of other types that are dropped without being overwritten.",
 ["programs","histories"],"every type that stores secret bytes and every path that creates or moves them",
 "A missing wipe is invisible to any test that does not read freed memory.",
 [SEED,AEAD,AGR,ENC],[("zeroize on drop","src/seeds.rs; src/encryption/chacha20_poly1305_aead.rs")])
p("C16","Secrets never appear in printed or logged output",
 "Formatting a layer, a key or a seed for display, debugging, logging or as part of an error never outputs secret seed, shared-secret or session-key bytes.",
 ["programs","inputs"],"every formatting implementation reachable from a public type and every print or log statement",
 "No test inspects formatted output, and one derived formatter anywhere below a public type leaks.",
 [SEED,AEAD,ENC,MIN,CO],[("Debug implementations","src/seeds.rs; src/encryption/chacha20_poly1305_aead.rs; src/encryption.rs; src/minimal.rs; src/complete.rs")])
p("C17","Messages follow the documented byte layout, both ways",
 "Every message a layer produces has the documented layout: magic value, version 1, big-endian 8-byte length of type, headers and payload, two type bytes, the type's headers, then the payload. The reader takes every field from exactly those offsets and accepts a message only when magic, version, type and signature algorithm have the documented values.",
 ["inputs"],"every payload, key and message number; every received byte string",
 "Encoder and decoder are tested against each other and on a few fixed vectors; boundary lengths and unusual field values are not covered.",
 [MSG,RD,"src/constants.rs",MIN],[("encoder","src/message.rs to_bytes, prepare_message"),("decoder","src/reader.rs read, read_type_headers")])
p("C18","A successful write delivered every byte, once and in order",
 "When an operation that writes to the caller's writer reports success, every byte of the message including signature or authentication tag has been handed over, once and in order, whatever short writes the writer performs. If the writer reports a failure the operation reports an error.",
 ["fault_sequences","inputs"],"every writer behaviour: short writes, failures, any buffer capacity",
 "All tests write to a memory vector with a default buffer, which never writes short.",
 [CW,AEAD,MIN],[("writes to the caller's writer","src/complete/writer.rs; src/encryption/chacha20_poly1305_aead.rs encrypt")])
p("C19","Complete layer signs exactly the handshake bytes it sends",
 "In complete mode every CONNECT or ACK message written is immediately followed by the Ed25519 signature of exactly those bytes, made with the key pair whose public key the CONNECT message announces, which is derived from the caller's seed when one is given. The signing key never signs anything else.",
 ["inputs","histories"],"every payload and every history of calls, with or without a given seed",
 "Tests accept any signature the same library verifies; signing more, less, or other data on some path is not sampled.",
 [CW,CO],[("sign and write","src/complete/writer.rs sign_bin_msg_and_write_sig, write_connect_msg, write_ack_msg"),("key pair creation","src/complete.rs create")],[("sig_key_pair","signature key pair of the complete layer","src/complete.rs")])
p("C20","Complete layer transforms payloads once each way and loses none",
 "In complete mode every payload sent is (serialized with the configured format and that format's code, when it is an object, then) compressed exactly once before it is encapsulated, and every payload received, in a CONNECT, an ACK, a user message or one kept from before the ACK, is decompressed exactly once (then deserialized according to its format code) and returned, in order. An absent payload stays absent. The complete layer refuses to send a payload only when a step fails, when the configured format has no object codec, or when the layer has no key to sign with.",
 ["inputs","histories","configurations"],"every payload, every order of handshake and user messages, every configuration",
 "Tests run a few payloads through nominal orders; the combinations of kept messages, payload presence and formats are not enumerated.",
 [CO,CW,SER,DES],[("compress/uncompress pipeline","src/complete.rs"),("serialize/deserialize pipeline","src/complete/serde/serializer.rs; src/complete/serde/deserializer.rs")])
p("C21","Format codes identify one format and select one codec",
 "Each message format has one distinct four-byte code, reading back the code written for a format yields that format, and every other four bytes are refused. A payload is encoded and decoded by the codec its code names; a format without an object codec is refused with an error in both directions.",
 ["inputs","configurations"],"all 2^32 codes and all formats",
 "Tests read back the five known codes and one unknown one; the codec selected for a received code is only sampled.",
 [FMT,SER,DES],[("code tables","src/format.rs"),("codec dispatch","src/complete/serde/serializer.rs serialize_inner; src/complete/serde/deserializer.rs deserialize_inner")])
p("C22","No failure of a primitive is swallowed",
 "If encryption, decryption, key generation, key agreement, signature key loading, serialization, deserialization, compression, decompression or writing fails during an operation, that operation reports an error; it never reports success, an empty result or substituted data instead.",
 ["fault_sequences","inputs"],"every failing primitive on every path of every public operation",
 "Most primitive failures never happen in the tests.",
 [MIN,RD,CO,CW,SER,DES,AGR,AEAD,MSG],[("error propagation","every fallible call in the library")])
p("C23","Configuration is frozen by cloning, and clones cannot handshake",
 "Before a layer is cloned its configuration can be changed and the change takes effect; after it was cloned, neither it nor any clone can change its configuration, and the attempt reports an error and changes nothing. A clone uses the same session key and configuration as its original and can never produce a CONNECT or ACK message.",
 ["histories"],"every order of cloning, configuration changes and message creation",
 "One test clones once; the claim covers all later histories of the original and of every clone.",
 [MIN,CO],[("cloned flag","src/minimal.rs try_clone, change_config; src/complete.rs try_clone")],[("cloned","layer has been or is a clone","src/minimal.rs")])
p("C24","A key and nonce pair never encrypts two messages",
 "No two messages encrypted under one session key use the same AEAD nonce, in either direction or by a clone, and the key, nonce and associated data of every encryption and decryption come from the negotiated secret.",
 ["histories"],"every pair of messages of a session, both directions and clones",
 "Tests compare decrypted payloads, which is blind to nonce reuse.",
 [AEAD,MIN],[("AEAD parameters","src/encryption/chacha20_poly1305_aead.rs encrypt, decrypt")])
p("C25","Every feature combination builds",
 "The library compiles with every combination of its optional features, including none, and each combination offers the layers and message formats those features name.",
 ["configurations"],"all subsets of the optional features",
 "The tests are only built with all features on.",
 ["Cargo.toml","src/lib.rs","src/config.rs",CO,FMT],[("cfg gates","src/lib.rs; src/config.rs; src/format.rs; src/complete.rs")])
p("C26","Layers can move between threads but never be duplicated silently",
 "Layers and their configuration can be sent to and shared with other threads, and a layer can be duplicated only through its checked clone operation; secret keys and seeds are never implicitly copyable.",
 ["programs"],"every program using the library",
 "These are facts about which programs compile; the tests are single-threaded and contain no program that should not compile.",
 [MIN,CO,SEED,AEAD,AGR],[("auto traits and derives","src/minimal.rs; src/complete.rs; src/seeds.rs; src/encryption/chacha20_poly1305_aead.rs")])
p("C27","Early messages are kept and handed over in order",
 "When a read reports that there is nothing to deliver yet, the message it received was kept: an ACK received before the peer's CONNECT, or user messages received before the peer's ACK. Once they can be processed, every kept message is either handed over, in arrival order and subject to the same checks as any other, or reported as an error; a repeated copy never causes other kept messages to be lost.",
 ["histories","schedules"],"every arrival order and repetition of handshake and user messages",
 "Tests exercise one early ACK and one early user message; order, repetition and several kept messages are not covered.",
 [MIN,CO],[("early stores and their draining","src/minimal.rs take_ack_msg_recv_too_early, drain_tmp_stack_user_msgs; src/complete.rs read_bin")])
p("C28","Valid handshake messages are never refused",
 "Before any fatal error, the first well-formed CONNECT message that is correctly signed by the expected peer key (or by any key it announces when none was expected) is accepted in whatever order the other handshake steps happen, unless the key agreement itself fails; and a correctly challenged and signed ACK answering a CONNECT this layer created is accepted, or kept when it arrives before the peer's CONNECT. Whatever its custom data, each handshake message a layer is entitled to create is created.",
 ["schedules","inputs","histories"],"every order of the four handshake steps, every custom data length including zero",
 "Tests run a few orders with small custom data.",
 [ST,MIN,RD],[("negotiation state machine","src/status.rs apply_action"),("handshake acceptance","src/minimal.rs read_inner")])
NA=[
("C29","Payload round trip is lossless for every value",
 "Whatever payload is compressed, serialized, sent, received, decompressed and deserialized, the receiving side obtains a value equal to the one sent.",
 ["inputs"],"all payload values and configurations"),
("C30","No third party can compute keys or learn from timing",
 "A party knowing neither ephemeral private key cannot compute or distinguish the session keys of two honest layers, nor learn anything about them or about the payloads from timing.",
 ["inputs","histories"],"all key pairs and all observers"),
]
for id,t,s,o,q in NA:
    p(id,t,s,o,q,"Tests sample a few values or one order.",[CO] if id!="C30" else [AGR],[("see DESIGN.md, not applicable","src/complete.rs" if id!="C30" else "src/agreement.rs")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P), max(len(x['title']) for x in P))
