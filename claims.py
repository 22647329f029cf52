SYM="cryptographic primitives are assumed contracts (symbolic, injective, unforgeable); "
CLAIM={
"C01":"proved for all states and messages; "+SYM+"64-bit wall-clock and memory limits are out of scope.",
"C02":"proved for all byte strings and states on every path; "+SYM,
"C03":"proved as an inductive invariant over all states and later operations; "+SYM,
"C04":"proved for all gaps, counters and states; "+SYM,
"C05":"proved for all states and messages as absence of the key terms from the state; "+SYM,
"C06":"proved for all fields; the nested table of skipped keys is a bounded stand-in (at most 2 header keys with 2 keys each), not counted as proved; protobuf encoding itself is trusted.",
"C07":"proved for all exchanged values in both roles; "+SYM,
"C08":"proved for all blobs, keys, salts and nonces; "+SYM+"scrypt parameters are taken as configured.",
"C09":"proved for all names, keys, messages and strings; "+SYM+"xdr encoding is an assumed injective codec.",
"C10":"proved for all inbound byte strings at every step in both roles, and for all honest handshakes; "+SYM+"the ephemeral-key rotation goroutine is out of scope.",
"C11":"take and return proved for all depths and all interleavings (thread-modular lock invariant); construction is a bounded stand-in (depth at most 40), not counted as proved.",
"C12":"proved for all tables, keys, values and failing steps of a save; the listing of tables and pruning are bounded stand-ins (3 tables, 3 directory entries), not counted as proved; the ini parser and the operating system are assumed contracts.",
"C13":"proved for all identities, messages and operation orders, with every filesystem step allowed to fail and other operations allowed whenever the lock is free; the operating system and the user database are assumed contracts, and a message identifier is assumed to be one path component (it comes from the server's own directory listing).",
"C21":"adding, deleting and looking up proved for all books satisfying the representation invariant (preserved by every operation) and all identities; the suffix rule and the full listing are bounded stand-ins (one appended underscore, 3 entries), not counted as proved.",
"C15":"proved for all blobs, lifetimes, tokens and databases, with opening and saving allowed to fail and other sessions running whenever the lock is free; the INI database (C12), xdr encoding and the random source are assumed contracts.",
"C16":"proved for all request streams (one arbitrary request in an arbitrary reachable state of the session, as a loop invariant), all tags and all interleavings at the session's locks and channels; account storage (C13), the tag stack (C11), the transport (C14), the INI database (C12) and xdr are assumed contracts.",
"C17":"proved for all requests of all sessions; account storage (C13), the transport (C10, C14) and xdr are assumed contracts.",
"C24":"proved for all policies, requests, token databases and times, with opening and saving allowed to fail and other connections running whenever the lock is free; account creation (C13), the INI database (C12) and xdr are assumed contracts.",
"C25":"proved for all byte streams and all interleavings at the server's locks and channels, with every step allowed to fail; the key exchange (C10), account storage (C13), json and xdr are assumed contracts; that the operating system ends a read on a closed connection is assumed.",
"C18":"proved for all announcements, chunks and nicks, one operation at a time on an arbitrary state of the transfer (a stored announcement within the limit and under its digest is the invariant carried from one to the next), with every filesystem step allowed to fail, and for all files, of any size and content, that are sent; the operating system, sha256 and xdr are assumed contracts, and the host part of the configured server address is assumed to be one path component.",
"C19":"proved for all group messages and commands in all group states, with saving and sending allowed to fail and other operations running whenever the lock is free; looking an invitation up and the list a kick leaves are bounded stand-ins (one invitation, groups of at most 3 members), not counted as proved; the address book (C21), the INI database (C12), xdr and the terminal are assumed contracts.",
"C20":"proved for all messages and peers with every step allowed to fail; a crash is covered as the order of the steps (temporary file written, synced, closed, renamed, then sent or handled); that a rename after a sync is atomic and durable is assumed of the operating system, and the ratchet (C01 to C07), the tag stack (C11), the transport (C14), xdr and zlib are assumed contracts.",
"C26":"proved for all messages, senders and key exchanges with every step allowed to fail; "+SYM+"the ratchet (C01 to C07), identities (C09), xdr and zlib are assumed contracts.",
"C27":"proved for all identities, nicks, texts and sets of windows, with other operations running whenever the lock is free; the address book (C21) and the terminal library are assumed contracts; a window that the user closes between the moment it is found and the moment its text is drawn is out of scope.",
"C29":"proved for all messages of the server, all requests and all interleavings at the client's locks, the heartbeat included; the transport (C14), the tag stack (C11), xdr and the terminal library are assumed contracts, the handlers of pushed messages are those of C26; what the scheduler's queues do with a message between schedulePRPC and writeMessage is not claimed.",
"C28":"proved for all certificates, identities, replies, properties and answers of the user with every step allowed to fail; TLS, the key exchange (C10), identities (C09), the INI database (C12), xdr and the terminal library are assumed contracts; that a certificate fingerprint identifies a certificate is SHA-256, assumed injective.",
"C22":"proved for every operation under contract (listed in the evidence) on all paths, with every step allowed to fail, and for the order of nested locks over all of them; locks are told apart by the field that holds them; calls through stored functions and what the terminal library runs later are other operations; waiting for anything but a lock (channels, the network, the disk) is out of scope, and so is the mutex that the scheduler (zkclient/msg.go) keeps to itself.",
"C23":"proved for every operation under contract (listed in the evidence) for all inputs in all states that satisfy the stated invariants; that the invariants hold between operations is decided by the contracts of the other properties; the standard library, the terminal library, xdr, zlib and the operating system are assumed not to panic on what they are given; exhausted memory and stack are out of scope, and so are what only the administrator writes (settings) and what the user types.",
"C14":"proved for all messages, sequence values and inbound bytes, as one-step contracts and a two-message lemma; "+SYM,
}
NA={}
