#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json,os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

R="ratchet/ratchet.go"
prop("C01","Ratchet peers stay in step and every in-order message decrypts",
 "Starting from two mutually consistent ratchet states, any message one side encrypts decrypts at the other side to exactly the bytes that were sent. Afterwards the two states are again mutually consistent, whichever side sends next and however often the direction of the conversation changes.",
 ["inputs","histories"],"all messages, all consistent pairs of states (hence, by induction, all histories of alternating sends), all key values",
 "The tests run a few fixed conversations; the guarantee is an invariant of every reachable pair of states and every message.",
 [R],[("encryption and chain step","ratchet/ratchet.go Encrypt"),("decryption and ratchet step","ratchet/ratchet.go Decrypt"),("skipped keys","ratchet/ratchet.go saveKeys, mergeSavedKeys")],
 ["return values of Encrypt and Decrypt"],
 [("ratchet state","root key, chain keys, header keys, counters, ratchet flag","ratchet/ratchet.go Ratchet")])
prop("C02","A rejected ratchet message changes nothing",
 "When a ratchet refuses to decrypt a message - truncated, tampered, forged or otherwise unacceptable - the ratchet's state is exactly what it was before. No byte string makes decryption crash.",
 ["inputs","fault_sequences"],"all byte strings, all ratchet states, at every point where decryption can fail",
 "Tests feed a handful of corrupt messages and do not compare the whole state; atomicity must hold on every failing path.",
 [R],[("decryption","ratchet/ratchet.go Decrypt, trySavedKeys, saveKeys, mergeSavedKeys")],["state of the ratchet after an error"])
prop("C03","A ratchet message is accepted at most once",
 "Once a message has been decrypted successfully, decrypting the same bytes again is refused, immediately and after any further traffic in either direction.",
 ["inputs","histories"],"all messages, all states, all later histories of sends and receives",
 "A test replays a few messages at a few moments; the guarantee is about every later state.",
 [R],[("message numbers and saved keys","ratchet/ratchet.go Decrypt, trySavedKeys")],["result of Decrypt"])
prop("C04","Out-of-order ratchet messages within the window are delivered exactly",
 "Messages that arrive out of order or after losses decrypt to exactly what was sent as long as no more than the fixed limit of messages is skipped, in the current ratchet step and across a ratchet step. A message that would skip more than the limit, or whose number lies in the past without a stored key, is refused.",
 ["inputs","histories","schedules"],"all gaps, all message numbers including the largest, all arrival orders, all states",
 "Tests use small gaps at small counters; the window and the counters range over all 32-bit values.",
 [R],[("skipped keys","ratchet/ratchet.go saveKeys, mergeSavedKeys"),("late delivery","ratchet/ratchet.go trySavedKeys")],["result of Decrypt"])
prop("C05","Ratchet keys are never reused and are forgotten after use",
 "Every message is encrypted under a key that has never encrypted another message, and after a message has been sent or received neither its key nor the chain key it was derived from remains in the sender's or receiver's state, except the keys of skipped messages, which are erased when used. A new sending direction always mixes in fresh randomness.",
 ["inputs","histories"],"all states, all messages, all paths through sending and receiving",
 "Absence of a secret from the state is not observable by a test of round trips.",
 [R],[("chain advance","ratchet/ratchet.go Encrypt, Decrypt, saveKeys"),("consumption of saved keys","ratchet/ratchet.go trySavedKeys")],["state of the ratchet"])
prop("C06","A saved ratchet resumes exactly where it stopped",
 "Saving a ratchet and loading it again yields a ratchet with the same keys, counters, flags and stored skipped-message keys, except keys older than the caller's lifetime, which are dropped. A stored state whose keys have the wrong length is refused.",
 ["inputs","crash_points"],"all ratchet states, all clocks and lifetimes, all stored byte strings",
 "Tests save and load at a couple of points; every field in every state must survive.",
 [R,"ratchet/disk/disk.pb.go"],[("save","ratchet/ratchet.go Marshal"),("load","ratchet/ratchet.go Unmarshal")],["the loaded state"])
prop("C07","Key exchange yields mirrored state and refuses degenerate keys",
 "When two peers complete the ratchet key exchange with each other's messages they hold mirrored states: what one sends with, the other receives with, and they agree on the root key. A missing, malformed, low-order or reflected value in the peer's message is refused with an error, leaving no usable session and never crashing.",
 ["inputs"],"all exchanged byte strings, all keys, both roles",
 "Tests exercise one honest exchange and a fixed list of points.",
 [R],[("key exchange","ratchet/ratchet.go FillKeyExchange, CompleteKeyExchange"),("point validation","ratchet/ratchet.go isValidPoint")],["ratchet states after the exchange"])
prop("C08","Shared blobs decrypt to what was encrypted or not at all",
 "Encrypting a blob and decrypting the result with the same key returns exactly the original bytes, and packing then unpacking a blob with its salt and nonce returns the same three values. A blob that is too short, altered, or opened under another key or nonce is refused with an error and never crashes the program. A key is derived again from the same passphrase and salt, and another salt, or a passphrase that differs in more than trailing zero bytes, gives another key.",
 ["inputs","fault_sequences"],"all blobs, keys, salts and nonces of every length",
 "Tests use a few sizes and do not truncate or alter blobs.",
 ["blobshare/blobshare.go"],[("encryption","blobshare/blobshare.go Encrypt, Decrypt"),("packing","blobshare/blobshare.go PackNonce, PackSaltNonce, UnpackNonce, UnpackSaltNonce"),("key derivation","blobshare/blobshare.go NewKey, DeriveKey")],["returned bytes and errors"])
prop("C09","An identity verifies only with its own key and intact contents",
 "A freshly created identity is self-consistent: its handle is the digest of its public key and its self-signature verifies. A public identity whose names, keys, handle or signature were altered does not verify, signatures verify only for the exact message and key, and the textual form of a handle converts back to exactly that handle and nothing else of another length.",
 ["inputs"],"all names, keys, messages and strings",
 "Tests flip selected fields of one identity.",
 ["zkidentity/zkidentity.go"],[("creation","zkidentity/zkidentity.go New"),("verification","zkidentity/zkidentity.go Verify, VerifyMessage"),("text form","zkidentity/zkidentity.go String, FromString, Fingerprint")],["Verify, VerifyMessage and FromString results"])
prop("C10","A session key exchange succeeds only with a peer that proved its key",
 "When both ends run the session handshake with each other they end with crossed keys: each reads with the key the other writes with, and each has authenticated the other's identity. Whatever the remote end sends, the handshake reports success only if the remote end proved knowledge of the negotiated secrets, and malformed messages produce an error rather than a crash.",
 ["inputs","schedules"],"all inbound byte strings at every step, both roles, all randomness",
 "Tests run honest handshakes; the guarantee is against every remote behaviour.",
 ["session/kx.go"],[("handshake","session/kx.go Initiate, Respond"),("proofs","session/kx.go sendProof, recvProof"),("keys","session/kx.go deriveKeys")],["handshake result and session keys"])
prop("C11","Tags are unique while outstanding and never exceed the depth",
 "A tag handed out by the tag stack is below the configured depth and is not handed out again until it has been returned. When every tag is outstanding the request fails, returning more tags than were taken fails, and a failed operation changes nothing.",
 ["histories","schedules"],"all depths, all sequences and interleavings of takes and returns",
 "Tests run short sequences at one depth.",
 ["tagstack/tagstack.go"],[("take and return","tagstack/tagstack.go Pop, Push, PushUnlocked"),("construction","tagstack/tagstack.go New, NewBlocking")],["returned tags and errors"])
prop("C12","The INI database behaves as a persistent map",
 "A record that was set reads back with exactly the value set until it is deleted or replaced, other records and tables are unaffected, and deleted or never-set records are reported missing. Saving and reopening the database yields the same tables and records (a record that the file could not hold is refused), and a failed save is reported and leaves the file with its previous or the complete new contents.",
 ["inputs","histories","crash_points","fault_sequences"],"all tables, keys and values, all operation sequences, every failing step of a save",
 "Tests store a few records and never fail a write.",
 ["inidb/inidb.go"],[("records","inidb/inidb.go Get, Set, Del, NewTable, DelTable, Records, Tables"),("file","inidb/inidb.go Save, New, readINI")],["returned values, file contents"])
prop("C13","Server accounts are never overwritten and disabling is exact",
 "Creating an account never replaces or alters an existing one, a disabled account is not active, and disabling then enabling an account restores it unchanged. A message delivered to an active account is stored with the given sender, recipient, cleartext flag and time, a message announced to an online account carries what was stored, and deleting a stored message removes only that message of that account. A failed delivery stores nothing and damages no stored message.",
 ["inputs","histories","fault_sequences"],"all identities, messages and operation sequences, every failing filesystem step",
 "Tests create one account and deliver a few messages.",
 ["zkserver/account/account.go"],[("accounts","zkserver/account/account.go Create, Enable, Disable"),("mailbox","zkserver/account/account.go Deliver, Delete, Online")],["account directory, stored messages"])
prop("C14","Session messages use strictly increasing, never repeated nonces",
 "Every message written on a session is sealed under a nonce that no other message with that key used, and every accepted message is the next one in the sender's order: dropped, replayed, reordered or altered messages are refused. Messages above the negotiated size are refused on both sides.",
 ["inputs","histories"],"all messages and sequence values, all inbound bytes",
 "Tests exchange a few messages in order.",
 ["session/kx.go"],[("sequence","session/kx.go incSeq"),("transport","session/kx.go readWithKey, writeWithKey, Read, Write")],["bytes on the wire, returned messages"])
prop("C15","Rendezvous blobs are stored under fresh tokens and returned exactly",
 "The server stores a rendezvous blob under a token that no other stored blob uses, and reports the token only after the blob is stored. Fetching that token returns exactly that blob, in whatever order sessions store and fetch and even when they do so at the same time, and fetching a token that is not stored yields an error without a blob. A blob or lifetime above the server's limits is refused and stores nothing, and a failed save is never reported as success.",
 ["inputs","histories","schedules","fault_sequences"],"all tokens, blobs and lifetimes, all interleavings of sessions, every failing save",
 "There is no test of the server.",
 ["zkserver/rendezvous.go"],[("storing","zkserver/rendezvous.go handleRendezvous"),("fetching","zkserver/rendezvous.go handleRendezvousPull")],["server replies, stored files"])
prop("C16","The server bounds tags and acknowledgements touch only the named message",
 "A request whose tag is outside the tag depth the server announced ends the session without being carried out, each accepted request is answered exactly once, under its own tag, and an acknowledgement deletes at most the one message it was issued for, of the authenticated account. A tag that is still outstanding is never used for another server request, and acknowledging a tag under which nothing is outstanding ends the session.",
 ["inputs","histories","schedules"],"all request streams of a client, all tags",
 "There is no test of the server.",
 ["zkserver/zkserver.go"],[("session loop","zkserver/zkserver.go handleSession, sessionWriter, sessionNtfn")],["messages written to the client, stored messages"])
prop("C17","The server stamps messages with the authenticated sender",
 "A message the server accepts for delivery is stored under the sender identity the session authenticated, whatever the request claims, and is delivered to the recipient named in the request unchanged. A client cannot act in another identity's name.",
 ["inputs"],"all requests of all authenticated clients",
 "There is no test of the server.",
 ["zkserver/zkserver.go","zkserver/cache.go"],[("message handling","zkserver/zkserver.go handleSession, zkserver/cache.go handleCache")],["stored message fields"])
prop("C18","Files arrive as they were sent, inside the spool directory",
 "Whatever names, sizes, offsets and digests a peer puts into a file transfer, the client writes only below its spool directory: what is in transfer below the directory of that peer, and a completed file under a new name that replaces no existing file. A completed file consists of exactly the chunks received in order of their offsets and has exactly the announced size and digest, and no transfer stores more than was announced or than the server's attachment limit allows. A file the client sends is announced by its name only, with its own size and digest, to who the user named, and then sent from its start, each chunk once and as it was read. Nor does the nick that a peer chose lead the log of its conversation out of the log directory.",
 ["inputs","histories","fault_sequences"],"all announcements and chunks of a hostile peer in any order, all files that are sent, all nicks, every failing filesystem step",
 "There is no test of the client.",
 ["zkclient/chunk.go","zkclient/send.go","zkclient/zkclient.go"],[("sending","zkclient/send.go send, completeSend"),("announcement","zkclient/chunk.go handleChunkNew"),("chunks","zkclient/chunk.go handleChunk"),("logs","zkclient/zkclient.go log")],["paths and contents of files written"])
prop("C19","Only members use a group chat and only its administrator changes it",
 "A group message is shown only if its sender is in the client's current list of that group. A membership list, a kick or a dissolution is accepted only from the group's administrator, never leads to an earlier generation and never takes the group from its administrator; the changes that a list makes are shown only once it is accepted. The administrator lets an identity join only with the outstanding invitation that was made for it, once, and a part removes only its sender. Only the administrator can invite to, kick from or dissolve a group, and every other member is told. A change of the members is saved before it is announced to others, and one that can not be saved is undone. Messages about unknown groups or from outsiders change no group.",
 ["inputs","histories","schedules","fault_sequences"],"all group messages of all senders and all group commands in all group states, every failing save, other operations running whenever the lock is free",
 "There is no test of the client.",
 ["zkclient/groupchat.go","zkclient/groupinvites.go","zkclient/push.go","zkclient/zkclient.go"],[("messages of peers","zkclient/push.go handleGroupMessage, handleGroupList, handleGroupKick, handleGroupKill, handleGroupPart, handleGroupJoin, handleGroupInvite"),("commands of the user","zkclient/groupchat.go gcNew, gcInvite, gcJoin, gcKick, gcPart, gcKill, gcMessage"),("invitations","zkclient/groupinvites.go")],["client's groups, messages shown, messages sent"],
 [("groups","name, generation and members, the first of them the administrator","zkclient/zkclient.go ZKC.groups")])
prop("C20","The client saves its ratchet before a message leaves",
 "The client hands an encrypted message to the network only after the ratchet advanced by encrypting it was stored, complete and synced to disk, in place of the old one, and it handles a received message only after the ratchet that decrypted it was stored. If storing fails, the message is neither sent nor shown, and the ratchet that was stored before is left as it was.",
 ["crash_points","fault_sequences"],"every failure of every filesystem step, every crash between steps, all messages and peers",
 "There is no test of the client.",
 ["zkclient/msg.go","zkclient/push.go","zkclient/identity.go"],[("sending","zkclient/msg.go cacheCRPC"),("receiving","zkclient/push.go handlePush"),("ratchet storage","zkclient/identity.go updateRatchet")],["order of file writes, network writes and handling"])
prop("C21","The address book never confuses identities",
 "An identity is listed at most once, nicknames shown for two identities are never equal, and looking up a nickname or identity returns exactly the entry that was added under it. Deleting an entry removes that entry only.",
 ["inputs","histories"],"all identities and nicks, all operation sequences",
 "Tests use a few fixed entries.",
 ["zkclient/addressbook/addressbook.go"],[("entries","zkclient/addressbook/addressbook.go Add, Del, FindIdentity, FindNick")],["lookup results"])
prop("C22","Locks are released on every path and taken in order",
 "Every operation of the client, the server and the components they share releases each lock it takes on every path, including error paths, and releases no lock it does not hold. No operation takes a lock it already holds, not even for reading a second time, and nested locks are taken in one order by all operations, so that no set of operations waits for each other's locks forever.",
 ["schedules","fault_sequences"],"all paths of all operations of the shared components, every failing step, all interleavings",
 "A leaked lock on a rare error path is invisible to tests that do not fail that step, and locks taken in different orders need a particular interleaving to block.",
 ["zkclient/zkclient.go","zkclient/mainwindow.go","zkclient/msg.go","zkclient/push.go","zkclient/groupchat.go","zkserver/zkserver.go","zkserver/rendezvous.go","zkserver/pending.go","zkserver/account/account.go","tagstack/tagstack.go","inidb/inidb.go","zkclient/addressbook/addressbook.go","session/kx.go","debug/debug.go"],[("client locks","zkclient/zkclient.go ZKC: RWMutex, ratchetMtx, write, pendingIdentitiesMutex"),("server locks","zkserver/zkserver.go ZKS: Mutex, rendezvousMtx, pendingMtx; sessionContext: Mutex; zkserver/account/account.go Account: Mutex"),("shared components","tagstack, inidb, zkclient/addressbook, session, debug")],["lock state when an operation returns, locks held when another is taken"])
prop("C23","Malformed input never crashes a client or server",
 "Nothing that a peer, a client or a server sends, in whatever order, and no stored file that it influenced makes the other side crash: neither the server while it serves any byte stream of any connection, nor the client while it handles any message of its server or of a peer, shows what these contain, or goes offline and online again. Malformed input is answered with an error or ignored.",
 ["inputs","histories"],"all byte strings and field values of every message type in all states of a client and a server",
 "Tests do not feed malformed messages to the handlers.",
 ["zkserver/zkserver.go","zkserver/account.go","zkserver/cache.go","zkserver/rendezvous.go","zkserver/account/account.go","zkclient/zkclient.go","zkclient/push.go","zkclient/chunk.go","zkclient/groupchat.go","zkclient/groupinvites.go","zkclient/mainwindow.go","ratchet/ratchet.go","session/kx.go","blobshare/blobshare.go","zkidentity/zkidentity.go","inidb/inidb.go","rpc/rpc.go"],[("server","zkserver/zkserver.go preSession, handleSession, sessionNtfn, sessionWriter, socketHandler"),("client","zkclient/zkclient.go handleRPC, goOnline, printf, focus; zkclient/push.go handlePush and its handlers; zkclient/chunk.go"),("decoders","ratchet/ratchet.go Decrypt, CompleteKeyExchange, Unmarshal; session/kx.go; blobshare; zkidentity; inidb")],["absence of run-time panics"])

prop("C24","Accounts are created only as the policy allows",
 "The server creates an account only on request and only if the configured policy is yes, or if it is token and the request carries a stored token that has not expired. A token is removed from disk before it is accepted and is accepted at most once, even by connections that use it at the same time, and other unexpired tokens stay valid. A refused or failed creation is reported as a failure, and an existing account is never replaced.",
 ["inputs","histories","schedules","fault_sequences"],"all policies, requests, token databases and times, all interleavings of connections, every failing save",
 "There is no test of the server.",
 ["zkserver/account.go","zkserver/pending.go","zkserver/zkserver.go"],[("policy","zkserver/account.go handleAccountCreate"),("tokens","zkserver/pending.go validToken, prunePending")],["accounts that exist, stored tokens, replies"])
prop("C25","Only enabled, authenticated accounts get a session, and its end is clean",
 "A connection gets a session only after a completed key exchange and only for the identity it authenticated, if that identity has an account that is not disabled. However a session ends, its account goes offline, its own entry and no other is removed from the table of sessions, and its writers are told to stop, so the account can come back. A further connection of an account ends the session in its way, and disabling an account ends its session even when that session is only just starting.",
 ["inputs","histories","schedules","fault_sequences"],"all byte streams of clients, all interleavings of sessions and administration commands, every failing step",
 "There is no test of the server.",
 ["zkserver/zkserver.go","zkserver/account.go"],[("admission","zkserver/zkserver.go preSession"),("life of a session","zkserver/zkserver.go handleSession, sessionWriter, sessionNtfn"),("administration","zkserver/zkserver.go socketHandler, zkserver/account.go handleIdentityDisable, handleIdentityEnable")],["sessions served, online accounts, table of sessions"])
prop("C26","The client attributes messages and keys only to the peer that authenticated them",
 "A message is handled as a peer's only if that peer's own ratchet, under the client's lock, decrypted it, and the handler gets exactly what the peer sent, compressed or not. In a key exchange the client keeps an identity only if it verifies and is the sender's own, stores the ratchet made with it under that identity, and lets no later exchange replace an identity it has. In an exchange by PIN the user is asked only about an identity that was encrypted with the password and verifies, and only one that the user accepts is answered or kept. A message that is not encrypted can do nothing but reset the ratchet of its sender.",
 ["inputs","histories"],"all pushed messages of all senders in all states, all key exchange messages, every failing step",
 "There is no test of the client.",
 ["zkclient/push.go","zkclient/identity.go","zkclient/zkclient.go","zkclient/reset.go","zkclient/msg.go","zkclient/kxwindow.go","zkclient/kxacceptwindow.go","zkclient/acceptclientfingerprint.go"],[("by PIN","zkclient/kxwindow.go, zkclient/kxacceptwindow.go, zkclient/acceptclientfingerprint.go KeyHandler"),("receiving","zkclient/push.go handlePush"),("key exchange","zkclient/zkclient.go step1IDKX, zkclient/push.go step2IDKX, step3IDKX"),("identities","zkclient/identity.go saveIdentity, loadIdentity"),("reset","zkclient/reset.go handleResetRatchet")],["handlers called, identities and ratchets stored"])
prop("C27","What is shown in and typed into a window belongs to the peer or group of that window",
 "A private message is shown, as it was sent, in the window of the identity that sent it and in no other, however peers choose their nicks, and a window of a group is never that of a peer. What the user types into a window is sent once, to exactly the peer, or group, whose window it is.",
 ["inputs","histories","schedules"],"all identities, nicks, texts and sets of windows, other operations running whenever the lock is free",
 "There is no test of the client.",
 ["zkclient/zkclient.go","zkclient/push.go","zkclient/mainwindow.go"],[("windows","zkclient/zkclient.go getConversation, groupConversation"),("messages","zkclient/push.go handlePm"),("typing","zkclient/mainwindow.go action")],["window a message is shown in, recipient of what is typed"])
prop("C28","The client uses only the server its user accepted",
 "The client starts a session only on a connection whose certificate is the one on record and only after a key exchange with the identity on record. A changed certificate is refused and shown, replaces the old one only when the user accepts exactly the certificate that was shown, and an identity is never replaced. A new account is asked for only at a server whose identity verified and which the user accepted, or at a known server with its known certificate; the record of it is on disk before the account is used, and reads back as it was accepted. A connection that is not used is closed, and server properties that cannot work are refused.",
 ["inputs","histories","fault_sequences"],"all certificates, identities, server replies and properties, all answers of the user, every failing step",
 "There is no test of the client.",
 ["zkclient/zkclient.go","zkclient/welcome.go","zkclient/acceptserverfingerprint.go","zkclient/mainwindow.go"],[("going online","zkclient/zkclient.go goOnline, preSessionPhase, sessionPhase, welcomePhase"),("new certificate","zkclient/zkclient.go goOnlineAndPrint, zkclient/mainwindow.go action"),("account","zkclient/welcome.go KeyHandler, finalizeAccountCreation, zkclient/accept.go KeyHandler"),("record","zkclient/zkclient.go saveServerRecord, parseMyServer, parseMyIdentity")],["sessions opened, certificate and identity recorded, accounts asked for"])
prop("C29","A session of the client: every message is acknowledged once handled, every tag used for one thing",
 "Each message the server pushes is handled once, as it came, and acknowledged under its tag only after that and before the next is read. A reply frees exactly the tag it came under, and only one below the agreed depth; an acknowledgement runs the callback of exactly the message sent under its tag, once. What the client asks of the server goes out once and unaltered, under a tag that nothing outstanding uses, and a request that is not sent leaves its tag free and nothing else done. Keys are exchanged with an identity of the directory only if it verifies and the user asked for it. However a session ends, the client is offline afterwards, its connection closed, and sends nothing.",
 ["inputs","histories","schedules","fault_sequences"],"all messages of the server in all orders, all requests, other operations running whenever the locks are free, every failing step",
 "There is no test of the client.",
 ["zkclient/zkclient.go","zkclient/msg.go","zkclient/reset.go"],[("session","zkclient/zkclient.go handleRPC"),("requests","zkclient/zkclient.go cache, rendezvous, fetch, find, reset"),("sending","zkclient/zkclient.go writeMessage, zkclient/msg.go cacheCRPC")],["messages handled, acknowledged and sent, tags in use, callbacks run"])

here=os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(here,"claims.py")).read())
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
T="contract-based deductive verification: weakest-precondition style symbolic execution of the real Go code's SSA against contracts, obligations discharged by SMT"
checks=[];na=[]
for p in P:
    i=p["id"]
    if i in CLAIM:
        checks.append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,"technique":T,"level":"proof","level_note":CLAIM[i]})
    else:
        na.append({"property":i,"reason":NA.get(i,"contracts not written yet")})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: contracts are laid over the source at load time (go/packages overlay), so the verified text is the code that is built. Commits in /repo are fixes only."}
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
import subprocess,sys; subprocess.run([sys.executable, os.path.join(here,"design.py")], check=True)
