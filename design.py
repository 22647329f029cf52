#!/usr/bin/env python3
"""Writes DESIGN.md from the tables (mk.py, claims.py, known-findings.txt, seeded/)."""
import json,os,glob
here=os.path.dirname(os.path.abspath(__file__))
HDR=open(os.path.join(here,"design.head.md")).read()
TAIL=open(os.path.join(here,"design.tail.md")).read()
CAUGHT={}
PLAN={
 "C01":'contracts/ratchet: one-step lemma over a *pair* of mutually consistent symbolic states, sender real Encrypt, receiver real Decrypt, relation re-established; both ratchet-step and same-step cases; induction gives all histories.',
 "C02":'Decrypt on an arbitrary state and byte string: on every error path the deep snapshot of the ratchet equals the state before.',
 "C03":'after acceptance no state reachable by later operations holds the (header key, number) pair: counters past the number, saved key erased; invariant kept by every operation.',
 "C04":'Decrypt with symbolic gap in current and previous chain, all 32-bit counters; saved keys are exactly those of the skipped numbers; over-limit refused.',
 "C05":'term absence: used message key and chain keys do not occur in the state after Encrypt/Decrypt; fresh randomness enters each new sending step.',
 "C06":'Marshal then Unmarshal: field-by-field equality; wrong-length stored keys refused; clocks arbitrary.',
 "C07":"both sides' CompleteKeyExchange over each other's FillKeyExchange: mirrored states; arbitrary peer values: error without usable state; no panic.",
 "C08":'blobshare: Encrypt/Decrypt/Pack/Unpack inverse, every refusal an error, no panic for any length; key derivation injective in the padded passphrase and salt.',
 "C09":'zkidentity: New is self-consistent; any altered field fails Verify; String/FromString inverse.',
 "C10":"session KX: Initiate and Respond against an arbitrary peer: success only with the peer's proof MAC over the negotiated secrets; honest pair: crossed keys.",
 "C11":'tagstack: thread-modular invariant of the stack under its lock (unique tags, bounded depth) for Push/Pop; construction bounded.',
 "C12":'inidb: map semantics of every operation over arbitrary tables; Save with every step allowed to fail: the file holds the old or the complete new contents at every moment; write/read line format inverse.',
 "C13":"zkserver/account: the accounts directory as ghost state behind the os calls; every step may fail, other operations run whenever the lock is free; every path touched must lie below the named account; Deliver's stored bytes decode to the given fields; the announcing goroutine is verified as a root of its own, including that it never blocks on its own queue.",
 "C14":'session transport: nonce counters strictly increase per sealed message, a refused message consumes none, the reader accepts only the next; size limits on both sides.',
 "C15":"zkserver: handleRendezvous and handleRendezvousPull over an arbitrary rendezvous database, one symbolic token standing for every token; the save is only allowed by the session that read the database last, stored records survive, success follows the save; fetching decodes what storing encoded.",
 "C16":"zkserver: handleSession with all its handlers inlined, sessionWriter, sessionNtfn and welcome; ghost state holds the request being answered and the message outstanding under its tag; the table of outstanding messages is made arbitrary whenever its lock is taken, and one symbolic tag stands for all others, which must stay as they were.",
 "C17":"zkserver: the same session contract, at the call of account.Deliver (sender is the transport's identity; recipient, payload and flag are the request's) and of account.Delete; sessionNtfn passes on every field of a stored message.",
 "C24":"zkserver: handleAccountCreate with validToken and prunePending inlined over an arbitrary token database and clock; one symbolic token stands for all others; creation is allowed only after the save that removed the token by the connection that read the database last.",
 "C25":"zkserver: preSession (gates before handleSession), handleSession (ghost online/registered/disabled-checked state, table of sessions arbitrary at every lock), sessionWriter, sessionNtfn, socketHandler, handleIdentityDisable and handleIdentityEnable.",
 "C18":'zkclient: handleChunkNew and handleChunk over a ghost spool (the stored announcement and the data of one transfer, any other file untouched); every path handed to the operating system is inside the spool, the rename happens only at the announced size and digest and onto a new name; log with an arbitrary nick; send and completeSend over a ghost file (announcement and chunks).',
 "C19":'zkclient: each handler and each command on an arbitrary map of groups, re-havocked whenever the lock is taken; at every release the group and any other group are compared with what was there: only the allowed change, saved or undone; sends are checked against the saved list; one symbolic index stands for every member.',
 "C20":'zkclient: cacheCRPC and handlePush with ghost state "advanced" and "stored" around the ratchet; updateRatchet over a ghost file system (temporary file, synced, closed, renamed).',
 "C26":'zkclient: handlePush (which peer, which ratchet, what is handed to which handler), a round trip of compose and handle for every kind of message, step1IDKX/step2IDKX/step3IDKX, saveIdentity, loadIdentity and the ratchet files, handleResetRatchet; the three windows of an exchange by PIN.',
 "C27":'zkclient: getConversation and groupConversation over an arbitrary set of windows, handlePm, and action for everything that is not a command.',
 "C29":"zkclient: handleRPC with its loop (a ghost server sends anything; what waits under an arbitrary tag is followed through every message), its heartbeat goroutine, the five requests with ghost tags, writeMessage, cacheCRPC.",
 "C28":'zkclient: goOnline with its three phases (the ghost connection carries an arbitrary certificate), goOnlineAndPrint, /acceptnewcert, the account form, the accept window, finalizeAccountCreation, and a round trip of saveServerRecord and parseMyServer/parseMyIdentity.',
 "C22":'every contract that follows real code through its mutex operations: the ghost lock state is checked at each of them and at the end of an operation; a call that a contract stands for counts as taking all locks that the real callee, with all it calls statically, can take; the pairs "held, then taken" of all contracts together must have no cycle.',
 "C23":'every contract that follows real code: no reachable index, slice, nil, map, type, division, conversion, channel or length panic on any path; operations that others stand for have their preconditions as obligations of the callers.',
 "C21":'addressbook: representation invariant (keyed by nick, identities distinct) as map laws; every operation preserves it and is exact.',
}
exec(open(os.path.join(here,"mk.py")).read().split("here=")[0])
exec(open(os.path.join(here,"claims.py")).read())
o=HDR+"## 2. Properties\n\n"
for p in P:
    i=p["id"]
    o+="* **%s** %s. %s "%(i,p["title"],PLAN.get(i,""))
    o+=("Level: "+CLAIM[i] if i in CLAIM else "Not claimed: "+NA.get(i,"contracts not written yet"))+"\n"
o+="\n## 3. Defects found\n\nRepaired ones are `fix:` commits in /repo; known ones stay and are printed by the check.\n\n"
for l in open(os.path.join(here,"known-findings.txt")):
    if l[0]!="#" and l.strip(): o+="* "+l
o+="\n## 4. Planted bugs and the checks that catch them\n\n| seed | property | needs | caught by |\n|---|---|---|---|\n"
for m in sorted(glob.glob(os.path.join(here,"seeded/*/meta.json"))):
    j=json.load(open(m)); n=os.path.basename(os.path.dirname(m))
    o+="| %s | %s | %s | %s |\n"%(n,j["property"],j["needs"].replace("|","/"),CAUGHT.get(n,"check "+j["property"]+" (failed obligation, replayed)"))
o+=TAIL
open(os.path.join(here,"DESIGN.md"),"w").write(o)
