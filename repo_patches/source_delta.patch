From 148b4c1556f6b6f44a4e9f1ca3260e60a2dcd43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:23 +0000
Subject: [PATCH 01/55] fix: deliver empty messages that arrive out of order

A delayed empty message was opened with its saved key, the key was deleted
and the nil plaintext was then taken for "no saved key": Decrypt went on,
failed and the message was lost.
---
 ratchet/ratchet.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ratchet/ratchet.go b/ratchet/ratchet.go
index 833d87c..963be76 100644
--- a/ratchet/ratchet.go
+++ b/ratchet/ratchet.go
@@ -313,7 +313,9 @@ func (r *Ratchet) trySavedKeys(ciphertext []byte) ([]byte, error) {
 
 		sealedMessage := ciphertext[sealedHeaderSize:]
 		copy(nonce[:], header[nonceInHeaderOffset:])
-		msg, ok := secretbox.Open(nil, sealedMessage, &nonce, &msgKey.key)
+		// Callers tell "no saved key" by a nil message, thus an empty
+		// message must not be nil.
+		msg, ok := secretbox.Open([]byte{}, sealedMessage, &nonce, &msgKey.key)
 		if !ok {
 			return nil, errors.New("ratchet: corrupt message")
 		}
-- 
2.43.0


From 3ca30a4eb52dad321aefc23453b9b81954dc9240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:23 +0000
Subject: [PATCH 02/55] fix: reject the message number that overflows the
 receive count

saveKeys never terminated (or wrote to a nil map) when the message number
was the largest uint32, and the receive count wrapped to zero.
---
 ratchet/ratchet.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ratchet/ratchet.go b/ratchet/ratchet.go
index 963be76..4ea56ef 100644
--- a/ratchet/ratchet.go
+++ b/ratchet/ratchet.go
@@ -13,6 +13,7 @@ import (
 	"errors"
 	"hash"
 	"io"
+	"math"
 	"math/big"
 	"time"
 
@@ -344,6 +345,12 @@ func (r *Ratchet) saveKeys(headerKey, recvChainKey *[32]byte, messageNum, receiv
 		return
 	}
 
+	if messageNum == math.MaxUint32 {
+		// The received count can not go past this message number.
+		err = errors.New("ratchet: message number overflow")
+		return
+	}
+
 	missingMessages := messageNum - receivedCount
 	if missingMessages > maxMissingMessages {
 		err = errors.New("ratchet: message exceeds reordering limit")
-- 
2.43.0


From 9125a85023750c0d3ca71d3022a806271689e68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:25 +0000
Subject: [PATCH 03/55] fix: return an error for a blob too short to hold salt
 and nonce

---
 blobshare/blobshare.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/blobshare/blobshare.go b/blobshare/blobshare.go
index c0d4251..f6e77ff 100644
--- a/blobshare/blobshare.go
+++ b/blobshare/blobshare.go
@@ -78,6 +78,9 @@ func UnpackSaltNonce(packed []byte) (salt *[32]byte, nonce *[24]byte,
 		saltR  [32]byte
 		nonceR [24]byte
 	)
+	if len(packed) < len(saltR)+len(nonceR) {
+		return nil, nil, nil, fmt.Errorf("short blob: %v", len(packed))
+	}
 	copy(saltR[:], packed[0:32])
 	copy(nonceR[:], packed[32:32+24])
 	salt = &saltR
@@ -99,6 +102,9 @@ func PackNonce(nonce *[24]byte, data []byte) []byte {
 
 func UnpackNonce(packed []byte) (nonce *[24]byte, data []byte, err error) {
 	var nonceR [24]byte
+	if len(packed) < len(nonceR) {
+		return nil, nil, fmt.Errorf("short blob: %v", len(packed))
+	}
 	copy(nonceR[:], packed[0:24])
 	nonce = &nonceR
 
-- 
2.43.0


From 1cf6c5bf3d3766ced2b7bf2c557f06a0a78921e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 04/55] fix: verify that an identity is the digest of its
 public key

---
 zkidentity/zkidentity.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zkidentity/zkidentity.go b/zkidentity/zkidentity.go
index 40e8468..a135447 100644
--- a/zkidentity/zkidentity.go
+++ b/zkidentity/zkidentity.go
@@ -146,6 +146,11 @@ func (p PublicIdentity) Fingerprint() string {
 }
 
 func (p *PublicIdentity) Verify() bool {
+	// the identity is the digest of the public key
+	if p.Identity != sha256.Sum256(p.Key[:]) {
+		return false
+	}
+
 	d := sha256.New()
 	d.Write([]byte(p.Name))
 	d.Write([]byte(p.Nick))
-- 
2.43.0


From 55c51d99cc15ff107a01c5f7ff8147c9b418d329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:12 +0000
Subject: [PATCH 05/55] fix: keep the write sequence when a message is too
 large

---
 session/kx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/session/kx.go b/session/kx.go
index 633d269..12fa777 100644
--- a/session/kx.go
+++ b/session/kx.go
@@ -417,10 +417,11 @@ func (kx *KX) Read() ([]byte, error) {
 
 func (kx *KX) writeWithKey(data []byte, k *[32]byte) error {
 	payload := secretbox.Seal(nil, data, &kx.writeSeq, k)
-	incSeq(&kx.writeSeq)
 	if uint(len(payload)) > kx.MaxMessageSize {
+		// nothing is sent, the peer expects the same sequence next
 		return ErrOverflow
 	}
+	incSeq(&kx.writeSeq)
 	_, err := xdr.Marshal(kx.Conn, payload)
 	if err != nil {
 		return ErrMarshal
-- 
2.43.0


From 7bc26ff68d3737f2b77dfcc1069a142ac91c89ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:35 +0000
Subject: [PATCH 06/55] fix: write the default table of an inidb before all
 others

---
 inidb/inidb.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index 392df5e..ba9ce51 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -106,16 +106,20 @@ func (i *INIDB) Save() error {
 		return fmt.Errorf("could not create temporary file: %v", err)
 	}
 
-	// save all records
+	// save all records; those of the default table come first since they
+	// are not preceded by a table header
 	fmt.Fprintf(f, "%v\n", auto)
+	for rk, rv := range i.tables[""] {
+		fmt.Fprintf(f, "%v = %v\n", rk, rv)
+	}
 	for tk, tv := range i.tables {
-		if tk != "" {
-			fmt.Fprintf(f, "[%v]\n", tk)
+		if tk == "" {
+			continue
 		}
+		fmt.Fprintf(f, "\n[%v]\n", tk)
 		for rk, rv := range tv {
 			fmt.Fprintf(f, "%v = %v\n", rk, rv)
 		}
-		fmt.Fprintf(f, "\n")
 	}
 	f.Close()
 
-- 
2.43.0


From c8e489782719c5e369bfe6e6f626a71bd8d871fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:36 +0000
Subject: [PATCH 07/55] fix: report a failed write of an inidb instead of
 replacing the file

---
 inidb/inidb.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index ba9ce51..e0c75dc 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -10,6 +10,7 @@
 package inidb
 
 import (
+	"bufio"
 	"errors"
 	"fmt"
 	"io/ioutil"
@@ -108,20 +109,28 @@ func (i *INIDB) Save() error {
 
 	// save all records; those of the default table come first since they
 	// are not preceded by a table header
-	fmt.Fprintf(f, "%v\n", auto)
+	w := bufio.NewWriter(f)
+	fmt.Fprintf(w, "%v\n", auto)
 	for rk, rv := range i.tables[""] {
-		fmt.Fprintf(f, "%v = %v\n", rk, rv)
+		fmt.Fprintf(w, "%v = %v\n", rk, rv)
 	}
 	for tk, tv := range i.tables {
 		if tk == "" {
 			continue
 		}
-		fmt.Fprintf(f, "\n[%v]\n", tk)
+		fmt.Fprintf(w, "\n[%v]\n", tk)
 		for rk, rv := range tv {
-			fmt.Fprintf(f, "%v = %v\n", rk, rv)
+			fmt.Fprintf(w, "%v = %v\n", rk, rv)
 		}
 	}
-	f.Close()
+	err = w.Flush()
+	if err2 := f.Close(); err == nil {
+		err = err2
+	}
+	if err != nil {
+		_ = os.Remove(f.Name())
+		return fmt.Errorf("could not write temporary file: %v", err)
+	}
 
 	// backup original
 	if !i.created {
-- 
2.43.0


From eb09b57679bb33cbf96e306ff105627272c24ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:30 +0000
Subject: [PATCH 08/55] fix: keep the inidb file in place until its replacement
 is complete

---
 inidb/inidb.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index e0c75dc..4894be3 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -89,7 +89,7 @@ func New(filename string, create bool, depth int) (*INIDB, error) {
 // follows:
 //	1. Check if the database is dirty and abort process if it isn't
 //	2. Create temporary file that contains all memory tables and records
-//	3. Backup original file
+//	3. Copy original file to a backup
 //	4. Rename temporary file to the original file name
 // This creates a running log of flushes.
 //
@@ -132,14 +132,16 @@ func (i *INIDB) Save() error {
 		return fmt.Errorf("could not write temporary file: %v", err)
 	}
 
-	// backup original
+	// backup original; it remains in place until it is replaced
 	if !i.created {
 		backup := fmt.Sprintf("%v.%v",
 			i.filename,
 			time.Now().Format("20060102.150405.000000000"))
-		err = os.Rename(i.filename, backup)
+		err = copyFile(i.filename, backup)
 		if err != nil {
-			return fmt.Errorf("could not rename original file: %v",
+			_ = os.Remove(backup)
+			_ = os.Remove(f.Name())
+			return fmt.Errorf("could not backup original file: %v",
 				err)
 		}
 	}
@@ -147,6 +149,7 @@ func (i *INIDB) Save() error {
 	// rename new one
 	err = os.Rename(f.Name(), i.filename)
 	if err != nil {
+		_ = os.Remove(f.Name())
 		return fmt.Errorf("could not rename new file: %v", err)
 	}
 
@@ -155,6 +158,15 @@ func (i *INIDB) Save() error {
 	return i.prune()
 }
 
+// copyFile copies the contents of file from to a new file to.
+func copyFile(from, to string) error {
+	data, err := ioutil.ReadFile(from)
+	if err != nil {
+		return err
+	}
+	return ioutil.WriteFile(to, data, 0600)
+}
+
 func (i *INIDB) prune() error {
 	if i.depth < 0 {
 		return nil
-- 
2.43.0


From 838fe92956879d53e89acf1ac6d0819db3cad60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 09/55] fix: save a new table of an inidb even when it has no
 records

---
 inidb/inidb.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index 4894be3..143d41a 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -251,6 +251,9 @@ func (i *INIDB) NewTable(table string) {
 	i.mtx.Lock()
 	defer i.mtx.Unlock()
 
+	if _, ok := i.tables[table]; !ok {
+		i.dirty = true
+	}
 	i.tables.Section(table)
 }
 
-- 
2.43.0


From fee2e5116c563665a81583503241bf2e7dfa1052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:52 +0000
Subject: [PATCH 10/55] fix: refuse inidb names and values that an ini file
 cannot hold

---
 inidb/inidb.go | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index 143d41a..f8259e0 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -30,6 +30,7 @@ const (
 var (
 	ErrNotFound = errors.New("record not found")
 	ErrCreated  = errors.New("database created")
+	ErrInvalid  = errors.New("invalid name or value")
 )
 
 // INIDB is an opaque structure that contains the database context.
@@ -214,9 +215,30 @@ func (i *INIDB) Get(table string, key string) (string, error) {
 	return value, nil
 }
 
+// validValue returns true if s reads back unaltered from an ini file.
+func validValue(s string) bool {
+	return s == strings.TrimSpace(s) && !strings.Contains(s, "\n")
+}
+
+// validKey returns true if s can be used as the name of a record.
+func validKey(s string) bool {
+	return s != "" && validValue(s) && !strings.Contains(s, "=") &&
+		s[0] != '#' && s[0] != ';'
+}
+
+// validTable returns true if s can be used as the name of a table.
+func validTable(s string) bool {
+	return validValue(s) && !strings.Contains(s, "=")
+}
+
 // Set creates/overwrites a record in table.  If table does not exist
-// ErrNotFound is returned.
+// ErrNotFound is returned.  If the record cannot be stored in an ini file
+// ErrInvalid is returned.
 func (i *INIDB) Set(table, key, value string) error {
+	if !validKey(key) || !validValue(value) {
+		return ErrInvalid
+	}
+
 	i.mtx.Lock()
 	defer i.mtx.Unlock()
 
@@ -246,8 +268,13 @@ func (i *INIDB) Del(table, key string) error {
 	return nil
 }
 
-// NewTable creates a new table.
-func (i *INIDB) NewTable(table string) {
+// NewTable creates a new table.  If the table cannot be stored in an ini file
+// ErrInvalid is returned.
+func (i *INIDB) NewTable(table string) error {
+	if !validTable(table) {
+		return ErrInvalid
+	}
+
 	i.mtx.Lock()
 	defer i.mtx.Unlock()
 
@@ -255,6 +282,8 @@ func (i *INIDB) NewTable(table string) {
 		i.dirty = true
 	}
 	i.tables.Section(table)
+
+	return nil
 }
 
 // DelTable deletes an entire table including all records.
-- 
2.43.0


From b86272772a28c3bb7c011c70d7d68acc48ba5a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 11/55] fix: address book lists an identity once when its nick
 changes

Adding an identity that is already listed under another nick (it announced a
new nick in a later key exchange) left the old entry in place: the identity was
listed twice and lookups by identity returned either entry.
---
 zkclient/addressbook/addressbook.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/zkclient/addressbook/addressbook.go b/zkclient/addressbook/addressbook.go
index 4dab2c4..61d8094 100644
--- a/zkclient/addressbook/addressbook.go
+++ b/zkclient/addressbook/addressbook.go
@@ -64,6 +64,15 @@ func (a *AddressBook) Add(identity zkidentity.PublicIdentity) (string, error) {
 		}
 		break
 	}
+
+	// an identity that was listed under another nick moves to its new nick
+	for k, v := range a.identities {
+		if k != identity.Nick && bytes.Equal(v.Identity[:],
+			identity.Identity[:]) {
+			delete(a.identities, k)
+		}
+	}
+
 	a.identities[identity.Nick] = identity
 	return identity.Nick, err
 }
-- 
2.43.0


From 02a24ffd9ddb4651c1c2f4f2ecc5ef2263a10c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 12/55] fix: account creation refuses a disabled identity and
 an unreadable account

A disabled identity could create its account again and was active at once.  An
account whose directory could not be examined was taken for missing and its
identity overwritten, as was one created between the check and the write.
---
 zkserver/account/account.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 1acde37..fcb6025 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -125,6 +125,10 @@ func (a *Account) Create(pid zkidentity.PublicIdentity, force bool) error {
 	if err == nil {
 		return fmt.Errorf("nickname already in use")
 	}
+
+	a.Lock()
+	defer a.Unlock()
+
 	// make sure account doesn't exist
 	accountName := a.accountDir(pid.Identity)
 	_, err = os.Stat(accountName)
@@ -133,6 +137,16 @@ func (a *Account) Create(pid zkidentity.PublicIdentity, force bool) error {
 			return fmt.Errorf("account already exists: %v",
 				accountName)
 		}
+	} else if !os.IsNotExist(err) {
+		return fmt.Errorf("could not look up account: %v", err)
+	}
+
+	// a disabled account must not come back
+	_, err = os.Stat(a.accountDirDisabled(pid.Identity))
+	if err == nil {
+		return fmt.Errorf("account disabled: %v", accountName)
+	} else if !os.IsNotExist(err) {
+		return fmt.Errorf("could not look up account: %v", err)
 	}
 
 	// open user db
-- 
2.43.0


From d06848130d8ffda231afed99d29f0f6668206c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 13/55] fix: a delivery never overwrites or truncates a stored
 message

The check for a file of the same name was made before the lock was taken and
took every error for a missing file; a write that failed half way left a
truncated message that was delivered later.
---
 zkserver/account/account.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index fcb6025..ff7a71c 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -344,19 +344,23 @@ func (a *Account) Deliver(to [zkidentity.IdentitySize]byte, from [zkidentity.Ide
 		return "", fmt.Errorf("could not marshal diskMessage")
 	}
 
+	a.Lock()
+	defer a.Unlock()
+
 	// sanity
 	fullPath := path.Join(cache, filename)
 	_, err = os.Stat(fullPath)
 	if err == nil {
 		return "", fmt.Errorf("duplicate filename %v", filename)
+	} else if !os.IsNotExist(err) {
+		return "", fmt.Errorf("could not look up %v: %v", filename, err)
 	}
 
-	a.Lock()
-	defer a.Unlock()
-
 	// and dump it
 	err = ioutil.WriteFile(fullPath, b.Bytes(), 0600)
 	if err != nil {
+		// do not leave a part of the message behind
+		_ = os.Remove(fullPath)
 		return "", fmt.Errorf("could not write to %v: %v", cache, err)
 	}
 
-- 
2.43.0


From a279c569163d662b2e447fdd42c27cad0da804de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 14/55] fix: queue an online account's first work before
 deliveries can

---
 zkserver/account/account.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index ff7a71c..686e98c 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -439,13 +439,15 @@ func (a *Account) Online(who [zkidentity.IdentitySize]byte, ntfn chan *Notificat
 		quit:      make(chan struct{}),
 		processed: make(map[string]struct{}),
 	}
+
+	// first time around start delivering; this must be queued before a
+	// delivery can queue work or the producer would block on itself
+	dn.work <- struct{}{}
+
 	a.online[who] = dn
 	a.Unlock()
 
 	go func() {
-		// first time around start delivering
-		dn.work <- struct{}{}
-
 		for {
 			select {
 			case <-dn.quit:
-- 
2.43.0


From ba28ea69fa66104364d32ec60626bd946dfe6f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:03 +0000
Subject: [PATCH 15/55] fix: rendezvous records are saved one session at a time
 and before success is reported

---
 zkserver/rendezvous.go | 19 +++++++++++--------
 zkserver/zkserver.go   |  2 ++
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/zkserver/rendezvous.go b/zkserver/rendezvous.go
index 56c4f0d..439f1e1 100644
--- a/zkserver/rendezvous.go
+++ b/zkserver/rendezvous.go
@@ -140,21 +140,16 @@ func (z *ZKS) handleRendezvous(writer chan *RPCWrapper,
 	// do these declarations before goto to shut go compiler up
 	retry := 25
 
-	// open db
+	// open db; sessions must not save over each other's records
+	z.rendezvousMtx.Lock()
 	rz, err := inidb.New(path.Join(z.settings.Root, rendezvousPath),
 		true, 10)
 	if err != nil && !errors.Is(err, inidb.ErrCreated) {
+		z.rendezvousMtx.Unlock()
 		return fmt.Errorf("could not open rendezvous db: %v",
 			err)
 	}
 	//defer z.pruneRendezvous(rz) // kill all expired records
-	defer func() {
-		// save db back
-		err := rz.Save()
-		if err != nil {
-			z.Error(idApp, "could not save rendezvous db: %v", err)
-		}
-	}()
 
 	// sanitize inputs
 	if len(r.Blob) > 4096 {
@@ -204,6 +199,13 @@ func (z *ZKS) handleRendezvous(writer chan *RPCWrapper,
 			continue
 		}
 
+		// save db back
+		err = rz.Save()
+		if err != nil {
+			z.Error(idApp, "could not save rendezvous db: %v", err)
+			goto bad
+		}
+
 		// success
 		payload.Error = ""
 		payload.Token = tokenS
@@ -211,6 +213,7 @@ func (z *ZKS) handleRendezvous(writer chan *RPCWrapper,
 	}
 
 bad:
+	z.rendezvousMtx.Unlock()
 	reply.Payload = payload
 	writer <- &reply
 	return nil
diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 1c8ff17..381a649 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -83,6 +83,8 @@ type ZKS struct {
 	sync.Mutex
 	sessions map[string]*sessionContext
 
+	rendezvousMtx sync.Mutex // held while rendezvous db is updated
+
 	socket net.Listener // socket for zkserverctl
 
 	// Not mutex entries
-- 
2.43.0


From 1533786be070db8b413fa8d4a0c3d62ea5e66669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 16/55] fix: a request under tag 32 ended the server with an
 index out of range

---
 zkserver/zkserver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 381a649..113a2f9 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -449,7 +449,7 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 			return fmt.Errorf("unmarshal header failed")
 		}
 
-		if message.Tag > tagDepth {
+		if message.Tag >= tagDepth {
 			return fmt.Errorf("invalid tag received %v", message.Tag)
 		}
 
-- 
2.43.0


From f3e4f26a234e93602b904187b8e7b3ac23f810f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 17/55] fix: returning more tags than taken to a blocking tag
 stack fails rather than blocks

---
 tagstack/tagstack.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tagstack/tagstack.go b/tagstack/tagstack.go
index a95b7c3..d76648d 100644
--- a/tagstack/tagstack.go
+++ b/tagstack/tagstack.go
@@ -64,8 +64,12 @@ func New(depth int) *TagStack {
 // return an error.
 func (s *TagStack) Push(x uint32) error {
 	if s.blocking {
-		s.stackC <- x
-		return nil
+		select {
+		case s.stackC <- x:
+			return nil
+		default:
+			return ErrOverflow
+		}
 	}
 
 	s.Lock()
-- 
2.43.0


From 2f197f5317234ef99aef189c4b7a3f7addb5e22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 18/55] fix: acknowledging a tag that is not in use ends the
 session instead of reusing the tag

---
 zkserver/zkserver.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 113a2f9..c33535e 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -524,7 +524,12 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 				message.Tag)
 
 			// sanity
-			if m != nil && m.Message.Tag != message.Tag {
+			if m == nil {
+				return fmt.Errorf("acknowledge of unused tag: %v %v",
+					message.Tag,
+					rids)
+			}
+			if m.Message.Tag != message.Tag {
 				return fmt.Errorf("acknowledge tag doesn't "+
 					"match: %v %v %v",
 					m.Message.Tag,
@@ -532,7 +537,7 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 					rids)
 			}
 			// see if we have work to do
-			if m != nil && m.Message.Command == rpc.TaggedCmdPush {
+			if m.Message.Command == rpc.TaggedCmdPush {
 				from := kx.TheirIdentity().([32]byte)
 				// err is reporting only
 				err = z.account.Delete(from, m.Identifier)
-- 
2.43.0


From 2a86c75363b7201acee76af691ac326d0622a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 19/55] fix: a session that ends always takes its account
 offline and leaves newer sessions alone

---
 zkserver/zkserver.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index c33535e..444adb0 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -392,6 +392,23 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 
 	z.Dbg(idS, "handleSession account online: %v", rids)
 
+	// take the session down, regardless of how it ends
+	defer func() {
+		// stop it all
+		close(sc.quit)
+
+		z.account.Offline(rid)
+
+		// mark session offline; another session may be online by now
+		z.Lock()
+		if z.sessions[rids] == &sc {
+			delete(z.sessions, rids)
+		}
+		z.Unlock()
+
+		z.Dbg(idS, "handleSession exit: %v", rids)
+	}()
+
 	// populate identity in directory
 	if z.settings.Directory {
 		err := z.account.Push(rid)
@@ -405,21 +422,6 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 	go z.sessionWriter(&sc)
 	go z.sessionNtfn(&sc)
 
-	// wait for sessionWriter to exit
-	defer func() {
-		// stop it all
-		close(sc.quit)
-
-		z.account.Offline(rid)
-
-		// mark session offline
-		z.Lock()
-		delete(z.sessions, rids)
-		z.Unlock()
-
-		z.Dbg(idS, "handleSession exit: %v", rids)
-	}()
-
 	for {
 		var message rpc.Message
 
-- 
2.43.0


From 66e4e27d10535a16813e524350430099f4794485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:43 +0000
Subject: [PATCH 20/55] fix: a session with a full reply queue could not end
 after a failed write

---
 zkserver/zkserver.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 444adb0..a666cf2 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -222,6 +222,15 @@ func (z *ZKS) sessionWriter(sc *sessionContext) {
 
 		// close underlying connection in order to fail read
 		sc.kx.Close()
+
+		// nobody may be left waiting for room
+		for {
+			select {
+			case <-sc.quit:
+				return
+			case <-sc.writer:
+			}
+		}
 	}()
 
 	for {
@@ -328,7 +337,11 @@ func (z *ZKS) sessionNtfn(sc *sessionContext) {
 				r.Message.Command,
 				r.Message.Tag)
 
-			sc.writer <- &r
+			select {
+			case <-sc.quit:
+				return
+			case sc.writer <- &r:
+			}
 		}
 	}
 }
-- 
2.43.0


From c9464caf54c4d27f5d9f19bd4ca8ae6d2eed45e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 21/55] fix: sessions that started at the same time wrote to
 the same server properties

---
 zkserver/zkserver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index a666cf2..614a47f 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -167,7 +167,8 @@ func (z *ZKS) welcome(kx *session.KX) error {
 		motd = []byte{}
 	}
 
-	properties := rpc.SupportedServerProperties
+	properties := append([]rpc.ServerProperty{},
+		rpc.SupportedServerProperties...)
 	for k, v := range properties {
 		switch v.Key {
 		case rpc.PropTagDepth:
-- 
2.43.0


From 57610f5fb4149253a5176059a22d9a9730afa43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 22/55] fix: enabling or disabling an identity of the wrong
 length ended the server

---
 zkserver/account.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zkserver/account.go b/zkserver/account.go
index 585e527..1ee1b60 100644
--- a/zkserver/account.go
+++ b/zkserver/account.go
@@ -109,7 +109,7 @@ func (z *ZKS) handleIdentityDisable(ud socketapi.SocketCommandUserDisable) (udr
 		return
 	}
 	if len(id) != zkidentity.IdentitySize {
-		udr.Error = err.Error()
+		udr.Error = "invalid identity length"
 		return
 	}
 	var pid [zkidentity.IdentitySize]byte
@@ -132,7 +132,7 @@ func (z *ZKS) handleIdentityEnable(ue socketapi.SocketCommandUserEnable) (uer *s
 		return
 	}
 	if len(id) != zkidentity.IdentitySize {
-		uer.Error = err.Error()
+		uer.Error = "invalid identity length"
 		return
 	}
 	var pid [zkidentity.IdentitySize]byte
-- 
2.43.0


From 1565688e0f15aebc6f989a2e7528a7d3ce3baf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 23/55] fix: an account creation token is used up, on disk,
 before it is accepted and accepted only once

---
 zkserver/pending.go  | 12 +++++++++++-
 zkserver/zkserver.go |  1 +
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/zkserver/pending.go b/zkserver/pending.go
index 4d9a28b..a802afc 100644
--- a/zkserver/pending.go
+++ b/zkserver/pending.go
@@ -39,6 +39,10 @@ func (z *ZKS) prunePending(pending *inidb.INIDB) {
 }
 
 func (z *ZKS) validToken(token string, conn net.Conn) bool {
+	// sessions must not accept the same token
+	z.pendingMtx.Lock()
+	defer z.pendingMtx.Unlock()
+
 	// open db
 	pending, err := inidb.New(path.Join(z.settings.Root, pendingPath),
 		true, 10)
@@ -58,10 +62,16 @@ func (z *ZKS) validToken(token string, conn net.Conn) bool {
 	// delete token
 	err = pending.Del("", token)
 	if err != nil {
-		z.Error(idApp, "could not delete token %v", conn.RemoteAddr(),
+		z.Error(idApp, "%v could not delete token %v", conn.RemoteAddr(),
 			token)
 		return false
 	}
+	err = pending.Save()
+	if err != nil {
+		z.Error(idApp, "%v could not delete token %v: %v",
+			conn.RemoteAddr(), token, err)
+		return false
+	}
 
 	// check expiration
 	t, err := strconv.ParseInt(v, 10, 64)
diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 614a47f..e1456ab 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -84,6 +84,7 @@ type ZKS struct {
 	sessions map[string]*sessionContext
 
 	rendezvousMtx sync.Mutex // held while rendezvous db is updated
+	pendingMtx    sync.Mutex // held while pending db is updated
 
 	socket net.Listener // socket for zkserverctl
 
-- 
2.43.0


From 6d021d7e693a2b01d9a931edc0a049cad9494f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 24/55] fix: an account disabled while its session starts does
 not keep the session

---
 zkserver/zkserver.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index e1456ab..679efd2 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -424,6 +424,11 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 		z.Dbg(idS, "handleSession exit: %v", rids)
 	}()
 
+	// the account may have been disabled before the session was visible
+	if z.account.Disabled(rid) {
+		return fmt.Errorf("handleSession: disabled %v", rids)
+	}
+
 	// populate identity in directory
 	if z.settings.Directory {
 		err := z.account.Push(rid)
-- 
2.43.0


From e686abb8aae6aa3087987895f3194064cadee99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 25/55] fix: disabling an identity written in upper case ends
 its session too

---
 zkserver/zkserver.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 679efd2..37add3b 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -21,6 +21,7 @@ import (
 	"path/filepath"
 	"runtime"
 	"strconv"
+	"strings"
 	"sync"
 	"syscall"
 	"time"
@@ -788,9 +789,9 @@ func (z *ZKS) socketHandler(c net.Conn) {
 			// write reply
 			reply = z.handleIdentityDisable(jud)
 
-			// knock user offline
+			// knock user offline, sessions use lower case
 			z.Lock()
-			if sc, ok := z.sessions[jud.Identity]; ok {
+			if sc, ok := z.sessions[strings.ToLower(jud.Identity)]; ok {
 				z.Dbg(idSock, "user disconnected %s",
 					jud.Identity)
 				sc.kx.Close()
-- 
2.43.0


From 8c5beaa8c6b5ee54669f9a71b4784e237897734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 26/55] fix: save the advanced ratchet, synced, before the
 message encrypted with it leaves

---
 zkclient/identity.go | 15 +++++++++++++--
 zkclient/msg.go      | 23 +++++++++++------------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/zkclient/identity.go b/zkclient/identity.go
index 6131467..3ccfc67 100644
--- a/zkclient/identity.go
+++ b/zkclient/identity.go
@@ -154,15 +154,26 @@ func (z *ZKC) updateRatchet(r *ratchet.Ratchet, half bool) error {
 	_, err = xdr.Marshal(f, state)
 	if err != nil {
 		f.Close()
+		os.Remove(f.Name())
 		return fmt.Errorf("could not marshal ratchet")
 	}
-	f.Sync()
-	f.Close()
+	err = f.Sync()
+	if err != nil {
+		f.Close()
+		os.Remove(f.Name())
+		return fmt.Errorf("could not sync ratchet file: %v", err)
+	}
+	err = f.Close()
+	if err != nil {
+		os.Remove(f.Name())
+		return fmt.Errorf("could not close ratchet file: %v", err)
+	}
 
 	// rename tempfile to actual file
 	filename := path.Join(fullPath, rf)
 	err = os.Rename(f.Name(), filename)
 	if err != nil {
+		os.Remove(f.Name())
 		return fmt.Errorf("could not rename ratchet file: %v", err)
 	}
 
diff --git a/zkclient/msg.go b/zkclient/msg.go
index ddd06cf..df5bbc0 100644
--- a/zkclient/msg.go
+++ b/zkclient/msg.go
@@ -488,11 +488,17 @@ func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f
 			spew.Sdump(payload))
 	}
 
-	err = z.writeMessage(msg,
-		rpc.Cache{
-			To:      *r.TheirIdentityPublic,
-			Payload: m,
-		})
+	// Save the advanced ratchet before the message leaves. A message that
+	// is lost hereafter leaves a gap that the other side skips, whereas one
+	// that left without its ratchet saved would have its keys used again.
+	err = z.updateRatchet(r, false)
+	if err == nil {
+		err = z.writeMessage(msg,
+			rpc.Cache{
+				To:      *r.TheirIdentityPublic,
+				Payload: m,
+			})
+	}
 	if err != nil {
 		z.Lock()
 		z.tagCallback[tag] = nil
@@ -508,12 +514,5 @@ func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f
 		return err
 	}
 
-	// save ratchet only if we sent
-	err = z.updateRatchet(r, false)
-	if err != nil {
-		return fmt.Errorf("critical error: could not update ratchet: %v",
-			err)
-	}
-
 	return nil
 }
-- 
2.43.0


From 7b0da51b4c5cb3fe92e034e2447624503beed474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 27/55] fix: the client bounds what a received message can make
 it allocate

---
 zkclient/kxacceptwindow.go |  3 +--
 zkclient/push.go           | 34 +++++++++++++++++-----------------
 zkclient/welcome.go        |  2 +-
 zkclient/zkclient.go       | 31 +++++++++++++++++++------------
 4 files changed, 38 insertions(+), 32 deletions(-)

diff --git a/zkclient/kxacceptwindow.go b/zkclient/kxacceptwindow.go
index d6fc373..5d59188 100644
--- a/zkclient/kxacceptwindow.go
+++ b/zkclient/kxacceptwindow.go
@@ -14,7 +14,6 @@ import (
 	"github.com/companyzero/zkc/blobshare"
 	"github.com/companyzero/zkc/rpc"
 	"github.com/companyzero/zkc/zkidentity"
-	xdr "github.com/davecgh/go-xdr/xdr2"
 	"github.com/nsf/termbox-go"
 )
 
@@ -133,7 +132,7 @@ func (ka *kxAcceptWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 		// unmarshal into public identity
 		var identity zkidentity.PublicIdentity
 		br := bytes.NewReader(decrypted)
-		_, err = xdr.Unmarshal(br, &identity)
+		_, err = ka.zkc.unmarshal(br, &identity)
 		if err != nil {
 			ka.Status(w, true, "Could not unmarshal public "+
 				"identity")
diff --git a/zkclient/push.go b/zkclient/push.go
index 2307750..74de0df 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -88,7 +88,7 @@ func (z *ZKC) step3IDKX(msg rpc.Message, p rpc.Push) error {
 
 		var kx rpc.KX
 		br := bytes.NewReader(decrypted)
-		_, err = xdr.Unmarshal(br, &kx)
+		_, err = z.unmarshal(br, &kx)
 		if err != nil {
 			return fmt.Errorf("could not unmarshal KX")
 		}
@@ -199,7 +199,7 @@ func (z *ZKC) step2IDKX(msg rpc.Message, p rpc.Push) error {
 
 		var idkx rpc.IdentityKX
 		br := bytes.NewReader(decrypted)
-		_, err = xdr.Unmarshal(br, &idkx)
+		_, err = z.unmarshal(br, &idkx)
 		if err != nil {
 			return fmt.Errorf("could not unmarshal IdentityKX")
 		}
@@ -319,7 +319,7 @@ func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
 
 	var idkx rpc.IdentityKX
 	br := bytes.NewReader(decrypted)
-	_, err = xdr.Unmarshal(br, &idkx)
+	_, err = z.unmarshal(br, &idkx)
 	if err != nil {
 		return fmt.Errorf("could not unmarshal IdentityKX")
 	}
@@ -408,7 +408,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	if msg.Cleartext {
 		var pc rpc.ProxyCmd
 		brProxy := bytes.NewReader(p.Payload)
-		_, err := xdr.Unmarshal(brProxy, &pc)
+		_, err := z.unmarshal(brProxy, &pc)
 		if err == nil && pc.Command == rpc.ProxyCmdResetRatchet {
 			// We got a ratchet reset command
 			nick := z.nickFromId(p.From)
@@ -478,7 +478,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	// decode CRPC
 	var crpc rpc.CRPC
 	br := bytes.NewReader(decrypted)
-	_, err = xdr.Unmarshal(br, &crpc)
+	_, err = z.unmarshal(br, &crpc)
 	if err != nil {
 		return fmt.Errorf("unmarshal crpc failed")
 	}
@@ -498,7 +498,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	switch crpc.Command {
 	case rpc.CRPCCmdPrivateMessage:
 		var pm rpc.PrivateMessage
-		_, err = xdr.Unmarshal(rd, &pm)
+		_, err = z.unmarshal(rd, &pm)
 		if err != nil {
 			return fmt.Errorf("unmarshal private message")
 		}
@@ -514,7 +514,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupInvite:
 		var gi rpc.GroupInvite
-		_, err = xdr.Unmarshal(rd, &gi)
+		_, err = z.unmarshal(rd, &gi)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat invite")
 		}
@@ -530,7 +530,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupJoin:
 		var gj rpc.GroupJoin
-		_, err = xdr.Unmarshal(rd, &gj)
+		_, err = z.unmarshal(rd, &gj)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat join")
 		}
@@ -546,7 +546,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupKill:
 		var gk rpc.GroupKill
-		_, err = xdr.Unmarshal(rd, &gk)
+		_, err = z.unmarshal(rd, &gk)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat kill")
 		}
@@ -562,7 +562,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupKick:
 		var gk rpc.GroupKick
-		_, err = xdr.Unmarshal(rd, &gk)
+		_, err = z.unmarshal(rd, &gk)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat kick")
 		}
@@ -578,7 +578,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupPart:
 		var gp rpc.GroupPart
-		_, err = xdr.Unmarshal(rd, &gp)
+		_, err = z.unmarshal(rd, &gp)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat part")
 		}
@@ -594,7 +594,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupList:
 		var gl rpc.GroupList
-		_, err = xdr.Unmarshal(rd, &gl)
+		_, err = z.unmarshal(rd, &gl)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat list")
 		}
@@ -610,7 +610,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupUpdate:
 		var gu rpc.GroupUpdate
-		_, err = xdr.Unmarshal(rd, &gu)
+		_, err = z.unmarshal(rd, &gu)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat update")
 		}
@@ -626,7 +626,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupMessage:
 		var gm rpc.GroupMessage
-		_, err = xdr.Unmarshal(rd, &gm)
+		_, err = z.unmarshal(rd, &gm)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat message")
 		}
@@ -642,7 +642,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdChunkNew:
 		var cn rpc.ChunkNew
-		_, err = xdr.Unmarshal(rd, &cn)
+		_, err = z.unmarshal(rd, &cn)
 		if err != nil {
 			return fmt.Errorf("unmarshal chunk new")
 		}
@@ -658,7 +658,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdChunk:
 		var c rpc.Chunk
-		_, err = xdr.Unmarshal(rd, &c)
+		_, err = z.unmarshal(rd, &c)
 		if err != nil {
 			return fmt.Errorf("unmarshal chunk")
 		}
@@ -673,7 +673,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdJanitorMessage:
 		var jm rpc.JanitorMessage
-		_, err = xdr.Unmarshal(rd, &jm)
+		_, err = z.unmarshal(rd, &jm)
 		if err != nil {
 			return fmt.Errorf("unmarshal janitor message")
 		}
diff --git a/zkclient/welcome.go b/zkclient/welcome.go
index 702d95c..6cac89e 100644
--- a/zkclient/welcome.go
+++ b/zkclient/welcome.go
@@ -168,7 +168,7 @@ func (ww *welcomeWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 			}
 
 			// get server identity
-			_, err = xdr.Unmarshal(conn, &pid)
+			_, err = ww.zkc.unmarshal(conn, &pid)
 			if err != nil {
 				ww.Status(w, true,
 					"Could not obtain remote identity")
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 58fc5fc..b1e61ea 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -12,6 +12,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"net"
 	"net/http"
@@ -772,6 +773,12 @@ func (z *ZKC) sessionPhase(conn net.Conn) (*session.KX, error) {
 	return kx, nil
 }
 
+// unmarshal decodes what was received from the remote side. It ensures that no
+// element is made larger than a message can be.
+func (z *ZKC) unmarshal(r io.Reader, v interface{}) (int, error) {
+	return xdr.UnmarshalLimited(r, v, z.msgSize)
+}
+
 // lock must be held
 func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	// obtain Welcome/
@@ -791,7 +798,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 
 	// unmarshal header
 	br := bytes.NewReader(cmd)
-	_, err = xdr.Unmarshal(br, &command)
+	_, err = z.unmarshal(br, &command)
 	if err != nil {
 		return nil, fmt.Errorf("unmarshal Welcome header failed")
 	}
@@ -802,7 +809,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	case rpc.SessionCmdUnwelcome:
 		// unmarshal payload
 		var umsg rpc.Unwelcome
-		_, err = xdr.Unmarshal(br, &umsg)
+		_, err = z.unmarshal(br, &umsg)
 		if err != nil {
 			return nil, fmt.Errorf("unmarshal Unwelcome payload " +
 				"failed")
@@ -818,7 +825,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	}
 
 	// unmarshal payload
-	_, err = xdr.Unmarshal(br, &wmsg)
+	_, err = z.unmarshal(br, &wmsg)
 	if err != nil {
 		return nil, fmt.Errorf("unmarshal Welcome payload failed")
 	}
@@ -1300,7 +1307,7 @@ func (z *ZKC) handleRPC() {
 
 		// unmarshal header
 		br := bytes.NewReader(cmd)
-		_, err = xdr.Unmarshal(br, &message)
+		_, err = z.unmarshal(br, &message)
 		if err != nil {
 			exitError = fmt.Errorf("unmarshal header failed")
 			return
@@ -1316,7 +1323,7 @@ func (z *ZKC) handleRPC() {
 		switch message.Command {
 		case rpc.TaggedCmdPong:
 			var p rpc.Pong
-			_, err = xdr.Unmarshal(br, &p)
+			_, err = z.unmarshal(br, &p)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal Pong")
 				return
@@ -1340,7 +1347,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdRendezvousReply:
 			var r rpc.RendezvousReply
-			_, err = xdr.Unmarshal(br, &r)
+			_, err = z.unmarshal(br, &r)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal RendezvousReply")
 				return
@@ -1359,7 +1366,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdRendezvousPullReply:
 			var r rpc.RendezvousPullReply
-			_, err = xdr.Unmarshal(br, &r)
+			_, err = z.unmarshal(br, &r)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal " +
 					"RendezvousPullReply")
@@ -1380,7 +1387,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdPush:
 			var p rpc.Push
-			_, err = xdr.Unmarshal(br, &p)
+			_, err = z.unmarshal(br, &p)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal Push")
 				return
@@ -1431,7 +1438,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdAcknowledge:
 			var a rpc.Acknowledge
-			_, err = xdr.Unmarshal(br, &a)
+			_, err = z.unmarshal(br, &a)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal " +
 					"Acknowledge")
@@ -1479,7 +1486,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdIdentityFindReply:
 			var r rpc.IdentityFindReply
-			_, err = xdr.Unmarshal(br, &r)
+			_, err = z.unmarshal(br, &r)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal " +
 					"IdentityFindReply")
@@ -1513,7 +1520,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdProxyReply:
 			var p rpc.ProxyReply
-			_, err = xdr.Unmarshal(br, &p)
+			_, err = z.unmarshal(br, &p)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal " +
 					"ProxyReply")
@@ -2007,7 +2014,7 @@ func (z *ZKC) finalizeAccountCreation(conn net.Conn, cs *tls.ConnectionState,
 
 	// obtain answer
 	var car rpc.CreateAccountReply
-	_, err = xdr.Unmarshal(conn, &car)
+	_, err = z.unmarshal(conn, &car)
 	if err != nil {
 		return fmt.Errorf("Could not obtain create account reply")
 	}
-- 
2.43.0


From cded99a37b5d66d44087e19dc101ab6c4744f5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 28/55] fix: the client refuses a corrupt compressed payload
 instead of crashing

---
 zkclient/push.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index 74de0df..0b03c7a 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -489,7 +489,10 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	case rpc.CRPCCompNone:
 		rd = br
 	case rpc.CRPCCompZLIB:
-		rd, _ = zlib.NewReader(br)
+		rd, err = zlib.NewReader(br)
+		if err != nil {
+			return fmt.Errorf("invalid compressed payload: %v", err)
+		}
 	default:
 		return fmt.Errorf("invalid compression: %v", crpc.Compression)
 	}
-- 
2.43.0


From 91a937850ddebf7090520f990e8b508f0e915487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 29/55] fix: an acknowledgement with a tag equal to the tag
 depth does not crash the client

---
 zkclient/zkclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index b1e61ea..ff34e3d 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1446,7 +1446,7 @@ func (z *ZKC) handleRPC() {
 			}
 
 			z.Lock()
-			if message.Tag > uint32(len(z.tagCallback)) {
+			if message.Tag >= uint32(len(z.tagCallback)) {
 				exitError = fmt.Errorf("Acknowledge "+
 					"invalid tag: %v", message.Tag)
 				z.Unlock()
-- 
2.43.0


From b164e44afade28a625d2f9241dc686fe84d6933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 30/55] fix: a group message whose length changes in upper case
 does not crash the client

---
 zkclient/push.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index 0b03c7a..cec2a28 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -1219,6 +1219,17 @@ func (z *ZKC) handleGroupUpdate(msg rpc.Message, p rpc.Push,
 	return nil
 }
 
+// mention returns where nick occurs in message, in upper or lower case, or -1 if
+// it does not.
+func mention(message, nick string) int {
+	for i := 0; i+len(nick) <= len(message); i++ {
+		if strings.EqualFold(message[i:i+len(nick)], nick) {
+			return i
+		}
+	}
+	return -1
+}
+
 func (z *ZKC) handleGroupMessage(msg rpc.Message, p rpc.Push,
 	gm rpc.GroupMessage) error {
 
@@ -1265,8 +1276,7 @@ func (z *ZKC) handleGroupMessage(msg rpc.Message, p rpc.Push,
 
 	// see if we were mentioned
 	s := gm.Message
-	if x := strings.Index(strings.ToUpper(gm.Message),
-		strings.ToUpper(z.id.Public.Nick)); x != -1 &&
+	if x := mention(gm.Message, z.id.Public.Nick); x != -1 &&
 		gm.Mode == rpc.MessageModeNormal {
 
 		z.Lock()
-- 
2.43.0


From 48d8c32e6763ad9c5f309b93112c4195468ae356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 31/55] fix: a group list keeps its administrator, never goes
 back to an older one and is undone when it can not be saved

---
 zkclient/zkclient.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index ff34e3d..e5dd930 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1150,7 +1150,8 @@ func (z *ZKC) handleDisabledUser(id [zkidentity.IdentitySize]byte) {
 			}
 
 			// See if we are the admin of the gc
-			if bytes.Equal(z.id.Public.Identity[:], g.Members[0][:]) {
+			if len(g.Members) > 0 && bytes.Equal(
+				z.id.Public.Identity[:], g.Members[0][:]) {
 				z.PrintfT(k, REDBOLD+"user %v disabled: "+
 					"please kick %v (%x) from gc"+RESET,
 					rid.Nick, rid.Nick, rid.Identity[:])
@@ -1910,8 +1911,20 @@ func (z *ZKC) _updateGroupList(id [zkidentity.IdentitySize]byte,
 		return errNotAdmin
 	}
 
+	// the administrator remains the first member
+	if len(gl.Members) == 0 || !bytes.Equal(gl.Members[0][:], id[:]) {
+		return fmt.Errorf("group list without its administrator: %v",
+			gl.Name)
+	}
+
+	// never go back to an older list
+	if gl.Generation < group.Generation {
+		return fmt.Errorf("obsolete group list: %v %v < %v",
+			gl.Name, gl.Generation, group.Generation)
+	}
+
 	// Warn if generation is no moving forward
-	if gl.Generation <= group.Generation {
+	if gl.Generation == group.Generation {
 		z.Warn(idRPC, "received illegal grouplist generation: %v %v %v",
 			gl.Name,
 			group.Generation,
@@ -1919,7 +1932,12 @@ func (z *ZKC) _updateGroupList(id [zkidentity.IdentitySize]byte,
 	}
 
 	z.groups[gl.Name] = gl
-	return z._gcSaveDisk(gl.Name)
+	err := z._gcSaveDisk(gl.Name)
+	if err != nil {
+		z.groups[gl.Name] = group // unwind
+		return err
+	}
+	return nil
 }
 
 func (z *ZKC) _addIdGroupchat(gcName string,
-- 
2.43.0


From 720e4e43cf377a008871ece32899921e9ec999d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 32/55] fix: a kill command for a group chat without members
 does not crash the client

---
 zkclient/push.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zkclient/push.go b/zkclient/push.go
index cec2a28..8f8d160 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -1025,6 +1025,10 @@ func (z *ZKC) handleGroupKill(msg rpc.Message, p rpc.Push,
 		return fmt.Errorf("group chat not found: %v", gk.Name)
 	}
 
+	if len(group.Members) == 0 {
+		return fmt.Errorf("handleGroupKill: group chat corrupt")
+	}
+
 	if !bytes.Equal(group.Members[0][:], p.From[:]) {
 		return fmt.Errorf("spoofed group chat kill command")
 	}
-- 
2.43.0


From ccc8d8893ae6b54922d368cdb29420293e11f9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 33/55] fix: a member that parts is announced only once the new
 group list is saved

---
 zkclient/push.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index 8f8d160..8898e16 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -872,26 +872,27 @@ func (z *ZKC) handleGroupPart(msg rpc.Message, p rpc.Push,
 			Members:    append(gc.Members[:i:i], gc.Members[i+1:]...),
 		}
 
-		// send new list to everyone including partee
-		for j := 1; j < len(gc.Members); j++ {
-			z.scheduleCRPC(true, &gc.Members[j], rpc.GroupKick{
-				Member:       p.From,
-				Reason:       gp.Reason,
-				Parted:       true,
-				NewGroupList: ngc,
-			})
-		}
-
 		// set new group in memory
 		z.groups[gp.Name] = ngc
 
 		// save to disk
 		err := z._gcSaveDisk(gp.Name)
 		if err != nil {
+			z.groups[gp.Name] = gc // unwind
 			return fmt.Errorf("could not save group chat to disk %v: %v",
 				gp.Name, err)
 		}
 
+		// send new list to everyone including partee
+		for j := 1; j < len(gc.Members); j++ {
+			z.scheduleCRPC(true, &gc.Members[j], rpc.GroupKick{
+				Member:       p.From,
+				Reason:       gp.Reason,
+				Parted:       true,
+				NewGroupList: ngc,
+			})
+		}
+
 		id, err := z.ab.FindIdentity(p.From)
 		if err != nil {
 			return fmt.Errorf("received join from unknown identity: %v",
-- 
2.43.0


From 9de70966016dc52b8810330b6690a01a3554fbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 34/55] fix: a kick takes effect at once, it does not undo
 changes made to the group until it is acknowledged

---
 zkclient/groupchat.go | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index beb6514..41bf499 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -297,6 +297,16 @@ func (z *ZKC) gcKick(args []string) error {
 			"message anyway", args[3], args[2])
 	}
 
+	// The list that is sent is the one that later changes are made to, set
+	// it in memory and save it to disk first.
+	z.groups[args[2]] = ngc
+	err = z._gcSaveDisk(args[2])
+	if err != nil {
+		z.groups[args[2]] = gc // unwind
+		return fmt.Errorf("could not save group to disk %v: %v",
+			args[2], err)
+	}
+
 	reason := "you have been a bad boy!" // make setable
 
 	got := 0                    // acks seen
@@ -329,24 +339,7 @@ func (z *ZKC) gcKick(args []string) error {
 		if !found {
 			z.PrintfT(0, REDBOLD+
 				"group no longer exists: %v"+
-				RESET, args[2], err)
-			return
-		}
-
-		// set new group in memory
-		z.groups[args[2]] = ngc
-
-		// save to disk
-		err = z._gcSaveDisk(args[2])
-		if err != nil {
-			em := fmt.Sprintf(REDBOLD+
-				"could not save group to disk %v: %v"+
-				RESET, args[2], err)
-			z.PrintfT(0, "%v", em)
-			// echo on conversation window
-			if k > 0 {
-				z.PrintfT(k, "%v", em)
-			}
+				RESET, args[2])
 			return
 		}
 
-- 
2.43.0


From 908baa4a3547838375861c1cffde36acb86f51de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:27 +0000
Subject: [PATCH 35/55] fix: a group chat that can not be saved is neither
 created nor joined

---
 zkclient/groupchat.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index 41bf499..819775d 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -108,12 +108,13 @@ func (z *ZKC) gcNew(args []string) error {
 		Timestamp:  time.Now().Unix(),
 		Members:    [][zkidentity.IdentitySize]byte{z.id.Public.Identity},
 	}
-	z.Unlock()
-
-	err = z.gcSaveDisk(args[2])
+	err = z._gcSaveDisk(args[2])
 	if err != nil {
+		delete(z.groups, args[2]) // unwind
+		z.Unlock()
 		return fmt.Errorf("could not create new group: %v", args[2])
 	}
+	z.Unlock()
 
 	z.PrintfT(-1, "group chat created: %v", z.settings.GcColor+args[2]+RESET)
 
@@ -193,12 +194,6 @@ func (z *ZKC) gcJoin(args []string) error {
 		return fmt.Errorf("join not found: %v %v", args[2], args[3])
 	}
 
-	// send RPC
-	z.scheduleCRPC(true, &from, rpc.GroupJoin{
-		Name:  args[2],
-		Token: token,
-	})
-
 	// save group with just name and administrator
 	z.groups[args[2]] = rpc.GroupList{
 		Name:    args[2],
@@ -207,9 +202,16 @@ func (z *ZKC) gcJoin(args []string) error {
 
 	err = z._gcSaveDisk(args[2])
 	if err != nil {
-		return fmt.Errorf("invalid token: %v", err)
+		delete(z.groups, args[2]) // unwind
+		return fmt.Errorf("could not save group chat: %v", err)
 	}
 
+	// send RPC
+	z.scheduleCRPC(true, &from, rpc.GroupJoin{
+		Name:  args[2],
+		Token: token,
+	})
+
 	// delete join from table
 	err = z.delJoin(args[2], token)
 	if err != nil {
-- 
2.43.0


From c7c8e6e6d6740df42e0222cb436fbc48d93c828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 36/55] fix: a received file stays inside the spool directory,
 is no larger than announced and does not mix with another one

---
 zkclient/chunk.go | 69 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 51 insertions(+), 18 deletions(-)

diff --git a/zkclient/chunk.go b/zkclient/chunk.go
index 02043ab..444a617 100644
--- a/zkclient/chunk.go
+++ b/zkclient/chunk.go
@@ -10,14 +10,30 @@ import (
 	"fmt"
 	"os"
 	"path"
+	"path/filepath"
 
 	"github.com/companyzero/zkc/rpc"
+	"github.com/companyzero/zkc/zkidentity"
 	xdr "github.com/davecgh/go-xdr/xdr2"
 	"github.com/marcopeereboom/goutil"
 )
 
 const descriptor = "descriptor.xdr"
 
+// spoolName returns the name, in the spool directory, that a file gets that was
+// offered as filename.
+func spoolName(filename string) (string, error) {
+	name := path.Base(filepath.ToSlash(filename))
+	if name == "." || name == ".." || name == "/" {
+		return "", fmt.Errorf("invalid filename: %q", filename)
+	}
+	// the directories of peers are named after their identities
+	if _, err := zkidentity.String2ID(name); err == nil {
+		name = "1" + name
+	}
+	return name, nil
+}
+
 func (z *ZKC) handleChunkNew(msg rpc.Message, p rpc.Push,
 	cn rpc.ChunkNew) error {
 
@@ -32,11 +48,21 @@ func (z *ZKC) handleChunkNew(msg rpc.Message, p rpc.Push,
 func (z *ZKC) doHandleChunkNew(msg rpc.Message, p rpc.Push,
 	cn rpc.ChunkNew) error {
 
+	// see if we want this file
+	_, err := spoolName(cn.Filename)
+	if err != nil {
+		return err
+	}
+	if cn.Size > z.attachmentSize {
+		return fmt.Errorf("file too large %v: %v, max allowed %v",
+			cn.Filename, cn.Size, z.attachmentSize)
+	}
+
 	// create landing zone
 	dir := path.Join(z.settings.Root, spoolDir,
 		hex.EncodeToString(p.From[:]))
 	spool := path.Join(dir, hex.EncodeToString(cn.Digest[:]))
-	desc := path.Join(dir, descriptor)
+	desc := spool + "." + descriptor
 	os.MkdirAll(dir, 0700)
 
 	// write out encoded chunk information
@@ -89,7 +115,20 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 	dir := path.Join(z.settings.Root, spoolDir,
 		hex.EncodeToString(p.From[:]))
 	spool := path.Join(dir, hex.EncodeToString(c.Digest[:]))
-	desc := path.Join(dir, descriptor)
+	desc := spool + "." + descriptor
+
+	// find out what was announced
+	f, err := os.Open(desc)
+	if err != nil {
+		return err
+	}
+	d := xdr.NewDecoder(f)
+	var cn rpc.ChunkNew
+	_, err = d.Decode(&cn)
+	f.Close() // windows
+	if err != nil {
+		return err
+	}
 
 	// open spool
 	fs, err := os.OpenFile(spool, os.O_WRONLY|os.O_APPEND, 0600)
@@ -108,10 +147,15 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 		return fmt.Errorf("unexpected offset got %v wanted %v",
 			fi.Size(), c.Offset)
 	}
+	if c.Offset > cn.Size || uint64(len(c.Payload)) > cn.Size-c.Offset {
+		fs.Close()
+		return fmt.Errorf("chunk exceeds file size: %v", cn.Filename)
+	}
 
 	// write payload
 	_, err = fs.Write(c.Payload)
 	if err != nil {
+		fs.Close()
 		return err
 	}
 
@@ -123,20 +167,6 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 	}
 	fs.Close() // windows
 
-	// determine if this is the last chunk
-	f, err := os.Open(desc)
-	if err != nil {
-		return err
-	}
-	defer f.Close()
-
-	d := xdr.NewDecoder(f)
-	var cn rpc.ChunkNew
-	_, err = d.Decode(&cn)
-	if err != nil {
-		return err
-	}
-
 	// check sizes
 	if fi.Size() == int64(cn.Size) {
 		// nick
@@ -156,8 +186,11 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 				pid.Nick, cn.Filename)
 		}
 
-		var fullpath, filename string
-		filename = cn.Filename
+		filename, err := spoolName(cn.Filename)
+		if err != nil {
+			return err
+		}
+		var fullpath string
 		for {
 			fullpath = path.Join(z.settings.Root, spoolDir,
 				filename)
-- 
2.43.0


From 015c0ddaf305c2f23f70f593b874153b1ddcd178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 37/55] fix: the client keeps an identity only if it verifies
 and, in a key exchange, is the sender's own

---
 zkclient/kxacceptwindow.go |  5 +++++
 zkclient/push.go           | 16 ++++++++++++++++
 zkclient/zkclient.go       |  3 +++
 3 files changed, 24 insertions(+)

diff --git a/zkclient/kxacceptwindow.go b/zkclient/kxacceptwindow.go
index 5d59188..aafcd67 100644
--- a/zkclient/kxacceptwindow.go
+++ b/zkclient/kxacceptwindow.go
@@ -139,6 +139,11 @@ func (ka *kxAcceptWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 			return
 		}
 
+		if !identity.Verify() {
+			ka.Status(w, true, "Could not verify public identity")
+			return
+		}
+
 		// make sure we don't add ourselves
 		if bytes.Equal(ka.zkc.id.Public.Identity[:], identity.Identity[:]) {
 			ka.Status(w, true, "can't add self to address book")
diff --git a/zkclient/push.go b/zkclient/push.go
index 8898e16..4b6aac7 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -208,6 +208,14 @@ func (z *ZKC) step2IDKX(msg rpc.Message, p rpc.Push) error {
 			return fmt.Errorf("can't kx with self")
 		}
 
+		// the identity must be the sender's own and prove itself
+		if !bytes.Equal(idkx.Identity.Identity[:], p.From[:]) {
+			return fmt.Errorf("identities don't match")
+		}
+		if !idkx.Identity.Verify() {
+			return fmt.Errorf("could not verify identity")
+		}
+
 		// create a new ratchet from idkx
 		r := ratchet.New(rand.Reader)
 		r.MyPrivateKey = &z.id.PrivateKey
@@ -328,6 +336,14 @@ func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
 		return fmt.Errorf("can't kx with self")
 	}
 
+	// the identity must be the sender's own and prove itself
+	if !bytes.Equal(idkx.Identity.Identity[:], p.From[:]) {
+		return fmt.Errorf("identities don't match")
+	}
+	if !idkx.Identity.Verify() {
+		return fmt.Errorf("could not verify identity")
+	}
+
 	// create a new ratchet from idkx
 	r := ratchet.New(rand.Reader)
 	r.MyPrivateKey = &z.id.PrivateKey
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index e5dd930..7ebab8f 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1512,6 +1512,9 @@ func (z *ZKC) handleRPC() {
 			if r.Error != "" {
 				// Server error is verbose so just print it
 				z.PrintfT(0, "%v", r.Error)
+			} else if !r.Identity.Verify() {
+				z.PrintfT(0, "could not verify identity: %v",
+					r.Nick)
 			} else {
 				err = z.step1IDKX(r.Identity)
 				if err != nil {
-- 
2.43.0


From b1e9106f82d50f4255012e87a731137111ab7e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:27 +0000
Subject: [PATCH 38/55] fix: the client does not send a heartbeat under a tag
 that it does not hold

---
 zkclient/zkclient.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 7ebab8f..a0bcc44 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1271,6 +1271,7 @@ func (z *ZKC) handleRPC() {
 						z.kx.Close()
 						return
 					}
+					continue
 				}
 				//z.PrintfT(0, "ping %v", tag)
 				z.write.Lock()
-- 
2.43.0


From 84676d8764fd357b0c11ef6c093283c19a4bec9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 39/55] fix: an invitation that arrives while a group chat is
 joined is not lost, nor is the joined one restored

---
 zkclient/push.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zkclient/push.go b/zkclient/push.go
index 4b6aac7..186131b 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -748,7 +748,9 @@ func (z *ZKC) handleGroupInvite(msg rpc.Message, p rpc.Push,
 	}
 
 	// add invite to join database
+	z.Lock()
 	err = z.joinDBAdd(p.From, gi)
+	z.Unlock()
 	if err != nil {
 		z.PrintfT(0, "could not join %v: %v",
 			gi.Name, err)
-- 
2.43.0


From 07ad80cfb07096caed351a654120647a17182174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:13 +0000
Subject: [PATCH 40/55] fix: changes of a group are shown only once they are
 accepted from its administrator

---
 zkclient/push.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index 186131b..568213b 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -1111,13 +1111,10 @@ func (z *ZKC) diffGroupList(ng rpc.GroupList) ([][zkidentity.IdentitySize]byte,
 	return min, plus, nil
 }
 
-func (z *ZKC) diffGroupListPrint(ng rpc.GroupList) {
-	min, plus, err := z.diffGroupList(ng)
-	if err != nil {
-		return
-	}
+func (z *ZKC) diffGroupListPrint(name string,
+	min, plus [][zkidentity.IdentitySize]byte) {
 
-	z.query(ng.Name)
+	z.query(name)
 
 	for _, v := range min {
 		if bytes.Equal(v[:], z.id.Public.Identity[:]) {
@@ -1196,8 +1193,8 @@ func (z *ZKC) handleGroupList(msg rpc.Message, p rpc.Push,
 	z.PrintfT(0, "Received new group chat list (%v): %v",
 		gl.Generation,
 		z.settings.GcColor+gl.Name+RESET)
-	// print diff
-	z.diffGroupListPrint(gl)
+	// diff with the list that it may replace
+	min, plus, derr := z.diffGroupList(gl)
 
 	// warn about missing keys
 	err := z.warnGroupListMissingKeys(true, gl)
@@ -1211,6 +1208,12 @@ func (z *ZKC) handleGroupList(msg rpc.Message, p rpc.Push,
 		z.PrintfT(0, "could not update group chat list: %v %v"+
 			z.settings.GcColor+gl.Name+RESET,
 			err)
+		return nil
+	}
+
+	// print diff, only now do we know that the list may be changed
+	if derr == nil {
+		z.diffGroupListPrint(gl.Name, min, plus)
 	}
 
 	return nil
@@ -1222,8 +1225,8 @@ func (z *ZKC) handleGroupUpdate(msg rpc.Message, p rpc.Push,
 	z.PrintfT(0, "Received group chat update (%v): %v",
 		gu.NewGroupList.Generation,
 		z.settings.GcColor+gu.NewGroupList.Name+RESET)
-	// print diff
-	z.diffGroupListPrint(gu.NewGroupList)
+	// diff with the list that it may replace
+	min, plus, derr := z.diffGroupList(gu.NewGroupList)
 
 	// warn about missing keys
 	err := z.warnGroupListMissingKeys(true, gu.NewGroupList)
@@ -1237,6 +1240,12 @@ func (z *ZKC) handleGroupUpdate(msg rpc.Message, p rpc.Push,
 		z.PrintfT(0, "could not update group chat list: %v %v"+
 			z.settings.GcColor+gu.NewGroupList.Name+RESET,
 			err)
+		return nil
+	}
+
+	// print diff, only now do we know that the list may be changed
+	if derr == nil {
+		z.diffGroupListPrint(gu.NewGroupList.Name, min, plus)
 	}
 
 	return nil
-- 
2.43.0


From dfae8a6ce2ce1b9a3632ce98fb224ee9bd95bb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 41/55] fix: a peer's nick does not lead its log out of the log
 directory

---
 zkclient/zkclient.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index a0bcc44..fa72ff2 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -211,6 +211,8 @@ func (z *ZKC) log(id int, format string, args ...interface{}) {
 		return
 	}
 	var filename string
+	// peers choose their nicks, do not let those lead out of the directory
+	nick := strings.Replace(z.conversation[id].nick, "/", "_", -1)
 	switch {
 	case id == 0:
 		// console
@@ -218,12 +220,11 @@ func (z *ZKC) log(id int, format string, args ...interface{}) {
 		return
 	case z.conversation[id].group:
 		filename = path.Join(z.settings.Root,
-			logsDir, "groupchat."+z.conversation[id].nick+"."+
-				server+".log")
+			logsDir, "groupchat."+nick+"."+server+".log")
 	default:
 		filename = path.Join(z.settings.Root,
 			logsDir,
-			z.conversation[id].nick+"."+server+"."+
+			nick+"."+server+"."+
 				z.conversation[id].id.String()+".log")
 	}
 	f, err := os.OpenFile(filename,
-- 
2.43.0


From a47cdabbcefc686e8b7e7fef4acc0ff2714e3fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:30 +0000
Subject: [PATCH 42/55] fix: a window shows and answers its peer under the
 unique nick of the address book

---
 zkclient/zkclient.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index fa72ff2..815c548 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -410,10 +410,10 @@ func (z *ZKC) getConversation(id [zkidentity.IdentitySize]byte) (*conversation,
 	if err != nil {
 		return nil, -1, err
 	}
-	if c.id.Nick == "" {
+	// peers choose their nicks, only the one in the address book is unique
+	c.nick = z.nickFromId(id)
+	if c.nick == "" {
 		c.nick = hex.EncodeToString(id[:])
-	} else {
-		c.nick = c.id.Nick
 	}
 
 	// create conversation console in queue
-- 
2.43.0


From 0417c9f74e4a4f9da5035c8b6661979aed2150a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:39 +0000
Subject: [PATCH 43/55] fix: what is typed in a window goes to the peer or
 group shown there, whatever its nick

---
 zkclient/mainwindow.go | 50 ++++++++++++++++++++++++++----------------
 zkclient/zkclient.go   |  2 +-
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/zkclient/mainwindow.go b/zkclient/mainwindow.go
index 1936743..bcfbc71 100644
--- a/zkclient/mainwindow.go
+++ b/zkclient/mainwindow.go
@@ -350,6 +350,26 @@ func (mw *mainWindow) appendHistory(cmd string) {
 	fmt.Fprintf(f, "%v\n", cmd)
 }
 
+// say sends a message to the peer, or group, of a conversation and echoes it in
+// its window.
+func (mw *mainWindow) say(c *conversation, win int, msg string) error {
+	if c.group {
+		a := []string{cmdGc, "m", c.nick, msg}
+		return mw.zkc.gcMessage(a, msg, rpc.MessageModeNormal)
+	}
+
+	err := mw.zkc.pm(c.id.Identity, msg, rpc.MessageModeNormal)
+	if err != nil {
+		return err
+	}
+	// echo
+	mw.zkc.PrintfT(win, "<%v> %v",
+		mw.zkc.settings.NickColor+mw.zkc.id.Public.Nick+RESET,
+		msg)
+
+	return nil
+}
+
 // action executes a user command.
 func (mw *mainWindow) action(cmd string) error {
 	if len(cmd) == 0 {
@@ -358,18 +378,16 @@ func (mw *mainWindow) action(cmd string) error {
 
 	// see if we got a command
 	if !strings.HasPrefix(cmd, leader) {
+		var c *conversation
 		mw.zkc.RLock()
-		if mw.zkc.active != 0 {
-			var c string
-			if mw.zkc.conversation[mw.zkc.active].group {
-				c = cmdGc + " m "
-			} else {
-				c = cmdM + " "
-			}
-			cmd = c + mw.zkc.conversation[mw.zkc.active].nick +
-				" " + cmd
+		win := mw.zkc.active
+		if win != 0 {
+			c = mw.zkc.conversation[win]
 		}
 		mw.zkc.RUnlock()
+		if c != nil {
+			return mw.say(c, win, strings.TrimRight(cmd, " "))
+		}
 	}
 	//mw.zkc.Dbg(idZKC, "action: [%v]", cmd)
 
@@ -542,6 +560,9 @@ func (mw *mainWindow) action(cmd string) error {
 			if v == nil {
 				continue
 			}
+			if k == 0 || v.group {
+				continue
+			}
 			if args[1] == v.nick {
 				c = v
 				win = k
@@ -563,16 +584,7 @@ func (mw *mainWindow) action(cmd string) error {
 			}
 		}
 
-		err = mw.zkc.pm(c.id.Identity, msg, rpc.MessageModeNormal)
-		if err != nil {
-			return err
-		}
-		// echo
-		mw.zkc.PrintfT(win, "<%v> %v",
-			mw.zkc.settings.NickColor+mw.zkc.id.Public.Nick+RESET,
-			msg)
-
-		return nil
+		return mw.say(c, win, msg)
 
 	case cmdInfo:
 		if len(args) == 1 {
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 815c548..898c32a 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -377,7 +377,7 @@ func (z *ZKC) groupConversation(group string) (*conversation, int, error) {
 	defer z.Unlock()
 	x := -1
 	for k, v := range z.conversation {
-		if v.id.Nick == group {
+		if v.group && v.nick == group {
 			return v, k, nil
 		}
 		// next free slot
-- 
2.43.0


From 0b6711f181954a7c2f6711d0c9e1622e0b1aa653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:42 +0000
Subject: [PATCH 44/55] fix: a message written while the client goes offline
 does not crash it

---
 zkclient/zkclient.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 898c32a..26f403a 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1854,7 +1854,11 @@ func (z *ZKC) reset(nick string) error {
 
 // writeMessage marshals and sends encrypted message to server.
 func (z *ZKC) writeMessage(msg *rpc.Message, payload interface{}) error {
-	if !z.isOnline() {
+	// going offline takes the session away
+	z.RLock()
+	kx, online := z.kx, z.online
+	z.RUnlock()
+	if !online || kx == nil {
 		return fmt.Errorf("not online")
 	}
 
@@ -1876,7 +1880,7 @@ func (z *ZKC) writeMessage(msg *rpc.Message, payload interface{}) error {
 		return fmt.Errorf("could not marshal payload %v", msg.Command)
 	}
 
-	err = z.kx.Write(bb.Bytes())
+	err = kx.Write(bb.Bytes())
 	if err != nil {
 		return fmt.Errorf("could not write %v: %v",
 			msg.Command, err)
-- 
2.43.0


From 0b742b268193f06bde4f0d2407fc815fc643a6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:42 +0000
Subject: [PATCH 45/55] fix: server properties that can not be used are refused

---
 zkclient/zkclient.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 26f403a..e20cec5 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -14,6 +14,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"math"
 	"net"
 	"net/http"
 	_ "net/http/pprof"
@@ -909,7 +910,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	if td == -1 {
 		return nil, fmt.Errorf("server did not provide tag depth")
 	}
-	if td > tagDepth {
+	if td < 1 || td > tagDepth {
 		return nil, fmt.Errorf("invalid tag depth: %v", td)
 	}
 
@@ -937,6 +938,9 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	if ms < cs {
 		return nil, fmt.Errorf("message size < chunk size")
 	}
+	if ms > math.MaxInt32 {
+		return nil, fmt.Errorf("invalid message size: %v", ms)
+	}
 
 	// directory mode
 	if dir {
-- 
2.43.0


From adfbb5731df163c86e9a5fefea218ef4b2b2b26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:00 +0000
Subject: [PATCH 46/55] fix: a server identity is only offered for acceptance
 once it is verified

---
 zkclient/welcome.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zkclient/welcome.go b/zkclient/welcome.go
index 6cac89e..792f494 100644
--- a/zkclient/welcome.go
+++ b/zkclient/welcome.go
@@ -175,6 +175,14 @@ func (ww *welcomeWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 				return
 			}
 
+			// the fingerprint must be that of the key that is used
+			if !pid.Verify() {
+				conn.Close()
+				ww.Status(w, true,
+					"Could not verify remote identity")
+				return
+			}
+
 			ww.Status(w, false, "Connected to: %v %v", pid.Name,
 				pid.Fingerprint())
 
-- 
2.43.0


From f4158df0d6954f05fe63cf97255e2686880b8a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:01 +0000
Subject: [PATCH 47/55] fix: the certificate of a known server is checked when
 an account is created

---
 zkclient/welcome.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/zkclient/welcome.go b/zkclient/welcome.go
index 792f494..3a0649b 100644
--- a/zkclient/welcome.go
+++ b/zkclient/welcome.go
@@ -5,6 +5,7 @@
 package main
 
 import (
+	"bytes"
 	"fmt"
 	"strings"
 
@@ -197,6 +198,14 @@ func (ww *welcomeWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 			ww.zkc.ttkAW = ttk.NewWindow(aw)
 			ttk.Focus(ww.zkc.ttkAW)
 		} else {
+			// we know this server, do not accept another
+			// certificate on behalf of the user
+			if !bytes.Equal(cs.PeerCertificates[0].Raw,
+				ww.zkc.cert) {
+				conn.Close()
+				ww.Status(w, true, "Server certificate changed")
+				return
+			}
 			pid = *ww.zkc.serverIdentity
 			ww.Status(w, false, "Connected to: %v %v", pid.Name,
 				pid.Fingerprint())
-- 
2.43.0


From 33d54aaab8286c544d0d2b5de51835a0b387b21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 48/55] fix: an account that was created is recorded before the
 client goes online with it

---
 zkclient/zkclient.go | 60 ++++++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index e20cec5..58f8d83 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -2018,6 +2018,46 @@ func (z *ZKC) loadGroupchat() error {
 	return nil
 }
 
+// accountOnline goes online with an account that was just created.
+func (z *ZKC) accountOnline(conn net.Conn, cs *tls.ConnectionState,
+	pid *zkidentity.PublicIdentity) (*rpc.Welcome, error) {
+
+	z.Lock()
+	defer z.Unlock()
+
+	// save of server identity
+	serverIdentity, cert := z.serverIdentity, z.cert
+	z.serverIdentity = pid
+	z.cert = cs.PeerCertificates[0].Raw
+
+	// tell remote we want to go full session
+	kx, err := z.sessionPhase(conn)
+	if err != nil {
+		// this is not the server it claims to be
+		z.serverIdentity = serverIdentity
+		z.cert = cert
+		return nil, err
+	}
+
+	// the account exists, don't lose the identity that goes with it
+	err = z.saveServerRecord(pid, cs.PeerCertificates[0].Raw)
+	if err != nil {
+		conn.Close()
+		return nil, err
+	}
+
+	// go through welcome phase
+	welcome, err := z.welcomePhase(kx)
+	if err != nil {
+		conn.Close()
+		return nil, err
+	}
+
+	go z.handleRPC()
+
+	return welcome, nil
+}
+
 func (z *ZKC) finalizeAccountCreation(conn net.Conn, cs *tls.ConnectionState,
 	pid *zkidentity.PublicIdentity, token string) error {
 	// tell server we want to create an account
@@ -2053,29 +2093,11 @@ func (z *ZKC) finalizeAccountCreation(conn net.Conn, cs *tls.ConnectionState,
 		return fmt.Errorf("Could not create account: %v", car.Error)
 	}
 
-	// save of server identity
-	z.serverIdentity = pid
-	z.cert = cs.PeerCertificates[0].Raw
-
-	// tell remote we want to go full session
-	kx, err := z.sessionPhase(conn)
+	welcome, err := z.accountOnline(conn, cs, pid)
 	if err != nil {
 		return err
 	}
 
-	// go through welcome phase
-	welcome, err := z.welcomePhase(kx)
-	if err != nil {
-		return err
-	}
-
-	err = z.saveServerRecord(pid, cs.PeerCertificates[0].Raw)
-	if err != nil {
-		return err
-	}
-
-	go z.handleRPC()
-
 	z.mw.welcomeMessage()
 	err = z.welcomeUser(welcome)
 	if err != nil {
-- 
2.43.0


From 3ef2c021a8233be7beff8624ba6b98bc7a0eaefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:28 +0000
Subject: [PATCH 49/55] fix: the connection is closed when going online fails

---
 zkclient/zkclient.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 58f8d83..4e847f3 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -979,16 +979,19 @@ func (z *ZKC) goOnline() (*rpc.Welcome, error) {
 	// XXX check cert here
 	if !bytes.Equal(cs.PeerCertificates[0].Raw, z.cert) {
 		z.provisionalCert = cs.PeerCertificates[0].Raw
+		conn.Close()
 		return nil, errCert
 	}
 
 	kx, err := z.sessionPhase(conn)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 
 	welcome, err := z.welcomePhase(kx)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 
-- 
2.43.0


From 5b88e17220f1e421c9b217113d94d96aeaab2824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:54 +0000
Subject: [PATCH 50/55] fix: the connection is closed when the server shows a
 chain of certificates

---
 zkclient/zkclient.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 4e847f3..a325a8c 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -742,6 +742,7 @@ func (z *ZKC) preSessionPhase() (net.Conn, *tls.ConnectionState, error) {
 
 	cs := conn.ConnectionState()
 	if len(cs.PeerCertificates) != 1 {
+		conn.Close()
 		return nil, nil, fmt.Errorf("unexpected certificate chain")
 	}
 
-- 
2.43.0


From 0af31995c0cf469567e9c307f91dc9ff7aba7e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:50 +0000
Subject: [PATCH 51/55] fix: a reply under a tag beyond the tag depth ends the
 session

---
 zkclient/zkclient.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index a325a8c..3d04591 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1198,6 +1198,18 @@ func (z *ZKC) handleDisabledUser(id [zkidentity.IdentitySize]byte) {
 	}
 }
 
+// freeTag returns the tag of a message that the server replied to.
+func (z *ZKC) freeTag(tag uint32) error {
+	z.RLock()
+	depth := uint32(len(z.tagCallback))
+	z.RUnlock()
+	if tag >= depth {
+		return fmt.Errorf("tag out of bounds")
+	}
+
+	return z.tagStack.Push(tag)
+}
+
 // handleRPC deals with all incoming RPC commands.  It shall be called as a go
 // routine.
 func (z *ZKC) handleRPC() {
@@ -1341,7 +1353,7 @@ func (z *ZKC) handleRPC() {
 			}
 
 			// free tag
-			err = z.tagStack.Push(message.Tag)
+			err = z.freeTag(message.Tag)
 			if err != nil {
 				exitError = fmt.Errorf("Pong invalid tag: %v",
 					message.Tag)
@@ -1368,7 +1380,7 @@ func (z *ZKC) handleRPC() {
 			} else {
 				z.PrintfT(0, "key exchange PIN: %v", r.Token)
 			}
-			err = z.tagStack.Push(message.Tag)
+			err = z.freeTag(message.Tag)
 			if err != nil {
 				exitError = fmt.Errorf("RendezvousReply "+
 					"invalid tag: %v", message.Tag)
@@ -1389,7 +1401,7 @@ func (z *ZKC) handleRPC() {
 				z.kaw.rendezvousPullReply = &r
 				ttk.Focus(z.ttkKAW)
 			}
-			err = z.tagStack.Push(message.Tag)
+			err = z.freeTag(message.Tag)
 			if err != nil {
 				exitError = fmt.Errorf("RendezvousPullReply "+
 					"invalid tag: %v", message.Tag)
@@ -1468,7 +1480,7 @@ func (z *ZKC) handleRPC() {
 			z.Unlock()
 
 			// push tag
-			err = z.tagStack.Push(message.Tag)
+			err = z.freeTag(message.Tag)
 			if err != nil {
 				exitError = fmt.Errorf("Push "+
 					"invalid tag: %v", message.Tag)
@@ -1512,7 +1524,7 @@ func (z *ZKC) handleRPC() {
 				z.pendingIdentitiesMutex.Unlock()
 			}
 
-			err = z.tagStack.Push(message.Tag)
+			err = z.freeTag(message.Tag)
 			if err != nil {
 				exitError = fmt.Errorf("IdentityFindReply "+
 					"invalid tag: %v", message.Tag)
@@ -1541,7 +1553,7 @@ func (z *ZKC) handleRPC() {
 				return
 			}
 
-			err = z.tagStack.Push(message.Tag)
+			err = z.freeTag(message.Tag)
 			if err != nil {
 				exitError = fmt.Errorf("ProxyReply "+
 					"invalid tag: %v", message.Tag)
-- 
2.43.0


From 36063e5009c6ddfb3eb87767b94f3c11bba36ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:52 +0000
Subject: [PATCH 52/55] fix: the client exchanges keys only with an identity
 that the user asked for

---
 zkclient/zkclient.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 3d04591..f5bb7b6 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1516,10 +1516,12 @@ func (z *ZKC) handleRPC() {
 				return
 			}
 
+			var asked bool
 			if r.Nick == "" {
 				z.PrintfT(0, "Server did not return nick")
 			} else {
 				z.pendingIdentitiesMutex.Lock()
+				asked = z.pendingIdentities[r.Nick] != nil
 				delete(z.pendingIdentities, r.Nick)
 				z.pendingIdentitiesMutex.Unlock()
 			}
@@ -1534,6 +1536,9 @@ func (z *ZKC) handleRPC() {
 			if r.Error != "" {
 				// Server error is verbose so just print it
 				z.PrintfT(0, "%v", r.Error)
+			} else if !asked {
+				z.PrintfT(0, "identity was not asked for: %v",
+					r.Nick)
 			} else if !r.Identity.Verify() {
 				z.PrintfT(0, "could not verify identity: %v",
 					r.Nick)
-- 
2.43.0


From d1ab635aad7e7a93403ed659425e143cb6bbcf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:56 +0000
Subject: [PATCH 53/55] fix: a session that is lost right away does not crash
 the client

---
 zkclient/zkclient.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index f5bb7b6..b73c0e1 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1689,7 +1689,14 @@ func (z *ZKC) parseMyIdentity(server *inidb.INIDB) error {
 }
 
 func (z *ZKC) welcomeUser(welcome *rpc.Welcome) error {
-	remoteId, ok := z.kx.TheirIdentity().([32]byte)
+	// the session may have been lost already
+	z.RLock()
+	kx := z.kx
+	z.RUnlock()
+	if kx == nil {
+		return fmt.Errorf("not online")
+	}
+	remoteId, ok := kx.TheirIdentity().([32]byte)
 	if !ok {
 		return fmt.Errorf("invalid KX identity type %T", remoteId)
 	}
-- 
2.43.0


From 99125274db36769994cdc4aec6084fba661d2658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:56 +0000
Subject: [PATCH 54/55] fix: the window that is active exists after a window
 was closed

---
 zkclient/mainwindow.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zkclient/mainwindow.go b/zkclient/mainwindow.go
index bcfbc71..6fd8a44 100644
--- a/zkclient/mainwindow.go
+++ b/zkclient/mainwindow.go
@@ -655,6 +655,7 @@ func (mw *mainWindow) action(cmd string) error {
 		mw.zkc.conversation[i].console.Visibility(ttk.VisibilityHide)
 		mw.zkc.conversation = append(mw.zkc.conversation[:i:i],
 			mw.zkc.conversation[i+1:]...)
+		mw.zkc.active = 0 // what is printed meanwhile needs a window
 		mw.zkc.focus(0)
 
 		return nil
-- 
2.43.0


From 2b12fe00e88cfc95d88eb1bd3f4933945d0ceb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:29 +0000
Subject: [PATCH 55/55] fix: the window that is active exists after windows
 were closed

---
 zkclient/mainwindow.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zkclient/mainwindow.go b/zkclient/mainwindow.go
index 6fd8a44..3ba0987 100644
--- a/zkclient/mainwindow.go
+++ b/zkclient/mainwindow.go
@@ -786,6 +786,7 @@ func closeAll(z *ZKC) {
 	console := z.conversation[0]
 	z.conversation = make([]*conversation, 1)
 	z.conversation[0] = console
+	z.active = 0 // what is printed meanwhile needs a window
 	z.focus(0)
 }
 
-- 
2.43.0

