From 1f238b4b348737c88b2459fb8709028fcee71328 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:45 +0000
Subject: [PATCH 01/33] fix: report malformed signatures and unknown algorithm
 ids as errors

Signature.Unmarshal used the algorithm before looking at the error, and
an algorithm id which is not registered was cloned from a nil example;
either crashed the process that parsed the bytes.
---
 pkg/signature/algorithm.go | 21 +++++++++++++++++++--
 pkg/signature/signature.go | 13 ++++++++++---
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/pkg/signature/algorithm.go b/pkg/signature/algorithm.go
index aae8e4a..42b08ac 100644
--- a/pkg/signature/algorithm.go
+++ b/pkg/signature/algorithm.go
@@ -84,6 +84,15 @@ func cloneAl(original Algorithm) Algorithm {
 	return reflect.New(val.Type()).Interface().(Algorithm)
 }
 
+// get a fresh Algorithm instance given its ID
+func algorithmOf(id AlgorithmID) (Algorithm, error) {
+	example, exists := idMap[id]
+	if !exists {
+		return nil, errors.Errorf("unknown algorithm id %d", id)
+	}
+	return cloneAl(example), nil
+}
+
 // Unmarshal the serialized binary data into an Algorithm instance and
 // the originally supplied data.
 func unmarshal(serialized []byte) (al Algorithm, data []byte, err error) {
@@ -95,7 +104,11 @@ func unmarshal(serialized []byte) (al Algorithm, data []byte, err error) {
 	if len(leftovers) > 0 {
 		return nil, nil, errors.New("Leftovers present after deserialization")
 	}
-	return cloneAl(idMap[container.Algorithm]), container.Data, nil
+	al, err = algorithmOf(container.Algorithm)
+	if err != nil {
+		return nil, nil, err
+	}
+	return al, container.Data, nil
 }
 
 func unmarshalWithLeftovers(serialized []byte) (al Algorithm, data, leftovers []byte, err error) {
@@ -104,7 +117,11 @@ func unmarshalWithLeftovers(serialized []byte) (al Algorithm, data, leftovers []
 	if err != nil {
 		return nil, nil, nil, err
 	}
-	return cloneAl(idMap[container.Algorithm]), container.Data, leftovers, nil
+	al, err = algorithmOf(container.Algorithm)
+	if err != nil {
+		return nil, nil, nil, err
+	}
+	return al, container.Data, leftovers, nil
 }
 
 // Generate a high-level keypair
diff --git a/pkg/signature/signature.go b/pkg/signature/signature.go
index 303898d..a2d28dd 100644
--- a/pkg/signature/signature.go
+++ b/pkg/signature/signature.go
@@ -64,9 +64,8 @@ func (signature Signature) Marshal() (serialized []byte, err error) {
 // Unmarshal unmarshals the serialized binary data into the supplied signature instance
 func (signature *Signature) Unmarshal(serialized []byte) error {
 	al, b, err := unmarshal(serialized)
-	ss := al.SignatureSize()
-	if err == nil && ss >= 0 && len(b) != ss {
-		err = fmt.Errorf("Wrong size signature: expect len %d, have %d", al.SignatureSize(), len(b))
+	if err == nil {
+		err = checkSignatureSize(al, b)
 	}
 	if err == nil {
 		signature.algorithm = al
@@ -75,6 +74,14 @@ func (signature *Signature) Unmarshal(serialized []byte) error {
 	return err
 }
 
+// checkSignatureSize checks that data has the size which its algorithm demands, if any
+func checkSignatureSize(al Algorithm, data []byte) error {
+	if ss := al.SignatureSize(); ss >= 0 && len(data) != ss {
+		return fmt.Errorf("Wrong size signature: expect len %d, have %d", ss, len(data))
+	}
+	return nil
+}
+
 // Verify is a convenience function to verify from a signature
 func (signature Signature) Verify(message []byte, key PublicKey) bool {
 	return key.Verify(message, signature)
-- 
2.43.0


From 77f06534dc9e50059305f19c7f8054c0d420254b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:45 +0000
Subject: [PATCH 02/33] fix: check the signature size in Signature.UnmarshalMsg

Signature.Unmarshal and both key types check it; a streamed signature of
the wrong size was accepted.
---
 pkg/signature/signature.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/signature/signature.go b/pkg/signature/signature.go
index a2d28dd..73d71b7 100644
--- a/pkg/signature/signature.go
+++ b/pkg/signature/signature.go
@@ -101,6 +101,9 @@ func (signature *Signature) UnmarshalMsg(in []byte) (leftover []byte, err error)
 	var al Algorithm
 	var b []byte
 	al, b, leftover, err = unmarshalWithLeftovers(in)
+	if err == nil {
+		err = checkSignatureSize(al, b)
+	}
 	if err == nil {
 		signature.algorithm = al
 		signature.data = b
-- 
2.43.0


From 5734ee90e44732a41aa0f439d905aa5ce813f026 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:45 +0000
Subject: [PATCH 03/33] fix: key text shorter than its prefix is an error, not
 a panic

---
 pkg/signature/private_key.go | 8 ++++++--
 pkg/signature/public_key.go  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/signature/private_key.go b/pkg/signature/private_key.go
index e449d03..398ff60 100644
--- a/pkg/signature/private_key.go
+++ b/pkg/signature/private_key.go
@@ -124,8 +124,12 @@ func (key PrivateKey) MarshalText() ([]byte, error) {
 func (key *PrivateKey) UnmarshalText(text []byte) error {
 	expectPrefix := []byte(PrivateKeyPrefix)
 	lep := len(expectPrefix)
-	if !bytes.Equal(expectPrefix, text[:lep]) {
-		return fmt.Errorf("private key must begin with %q; got %q", PrivateKeyPrefix, text[:lep])
+	if !bytes.HasPrefix(text, expectPrefix) {
+		got := text
+		if len(got) > lep {
+			got = got[:lep]
+		}
+		return fmt.Errorf("private key must begin with %q; got %q", PrivateKeyPrefix, got)
 	}
 	err := key.keyBase.UnmarshalText(text[lep:])
 	if err == nil {
diff --git a/pkg/signature/public_key.go b/pkg/signature/public_key.go
index 1378637..50f8687 100644
--- a/pkg/signature/public_key.go
+++ b/pkg/signature/public_key.go
@@ -136,8 +136,12 @@ func (key PublicKey) MarshalText() ([]byte, error) {
 func (key *PublicKey) UnmarshalText(text []byte) error {
 	expectPrefix := []byte(PublicKeyPrefix)
 	lep := len(expectPrefix)
-	if !bytes.Equal(expectPrefix, text[:lep]) {
-		return fmt.Errorf("public key must begin with %q; got %q", PublicKeyPrefix, text[:lep])
+	if !bytes.HasPrefix(text, expectPrefix) {
+		got := text
+		if len(got) > lep {
+			got = got[:lep]
+		}
+		return fmt.Errorf("public key must begin with %q; got %q", PublicKeyPrefix, got)
 	}
 	err := key.keyBase.UnmarshalText(text[lep:])
 	if err == nil {
-- 
2.43.0


From 00a5f79856f5aba3737d222f5dccf985a27147cc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:45 +0000
Subject: [PATCH 04/33] fix: unpacking an empty key clears what the object held
 before

Unmarshalling a key without data into an object that had been used left
the previous key in it and reported success.
---
 pkg/signature/keybase.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/signature/keybase.go b/pkg/signature/keybase.go
index 32f386a..49825b7 100644
--- a/pkg/signature/keybase.go
+++ b/pkg/signature/keybase.go
@@ -55,6 +55,8 @@ func (key keyBase) pack() ([]byte, error) {
 
 func (key *keyBase) unpack(data []byte) error {
 	if len(data) == 0 {
+		key.key = nil
+		key.extra = nil
 		return nil
 	}
 	lk := int(data[0])
-- 
2.43.0


From b345fc6ea99db64c489fb1f48c29a6a83c8f2bf2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:45 +0000
Subject: [PATCH 05/33] fix: NameOf treats a nil algorithm as Null, as idOf
 does

Verifying with a zero Signature panicked.
---
 pkg/signature/id_map.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/signature/id_map.go b/pkg/signature/id_map.go
index 5e81ee5..a008071 100644
--- a/pkg/signature/id_map.go
+++ b/pkg/signature/id_map.go
@@ -71,6 +71,10 @@ func buildNameMap() {
 
 // NameOf returns the name of an Algorithm
 func NameOf(al Algorithm) string {
+	// if the algorithm field is nil, then it's the Null algorithm
+	if al == nil {
+		al = Null
+	}
 	ty := reflect.TypeOf(al)
 	// arbitrary-depth dereference
 	for ty.Kind() == reflect.Interface || ty.Kind() == reflect.Ptr {
-- 
2.43.0


From ed234c6b83f9fbde2dcda11ec7dddb081d26420a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:45 +0000
Subject: [PATCH 06/33] fix: count the length byte and the extra data in the
 keys' Msgsize

It is documented as an upper bound, but was less than what MarshalMsg
produces for every extended key.
---
 pkg/signature/keybase.go     | 2 +-
 pkg/signature/private_key.go | 2 +-
 pkg/signature/public_key.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/signature/keybase.go b/pkg/signature/keybase.go
index 49825b7..5ecf4ce 100644
--- a/pkg/signature/keybase.go
+++ b/pkg/signature/keybase.go
@@ -133,7 +133,7 @@ func (key *keyBase) UnmarshalMsg(in []byte) (leftover []byte, err error) {
 // as fundamentally a keyBase gets serialized as an IdentifiedData, and so should
 // have the same size.
 func (key *keyBase) Msgsize() (s int) {
-	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + len(key.key)
+	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + 1 + len(key.key) + len(key.extra)
 	return
 }
 
diff --git a/pkg/signature/private_key.go b/pkg/signature/private_key.go
index 398ff60..c914f09 100644
--- a/pkg/signature/private_key.go
+++ b/pkg/signature/private_key.go
@@ -106,7 +106,7 @@ func (key *PrivateKey) UnmarshalMsg(in []byte) (leftover []byte, err error) {
 // as fundamentally a PrivateKey gets serialized as an IdentifiedData, and so should
 // have the same size.
 func (key *PrivateKey) Msgsize() (s int) {
-	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + len(key.key)
+	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + 1 + len(key.key) + len(key.extra)
 	return
 }
 
diff --git a/pkg/signature/public_key.go b/pkg/signature/public_key.go
index 50f8687..3c35341 100644
--- a/pkg/signature/public_key.go
+++ b/pkg/signature/public_key.go
@@ -118,7 +118,7 @@ func (key *PublicKey) UnmarshalMsg(in []byte) (leftover []byte, err error) {
 // as fundamentally a PublicKey gets serialized as an IdentifiedData, and so should
 // have the same size.
 func (key *PublicKey) Msgsize() (s int) {
-	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + len(key.key)
+	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + 1 + len(key.key) + len(key.extra)
 	return
 }
 
-- 
2.43.0


From 3d43a8bb4820bbacfe6269ff297c38e4a5b48981 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:45 +0000
Subject: [PATCH 07/33] fix: refuse checksum widths which AddChecksum does not
 produce

A damaged width byte of more than 28 indexed the hash out of range, and a
width of 0, 1 or 2 disabled the checksum.
---
 pkg/signature/checksum.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/signature/checksum.go b/pkg/signature/checksum.go
index 683711a..4945633 100644
--- a/pkg/signature/checksum.go
+++ b/pkg/signature/checksum.go
@@ -85,6 +85,11 @@ func CheckChecksum(checked []byte) (message []byte, checksumOk bool) {
 		return nil, false
 	}
 	message = checked[1:end]
+	// the width is implied by the length of the message; any other width
+	// is damage (or more bytes than the hash has, or fewer than the minimum)
+	if n != checksumWidth(len(message)) {
+		return nil, false
+	}
 
 	sumActual := checked[end:]
 	sumExpect := cksumN(message, n)
-- 
2.43.0


From b5abd0e6fc3f671ea306a81104b65fcf929b4844 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:17 +0000
Subject: [PATCH 08/33] fix: keys do not share memory with keys made from them

Public, AsSignatureKey, SPubKey, SPrivKey and FromSignatureKey shared
slices with the original, so Zero on either key (or unmarshalling into
it) destroyed the other. Zero also left a zeroed memo of the public key
behind, which PubKeyBytes returned for whatever private key was loaded
into the object next.
---
 pkg/key/extendedkey.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index e627331..e3345a3 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -389,7 +389,8 @@ func (k *ExtendedKey) Public() (*ExtendedKey, error) {
 	// key will simply be the pubkey of the current extended private key.
 	//
 	// This is the function N((k,c)) -> (K, c) from [BIP32].
-	return NewExtendedKey(k.PubKeyBytes(), k.chainCode, k.parentFP,
+	// The new key gets its own copies, so that it outlives Zero on this one.
+	return NewExtendedKey(clone(k.PubKeyBytes()), clone(k.chainCode), clone(k.parentFP),
 		k.depth, k.childNum, false), nil
 }
 
@@ -490,13 +491,18 @@ func (k *ExtendedKey) parseExtra(data []byte) error {
 		return errors.New("cannot parseExtra: too few bytes in data")
 	}
 	k.depth = data[0]
-	k.parentFP = data[1:4]
+	k.parentFP = clone(data[1:4])
 	k.childNum = binary.BigEndian.Uint32(data[4:8])
-	k.chainCode = data[8:40]
+	k.chainCode = clone(data[8:40])
 
 	return nil
 }
 
+// clone copies a slice, so that keys never share memory with each other.
+func clone(b []byte) []byte {
+	return append([]byte{}, b...)
+}
+
 // zero sets all bytes in the passed slice to zero.  This is used to
 // explicitly clear private key material from memory.
 func zero(b []byte) {
@@ -516,6 +522,7 @@ func (k *ExtendedKey) Zero() {
 	zero(k.chainCode)
 	zero(k.parentFP)
 	k.key = nil
+	k.pubKey = nil
 	k.depth = 0
 	k.childNum = 0
 	k.isPrivate = false
@@ -569,7 +576,7 @@ func (k *ExtendedKey) FromSignatureKey(key signature.Key) (err error) {
 	}
 
 	k.isPrivate = signature.IsPrivate(key)
-	k.key = key.KeyBytes()
+	k.key = clone(key.KeyBytes())
 	err = k.parseExtra(key.ExtraBytes())
 	if err != nil {
 		return errors.Wrap(err, "could not parse extra")
@@ -590,11 +597,11 @@ func FromSignatureKey(key signature.Key) (ek *ExtendedKey, err error) {
 // AsSignatureKey converts this ExtendedKey into a signature.Key instance
 func (k ExtendedKey) AsSignatureKey() (signature.Key, error) {
 	if k.isPrivate {
-		priv, err := signature.RawPrivateKey(signature.Secp256k1, k.key, k.extra())
+		priv, err := signature.RawPrivateKey(signature.Secp256k1, clone(k.key), k.extra())
 		err = errors.Wrap(err, "could not convert private key")
 		return priv, err
 	}
-	pub, err := signature.RawPublicKey(signature.Secp256k1, k.key, k.extra())
+	pub, err := signature.RawPublicKey(signature.Secp256k1, clone(k.key), k.extra())
 	err = errors.Wrap(err, "could not convert public key")
 	return pub, err
 }
-- 
2.43.0


From f2aaadb4abd50be7afbff2cd29516381caafaa98 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:17 +0000
Subject: [PATCH 09/33] fix: HardenedChild refuses indices of 2^31 and more

They wrapped around, so that HardenedChild (and a path element such as
/2147483648') silently returned a child which was not hardened.
---
 pkg/key/extendedkey.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index e3345a3..02e9fa0 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -400,6 +400,10 @@ func (k *ExtendedKey) Public() (*ExtendedKey, error) {
 // A HardenedChild is guaranteed to have been derived from a private key.
 // It is an error if the given key is already a hardened key.
 func (k *ExtendedKey) HardenedChild(n uint32) (*ExtendedKey, error) {
+	if n >= HardenedKeyStart {
+		// adding the offset would wrap around to a child which is not hardened
+		return nil, errors.Errorf("hardened child index %d out of range", n)
+	}
 	ndx := n + HardenedKeyStart
 	nk, err := k.Child(ndx)
 	return nk, errors.Wrap(err, "could not get child key")
-- 
2.43.0


From ef4aef37d5329113f6f11bbaac491b2715c50c76 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 10/33] fix: Address.UnmarshalText keeps the canonical
 lower-case form

Validate does; an address read from upper-case text was a different value
from the same address validated.
---
 pkg/address/address.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/address/address.go b/pkg/address/address.go
index d6dfd27..6c737c1 100644
--- a/pkg/address/address.go
+++ b/pkg/address/address.go
@@ -47,10 +47,10 @@ func (a Address) MarshalText() ([]byte, error) {
 // UnmarshalText implements encoding.TextUnmarshaler
 func (a *Address) UnmarshalText(text []byte) error {
 	s := string(text)
-	_, err := Validate(s)
+	v, err := Validate(s)
 	if err != nil {
 		return err
 	}
-	a.addr = s
+	*a = v
 	return nil
 }
-- 
2.43.0


From b2df23217294ba7bd7a7c0d55d9c44bcde79eae6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 11/33] fix: addresses with newlines or padding do not validate
 or panic

The base32 decoder skips newlines and padding, so a 48-character string
could decode to fewer bytes than an address has, down to none at all. The
kind of an address decoded without validation no longer panics.
---
 pkg/address/address_impl.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/address/address_impl.go b/pkg/address/address_impl.go
index 2df444f..b002c34 100644
--- a/pkg/address/address_impl.go
+++ b/pkg/address/address_impl.go
@@ -190,6 +190,10 @@ func Validate(addr string) (Address, error) {
 	if err != nil {
 		return emptyA(), err
 	}
+	// the decoder skips newlines and padding, which shorten the payload
+	if len(h) != len(addrPrefix)+HashTrim+2 {
+		return emptyA(), newError("not a valid address payload")
+	}
 	// now check the two bytes of the checksum
 	if !b32.Check(h[:len(h)-2], h[len(h)-2:]) {
 		// uncomment these lines if you want to regenerate a key
@@ -212,6 +216,9 @@ func (z Address) String() string {
 
 // Kind returns the kind byte of the address.
 func (z Address) Kind() byte {
+	if len(z.addr) <= kindOffset {
+		return 0 // not a valid kind
+	}
 	return z.addr[kindOffset]
 }
 
-- 
2.43.0


From 81a08168bca12607cb18a90e3f85eb9add8ac1c1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:20 +0000
Subject: [PATCH 12/33] fix: ToBytes accepts only the word counts that
 FromBytes produces

An empty list panicked, and for some numbers of words a reading with 0 to
3 checksum bits was accepted, so a phrase with wrong words in it could be
taken for valid.
---
 pkg/words/words.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/words/words.go b/pkg/words/words.go
index a2c7907..03d2d47 100644
--- a/pkg/words/words.go
+++ b/pkg/words/words.go
@@ -198,6 +198,11 @@ func ToBytes(lang string, s []string) ([]byte, error) {
 	// if a shorter version (with a longer crc) is possible, test it first
 	// because if this crc is correct it's more likely to be the right answer
 	for _, rb := range []int{resultbytes - 1, resultbytes} {
+		// this must be the number of words that padData uses for rb bytes;
+		// in particular there are never fewer than 4 checksum bits
+		if rb < 0 || nextMultipleOf(rb*8+4, 11) != nbits {
+			continue
+		}
 		runlen := nbits - rb*8
 		mask := (1 << uint(runlen)) - 1 // generate runlen 1 bits
 		ckcalc := int(crc8(result[:rb])) & mask
-- 
2.43.0


From 6b723caf9274c6c0dc118582bb6c0c4082f3ba59 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:55 +0000
Subject: [PATCH 13/33] fix: algorithm ids do not depend on map order; refuse
 ambiguous names

An algorithm registered under two ids was written under either one,
depending on map iteration order; two types of the same name were taken
for each other; algorithms registered as pointers could be read but not
written; registering nil panicked after changing the registry.
---
 pkg/signature/id_map.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/pkg/signature/id_map.go b/pkg/signature/id_map.go
index a008071..07c8d59 100644
--- a/pkg/signature/id_map.go
+++ b/pkg/signature/id_map.go
@@ -47,12 +47,21 @@ func RegisterAlgorithm(id AlgorithmID, al Algorithm) error {
 	if id < AlgorithmID(128) {
 		return fmt.Errorf("Reserved algorithm id %d < 128", id)
 	}
+	if al == nil || len(NameOf(al)) == 0 {
+		return errors.New("anonymous types are not Algorithms")
+	}
 	if existing, exists := idMap[id]; exists {
 		existingName := NameOf(existing)
 		if existingName != NameOf(al) {
 			return fmt.Errorf("ID %d already in use by %s", id, existingName)
 		}
 	}
+	// algorithms are told apart by name, so two of them can't share one
+	for usedID, used := range idMap {
+		if NameOf(used) == NameOf(al) && typeOf(used) != typeOf(al) {
+			return fmt.Errorf("name %s already in use by ID %d", NameOf(al), usedID)
+		}
+	}
 
 	idMap[id] = al
 	buildNameMap()
@@ -60,12 +69,17 @@ func RegisterAlgorithm(id AlgorithmID, al Algorithm) error {
 }
 
 // idNameMap is always the inverse of IdMap
+//
+// An algorithm which is registered under several IDs is written with the lowest.
 func buildNameMap() {
 	var id AlgorithmID
 	var example Algorithm
 	idNameMap = make(map[string]AlgorithmID)
 	for id, example = range idMap {
-		idNameMap[reflect.TypeOf(example).Name()] = id
+		name := NameOf(example)
+		if used, exists := idNameMap[name]; !exists || id < used {
+			idNameMap[name] = id
+		}
 	}
 }
 
@@ -75,12 +89,17 @@ func NameOf(al Algorithm) string {
 	if al == nil {
 		al = Null
 	}
+	return typeOf(al).Name()
+}
+
+// typeOf returns the type of an Algorithm, without pointers
+func typeOf(al Algorithm) reflect.Type {
 	ty := reflect.TypeOf(al)
 	// arbitrary-depth dereference
 	for ty.Kind() == reflect.Interface || ty.Kind() == reflect.Ptr {
 		ty = ty.Elem()
 	}
-	return ty.Name()
+	return ty
 }
 
 // Get the ID associated with an Algorithm type
-- 
2.43.0


From 2d681beffd53a35741ea228bf2b20bded64cd07a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 14/33] fix: an algorithm registered as a nil pointer can be
 read

Only the type of the example matters, but cloning it dereferenced it.
---
 pkg/signature/algorithm.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pkg/signature/algorithm.go b/pkg/signature/algorithm.go
index 42b08ac..898a2bd 100644
--- a/pkg/signature/algorithm.go
+++ b/pkg/signature/algorithm.go
@@ -77,11 +77,7 @@ func marshal(al Algorithm, data []byte) (serialized []byte, err error) {
 // shallow copy an interface from an example struct
 // https://stackoverflow.com/a/22948379/504550
 func cloneAl(original Algorithm) Algorithm {
-	val := reflect.ValueOf(original)
-	if val.Kind() == reflect.Ptr {
-		val = reflect.Indirect(val)
-	}
-	return reflect.New(val.Type()).Interface().(Algorithm)
+	return reflect.New(typeOf(original)).Interface().(Algorithm)
 }
 
 // get a fresh Algorithm instance given its ID
-- 
2.43.0


From 13995c80eed8f9b646e0d4434173684c7af53aa7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 15/33] fix: calls without any argument do not crash the key
 service

---
 cmd/keyaddr/handlers.go | 5 ++++-
 cmd/keyaddr/helpers.go  | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/keyaddr/handlers.go b/cmd/keyaddr/handlers.go
index 05b4689..d0354dd 100644
--- a/cmd/keyaddr/handlers.go
+++ b/cmd/keyaddr/handlers.go
@@ -40,7 +40,10 @@ func exit(this js.Value, args []js.Value) interface{} {
 
 // errorHandler is a javascript overrideable error handler that prints to the console.
 func errorHandler(this js.Value, args []js.Value) interface{} {
-	msg := args[0]
+	msg := js.Undefined()
+	if len(args) > 0 {
+		msg = args[0]
+	}
 	js.Global().Get("console").Call("log", fmt.Sprintf("WASM Keyaddr Error: %s", msg))
 	return nil
 }
diff --git a/cmd/keyaddr/helpers.go b/cmd/keyaddr/helpers.go
index 85ecbb4..0af30db 100644
--- a/cmd/keyaddr/helpers.go
+++ b/cmd/keyaddr/helpers.go
@@ -23,7 +23,12 @@ import (
 // when this function returns err != nil, the handler should end asap.
 func handleArgs(args []js.Value, expected int, source string) (js.Value, []js.Value, error) {
 
-	// check that callback is a function
+	// check that there is a callback, and that it is a function
+	if len(args) == 0 {
+		msg := fmt.Sprintf("couldn't parse %s arguments: no arguments.", source)
+		dispatchError(msg)
+		return js.Value{}, []js.Value{}, errors.New(msg)
+	}
 	cb := args[len(args)-1]
 	if cb.Type() != js.TypeFunction {
 		msg := fmt.Sprintf("couldn't parse %s arguments: last argument must be a callback function.", source)
-- 
2.43.0


From 6cbbfaf2d4d54452e1e84e6dba38b9aa3ad18f18 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 16/33] fix: wordsFromPrefix rejects a max which is not a
 number

Value.Int panics on other types, which ended the key service.
---
 cmd/keyaddr/handlers.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/keyaddr/handlers.go b/cmd/keyaddr/handlers.go
index d0354dd..f5ea693 100644
--- a/cmd/keyaddr/handlers.go
+++ b/cmd/keyaddr/handlers.go
@@ -154,6 +154,12 @@ func wordsFromPrefix(this js.Value, args []js.Value) interface{} {
 
 		lang := remainder[0].String()
 		prefix := remainder[1].String()
+
+		if remainder[2].Type() != js.TypeNumber {
+			jsLogReject(callback, "max must be of type Number")
+			return
+		}
+
 		max := remainder[2].Int()
 
 		// do work
-- 
2.43.0


From b8a9209b648d72eec01aa4bf4f7aea80609b3bb5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 17/33] fix: overlapping exit calls do not close the wait
 channel twice

---
 cmd/keyaddr/handlers.go | 2 +-
 cmd/keyaddr/main.go     | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/keyaddr/handlers.go b/cmd/keyaddr/handlers.go
index f5ea693..b9faa38 100644
--- a/cmd/keyaddr/handlers.go
+++ b/cmd/keyaddr/handlers.go
@@ -31,7 +31,7 @@ func exit(this js.Value, args []js.Value) interface{} {
 		}
 		callback.Invoke(nil, "keyaddr exiting...")
 		// cause main to be unblocked waiting for channel input and exit
-		close(waitChannel)
+		closeOnce.Do(func() { close(waitChannel) })
 		return
 
 	}()
diff --git a/cmd/keyaddr/main.go b/cmd/keyaddr/main.go
index dde66df..c83b9e2 100644
--- a/cmd/keyaddr/main.go
+++ b/cmd/keyaddr/main.go
@@ -28,12 +28,16 @@ Notes:
 */
 
 import (
+	"sync"
 	"syscall/js"
 )
 
 // waitChannel is used to control keeping the process open, as well as closing on command.
 var waitChannel chan struct{}
 
+// closeOnce lets exit be called more than once.
+var closeOnce sync.Once
+
 func main() {
 	js.Global().Get("console").Call("log", "WASM Keyaddr starting")
 
-- 
2.43.0


From 47be642a26c22e44da5dc1706a4db6d47ce64dc6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 18/33] fix: a callback that throws does not end the key
 service

The exception became a panic in the handler's goroutine, which stopped the
service for every other caller.
---
 cmd/keyaddr/handlers.go | 13 +++++++++++++
 cmd/keyaddr/helpers.go  | 14 ++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/cmd/keyaddr/handlers.go b/cmd/keyaddr/handlers.go
index b9faa38..8a954b9 100644
--- a/cmd/keyaddr/handlers.go
+++ b/cmd/keyaddr/handlers.go
@@ -22,6 +22,7 @@ import (
 // exit will quit the go program, causing the application to no longer respond to function calls.
 func exit(this js.Value, args []js.Value) interface{} {
 	go func() {
+		defer reportThrow("exit")
 		logInfo("keyaddr exiting...")
 
 		// clean args
@@ -51,6 +52,7 @@ func errorHandler(this js.Value, args []js.Value) interface{} {
 // JS Usage: newKey(recoveryBytes, cb)
 func newKey(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer reportThrow("newKey")
 		logDebug("newKey")
 
 		// clean args
@@ -79,6 +81,7 @@ func newKey(this js.Value, args []js.Value) interface{} {
 // language defaults to en if not specified.
 func wordsToBytes(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer reportThrow("wordsToBytes")
 		logDebug("wordsToBytes")
 		// clean args
 		callback, remainder, err := handleArgs(args, 2, "wordsToBytes")
@@ -116,6 +119,7 @@ func wordsToBytes(this js.Value, args []js.Value) interface{} {
 // JS Usage: deriveFrom(parentKey, parentPath, childPath, cb)
 func deriveFrom(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer reportThrow("deriveFrom")
 		logDebug("deriveFrom")
 		// clean args
 		callback, remainder, err := handleArgs(args, 3, "deriveFrom")
@@ -145,6 +149,7 @@ func deriveFrom(this js.Value, args []js.Value) interface{} {
 // JS Usage: wordsFromPrefix(lang, prefix, max, cb)
 func wordsFromPrefix(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer reportThrow("wordsFromPrefix")
 		logDebug("wordsFromPrefix")
 		// clean args
 		callback, remainder, err := handleArgs(args, 3, "wordsFromPrefix")
@@ -176,6 +181,7 @@ func wordsFromPrefix(this js.Value, args []js.Value) interface{} {
 // JS Usage: isPrivate(key, cb)
 func isPrivate(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer reportThrow("isPrivate")
 		logDebug("isPrivate")
 		// clean args
 		callback, remainder, err := handleArgs(args, 1, "isPrivate")
@@ -206,6 +212,7 @@ func isPrivate(this js.Value, args []js.Value) interface{} {
 // JS Usage: fromString(key, cb)
 func fromString(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer reportThrow("fromString")
 		logDebug("fromString")
 		// clean args
 		callback, remainder, err := handleArgs(args, 1, "fromString")
@@ -237,6 +244,7 @@ func fromString(this js.Value, args []js.Value) interface{} {
 // JS Usage: wordsFromBytes(lang, base64bytes, cb)
 func wordsFromBytes(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer reportThrow("wordsFromBytes")
 		logDebug("wordsFromBytes")
 		// clean args
 		callback, remainder, err := handleArgs(args, 2, "wordsFromBytes")
@@ -265,6 +273,7 @@ func wordsFromBytes(this js.Value, args []js.Value) interface{} {
 // JS Usage: ndauAddress(privateKey, cb)
 func ndauAddress(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer reportThrow("ndauAddress")
 		logDebug("ndauAddress")
 		// clean args
 		callback, remainder, err := handleArgs(args, 1, "ndauAddress")
@@ -293,6 +302,7 @@ func ndauAddress(this js.Value, args []js.Value) interface{} {
 // JS Usage: toPublic(privateKey, cb)
 func toPublic(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer reportThrow("toPublic")
 		logDebug("toPublic")
 		// clean args
 		callback, remainder, err := handleArgs(args, 1, "toPublic")
@@ -323,6 +333,7 @@ func toPublic(this js.Value, args []js.Value) interface{} {
 // JS Usage: child(privateKey, n, cb)
 func child(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer reportThrow("child")
 		logDebug("child")
 		// clean args
 		callback, remainder, err := handleArgs(args, 2, "child")
@@ -365,6 +376,7 @@ func child(this js.Value, args []js.Value) interface{} {
 // JS Usage: sign(privateKey, base64Message, cb)
 func sign(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer reportThrow("sign")
 		logDebug("sign")
 		// clean args
 		callback, remainder, err := handleArgs(args, 2, "sign")
@@ -396,6 +408,7 @@ func sign(this js.Value, args []js.Value) interface{} {
 // JS Usage: hardenedChild(privateKey, n, cb)
 func hardenedChild(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer reportThrow("hardenedChild")
 		logDebug("hardenedChild")
 		// clean args
 		callback, remainder, err := handleArgs(args, 2, "hardenedChild")
diff --git a/cmd/keyaddr/helpers.go b/cmd/keyaddr/helpers.go
index 0af30db..11a1d04 100644
--- a/cmd/keyaddr/helpers.go
+++ b/cmd/keyaddr/helpers.go
@@ -53,6 +53,20 @@ func dispatchError(msg string) {
 	js.Global().Call("KeyaddrErrorHandler", msg)
 }
 
+// reportThrow logs an error which a javascript function (a callback, or an overridden
+// error handler) threw, and lets the service go on. It must be deferred.
+func reportThrow(source string) {
+	r := recover()
+	if r == nil {
+		return
+	}
+	jsErr, ok := r.(js.Error)
+	if !ok {
+		panic(r)
+	}
+	logError(fmt.Sprintf("%s: %s", source, jsErr.Error()))
+}
+
 // LogEntry represents a log message for json marshalling.
 type LogEntry struct {
 	Level     string `json:"lvl"`
-- 
2.43.0


From 51e386f1545a6feab6583f71e5271cef2fce59f8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:47 +0000
Subject: [PATCH 19/33] fix: an unregistered algorithm is not taken for a
 registered one of the same name

Its values were written under the other algorithm's id, and read back as
the other algorithm's.
---
 pkg/signature/id_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/signature/id_map.go b/pkg/signature/id_map.go
index 07c8d59..9f449cc 100644
--- a/pkg/signature/id_map.go
+++ b/pkg/signature/id_map.go
@@ -113,7 +113,7 @@ func idOf(al Algorithm) (AlgorithmID, error) {
 		return 0, errors.New("anonymous types are not Algorithms")
 	}
 	id, hasID := idNameMap[alName]
-	if hasID {
+	if hasID && typeOf(idMap[id]) == typeOf(al) {
 		return id, nil
 	}
 	return 0, fmt.Errorf("Supplied algorithm `%s` not in `idMap`", alName)
-- 
2.43.0


From 38d9452e4a33d096cd67fcafcdbdd1fbc18ff798 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:47 +0000
Subject: [PATCH 20/33] fix: a thrown value which is not an object does not end
 the key service

---
 cmd/keyaddr/helpers.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/keyaddr/helpers.go b/cmd/keyaddr/helpers.go
index 11a1d04..98fd88a 100644
--- a/cmd/keyaddr/helpers.go
+++ b/cmd/keyaddr/helpers.go
@@ -64,7 +64,12 @@ func reportThrow(source string) {
 	if !ok {
 		panic(r)
 	}
-	logError(fmt.Sprintf("%s: %s", source, jsErr.Error()))
+	// anything can be thrown, and only objects have a message
+	msg := jsErr.Value.String()
+	if jsErr.Value.Type() == js.TypeObject {
+		msg = jsErr.Error()
+	}
+	logError(fmt.Sprintf("%s: %s", source, msg))
 }
 
 // LogEntry represents a log message for json marshalling.
-- 
2.43.0


From 615996a8db22b32587ea7bcd87cc40b6eab523f0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:58 +0000
Subject: [PATCH 21/33] fix: MulDiv lost low digits when the product exceeded
 34 digits

---
 pkg/signed/math.go   | 35 +++++++++++++++++++++++++++--------
 pkg/unsigned/math.go | 14 +++++++-------
 2 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/pkg/signed/math.go b/pkg/signed/math.go
index 3619c8b..97c7995 100644
--- a/pkg/signed/math.go
+++ b/pkg/signed/math.go
@@ -11,6 +11,9 @@ package signed
 
 
 import (
+	"math"
+	"math/bits"
+
 	"github.com/ericlagergren/decimal"
 	"github.com/ndau/ndaumath/pkg/ndauerr"
 )
@@ -113,14 +116,30 @@ func MulDiv(v, n, d int64) (int64, error) {
 		return 0, ndauerr.ErrDivideByZero
 	}
 
-	x := decimal.WithContext(decimal.Context128).SetMantScale(v, 0)
-	y := decimal.WithContext(decimal.Context128).SetMantScale(n, 0)
-	z := decimal.WithContext(decimal.Context128).SetMantScale(d, 0)
-	x.Mul(x, y)
-	x.QuoInt(x, z)
-	ret, ok := x.Int64()
-	if !ok {
+	// the product can have up to 38 digits, more than Context128 can hold,
+	// so it has to be computed with the full 128 bits
+	ud := magnitude(d)
+	hi, lo := bits.Mul64(magnitude(v), magnitude(n))
+	if hi >= ud {
 		return 0, ndauerr.ErrOverflow
 	}
-	return ret, nil
+	ret, _ := bits.Div64(hi, lo, ud)
+	if (v < 0) != (n < 0) != (d < 0) {
+		if ret > 1<<63 {
+			return 0, ndauerr.ErrOverflow
+		}
+		return int64(-ret), nil
+	}
+	if ret > math.MaxInt64 {
+		return 0, ndauerr.ErrOverflow
+	}
+	return int64(ret), nil
+}
+
+// magnitude returns the absolute value of an int64, also of the smallest one
+func magnitude(x int64) uint64 {
+	if x < 0 {
+		return -uint64(x)
+	}
+	return uint64(x)
 }
diff --git a/pkg/unsigned/math.go b/pkg/unsigned/math.go
index fb1e245..beab157 100644
--- a/pkg/unsigned/math.go
+++ b/pkg/unsigned/math.go
@@ -11,6 +11,8 @@ package unsigned
 
 
 import (
+	"math/bits"
+
 	"github.com/ericlagergren/decimal"
 	"github.com/ndau/ndaumath/pkg/ndauerr"
 )
@@ -118,14 +120,12 @@ func MulDiv(v, n, d uint64) (uint64, error) {
 		return 0, ndauerr.ErrDivideByZero
 	}
 
-	x := makeDecimal(v)
-	y := makeDecimal(n)
-	z := makeDecimal(d)
-	x.Mul(x, y)
-	x.QuoInt(x, z)
-	ret, ok := x.Uint64()
-	if !ok {
+	// the product can have up to 39 digits, more than Context128 can hold,
+	// so it has to be computed with the full 128 bits
+	hi, lo := bits.Mul64(v, n)
+	if hi >= d {
 		return 0, ndauerr.ErrOverflow
 	}
+	ret, _ := bits.Div64(hi, lo, d)
 	return ret, nil
 }
-- 
2.43.0


From 3a19fc11e3297b0b94718b3c003b3d8a613c365d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:27 +0000
Subject: [PATCH 22/33] fix: ExpFrac panicked for fractions above 0.64 and
 wrapped before its range checks

---
 pkg/signed/exp.go   | 21 ++++++++++++++-------
 pkg/unsigned/exp.go | 21 ++++++++++++++-------
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/pkg/signed/exp.go b/pkg/signed/exp.go
index 178c236..5eafa8e 100644
--- a/pkg/signed/exp.go
+++ b/pkg/signed/exp.go
@@ -39,14 +39,15 @@ import (
 // napu multiplication factor of 100,000,000 (which is also the value we use for percentages).
 func ExpFrac(numerator, denominator int64) (int64, error) {
 	rounder := int64(10)
-	numerator *= rounder
-	denominator *= rounder
-	if denominator > (math.MaxInt64 / 2) {
-		return 0, errors.New("denominator too large")
-	}
 	if numerator > denominator || numerator < 0 || denominator < 0 {
 		return 0, errors.New("fraction must be between 0 and 1")
 	}
+	// this has to be checked before scaling, which could overflow
+	if denominator > (math.MaxInt64/2)/rounder {
+		return 0, errors.New("denominator too large")
+	}
+	numerator *= rounder
+	denominator *= rounder
 	// start the sum at 1 + x, which is b/b + a/b, and we only care about the
 	// numerator, so it's just b+a
 	sum := denominator + numerator
@@ -60,13 +61,19 @@ func ExpFrac(numerator, denominator int64) (int64, error) {
 	product := numerator
 	fact := int64(1)
 	var err error
-	for i := int64(2); product != 0; i++ {
+	// 20! is the largest factorial which fits; the product is too small for
+	// any term beyond it to contribute.
+	for i := int64(2); i <= 20 && product != 0; i++ {
 		product, err = MulDiv(product, numerator, denominator)
 		if err != nil {
 			return 0, err
 		}
 		fact *= i
-		sum += product / fact
+		term := product / fact
+		if term > math.MaxInt64-rounder/2-sum {
+			return 0, errors.New("denominator too large")
+		}
+		sum += term
 	}
 	return (sum + rounder/2) / rounder, nil
 }
diff --git a/pkg/unsigned/exp.go b/pkg/unsigned/exp.go
index c94405e..f57276b 100644
--- a/pkg/unsigned/exp.go
+++ b/pkg/unsigned/exp.go
@@ -39,14 +39,15 @@ import (
 // napu multiplication factor of 100,000,000 (which is also the value we use for percentages).
 func ExpFrac(numerator, denominator uint64) (uint64, error) {
 	rounder := uint64(10)
-	numerator *= rounder
-	denominator *= rounder
-	if denominator > (math.MaxUint64 / 2) {
-		return 0, errors.New("denominator too large")
-	}
 	if numerator > denominator {
 		return 0, errors.New("fraction must be between 0 and 1")
 	}
+	// this has to be checked before scaling, which could overflow
+	if denominator > (math.MaxUint64/2)/rounder {
+		return 0, errors.New("denominator too large")
+	}
+	numerator *= rounder
+	denominator *= rounder
 	// start the sum at 1 + x, which is b/b + a/b, and we only care about the
 	// numerator, so it's just b+a
 	sum := denominator + numerator
@@ -60,13 +61,19 @@ func ExpFrac(numerator, denominator uint64) (uint64, error) {
 	product := numerator
 	fact := uint64(1)
 	var err error
-	for i := uint64(2); product != 0; i++ {
+	// 20! is the largest factorial which fits; the product is too small for
+	// any term beyond it to contribute.
+	for i := uint64(2); i <= 20 && product != 0; i++ {
 		product, err = MulDiv(product, numerator, denominator)
 		if err != nil {
 			return 0, err
 		}
 		fact *= i
-		sum += product / fact
+		term := product / fact
+		if term > math.MaxUint64-rounder/2-sum {
+			return 0, errors.New("denominator too large")
+		}
+		sum += term
 	}
 	return (sum + rounder/2) / rounder, nil
 }
-- 
2.43.0


From 160a328ce9d9bed9d9cecd3bb1a3ca447ee7c744 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:48 +0000
Subject: [PATCH 23/33] fix: EAI calculation turned negative balances and rates
 into huge ones and could wrap

---
 pkg/eai/eai.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/eai/eai.go b/pkg/eai/eai.go
index 26bf77c..a89d1d3 100644
--- a/pkg/eai/eai.go
+++ b/pkg/eai/eai.go
@@ -12,6 +12,7 @@ package eai
 
 import (
 	"github.com/ndau/ndaumath/pkg/constants"
+	"github.com/ndau/ndaumath/pkg/ndauerr"
 	math "github.com/ndau/ndaumath/pkg/types"
 	"github.com/ndau/ndaumath/pkg/unsigned"
 	"github.com/pkg/errors"
@@ -46,6 +47,9 @@ func Calculate(
 	ageTable RateTable,
 	fixUnlockBug bool,
 ) (math.Ndau, error) {
+	if balance < 0 {
+		return 0, errors.New("balance must not be negative")
+	}
 	factor, err := calculateEAIFactor(
 		blockTime,
 		lastEAICalc, weightedAverageAge, lock,
@@ -63,6 +67,9 @@ func Calculate(
 	if err != nil {
 		return 0, err
 	}
+	if eai > constants.MaxQuantaPerAddress {
+		return 0, ndauerr.ErrOverflow
+	}
 	return math.Ndau(eai), nil
 }
 
@@ -188,6 +195,9 @@ func calculateEAIFactor(
 		if lock != nil {
 			effectiveRate += lock.GetBonusRate()
 		}
+		if effectiveRate < 0 || row.Duration < 0 {
+			return 0, errors.New("rate and duration must not be negative")
+		}
 		divisor, err := unsigned.MulDiv(uint64(effectiveRate), uint64(row.Duration), math.Year)
 		if err != nil {
 			return 0, err
-- 
2.43.0


From 4a387f07a21e1a47dd8fef1d5dd4644f13f14cb0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:50 +0000
Subject: [PATCH 24/33] fix: UpdateWeightedAverageAge wrapped when the age
 overflowed

---
 pkg/types/duration.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/types/duration.go b/pkg/types/duration.go
index e048932..0f569f6 100644
--- a/pkg/types/duration.go
+++ b/pkg/types/duration.go
@@ -155,7 +155,10 @@ func (d *Duration) UpdateWeightedAverageAge(
 	transferQty Ndau,
 	previousBalance Ndau,
 ) error {
-	waa := int64(*d) + int64(sinceLastUpdate)
+	waa, err := signed.Add(int64(*d), int64(sinceLastUpdate))
+	if err != nil {
+		return errors.New("Duration overflow in UpdateWeightedAverageAge")
+	}
 	if int64(transferQty) >= 0 {
 		newBalance, err := previousBalance.Add(transferQty)
 		if err != nil {
@@ -164,9 +167,8 @@ func (d *Duration) UpdateWeightedAverageAge(
 		// we have to use bigints to prevent the multiplication from overflow
 		nb := int64(newBalance)
 		pb := int64(previousBalance)
-		dur := int64(*d + sinceLastUpdate)
 		if nb > 0 {
-			waa, err = signed.MulDiv(dur, pb, nb)
+			waa, err = signed.MulDiv(waa, pb, nb)
 			if err != nil {
 				return errors.New("Duration overflow in UpdateWeightedAverageAge")
 			}
-- 
2.43.0


From 93d146f6036865de299eb9a4ed3d67ffda2489f8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:51 +0000
Subject: [PATCH 25/33] fix: timestamps were wrong more than 292 years after
 the epoch

---
 pkg/types/timestamp.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pkg/types/timestamp.go b/pkg/types/timestamp.go
index 83ff2fa..5774542 100644
--- a/pkg/types/timestamp.go
+++ b/pkg/types/timestamp.go
@@ -51,22 +51,24 @@ func ParseTimestamp(s string) (Timestamp, error) {
 
 // TimestampFrom creates a Timestamp given a time.Time object
 func TimestampFrom(t time.Time) (Timestamp, error) {
-	// because this uses the standard library, it will overflow
-	// some 290 years after the epoch
-	//
-	// TODO: implement this in a way which ensures its monotonic properties
-	durationSinceEpoch := t.Sub(constants.Epoch)
-	if durationSinceEpoch < 0 {
+	if t.Before(constants.Epoch) {
 		return Timestamp(0), errors.New("date is before Epoch start")
 	}
-	return Timestamp(int64(durationSinceEpoch / time.Microsecond)), nil
+	// time.Duration can only represent some 290 years, so we can't use it here
+	seconds := t.Unix() - constants.Epoch.Unix()
+	micros := int64(t.Nanosecond()) / int64(time.Microsecond)
+	if seconds > (constants.MaxTimestamp-micros)/Second {
+		return Timestamp(0), errors.New("date is beyond the maximum timestamp")
+	}
+	return Timestamp(seconds*Second + micros), nil
 }
 
 // AsTime converts a Timestamp into a time.Time object
-//
-// TODO: implement this in a way which ensures its monotonic properties
 func (t Timestamp) AsTime() time.Time {
-	return constants.Epoch.Add(time.Duration(int64(t)) * time.Microsecond)
+	// time.Duration can only represent some 290 years, so we can't use it here
+	seconds := constants.Epoch.Unix() + int64(t)/Second
+	micros := int64(t) % Second
+	return time.Unix(seconds, micros*int64(time.Microsecond)).UTC()
 }
 
 // Compare implements comparison for Timestamp.
-- 
2.43.0


From 28a6590285ba26fc07199ee16551c63bb928dee9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:48 +0000
Subject: [PATCH 26/33] fix: amounts lost their sign, or wrapped, when written
 as or read from text

---
 pkg/types/ndau.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/pkg/types/ndau.go b/pkg/types/ndau.go
index c909ab8..d5d9579 100644
--- a/pkg/types/ndau.go
+++ b/pkg/types/ndau.go
@@ -71,17 +71,18 @@ func (n Ndau) Compare(rhs Ndau) int {
 // decimal value of ndau. The full napu value is displayed, but trailing zeros
 // are suppressed.
 func (n Ndau) String() string {
-	var sign int64 = 1
+	sign := ""
+	na := uint64(n)
 	if n < 0 {
-		sign = -1
+		sign = "-"
+		na = -na
 	}
-	na := n.Abs()
 	ndau := na / constants.NapuPerNdau
 	napu := na % constants.NapuPerNdau
 	if napu == 0 {
-		return strconv.FormatInt(int64(sign*int64(ndau)), 10)
+		return fmt.Sprintf("%s%d", sign, ndau)
 	}
-	s := fmt.Sprintf("%d.%08d", sign*int64(ndau), napu)
+	s := fmt.Sprintf("%s%d.%08d", sign, ndau, napu)
 	t := len(s)
 	// trim off trailing zeros
 	for ; s[t-1] == '0'; t-- {
@@ -101,7 +102,7 @@ func init() {
 	fracdigits = int(gomath.Floor(gomath.Log10(constants.NapuPerNdau)))
 	// ndaure: parse a string into whole (before the decimal) and frac (after the decimal)
 	// strings, which can be used to regenerate the ndau
-	ndaure = regexp.MustCompile(fmt.Sprintf(`^\s*(?P<whole>\d*)(\.(?P<frac>\d{1,%d}))?\s*$`, fracdigits))
+	ndaure = regexp.MustCompile(fmt.Sprintf(`^\s*(?P<neg>-)?(?P<whole>\d*)(\.(?P<frac>\d{1,%d}))?\s*$`, fracdigits))
 }
 
 // ParseNdau inverts n.String(): it converts a quantity of ndau expressed as
@@ -117,19 +118,26 @@ func ParseNdau(s string) (Ndau, error) {
 		}
 	}
 
+	sign := result["neg"]
 	wholes, ok := result["whole"]
-	if !ok {
+	if !ok || (sign != "" && wholes == "" && result["frac"] == "") {
 		return 0, errors.New("failed to parse ndau")
 	}
 	if wholes == "" {
 		wholes = "0"
 	}
-	whole, err := strconv.ParseUint(wholes, 10, 64)
+	// the sign belongs to both parts: -0.5 is less than 0, and the smallest
+	// value has no positive counterpart
+	whole, err := strconv.ParseInt(sign+wholes, 10, 64)
 	if err != nil {
 		return 0, errors.Wrap(err, "parsing ndau")
 	}
 
-	out := Ndau(whole) * constants.NapuPerNdau
+	napu, err := signed.Mul(whole, constants.NapuPerNdau)
+	if err != nil {
+		return 0, errors.Wrap(err, "parsing ndau")
+	}
+	out := Ndau(napu)
 
 	fracs, ok := result["frac"]
 	if ok {
@@ -142,11 +150,14 @@ func ParseNdau(s string) (Ndau, error) {
 			}
 		}
 
-		frac, err := strconv.ParseUint(fracs, 10, 64)
+		frac, err := strconv.ParseInt(sign+fracs, 10, 64)
+		if err != nil {
+			return 0, errors.Wrap(err, "parsing frac component")
+		}
+		out, err = out.Add(Ndau(frac))
 		if err != nil {
 			return 0, errors.Wrap(err, "parsing frac component")
 		}
-		out += Ndau(frac)
 	}
 
 	return out, nil
-- 
2.43.0


From 8708680e2bd9f2ff43611e92aa8cbc7995143fd7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:50 +0000
Subject: [PATCH 27/33] fix: the smallest duration had no usable text, and too
 large ones wrapped when read

---
 pkg/types/duration.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/pkg/types/duration.go b/pkg/types/duration.go
index 0f569f6..aeb53e3 100644
--- a/pkg/types/duration.go
+++ b/pkg/types/duration.go
@@ -68,13 +68,24 @@ func ParseDuration(s string) (Duration, error) {
 	}
 
 	duration := Duration(0)
-	addTime := func(name string, unit uint64) error {
+	// every part carries the sign, because the smallest duration has no
+	// positive counterpart
+	sign := result["neg"]
+	addTime := func(name string, unit int64) error {
 		if result[name] != "" {
-			value, err := strconv.ParseUint(result[name], 10, 64)
+			value, err := strconv.ParseInt(sign+result[name], 10, 64)
 			if err != nil {
 				return fmt.Errorf("invalid integer: %s", result[name])
 			}
-			duration += Duration(value * unit)
+			value, err = signed.Mul(value, unit)
+			if err != nil {
+				return fmt.Errorf("duration too large: %s", s)
+			}
+			value, err = signed.Add(int64(duration), value)
+			if err != nil {
+				return fmt.Errorf("duration too large: %s", s)
+			}
+			duration = Duration(value)
 		}
 		return nil
 	}
@@ -101,26 +112,23 @@ func ParseDuration(s string) (Duration, error) {
 		return Duration(0), err
 	}
 
-	if result["neg"] != "" {
-		duration = -duration
-	}
-
 	return duration, nil
 }
 
 // String represents a Duration as a human-readable string
 func (d Duration) String() string {
-	value := int64(d)
+	// unsigned because the smallest duration has no positive counterpart
+	value := uint64(d)
 	out := ""
-	if value < 0 {
+	if d < 0 {
 		out = "-"
 		value = -value
 	}
-	divmod := func(divisor, dividend int64) (int64, int64) {
+	divmod := func(divisor, dividend uint64) (uint64, uint64) {
 		return divisor / dividend, divisor % dividend
 	}
-	extract := func(symbol string, unit int64) {
-		var units int64
+	extract := func(symbol string, unit uint64) {
+		var units uint64
 		units, value = divmod(value, unit)
 		if units > 0 {
 			out += fmt.Sprintf("%d%s", units, symbol)
-- 
2.43.0


From c82f008b4322d1a15b99389ca89f5a6b2e8b2a29 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:52 +0000
Subject: [PATCH 28/33] fix: rates lost their sign, or wrapped, when written as
 or read from text

---
 pkg/eai/rate.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/pkg/eai/rate.go b/pkg/eai/rate.go
index 9bdc2b4..52b50e8 100644
--- a/pkg/eai/rate.go
+++ b/pkg/eai/rate.go
@@ -20,6 +20,7 @@ import (
 	"unicode/utf8"
 
 	"github.com/ndau/ndaumath/pkg/constants"
+	"github.com/ndau/ndaumath/pkg/signed"
 	math "github.com/ndau/ndaumath/pkg/types"
 	"github.com/pkg/errors"
 )
@@ -70,13 +71,19 @@ func init() {
 	ratefmt = fmt.Sprintf("%%d.%%0%dd", fracdigits)
 	// ratere: parse a rate into pct (before the decimal) and frac (after the decimal)
 	// strings, which can be used to regenerate the rate
-	ratere = regexp.MustCompile(fmt.Sprintf(`^\s*(?P<pct>\d+)(\.(?P<frac>\d{1,%d}))?%%\s*$`, fracdigits))
+	ratere = regexp.MustCompile(fmt.Sprintf(`^\s*(?P<neg>-)?(?P<pct>\d+)(\.(?P<frac>\d{1,%d}))?%%\s*$`, fracdigits))
 }
 
 // String writes this Rate as a string
 func (r Rate) String() string {
-	onePct := RateFromPercent(1)
-	rs := fmt.Sprintf(ratefmt, r/onePct, r%onePct)
+	onePct := uint64(RateFromPercent(1))
+	sign := ""
+	value := uint64(r)
+	if r < 0 {
+		sign = "-"
+		value = -value
+	}
+	rs := sign + fmt.Sprintf(ratefmt, value/onePct, value%onePct)
 	for rs[len(rs)-1] == '0' {
 		rs = rs[:len(rs)-1]
 	}
@@ -100,11 +107,17 @@ func ParseRate(s string) (Rate, error) {
 	if !ok {
 		return Rate(0), errors.New("failed to parse rate")
 	}
-	pct, err := strconv.ParseUint(pcts, 10, 64)
+	// the sign belongs to both parts: -0.5% is less than 0, and the smallest
+	// value has no positive counterpart
+	sign := result["neg"]
+	pct, err := strconv.ParseInt(sign+pcts, 10, 64)
+	if err != nil {
+		return Rate(0), errors.Wrap(err, "parsing pct")
+	}
+	out, err := signed.Mul(int64(RateFromPercent(1)), pct)
 	if err != nil {
 		return Rate(0), errors.Wrap(err, "parsing pct")
 	}
-	out := RateFromPercent(1) * Rate(pct)
 
 	fracs, ok := result["frac"]
 	if ok {
@@ -117,14 +130,17 @@ func ParseRate(s string) (Rate, error) {
 			}
 		}
 
-		frac, err := strconv.ParseUint(fracs, 10, 64)
+		frac, err := strconv.ParseInt(sign+fracs, 10, 64)
+		if err != nil {
+			return Rate(0), errors.Wrap(err, "parsing frac")
+		}
+		out, err = signed.Add(out, frac)
 		if err != nil {
 			return Rate(0), errors.Wrap(err, "parsing frac")
 		}
-		out += Rate(frac)
 	}
 
-	return out, nil
+	return Rate(out), nil
 }
 
 // RateFromPercent returns a Rate whose value is that of the input, as percent.
-- 
2.43.0


From b8e2c7ed1f45e3106d3dc245d9c6b61443aceb6d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:12 +0000
Subject: [PATCH 29/33] fix: ParseDollars wrapped for amounts which do not fit

---
 pkg/pricecurve/nanocent.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pkg/pricecurve/nanocent.go b/pkg/pricecurve/nanocent.go
index 32a42ed..b2ad7ea 100644
--- a/pkg/pricecurve/nanocent.go
+++ b/pkg/pricecurve/nanocent.go
@@ -16,6 +16,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/ndau/ndaumath/pkg/signed"
 	"github.com/pkg/errors"
 )
 
@@ -80,13 +81,20 @@ func ParseDollars(dollars string) (Nanocent, error) {
 		}
 	}
 
-	// add it all up
-	nc := Nanocent(d*Dollar + c)
-
 	// handle negatives
 	if submatches["neg"] == "-" {
-		nc = -nc
+		d, c = -d, -c
+	}
+
+	// add it all up
+	nc, err := signed.Mul(d, Dollar)
+	if err != nil {
+		return 0, errors.Wrap(err, "too many dollars: "+submatches["dollars"])
+	}
+	nc, err = signed.Add(nc, c)
+	if err != nil {
+		return 0, errors.Wrap(err, "too many dollars: "+submatches["dollars"])
 	}
 
-	return nc, err
+	return Nanocent(nc), nil
 }
-- 
2.43.0


From f6103e07c6ca9a0773da83f30d8d1d323c51f76d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:14 +0000
Subject: [PATCH 30/33] fix: ApproxTotalPriceFor confused the sold and the
 unsold part of a block

---
 pkg/pricecurve/pricecurve.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/pricecurve/pricecurve.go b/pkg/pricecurve/pricecurve.go
index fc3c328..56672da 100644
--- a/pkg/pricecurve/pricecurve.go
+++ b/pkg/pricecurve/pricecurve.go
@@ -94,10 +94,7 @@ func ApproxTotalPriceFor(numNdau, alreadySold types.Ndau) float64 {
 	var totalPrice float64
 	for {
 		var price = ApproxPriceAtUnit(alreadySold)
-		var availableInThisBlock = alreadySold % numPerBlock
-		if availableInThisBlock == 0 {
-			availableInThisBlock = numPerBlock
-		}
+		var availableInThisBlock = numPerBlock - alreadySold%numPerBlock
 
 		// if what we're buying fits in the current block, just calculate the
 		// total price and we're done
-- 
2.43.0


From 24fb7b282260de7cb49c21c4040715f85fd662da Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:42 +0000
Subject: [PATCH 31/33] fix: ApproxTotalPriceFor dropped fractions of an ndau

---
 pkg/pricecurve/pricecurve.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/pricecurve/pricecurve.go b/pkg/pricecurve/pricecurve.go
index 56672da..21e2d1e 100644
--- a/pkg/pricecurve/pricecurve.go
+++ b/pkg/pricecurve/pricecurve.go
@@ -99,14 +99,14 @@ func ApproxTotalPriceFor(numNdau, alreadySold types.Ndau) float64 {
 		// if what we're buying fits in the current block, just calculate the
 		// total price and we're done
 		if numNdau <= availableInThisBlock {
-			totalPrice += price * float64(numNdau/constants.QuantaPerUnit)
+			totalPrice += price * float64(numNdau) / constants.QuantaPerUnit
 			return totalPrice
 		}
 
 		// otherwise, buy the remainder of this block and loop
 		numNdau -= availableInThisBlock
 		alreadySold += availableInThisBlock
-		totalPrice += price * float64(availableInThisBlock/constants.QuantaPerUnit)
+		totalPrice += price * float64(availableInThisBlock) / constants.QuantaPerUnit
 	}
 }
 
-- 
2.43.0


From 628db823cee599010e26fc62262e3412ddf6ed12 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 32/33] fix: a zero key that was written and read back is still
 the zero key

Reading gives algorithms as pointers, which never compared equal to Null.
---
 pkg/signature/keybase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/signature/keybase.go b/pkg/signature/keybase.go
index 5ecf4ce..cddeed9 100644
--- a/pkg/signature/keybase.go
+++ b/pkg/signature/keybase.go
@@ -239,5 +239,5 @@ func (key *keyBase) Zeroize() {
 
 // IsZero is true when this key is the zero value
 func (key keyBase) IsZero() bool {
-	return (key.algorithm == nil || key.algorithm == Null) && len(key.key) == 0 && len(key.extra) == 0
+	return NameOf(key.algorithm) == NameOf(Null) && len(key.key) == 0 && len(key.extra) == 0
 }
-- 
2.43.0


From 901bb3eabfdc0e13c6b62d45337ff088d63690a5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:56 +0000
Subject: [PATCH 33/33] fix: a duration of more than 292 years wrapped when
 handed to the host's timers

---
 pkg/types/duration.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/types/duration.go b/pkg/types/duration.go
index aeb53e3..bdd79f1 100644
--- a/pkg/types/duration.go
+++ b/pkg/types/duration.go
@@ -14,6 +14,7 @@ import (
 	"encoding"
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"time"
 
@@ -38,8 +39,18 @@ func DurationFrom(d time.Duration) Duration {
 }
 
 // TimeDuration converts a Duration into a time.Duration
+//
+// A time.Duration can only represent some 290 years. A longer Duration
+// becomes the longest time.Duration of the same sign.
 func (d Duration) TimeDuration() time.Duration {
-	return time.Duration(int64(d) / Millisecond * int64(time.Millisecond))
+	millis := int64(d) / Millisecond
+	if millis > math.MaxInt64/int64(time.Millisecond) {
+		return math.MaxInt64
+	}
+	if millis < math.MinInt64/int64(time.Millisecond) {
+		return math.MinInt64
+	}
+	return time.Duration(millis * int64(time.Millisecond))
 }
 
 // ParseDuration creates a duration from a duration string
-- 
2.43.0

