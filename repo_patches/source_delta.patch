From d693928ed79bdde72fe00f0c84609eecf00feab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:07 +0000
Subject: [PATCH 01/27] fix: ReadBytes rejects a negative or overflowing size
 instead of panicking

---
 parse/reader/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/reader/reader.go b/parse/reader/reader.go
index f0bd4c6..8de4395 100644
--- a/parse/reader/reader.go
+++ b/parse/reader/reader.go
@@ -112,7 +112,7 @@ func (r *Reader) ReadBytes(size int64) ([]byte, error) {
 	if r.offset >= rl {
 		return nil, errs.Wrap(io.EOF, errs.WithContext("size", size))
 	}
-	if r.offset+size > rl {
+	if size < 0 || size > rl-r.offset {
 		return nil, errs.Wrap(io.ErrUnexpectedEOF, errs.WithContext("size", size))
 	}
 	b := r.buffer[r.offset : r.offset+size]
-- 
2.43.0


From e4f48d31a73fb380a66c99718c97b69bab96f83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:10 +0000
Subject: [PATCH 02/27] fix: Read2EOF leaves the offset at the end of the
 buffer

---
 parse/reader/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/reader/reader.go b/parse/reader/reader.go
index 8de4395..a125f14 100644
--- a/parse/reader/reader.go
+++ b/parse/reader/reader.go
@@ -127,7 +127,7 @@ func (r *Reader) Read2EOF() ([]byte, error) {
 		return nil, errs.Wrap(io.EOF)
 	}
 	b := r.buffer[r.offset:]
-	r.offset += rl
+	r.offset = rl
 	return b, nil
 }
 
-- 
2.43.0


From a5589334ac16fd03236a3c2d5e9bbf67d86302a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:13 +0000
Subject: [PATCH 03/27] fix: truncated v5 secret key no longer panics on the
 key material length

---
 parse/tags/seckey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/seckey.go b/parse/tags/seckey.go
index 1884833..4dad0f6 100644
--- a/parse/tags/seckey.go
+++ b/parse/tags/seckey.go
@@ -175,10 +175,10 @@ func (p *seckeyInfo) getField1() (*reader.Reader, error) {
 func (p *seckeyInfo) getField2() (*reader.Reader, error) {
 	if p.pubVer.Number() == 5 {
 		l, err := p.reader.ReadBytes(4)
-		ll := binary.BigEndian.Uint32(l)
 		if err != nil {
 			return nil, errs.New("illegal length of key materia", errs.WithCause(err))
 		}
+		ll := binary.BigEndian.Uint32(l)
 		if ll == 0 {
 			return nil, nil
 		}
-- 
2.43.0


From b005a681d2e513dd876babf76164b94cb71543f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:15 +0000
Subject: [PATCH 04/27] fix: the IV of a v5 secret key is read from the
 optional-field area

---
 parse/tags/seckey.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse/tags/seckey.go b/parse/tags/seckey.go
index 4dad0f6..9ad88be 100644
--- a/parse/tags/seckey.go
+++ b/parse/tags/seckey.go
@@ -81,7 +81,7 @@ func (p *seckeyInfo) Parse(parent *result.Item) error {
 		}
 		//[Optional] If secret data is encrypted (string-to-key usage octet not zero), an Initial Vector (IV) of the same length as the cipher's block size.
 		if usage != 0 && hasIV {
-			iv, err := p.iv(values.SymID(symid), usage == 253)
+			iv, err := p.iv(rOpt, values.SymID(symid), usage == 253)
 			if err != nil {
 				return err
 			}
@@ -192,9 +192,9 @@ func (p *seckeyInfo) getField2() (*reader.Reader, error) {
 }
 
 //iv returns context.Item for Initialization Vector
-func (p *seckeyInfo) iv(symid values.SymID, isAEAD bool) (*result.Item, error) {
+func (p *seckeyInfo) iv(r *reader.Reader, symid values.SymID, isAEAD bool) (*result.Item, error) {
 	sz64 := int64(symid.IVLen())
-	iv, err := p.reader.ReadBytes(sz64)
+	iv, err := r.ReadBytes(sz64)
 	if err != nil {
 		return nil, errs.New(fmt.Sprintf("illegal s2k iv (length: %d bytes)", sz64), errs.WithCause(err))
 	}
-- 
2.43.0


From 70145de7d0bcc54b698ce946c45c0f9c3d8f81c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:18 +0000
Subject: [PATCH 05/27] fix: a malformed v3 signature packet is reported as an
 error

---
 parse/tags/tag02.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/tag02.go b/parse/tags/tag02.go
index 8bf520d..ece8753 100644
--- a/parse/tags/tag02.go
+++ b/parse/tags/tag02.go
@@ -48,7 +48,7 @@ func (t *tag02) Parse() (*result.Item, error) {
 		if version.Number() == 3 {
 			_, err2 := t.parseV3(rootInfo)
 			if err2 != nil {
-				return rootInfo, errs.Wrap(err)
+				return rootInfo, errs.Wrap(err2)
 			}
 		}
 	}
-- 
2.43.0


From 75c053a951206ac2acdc6f7a421e61f889dc4e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:21 +0000
Subject: [PATCH 06/27] fix: a truncated IV of an AEAD encrypted data packet is
 reported

---
 parse/tags/tag20.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/tag20.go b/parse/tags/tag20.go
index ba9bb51..2379344 100644
--- a/parse/tags/tag20.go
+++ b/parse/tags/tag20.go
@@ -59,7 +59,7 @@ func (t *tag20) Parse() (*result.Item, error) {
 	//A starting initialization vector of size specified by the AEAD algorithm.
 	iv, err := t.iv(aeadid)
 	if err != nil {
-		return rootInfo, nil
+		return rootInfo, errs.Wrap(err)
 	}
 	rootInfo.Add(iv)
 
-- 
2.43.0


From 4e97f63ec2f066e11ab128bc71c0883469de4d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:24 +0000
Subject: [PATCH 07/27] fix: chunk size exponent of an AEAD encrypted data
 packet does not wrap

---
 parse/tags/tag20.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/tag20.go b/parse/tags/tag20.go
index 2379344..237e57a 100644
--- a/parse/tags/tag20.go
+++ b/parse/tags/tag20.go
@@ -50,7 +50,7 @@ func (t *tag20) Parse() (*result.Item, error) {
 	if err != nil {
 		return rootInfo, errs.New("illegal chunk size", errs.WithCause(err))
 	}
-	chunkSize := uint64(1) << (c + 6)
+	chunkSize := uint64(1) << (uint(c) + 6)
 	rootInfo.Add(result.NewItem(
 		result.Name("Chunk size"),
 		result.Value(strconv.FormatUint(chunkSize, 10)),
-- 
2.43.0


From 7ea6f942fe03e65663695370e0d77b705d8867f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:27 +0000
Subject: [PATCH 08/27] fix: expiration date beyond the 32-bit range does not
 wrap around

---
 parse/values/datetime.go | 6 +++---
 parse/values/expire.go   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parse/values/datetime.go b/parse/values/datetime.go
index c363c63..1a51b0b 100644
--- a/parse/values/datetime.go
+++ b/parse/values/datetime.go
@@ -57,10 +57,10 @@ func (dt *DateTime) RFC3339() string {
 	if dt == nil {
 		return ""
 	}
-	return unixtime2RFC3339(dt.UnixTime(), dt.utcFlag)
+	return unixtime2RFC3339(int64(dt.UnixTime()), dt.utcFlag)
 }
-func unixtime2RFC3339(ut uint32, utcFlag bool) string {
-	t := time.Unix(int64(ut), 0)
+func unixtime2RFC3339(ut int64, utcFlag bool) string {
+	t := time.Unix(ut, 0)
 	if utcFlag {
 		t = t.In(time.UTC)
 	}
diff --git a/parse/values/expire.go b/parse/values/expire.go
index d6cf645..b5e90d3 100644
--- a/parse/values/expire.go
+++ b/parse/values/expire.go
@@ -33,7 +33,7 @@ func (e *Expire) ToItem(name string, dumpFlag bool) *result.Item {
 	start := e.start.UnixTime()
 	var endDay string
 	if start > 0 {
-		endDay = unixtime2RFC3339(start+exp, e.start.utcFlag)
+		endDay = unixtime2RFC3339(int64(start)+int64(exp), e.start.utcFlag)
 	}
 	return result.NewItem(
 		result.Name(name),
-- 
2.43.0


From 4be2a9fd9a3824c82fabcc96e1594f0068196e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:30 +0000
Subject: [PATCH 09/27] fix: signature creation time does not leak into other
 signatures

---
 parse/tags/tag02.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse/tags/tag02.go b/parse/tags/tag02.go
index ece8753..b881634 100644
--- a/parse/tags/tag02.go
+++ b/parse/tags/tag02.go
@@ -24,6 +24,10 @@ func newTag02(cxt *context.Context, tag values.TagID, body []byte) Tags {
 
 // Parse parsing tag02 instance
 func (t *tag02) Parse() (*result.Item, error) {
+	// the signature creation time belongs to this signature only
+	defer func(tm *values.DateTime) { t.cxt.SigCreationTime = tm }(t.cxt.SigCreationTime)
+	t.cxt.SigCreationTime = nil
+
 	rootInfo := t.ToItem()
 	// [00] One-octet version number.
 	v, err := t.reader.ReadByte()
-- 
2.43.0


From b1700427384196d5a240ca6bb56f77fd162ea7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:06 +0000
Subject: [PATCH 10/27] fix: binary input is parsed whole even if scanning for
 armor stops early

---
 parse/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/parser.go b/parse/parser.go
index 6af8a24..be7b3a2 100644
--- a/parse/parser.go
+++ b/parse/parser.go
@@ -34,7 +34,7 @@ func New(cxt *context.Context, reader io.Reader) (*Parser, error) {
 		buf := &bytes.Buffer{}
 		r, err = newReaderArmor(io.TeeReader(reader, buf))
 		if err != nil {
-			r, err = buf, nil
+			r, err = io.MultiReader(buf, reader), nil
 		}
 	}
 	if err != nil {
-- 
2.43.0


From 7b19c39f6bdcbbb41f06094c0bccc6ca44e54d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:09 +0000
Subject: [PATCH 11/27] fix: literal data format does not output raw control
 characters

---
 parse/values/literal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/values/literal.go b/parse/values/literal.go
index 46ba928..7054c35 100644
--- a/parse/values/literal.go
+++ b/parse/values/literal.go
@@ -31,6 +31,9 @@ func (l LiteralFormat) ToItem() *result.Item {
 }
 
 func (l LiteralFormat) String() string {
+	if l < 0x20 {
+		return fmt.Sprintf("(%U)", rune(l))
+	}
 	return string(l)
 }
 
-- 
2.43.0


From ed6170c373781992d47e818e17c7abc0925d3e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:12 +0000
Subject: [PATCH 12/27] fix: truncated packet in Key Block sub-packet is
 reported

---
 parse/tags/sub38.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parse/tags/sub38.go b/parse/tags/sub38.go
index 9c8d71e..86709b3 100644
--- a/parse/tags/sub38.go
+++ b/parse/tags/sub38.go
@@ -1,6 +1,7 @@
 package tags
 
 import (
+	"bytes"
 	"io"
 	"strconv"
 
@@ -47,7 +48,11 @@ func (s *sub38) Parse() (*result.Item, error) {
 }
 
 func (s *sub38) parseKeyData(rootInfo *result.Item) error {
-	sp, err := NewPackets(s.cxt, s.reader)
+	data, err := s.reader.Read2EOF()
+	if err != nil && !errs.Is(err, io.EOF) {
+		return errs.Wrap(err)
+	}
+	sp, err := NewPackets(s.cxt, bytes.NewReader(data))
 	if err != nil {
 		return errs.Wrap(err)
 	}
-- 
2.43.0


From 44046a2278150cbbf031743b5b5d932be45a9a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:15 +0000
Subject: [PATCH 13/27] fix: number of unknown flag octets in Key Flags
 sub-packet

---
 parse/tags/sub27.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/sub27.go b/parse/tags/sub27.go
index 93ccf0e..c6473c1 100644
--- a/parse/tags/sub27.go
+++ b/parse/tags/sub27.go
@@ -52,7 +52,7 @@ func (s *sub27) Parse() (*result.Item, error) {
 	if s.reader.Rest() > 0 {
 		flags, _ := s.reader.Read2EOF()
 		for i, flag := range flags {
-			rootInfo.Add(values.Flag2Item(flag, fmt.Sprintf("Unknown flag%d(%#02x)", i+2, flag)))
+			rootInfo.Add(values.Flag2Item(flag, fmt.Sprintf("Unknown flag%d(%#02x)", i+3, flag)))
 		}
 	}
 	return rootInfo, nil
-- 
2.43.0


From c1d88d9c08c6f935f38842bfbf86fbc5391faa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:17 +0000
Subject: [PATCH 14/27] fix: length of image attribute header is little-endian

---
 parse/tags/sub01.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse/tags/sub01.go b/parse/tags/sub01.go
index aae8d73..516b6e4 100644
--- a/parse/tags/sub01.go
+++ b/parse/tags/sub01.go
@@ -3,6 +3,7 @@ package tags
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 
 	"github.com/spiegel-im-spiegel/errs"
@@ -29,7 +30,10 @@ func (s *sub01) Parse() (*result.Item, error) {
 	if err != nil {
 		return rootInfo, errs.Wrap(err)
 	}
-	length := binary.BigEndian.Uint16(l)
+	length := binary.LittleEndian.Uint16(l)
+	if int(length) > s.reader.Len() {
+		return rootInfo, errs.Wrap(io.ErrUnexpectedEOF, errs.WithContext("length", length))
+	}
 	ver, err := s.reader.ReadByte()
 	if err != nil {
 		return rootInfo, errs.New("illegal version", errs.WithCause(err))
-- 
2.43.0


From 640411c106c139d72505daaed3aa4d177bf54c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:20 +0000
Subject: [PATCH 15/27] fix: null element in the list of GitHub keys does not
 panic

---
 github/github.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/github/github.go b/github/github.go
index 1f31e9e..4b3720b 100644
--- a/github/github.go
+++ b/github/github.go
@@ -46,7 +46,7 @@ func GetKey(ctx context.Context, cli fetch.Client, username string, keyID string
 			return nil, errs.Wrap(err, errs.WithContext("username", username), errs.WithContext("keyID", keyID))
 		}
 		for _, k := range keys {
-			if strings.EqualFold(k.KeyID, strings.TrimPrefix(strings.ToLower(keyID), "0x")) {
+			if k != nil && strings.EqualFold(k.KeyID, strings.TrimPrefix(strings.ToLower(keyID), "0x")) {
 				if k.RawKey == nil {
 					return nil, errs.Wrap(ecode.ErrNoKey, errs.WithContext("username", username), errs.WithContext("keyID", keyID))
 				}
-- 
2.43.0


From ce952d7c7d1050ef2d0787958f4ea67a25b63556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:22 +0000
Subject: [PATCH 16/27] fix: invalid GitHub user name is reported as an error
 instead of a panic

---
 github/github.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/github/github.go b/github/github.go
index 4b3720b..63eb953 100644
--- a/github/github.go
+++ b/github/github.go
@@ -19,7 +19,11 @@ var maxKeysStr = strconv.Itoa(maxKeys)
 
 //Get returns OpenPGP ASCII armor text from GitHub user profile
 func Get(ctx context.Context, cli fetch.Client, username string) ([]byte, error) {
-	resp, err := cli.Get(makeURL(username), fetch.WithContext(ctx))
+	u, err := makeURL(username)
+	if err != nil {
+		return nil, errs.Wrap(err, errs.WithContext("username", username))
+	}
+	resp, err := cli.Get(u, fetch.WithContext(ctx))
 	if err != nil {
 		return nil, errs.Wrap(err, errs.WithContext("username", username))
 	}
@@ -30,9 +34,8 @@ func Get(ctx context.Context, cli fetch.Client, username string) ([]byte, error)
 	return b, nil
 }
 
-func makeURL(username string) *url.URL {
-	u, _ := fetch.URL(fmt.Sprintf("https://github.com/%s.gpg", username))
-	return u
+func makeURL(username string) (*url.URL, error) {
+	return fetch.URL(fmt.Sprintf("https://github.com/%s.gpg", username))
 }
 
 //GetKey returns JSON text for GitHub OpenPGP API
-- 
2.43.0


From 9a34b75aeb4ca047966c5502cd2a77c2ee2257a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:25 +0000
Subject: [PATCH 17/27] fix: URL of nil key server is nil

---
 hkp/hkp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hkp/hkp.go b/hkp/hkp.go
index d51767a..ebe671b 100644
--- a/hkp/hkp.go
+++ b/hkp/hkp.go
@@ -75,7 +75,7 @@ func (s *Server) String() string {
 //URL returns url.URL instance
 func (s *Server) URL() *url.URL {
 	if s == nil {
-		s = nil
+		return nil
 	}
 	return &url.URL{Scheme: s.prt.String(), Host: fmt.Sprintf("%s:%d", s.host, s.port)}
 }
-- 
2.43.0


From 78ec4fd4205d1985c0e360d7a966c8d419d63d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:37 +0000
Subject: [PATCH 18/27] fix: encoding of version 1 image attribute header is
 displayed

---
 parse/tags/sub01.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/parse/tags/sub01.go b/parse/tags/sub01.go
index 516b6e4..e6d0289 100644
--- a/parse/tags/sub01.go
+++ b/parse/tags/sub01.go
@@ -43,11 +43,10 @@ func (s *sub01) Parse() (*result.Item, error) {
 		result.Value(strconv.Itoa(int(ver))),
 	)
 	switch true {
-	case ver == 1:
-		itm.Note = ""
-		rootInfo.Add(itm)
-	case 100 <= ver && ver <= 110:
-		itm.Note = "private or experimental use"
+	case ver == 1, 100 <= ver && ver <= 110:
+		if ver != 1 {
+			itm.Note = "private or experimental use"
+		}
 		rootInfo.Add(itm)
 		enc, err := s.reader.ReadByte()
 		if err != nil {
-- 
2.43.0


From 5bb964c58dcf7e795541b82d40b0fd6a893da825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:32 +0000
Subject: [PATCH 19/27] fix: dump of Exportable Certification sub-packet shows
 its octets in debug mode only

---
 parse/tags/sub04.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parse/tags/sub04.go b/parse/tags/sub04.go
index fbabe48..bef9762 100644
--- a/parse/tags/sub04.go
+++ b/parse/tags/sub04.go
@@ -30,7 +30,6 @@ func (s *sub04) Parse() (*result.Item, error) {
 	} else {
 		rootInfo.Value = "Exportable"
 	}
-	rootInfo.Dump = values.Dump(s.reader, true).String()
 	return rootInfo, nil
 }
 
-- 
2.43.0


From 329ddaf78806cc63713d46633ebfb8fbbd7e084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:24 +0000
Subject: [PATCH 20/27] fix: octets behind the fields of a v5 public key are
 shown

---
 parse/tags/pubkey.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parse/tags/pubkey.go b/parse/tags/pubkey.go
index bfd6f65..bf96930 100644
--- a/parse/tags/pubkey.go
+++ b/parse/tags/pubkey.go
@@ -124,7 +124,14 @@ func (p *pubkeyInfo) parseV5(parent *result.Item) error {
 		return errs.New(fmt.Sprintf("illegal key material data (size: %d bytes)", sz64), errs.WithCause(err))
 	}
 	// [10] series of multiprecision integers comprising the key material.
-	return pubkey.New(p.cxt, p.pubID, reader.New(b)).ParsePub(parent) //TODO: new logic for key material
+	r := reader.New(b)
+	if err := pubkey.New(p.cxt, p.pubID, r).ParsePub(parent); err != nil { //TODO: new logic for key material
+		return err
+	}
+	if r.Rest() > 0 {
+		parent.Add(values.RawData(r, "Unknown data", p.cxt.Debug()))
+	}
+	return nil
 }
 
 //PubID returns pubID
-- 
2.43.0


From 562865f6b64151df3c1e030673d3328a60be02b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:14 +0000
Subject: [PATCH 21/27] fix: empty area of a v5 secret key is reported where
 fields are required

---
 parse/tags/seckey.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/parse/tags/seckey.go b/parse/tags/seckey.go
index 9ad88be..8f2319c 100644
--- a/parse/tags/seckey.go
+++ b/parse/tags/seckey.go
@@ -159,9 +159,6 @@ func (p *seckeyInfo) getField1() (*reader.Reader, error) {
 		if err != nil {
 			return nil, errs.New("illegal length of option field", errs.WithCause(err))
 		}
-		if l == 0 {
-			return nil, nil
-		}
 		b, err := p.reader.ReadBytes(int64(l))
 		if err != nil {
 			return nil, errs.New("illegal option field", errs.WithCause(err))
@@ -179,9 +176,6 @@ func (p *seckeyInfo) getField2() (*reader.Reader, error) {
 			return nil, errs.New("illegal length of key materia", errs.WithCause(err))
 		}
 		ll := binary.BigEndian.Uint32(l)
-		if ll == 0 {
-			return nil, nil
-		}
 		b, err := p.reader.ReadBytes(int64(ll))
 		if err != nil {
 			return nil, errs.New("illegal key materia", errs.WithCause(err))
-- 
2.43.0


From 9acde1d9330e0b14fa3106b4cac1bb7f681f8def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:19 +0000
Subject: [PATCH 22/27] fix: unknown algorithm's material of a v5 secret key
 ends with its area

---
 parse/pubkey/parse_secplain.go | 5 ++++-
 parse/pubkey/pubkey.go         | 7 +++++++
 parse/tags/seckey.go           | 6 +++++-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/parse/pubkey/parse_secplain.go b/parse/pubkey/parse_secplain.go
index 5c3cffa..dcf3853 100644
--- a/parse/pubkey/parse_secplain.go
+++ b/parse/pubkey/parse_secplain.go
@@ -36,7 +36,10 @@ func (p *Pubkey) ParseSecPlain(parent *result.Item) error {
 			return errs.Wrap(err)
 		}
 	default:
-		length := p.size - 2 //last 2-octet is checksum value
+		length := p.size
+		if !p.noSum {
+			length -= 2 //last 2-octet is checksum value
+		}
 		b, err := p.reader.ReadBytes(length)
 		if err != nil {
 			return errs.Wrap(err)
diff --git a/parse/pubkey/pubkey.go b/parse/pubkey/pubkey.go
index d15ecb5..995c709 100644
--- a/parse/pubkey/pubkey.go
+++ b/parse/pubkey/pubkey.go
@@ -12,6 +12,7 @@ type Pubkey struct {
 	pubID  values.PubID
 	size   int64
 	reader *reader.Reader
+	noSum  bool //no checksum behind the secret key material
 }
 
 //New returns new Pubkey instance
@@ -19,6 +20,12 @@ func New(cxt *context.Context, pubID values.PubID, r *reader.Reader) *Pubkey {
 	return &Pubkey{cxt: cxt, pubID: pubID, size: r.Rest(), reader: r}
 }
 
+//WithoutChecksum tells that the reader ends with the secret key material (V5 packet)
+func (p *Pubkey) WithoutChecksum() *Pubkey {
+	p.noSum = true
+	return p
+}
+
 /* Copyright 2016-2020 Spiegel
  *
  * Licensed under the Apache License, Version 2.0 (the "License");
diff --git a/parse/tags/seckey.go b/parse/tags/seckey.go
index 8f2319c..01706b5 100644
--- a/parse/tags/seckey.go
+++ b/parse/tags/seckey.go
@@ -102,7 +102,11 @@ func (p *seckeyInfo) Parse(parent *result.Item) error {
 		case 0:
 			parent.Note = "s2k usage 0; plain secret-key material"
 			//parse plain key material
-			if err := pubkey.New(p.cxt, p.pubID, rOpt).ParseSecPlain(parent); err != nil {
+			pk := pubkey.New(p.cxt, p.pubID, rOpt)
+			if p.pubVer.Number() == 5 { //checksum is behind the area of key material
+				pk = pk.WithoutChecksum()
+			}
+			if err := pk.ParseSecPlain(parent); err != nil {
 				return errs.Wrap(err, errs.WithContext("s2k_usage", usage))
 			}
 			//checksum
-- 
2.43.0


From ae984b2ebd0225f75e1af0f5e445411bb3f384d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:04 +0000
Subject: [PATCH 23/27] fix: s2k usage octet of a secret key other than 253-255
 is the symmetric algorithm itself

---
 parse/tags/seckey.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/parse/tags/seckey.go b/parse/tags/seckey.go
index 01706b5..fdaf473 100644
--- a/parse/tags/seckey.go
+++ b/parse/tags/seckey.go
@@ -39,13 +39,15 @@ func (p *seckeyInfo) Parse(parent *result.Item) error {
 		//[Optional] If string-to-key usage octet was 255, 254, or 253, a one-octet symmetric encryption algorithm.
 		var symid values.SymID
 		if usage != 0 { //encrypted secret-key
-			alg, err := rOpt.ReadByte()
-			if err != nil {
-				return errs.New(
-					"illegal symid",
-					errs.WithCause(err),
-					errs.WithContext("s2k_usage", usage),
-				)
+			alg := usage //the usage octet itself is a symmetric encryption algorithm
+			if usage >= 253 {
+				if alg, err = rOpt.ReadByte(); err != nil {
+					return errs.New(
+						"illegal symid",
+						errs.WithCause(err),
+						errs.WithContext("s2k_usage", usage),
+					)
+				}
 			}
 			symid = values.SymID(alg)
 			parent.Add(symid.ToItem(p.cxt.Debug()))
-- 
2.43.0


From 1ed63f739826f5bde00c8d37bfdb76564344431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:20 +0000
Subject: [PATCH 24/27] fix: key and signature expiration dates come from their
 own key or signature

---
 parse/tags/pubkey.go | 1 +
 parse/tags/sub03.go  | 1 -
 parse/tags/sub09.go  | 1 -
 3 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/parse/tags/pubkey.go b/parse/tags/pubkey.go
index bf96930..194b5a8 100644
--- a/parse/tags/pubkey.go
+++ b/parse/tags/pubkey.go
@@ -28,6 +28,7 @@ func newPubkey(cxt *context.Context, reader *reader.Reader, pubVer *values.Versi
 
 //Parse Public-key packet
 func (p *pubkeyInfo) Parse(parent *result.Item) error {
+	p.cxt.KeyCreationTime = nil //not the one of the previous key
 	switch true {
 	case p.pubVer.IsDraft():
 		return p.parseV5(parent)
diff --git a/parse/tags/sub03.go b/parse/tags/sub03.go
index 2b3aaae..8ddb970 100644
--- a/parse/tags/sub03.go
+++ b/parse/tags/sub03.go
@@ -25,7 +25,6 @@ func (s *sub03) Parse() (*result.Item, error) {
 	if err != nil {
 		return rootInfo, errs.New("illegal Expiration Timee", errs.WithCause(err))
 	}
-	s.cxt.SigCreationTime = nil
 	return exp.ToItem(rootInfo.Name, s.cxt.Debug()), nil
 }
 
diff --git a/parse/tags/sub09.go b/parse/tags/sub09.go
index b670752..bfcd3ed 100644
--- a/parse/tags/sub09.go
+++ b/parse/tags/sub09.go
@@ -25,7 +25,6 @@ func (s *sub09) Parse() (*result.Item, error) {
 	if err != nil {
 		return rootInfo, errs.New("illegal Key Expiration Time", errs.WithCause(err))
 	}
-	s.cxt.KeyCreationTime = nil
 	return exp.ToItem(rootInfo.Name, s.cxt.Debug()), nil
 }
 
-- 
2.43.0


From 8478489269fdc467550647f313fe7056125df416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:21 +0000
Subject: [PATCH 25/27] fix: packets of a Key Block sub-packet do not change
 the context of the signature

---
 parse/tags/sub38.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parse/tags/sub38.go b/parse/tags/sub38.go
index 86709b3..494f65d 100644
--- a/parse/tags/sub38.go
+++ b/parse/tags/sub38.go
@@ -52,7 +52,10 @@ func (s *sub38) parseKeyData(rootInfo *result.Item) error {
 	if err != nil && !errs.Is(err, io.EOF) {
 		return errs.Wrap(err)
 	}
-	sp, err := NewPackets(s.cxt, bytes.NewReader(data))
+	cxt := *s.cxt //the packets of the key block have a context of their own
+	cxt.ResetAlg()
+	cxt.KeyCreationTime = nil
+	sp, err := NewPackets(&cxt, bytes.NewReader(data))
 	if err != nil {
 		return errs.Wrap(err)
 	}
-- 
2.43.0


From c4be5aabf9d3ca24f0004382b95817c26f50fdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:22 +0000
Subject: [PATCH 26/27] fix: AEAD encrypted data packet ends the scope of its
 session key packets

---
 parse/tags/tag20.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse/tags/tag20.go b/parse/tags/tag20.go
index 237e57a..73e10ac 100644
--- a/parse/tags/tag20.go
+++ b/parse/tags/tag20.go
@@ -66,6 +66,8 @@ func (t *tag20) Parse() (*result.Item, error) {
 	if t.reader.Rest() > 0 {
 		rootInfo.Add(values.RawData(t.reader, "Encrypted data and authentication tag", t.cxt.Debug()))
 	}
+
+	t.cxt.ResetAlg()
 	return rootInfo, nil
 }
 
-- 
2.43.0


From 8fd779651d6efb11387eed7f0b000430ca2196de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:36 +0000
Subject: [PATCH 27/27] fix: packets of a Key Block sub-packet start without
 the time of the signature around them

---
 parse/tags/sub38.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/sub38.go b/parse/tags/sub38.go
index 494f65d..92ceedd 100644
--- a/parse/tags/sub38.go
+++ b/parse/tags/sub38.go
@@ -54,7 +54,7 @@ func (s *sub38) parseKeyData(rootInfo *result.Item) error {
 	}
 	cxt := *s.cxt //the packets of the key block have a context of their own
 	cxt.ResetAlg()
-	cxt.KeyCreationTime = nil
+	cxt.SigCreationTime, cxt.KeyCreationTime = nil, nil
 	sp, err := NewPackets(&cxt, bytes.NewReader(data))
 	if err != nil {
 		return errs.Wrap(err)
-- 
2.43.0

