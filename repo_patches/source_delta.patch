From b7292b731308e4048159786408be5da92df666af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 01/15] fix: csprng: Read must not hand out the same key stream
 again

Every Read returned the start of the key stream, XORed into whatever the
buffer held. Share points and polynomial coefficients of one split, the
coefficients of different splits and all SSMS keys of one randomizer were
therefore the same bytes, and with a recycled buffer they could cancel out.
GetUniqueBytes could loop forever for the same reason. Also keep a copy of
the IV instead of the caller's slice.
---
 csprng/csprng.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index 4a7f3ec..68e3a05 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -3,10 +3,15 @@ package csprng
 import (
 	"github.com/starius/aesctrat"
 	"math/rand"
+	"sync/atomic"
 	"time"
 )
 
 type CSPRNG struct {
+	// offset is the number of key stream bytes handed out so far; it is
+	// the first field to keep it 64-bit aligned for atomic access
+	offset uint64
+
 	c  *aesctrat.AesCtr
 	iv []byte
 }
@@ -19,16 +24,24 @@ func NewCSPRNG() *CSPRNG {
 	keyIv := make([]byte, 32)
 	rand.Read(keyIv)
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
-	return &CSPRNG{ctr, keyIv[16:]}
+	return &CSPRNG{c: ctr, iv: append([]byte(nil), keyIv[16:]...)}
 }
 
 func NewCSPRNGWithKeyIV(keyIv []byte) *CSPRNG {
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
-	return &CSPRNG{ctr, keyIv[16:]}
+	return &CSPRNG{c: ctr, iv: append([]byte(nil), keyIv[16:]...)}
 }
 
+// Read fills buff with the next len(buff) bytes of the key stream, whatever
+// buff contained before. No part of the key stream is handed out twice, also
+// not to concurrent readers.
 func (r *CSPRNG) Read(buff []byte) (int, error) {
-	r.c.XORKeyStreamAt(buff, buff, r.iv, 0)
+	n := uint64(len(buff))
+	start := atomic.AddUint64(&r.offset, n) - n
+	for i := range buff {
+		buff[i] = 0
+	}
+	r.c.XORKeyStreamAt(buff, buff, r.iv, start)
 	return len(buff), nil
 }
 
-- 
2.43.0


From 03ab7fab795e9f9605c2ff1a7f71c240c8b2b927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 02/15] fix: csprng: Perm indexes out of range and misses
 permutations

The swap index 1 + r%(n-i) can be n: Perm(255) panicked once in 256 calls,
as did every split into 20 or more parts with a randomizer. Perm(0) and
Perm(1) always panicked, Perm(2) never shuffled and the value 0 was never
first. Use the Fisher-Yates index.
---
 csprng/csprng.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index 68e3a05..aaa81c0 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -54,8 +54,8 @@ func (r *CSPRNG) Perm(n byte) []byte {
 	}
 	shuffler := make([]byte, n)
 	_, _ = r.Read(shuffler)
-	for i := byte(0); i < n-2; i++ {
-		j := 1 + shuffler[i] % (n-i)
+	for i := byte(0); i+1 < n; i++ {
+		j := i + shuffler[i] % (n-i)
 		temp := buff[i]
 		buff[i] = buff[j]
 		buff[j] = temp
-- 
2.43.0


From 91d4eb54cb6517d69046a14fc9f47911005cb0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 03/15] fix: csprng: GetUniqueBytes must not return 255

SplitWithRandomizer uses the bytes plus one as share points. For 255 the
point wraps around to 0, and the share at 0 is the secret in plain text.
For 20 bytes and more, 255 was already excluded (Perm(255)).
---
 csprng/csprng.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index aaa81c0..f6e1bfe 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -73,7 +73,9 @@ func (r *CSPRNG) GetUniqueBytes(n byte) []byte {
 		return r.Perm(255)[:n]
 	}
 	buff := make([]byte, n)
-	isExist := map[byte]bool{}
+	// 255 is never returned, as it is not in Perm(255) either: callers add
+	// one to get a non-zero share point
+	isExist := map[byte]bool{255: true}
 	_, _ = r.Read(buff)
 	for i := byte(0); i < n; i++ {
 		isDuplicate := true
-- 
2.43.0


From 910370a0baed0436e3517a55e66392954cdf9476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 04/15] fix: shamir: Regenerate must not return clashing or
 zero points

The replacement for a clashing point was computed but not stored, so new
shares could repeat a given or another new point, and a point could be 0,
which makes that share the secret in plain text. More shares than there are
points made it loop forever, a negative number made it panic.
---
 shamir/shamir.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/shamir/shamir.go b/shamir/shamir.go
index 8b3a99c..24f2c24 100644
--- a/shamir/shamir.go
+++ b/shamir/shamir.go
@@ -438,6 +438,14 @@ func Regenerate(parts [][]byte, numNewShares int) ([][]byte, error) {
 		}
 	}
 
+	// There are only 255 usable (non-zero) points
+	if numNewShares < 0 {
+		return nil, fmt.Errorf("the number of new shares cannot be negative")
+	}
+	if numNewShares > 255-len(parts) {
+		return nil, fmt.Errorf("the given and the new shares together cannot exceed 255")
+	}
+
 	// TODO: make a more efficient version of this by allocating less memory
 	// Create buffer to store the new shares
 	newShares := make([][]byte, numNewShares)
@@ -460,14 +468,17 @@ func Regenerate(parts [][]byte, numNewShares int) ([][]byte, error) {
 	if _, err := rand.Read(newXs); err != nil {
 		return nil, fmt.Errorf("failed to generate new random x: %v", err)
 	}
-	// ensure no duplicate x generated
-	for _, nx := range newXs {
+	// ensure no duplicate x generated, and that no x is 0 (that share would
+	// be the secret itself)
+	checkMap[0] = true
+	for i, nx := range newXs {
 		exists := checkMap[nx]
 		for exists {
 			nx = byte(rand.Uint32())
 			exists = checkMap[nx]
 		}
 		checkMap[nx] = true
+		newXs[i] = nx
 	}
 
 	for i, share := range parts {
-- 
2.43.0


From 775cc2323cb5de7b18d025e543099d75f96e94f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 05/15] fix: randomizer: Perm must return a permutation, Read
 must fill the buffer

Perm copied instead of swapping, so its result held duplicates, and it
panicked for n = 0. Read XORed the key stream into the old buffer contents.
---
 randomizer/randomizer.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/randomizer/randomizer.go b/randomizer/randomizer.go
index 0247e73..e4e61c5 100644
--- a/randomizer/randomizer.go
+++ b/randomizer/randomizer.go
@@ -22,6 +22,9 @@ func NewRandomizer() *Randomizer {
 }
 
 func (r *Randomizer) Read(buff []byte) (int, error) {
+	for i := range buff {
+		buff[i] = 0
+	}
 	r.c.XORKeyStream(buff, buff)
 	return len(buff), nil
 }
@@ -33,12 +36,10 @@ func (r *Randomizer) Perm(n byte) []byte {
 	}
 	shuffler := make([]byte, n)
 	_, _ = r.Read(shuffler)
-	max := n-1
-	for i := byte(0); i < n-1; i++ {
-		rx := shuffler[i]%max
-		temp := buff[rx]
-		buff[max] = temp
-		max--
+	for i := byte(0); i+1 < n; i++ {
+		max := n-1-i
+		rx := shuffler[i]%(max+1)
+		buff[rx], buff[max] = buff[max], buff[rx]
 	}
 	return buff
 }
\ No newline at end of file
-- 
2.43.0


From 2daa10df1ffdd7b8fbf8b0bd04462789518ea15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 06/15] fix: krawczyk: Split panics depending on secret length
 and parts

When the ciphertext buffer's capacity happens to hold all shards, the
reed-solomon encoder splits in place and clears #data-shards bytes after the
data, beyond the capacity if that is smaller: splitting 96 bytes into 2 of 2
shares panicked, as did many other sizes. Provide that capacity.
---
 krawczyk/krawczyk.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index 44b90bc..8a27e54 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -53,7 +53,7 @@ func Split(secret []byte, parts, threshold int) ([][]byte, error) {
 	if err != nil {
 		return nil, fmt.Errorf("failed to initialize reed-solomon encoder: %v", err)
 	}
-	encodedSecret, err := encoder.Split(encryptedSecret)
+	encodedSecret, err := encoder.Split(withSpareCapacity(encryptedSecret, threshold))
 	if err != nil {
 		return nil, fmt.Errorf("failed to encode the secret: %v", err)
 	}
@@ -124,7 +124,7 @@ func SplitWithRandomizer(secret []byte, parts, threshold int, randomizer *csprng
 	if err != nil {
 		return nil, fmt.Errorf("failed to initialize reed-solomon encoder: %v", err)
 	}
-	encodedSecret, err := encoder.Split(encryptedSecret)
+	encodedSecret, err := encoder.Split(withSpareCapacity(encryptedSecret, threshold))
 	if err != nil {
 		return nil, fmt.Errorf("failed to encode the secret: %v", err)
 	}
@@ -160,6 +160,15 @@ func SplitWithRandomizer(secret []byte, parts, threshold int, randomizer *csprng
 	return results, nil
 }
 
+// withSpareCapacity returns a copy of data with room for exactly n more bytes.
+// The reed-solomon encoder clears up to #data-shards bytes after the data when
+// it can split the data in place, without checking that they exist.
+func withSpareCapacity(data []byte, n int) []byte {
+	result := make([]byte, len(data), len(data)+n)
+	copy(result, data)
+	return result
+}
+
 func newByteMatrix(r, c int) [][]byte {
 	a := make([]uint8, r*c)
 	m := make([][]uint8, r)
-- 
2.43.0


From 59d6a1e394f0ef61d5cdf9b404f47fcfa751e6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 07/15] fix: krawczyk: Combine must refuse malformed shares
 instead of panicking

No shares at all, empty (non-nil) or too short shares, the part-id equal to
the number of parts (or any too large one for 255 parts), and negative
numbers made Combine panic.
---
 krawczyk/krawczyk.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index 8a27e54..7a6993c 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -181,6 +181,9 @@ func newByteMatrix(r, c int) [][]byte {
 }
 
 func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
+	if len(ssData) == 0 {
+		return nil, errors.New("no secret-shared data is given")
+	}
 	if len(ssData[0]) > math.MaxUint32 {
 		return nil, fmt.Errorf(
 			"the provided secret is too large, we can only combine up to %d bytes data", math.MaxUint32)
@@ -197,10 +200,14 @@ func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
 			"#parts and #threshold should be less than 256, #parts=%d $threshold=%d", parts, threshold)
 	}
 
+	if threshold < 0 || parts < 0 {
+		return nil, errors.New("#parts and #threshold can not be negative")
+	}
+
 	// remove empty shares
 	numCleanParts := 0
 	for i := 0; i < len(ssData); i++ {
-		if ssData[i] != nil {
+		if len(ssData[i]) != 0 {
 			numCleanParts++
 		}
 	}
@@ -208,7 +215,7 @@ func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
 		cleanSSData := make([][]byte, numCleanParts)
 		j := 0
 		for i := 0; i < len(ssData); i++ {
-			if ssData[i] == nil {
+			if len(ssData[i]) == 0 {
 				continue
 			}
 			cleanSSData[j] = ssData[i]
@@ -222,11 +229,15 @@ func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
 	encodedData := make([][]byte, parts)
 	ssMetadata := make([][]byte, len(ssData))
 	for i := 0; i < len(ssData); i++ {
+		// a share has the metadata, at least one byte of data, and the part-id
+		if len(ssData[i]) < secretStartIdx+2 {
+			return nil, errors.New("the given secret-shared data is wrong, a share is too short")
+		}
 		ssMetadata[i] = ssData[i][:secretStartIdx]
 
 		// check the part-id of the reed-solomon encoded data
 		partID := ssData[i][len(ssData[i])-1]
-		if partID > byte(parts) {
+		if int(partID) >= parts {
 			return nil, errors.New("the given secret-shared data is wrong, part-id should be less than the number of parts")
 		}
 		encodedData[ssData[i][len(ssData[i])-1]] = ssData[i][secretStartIdx : len(ssData[i])-1]
-- 
2.43.0


From 2ca6732842b1d1a231024c1b6d9d1a7900b6aaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 08/15] fix: shamir: limit the capacity of shares

The shares are adjacent slices of one buffer, so appending to one share
overwrote the beginning of the next.
---
 shamir/shamir.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shamir/shamir.go b/shamir/shamir.go
index 24f2c24..d02e13c 100644
--- a/shamir/shamir.go
+++ b/shamir/shamir.go
@@ -60,7 +60,7 @@ func Split(secret []byte, parts, threshold int) ([][]byte, error) {
 	for idx := range out {
 		s := (len(secret)+1)*idx
 		e := s + len(secret)+1
-		out[idx] = buff[s:e]
+		out[idx] = buff[s:e:e]
 		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
 	}
 
@@ -137,7 +137,7 @@ func SplitWithRandomizerOld(secret []byte, parts, threshold int, randomizer *csp
 	for idx := range out {
 		s := (len(secret)+1)*idx
 		e := s + len(secret)+1
-		out[idx] = buff[s:e]
+		out[idx] = buff[s:e:e]
 		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
 	}
 
@@ -192,7 +192,7 @@ func SplitWithRandomizer(secret []byte, parts, threshold int, randomizer *csprng
 	for idx := range out {
 		s := (len(secret)+1)*idx
 		e := s + len(secret)+1
-		out[idx] = buff[s:e]
+		out[idx] = buff[s:e:e]
 		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
 	}
 
-- 
2.43.0


From a6229123b0b456103a8cb7012e5cbd4de0295956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 09/15] fix: take all secret randomness from crypto/rand

Coefficients, share points, SSMS keys and the seeds of the randomizers came
from math/rand, which this library even seeded with the current time: who
knows the time of the start (or reads other output of the generator) can
recompute all of them and so the secret from a single share. Nothing here is
a CSPRNG unless its seed is unpredictable.
---
 csprng/csprng.go         | 11 ++++-------
 krawczyk/krawczyk.go     |  2 +-
 randomizer/randomizer.go |  6 ++++--
 shamir/polynomial.go     |  6 ++++--
 shamir/shamir.go         | 14 +++++++++-----
 5 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index f6e1bfe..3751775 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -1,10 +1,9 @@
 package csprng
 
 import (
+	"crypto/rand"
 	"github.com/starius/aesctrat"
-	"math/rand"
 	"sync/atomic"
-	"time"
 )
 
 type CSPRNG struct {
@@ -16,13 +15,11 @@ type CSPRNG struct {
 	iv []byte
 }
 
-func init() {
-	rand.Seed(time.Now().UnixNano())
-}
-
 func NewCSPRNG() *CSPRNG {
 	keyIv := make([]byte, 32)
-	rand.Read(keyIv)
+	if _, err := rand.Read(keyIv); err != nil {
+		panic(err)
+	}
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
 	return &CSPRNG{c: ctr, iv: append([]byte(nil), keyIv[16:]...)}
 }
diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index 7a6993c..a4c6160 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -2,6 +2,7 @@ package krawczyk
 
 import (
 	"bytes"
+	"crypto/rand"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -9,7 +10,6 @@ import (
 	"github.com/fadhilkurnia/shamir/shamir"
 	"github.com/klauspost/reedsolomon"
 	"math"
-	"math/rand"
 )
 
 // key size: 16 bytes (128 bit)
diff --git a/randomizer/randomizer.go b/randomizer/randomizer.go
index e4e61c5..0bee0ee 100644
--- a/randomizer/randomizer.go
+++ b/randomizer/randomizer.go
@@ -3,7 +3,7 @@ package randomizer
 import (
 	"crypto/aes"
 	"crypto/cipher"
-	"math/rand"
+	"crypto/rand"
 )
 
 type Randomizer struct {
@@ -12,7 +12,9 @@ type Randomizer struct {
 
 func NewRandomizer() *Randomizer {
 	keyAndIV := make([]byte, 16 + aes.BlockSize)
-	rand.Read(keyAndIV)
+	if _, err := rand.Read(keyAndIV); err != nil {
+		panic(err)
+	}
 	c, err := aes.NewCipher(keyAndIV[:16])
 	if err != nil {
 		panic(err)
diff --git a/shamir/polynomial.go b/shamir/polynomial.go
index 35bea5d..dde6cb1 100644
--- a/shamir/polynomial.go
+++ b/shamir/polynomial.go
@@ -1,11 +1,11 @@
 package shamir
 
 import (
+	"crypto/rand"
 	"crypto/subtle"
 	"github.com/fadhilkurnia/shamir/csprng"
 	gf "github.com/fadhilkurnia/shamir/galois"
 	"github.com/fadhilkurnia/shamir/utils"
-	"math/rand"
 )
 
 var polynomialBufferPool *utils.BytesBufferPool
@@ -18,7 +18,9 @@ func makePolynomialsWithBuff(intercepts []uint8, degree int, buffer []uint8) ([]
 	N := len(intercepts)
 
 	// assign random coefficients for all the N polynomials
-	_, _ = rand.Read(buffer)
+	if _, err := rand.Read(buffer); err != nil {
+		return nil, err
+	}
 
 	for p := 0; p < N; p++ {
 		s := (degree+1)*p
diff --git a/shamir/shamir.go b/shamir/shamir.go
index d02e13c..a710c6c 100644
--- a/shamir/shamir.go
+++ b/shamir/shamir.go
@@ -1,11 +1,11 @@
 package shamir
 
 import (
+	"crypto/rand"
 	"fmt"
 	"github.com/fadhilkurnia/shamir/csprng"
 	"github.com/fadhilkurnia/shamir/utils"
 	"log"
-	"math/rand"
 	"sync"
 )
 
@@ -46,7 +46,7 @@ func Split(secret []byte, parts, threshold int) ([][]byte, error) {
 	}
 
 	// Generate random list of x coordinates
-	xCoordinates := rand.Perm(255)
+	xCoordinates := csprng.NewCSPRNG().Perm(255)
 
 	// Allocate the output array, initialize the final byte
 	// of the output with the offset. The representation of each
@@ -254,7 +254,7 @@ func SplitGeneric(secret []byte, parts, threshold int) ([][]byte, error) {
 	}
 
 	// Generate random list of x coordinates
-	xCoordinates := rand.Perm(255)
+	xCoordinates := csprng.NewCSPRNG().Perm(255)
 
 	// Allocate the output array, initialize the final byte
 	// of the output with the offset. The representation of each
@@ -306,7 +306,7 @@ func SplitP(secret []byte, parts, threshold int) ([][]byte, error) {
 	}
 
 	// Generate random list of x coordinates
-	xCoordinates := rand.Perm(255)
+	xCoordinates := csprng.NewCSPRNG().Perm(255)
 
 	// Allocate the output array, initialize the final byte
 	// of the output with the offset. The representation of each
@@ -471,10 +471,14 @@ func Regenerate(parts [][]byte, numNewShares int) ([][]byte, error) {
 	// ensure no duplicate x generated, and that no x is 0 (that share would
 	// be the secret itself)
 	checkMap[0] = true
+	candidate := make([]byte, 1)
 	for i, nx := range newXs {
 		exists := checkMap[nx]
 		for exists {
-			nx = byte(rand.Uint32())
+			if _, err := rand.Read(candidate); err != nil {
+				return nil, fmt.Errorf("failed to generate new random x: %v", err)
+			}
+			nx = candidate[0]
 			exists = checkMap[nx]
 		}
 		checkMap[nx] = true
-- 
2.43.0


From 05a321ce45442222877ad5fab5e485f45d33e8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 10/15] fix: galois: AddVector must not write beyond the
 shorter vector

The SIMD loop runs over len(in) without looking at the length of out, so a
longer first vector corrupted the memory after the second one. Panic as the
portable version does.
---
 galois/vector_amd64.go | 9 ++++++++-
 galois/vector_arm64.go | 6 ++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/galois/vector_amd64.go b/galois/vector_amd64.go
index d1b5dde..1c1a2de 100644
--- a/galois/vector_amd64.go
+++ b/galois/vector_amd64.go
@@ -5,7 +5,10 @@
 
 package galois
 
-import "github.com/klauspost/cpuid/v2"
+import (
+	"fmt"
+	"github.com/klauspost/cpuid/v2"
+)
 
 var useSSSE3 = false
 var useSSE2 = false
@@ -105,6 +108,10 @@ func MulConstVector(c byte, in []byte) []byte {
 
 // simple slice xor
 func AddVector(in, out []byte) []byte {
+	if len(in) != len(out) {
+		panic(fmt.Sprintf("in and out should have the same length len(in)=%d, len(out)=%d", len(in), len(out)))
+	}
+
 	origOutPointer := out
 
 	if useSSE2 {
diff --git a/galois/vector_arm64.go b/galois/vector_arm64.go
index 9314174..4593ee1 100644
--- a/galois/vector_arm64.go
+++ b/galois/vector_arm64.go
@@ -5,6 +5,8 @@
 // Copyright 2017, Minio, Inc.
 package galois
 
+import "fmt"
+
 //go:noescape
 func galMulNEON(low, high, in, out []byte)
 
@@ -38,6 +40,10 @@ func MulConstVector(c byte, in []byte) []byte {
 
 // simple slice xor
 func AddVector(in, out []byte) []byte {
+	if len(in) != len(out) {
+		panic(fmt.Sprintf("in and out should have the same length len(in)=%d, len(out)=%d", len(in), len(out)))
+	}
+
 	origOutPointer := out
 
 	galXorNEON(in, out)
-- 
2.43.0


From c9d2e97cabad2e95b8b17659f35d96df6aeaf27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 11/15] fix: galois: GalExp is wrong or does not end for large
 exponents

log(a)*n overflows for large n (index out of range), and the reduction by
repeated subtraction takes practically forever before that.
---
 galois/galois.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/galois/galois.go b/galois/galois.go
index 567a76e..8ff02a9 100644
--- a/galois/galois.go
+++ b/galois/galois.go
@@ -57,10 +57,8 @@ func GalExp(a byte, n int) byte {
 	}
 
 	logA := logTable[a]
-	logResult := int(logA) * n
-	for logResult >= 255 {
-		logResult -= 255
-	}
+	// a**255 is 1, so only n modulo 255 matters
+	logResult := (int(logA) * (n % 255)) % 255
 	return expTable[logResult]
 }
 
-- 
2.43.0


From 16c1a97da7c64bbca0b182ad5e00931e6a98262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:47 +0000
Subject: [PATCH 12/15] verif: observation points in the buffer pool (build tag
 verif)

---
 utils/bufferpool.go |  2 ++
 utils/hooks_off.go  | 10 ++++++++++
 utils/hooks_on.go   | 28 ++++++++++++++++++++++++++++
 3 files changed, 40 insertions(+)
 create mode 100644 utils/hooks_off.go
 create mode 100644 utils/hooks_on.go

diff --git a/utils/bufferpool.go b/utils/bufferpool.go
index c384f9c..54a4488 100644
--- a/utils/bufferpool.go
+++ b/utils/bufferpool.go
@@ -19,6 +19,7 @@ func NewBytesBufferPool(size int)  *BytesBufferPool {
 }
 
 func (b *BytesBufferPool) Get() *bytes.Buffer {
+	hookGet(b)
 	select {
 	case bb := <- b.ch:
 		return bb
@@ -28,6 +29,7 @@ func (b *BytesBufferPool) Get() *bytes.Buffer {
 }
 
 func (b *BytesBufferPool) Put(bb *bytes.Buffer)  {
+	hookPut(b, bb)
 	select {
 	case b.ch <- bb:
 		return
diff --git a/utils/hooks_off.go b/utils/hooks_off.go
new file mode 100644
index 0000000..f44c1c3
--- /dev/null
+++ b/utils/hooks_off.go
@@ -0,0 +1,10 @@
+//go:build !verif
+// +build !verif
+
+package utils
+
+import "bytes"
+
+func hookGet(*BytesBufferPool) {}
+
+func hookPut(*BytesBufferPool, *bytes.Buffer) {}
diff --git a/utils/hooks_on.go b/utils/hooks_on.go
new file mode 100644
index 0000000..94f9817
--- /dev/null
+++ b/utils/hooks_on.go
@@ -0,0 +1,28 @@
+//go:build verif
+// +build verif
+
+package utils
+
+import "bytes"
+
+// Observation points for runtime monitors, only with the build tag verif.
+// They have to be set before any pool is used and never changed afterwards.
+var (
+	// VerifOnGet is called when a buffer is about to be taken.
+	VerifOnGet func(*BytesBufferPool)
+
+	// VerifOnPut is called with a buffer about to be put back.
+	VerifOnPut func(*BytesBufferPool, *bytes.Buffer)
+)
+
+func hookGet(b *BytesBufferPool) {
+	if VerifOnGet != nil {
+		VerifOnGet(b)
+	}
+}
+
+func hookPut(b *BytesBufferPool, bb *bytes.Buffer) {
+	if VerifOnPut != nil {
+		VerifOnPut(b, bb)
+	}
+}
-- 
2.43.0


From d3828a29bbdd1dbe5267fc75620b4fe27a9c0443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:31 +0000
Subject: [PATCH 13/15] fix: krawczyk: Combine must refuse shares of different
 lengths

---
 krawczyk/krawczyk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index a4c6160..a1f2ef1 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -233,6 +233,9 @@ func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
 		if len(ssData[i]) < secretStartIdx+2 {
 			return nil, errors.New("the given secret-shared data is wrong, a share is too short")
 		}
+		if len(ssData[i]) != len(ssData[0]) {
+			return nil, errors.New("the given secret-shared data is wrong, all shares must be the same length")
+		}
 		ssMetadata[i] = ssData[i][:secretStartIdx]
 
 		// check the part-id of the reed-solomon encoded data
-- 
2.43.0


From cda440a3041bbc5038eec42c4a2522f6f5e30acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:04 +0000
Subject: [PATCH 14/15] fix: count the bytes of a secret with int in SplitP, so
 that 4 GiB and more are split whole

---
 shamir/shamir.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shamir/shamir.go b/shamir/shamir.go
index a710c6c..177923b 100644
--- a/shamir/shamir.go
+++ b/shamir/shamir.go
@@ -321,8 +321,8 @@ func SplitP(secret []byte, parts, threshold int) ([][]byte, error) {
 	// Because we are using a field of size 256, we can only represent
 	// a single byte as the intercept of the polynomial, so we must
 	// use a new polynomial for each byte.
-	idx := uint32(0)
-	secretLen := uint32(len(secret))
+	idx := 0
+	secretLen := len(secret)
 	var wg sync.WaitGroup
 	for idx < secretLen {
 
@@ -332,7 +332,7 @@ func SplitP(secret []byte, parts, threshold int) ([][]byte, error) {
 		}
 
 		wg.Add(1)
-		go func(startIdx, endIdx uint32, values []byte) {
+		go func(startIdx, endIdx int, values []byte) {
 			defer wg.Done()
 
 			crtIdx := startIdx
-- 
2.43.0


From e64dc974650ac86ada23b0b97e75f460d86060c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:05 +0000
Subject: [PATCH 15/15] fix: krawczyk.Combine refuses a threshold of 1, which
 made it return wrong data

---
 krawczyk/krawczyk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index a1f2ef1..22a1394 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -200,8 +200,8 @@ func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
 			"#parts and #threshold should be less than 256, #parts=%d $threshold=%d", parts, threshold)
 	}
 
-	if threshold < 0 || parts < 0 {
-		return nil, errors.New("#parts and #threshold can not be negative")
+	if threshold < 2 {
+		return nil, errors.New("#threshold can not be less than 2")
 	}
 
 	// remove empty shares
-- 
2.43.0

