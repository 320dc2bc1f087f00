From 3afe80243076041cff122e4effcc8cf9f9d74ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:55 +0000
Subject: [PATCH 01/31] fix: event: remove the unsubscribed case from a feed's
 case list

---
 event/feed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event/feed.go b/event/feed.go
index 28e5a8f..9e48d87 100644
--- a/event/feed.go
+++ b/event/feed.go
@@ -205,7 +205,7 @@ func (cs caseList) find(channel interface{}) int {
 
 // delete 从 cs 中移除给定的 case。
 func (cs caseList) delete(index int) caseList {
-	return append(cs[:index], cs[:index+1]...)
+	return append(cs[:index], cs[index+1:]...)
 }
 
 // deactivate 将索引处的案例移动到 cs 切片的不可访问部分。
-- 
2.43.0


From eb9e650d3bc6182f6c3b11ec99ba357d3f2ce014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:54 +0000
Subject: [PATCH 02/31] fix: event: let FeedOf send nil values of interface
 types

---
 event/feedof.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/event/feedof.go b/event/feedof.go
index 1d001a8..f189e88 100644
--- a/event/feedof.go
+++ b/event/feedof.go
@@ -72,7 +72,8 @@ func (f *FeedOf[T]) remove(sub *feedOfSub[T]) {
 // Send 同时传送到所有订阅的频道。
 // 它返回值被发送到的订阅者的数量。
 func (f *FeedOf[T]) Send(value T) (nsent int) {
-	rvalue := reflect.ValueOf(value)
+	// 通过指针取值：接口类型的 nil 值也必须得到有效的 reflect.Value。
+	rvalue := reflect.ValueOf(&value).Elem()
 
 	f.once.Do(f.init)
 	<-f.sendLock
-- 
2.43.0


From 7c141e4bf0358df4e37bf552b8484395b16bf2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 03/31] fix: event: do not block Unsubscribe of a
 resubscription that has already ended

---
 event/subscription.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event/subscription.go b/event/subscription.go
index 2ea9897..db32872 100644
--- a/event/subscription.go
+++ b/event/subscription.go
@@ -103,7 +103,7 @@ func ResubscribeErr(backoffMax time.Duration, fn ResubscribeErrFunc) Subscriptio
 		backoffMax: backoffMax,
 		fn:         fn,
 		err:        make(chan error),
-		unsub:      make(chan struct{}),
+		unsub:      make(chan struct{}, 1), // 缓冲：循环结束后 Unsubscribe 也不会阻塞
 	}
 	go s.loop()
 	return s
-- 
2.43.0


From 7ae41c43d60b9e6bcb4d4987aedecc962472df79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 04/31] fix: event: release a subscription established while
 Resubscribe was being cancelled

---
 event/subscription.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/event/subscription.go b/event/subscription.go
index db32872..d6e898d 100644
--- a/event/subscription.go
+++ b/event/subscription.go
@@ -174,7 +174,10 @@ func (s *resubscribeSub) subscribe() Subscription {
 			}
 		case <-s.unsub:
 			cancel()
-			<-subscribed// 避免泄露 s.fn goroutine。
+			// 避免泄露 s.fn goroutine；如果它仍然建立了订阅，则释放该订阅。
+			if err := <-subscribed; err == nil && sub != nil {
+				sub.Unsubscribe()
+			}
 			return nil
 		}
 	}
-- 
2.43.0


From 1f3af5e6a80ddfaf99c73c460550de8bef1e45bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:32 +0000
Subject: [PATCH 05/31] fix: log: print the escaped key, not the value, as the
 logfmt key

---
 log/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/format.go b/log/format.go
index 6e49762..bca50e1 100644
--- a/log/format.go
+++ b/log/format.go
@@ -169,7 +169,7 @@ func logfmt(buf *bytes.Buffer, ctx []interface{}, color int, term bool) {
 		if !ok {
 			k, v = errorKey, formatLogfmtValue(k, term)
 		} else {
-			k = escapeString(v)
+			k = escapeString(k)
 		}
 
 		// XXX: 我们可能应该检查你所有的关键字节是否无效
-- 
2.43.0


From 159597b1da64c3ad4384b5f2fae722aa388dbc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:32 +0000
Subject: [PATCH 06/31] fix: log: give the root logger a discarding handler
 until one is set

---
 log/root.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/log/root.go b/log/root.go
index eeaab79..7b35f31 100644
--- a/log/root.go
+++ b/log/root.go
@@ -16,6 +16,11 @@ func New(ctx ...interface{}) Logger {
 	return root.New(ctx...)
 }
 
+func init() {
+	// 在设置处理程序之前，根记录器丢弃所有记录。
+	root.SetHandler(DiscardHandler())
+}
+
 //root 返回根记录器
 func Root() Logger {
 	return root
-- 
2.43.0


From ce8710e2069a2c270878103d005d98f5f2a1709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:32 +0000
Subject: [PATCH 07/31] fix: log: print origins in terminal output without
 color too

---
 log/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/format.go b/log/format.go
index bca50e1..e6c545b 100644
--- a/log/format.go
+++ b/log/format.go
@@ -125,7 +125,7 @@ func TerminalFormat(usecolor bool) Format {
 			if color > 0 {
 				fmt.Fprintf(b, "\x1b[%dm%s\x1b[0m[%s|%s]%s %s ", color, lvl, r.Time.Format(termTimeFormat), location, padding, msg)
 			} else {
-				fmt.Fprintf(b, "%s[%s] %s ", lvl, r.Time.Format(termTimeFormat), msg)
+				fmt.Fprintf(b, "%s[%s|%s]%s %s ", lvl, r.Time.Format(termTimeFormat), location, padding, msg)
 			}
 		} else {
 			if color > 0 {
-- 
2.43.0


From c9c2522e7f8616d94ffa8f61a4062dff84bff33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:32 +0000
Subject: [PATCH 08/31] fix: log: keep the line separator after records JSON
 cannot represent

---
 log/format.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/log/format.go b/log/format.go
index e6c545b..e4557c1 100644
--- a/log/format.go
+++ b/log/format.go
@@ -238,7 +238,6 @@ func JSONFormatOrderedEx(pretty, lineSeparated bool) Format {
 			b, _ = jsonMarshal(map[string]string{
 				errorKey: err.Error(),
 			})
-			return b
 		}
 		if lineSeparated {
 			b = append(b, '\n')
@@ -278,7 +277,6 @@ func JSONFormatEx(pretty, lineSeparated bool) Format {
 			b, _ = jsonMarshal(map[string]string{
 				errorKey: err.Error(),
 			})
-			return b
 		}
 
 		if lineSeparated {
-- 
2.43.0


From a414b7bc428ba5b4f091ab85dc645f26a64693e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:32 +0000
Subject: [PATCH 09/31] fix: log: do not write into the spare capacity of the
 caller's context slice

---
 log/logger.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/log/logger.go b/log/logger.go
index 809fb06..35a9828 100644
--- a/log/logger.go
+++ b/log/logger.go
@@ -207,7 +207,8 @@ func normalize(ctx []interface{}) []interface{} {
 	// that things are the right length and users can fix bugs
 	// when they see the output looks wrong
 	if len(ctx)%2 != 0 {
-		ctx = append(ctx, nil, errorKey, "Normalized odd number of arguments by adding nil")
+		// 限制容量，以免写入调用者切片的底层数组
+		ctx = append(ctx[:len(ctx):len(ctx)], nil, errorKey, "Normalized odd number of arguments by adding nil")
 	}
 
 	return ctx
-- 
2.43.0


From 559807f4a6a842c31a7517a3c9c44503428c6c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 10/31] fix: crypto/sha3: use the real state size and a correct
 minimum

stateSize was laneSize*laneSize and minInt always returned its first
argument, so no digest matched Keccak and writes could panic.
---
 crypto/sha3/sha3.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/sha3/sha3.go b/crypto/sha3/sha3.go
index 36b90a7..f8b5ac3 100644
--- a/crypto/sha3/sha3.go
+++ b/crypto/sha3/sha3.go
@@ -18,7 +18,7 @@ const sliceSize = 5
 const numLanes = sliceSize * sliceSize
 
 // stateSize 是 SHA3 内部状态的字节大小 (5 * 5 * WSize)
-const stateSize = laneSize * laneSize
+const stateSize = laneSize * numLanes
 
 // 摘要表示校验和的部分评估
 type digest struct {
@@ -29,7 +29,7 @@ type digest struct {
 }
 
 func minInt(v1, v2 int) int {
-	if v1 <= v1 {
+	if v1 <= v2 {
 		return v1
 	}
 	return v2
-- 
2.43.0


From c4b0ac8ffa0e38249436378bbed1189e974936b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 11/31] fix: crypto: handle equal points, opposite points and
 infinity on curves

Add of a point to itself or to its negation, and scalar multiplication
whose intermediate or final result is the point at infinity, panicked or
returned a wrong point.
---
 crypto/curve.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/crypto/curve.go b/crypto/curve.go
index cc5c239..6f091e6 100644
--- a/crypto/curve.go
+++ b/crypto/curve.go
@@ -51,6 +51,10 @@ func (BitCurve *BitCurve) IsOnCurve(x, y *big.Int) bool {
 
 //反转雅可比变换
 func (BitCurve *BitCurve) affineFromJacobian(x, y, z *big.Int) (xOut, yOut *big.Int) {
+	if z.Sign() == 0 {
+		//无穷远点表示为 (0,0)
+		return new(big.Int), new(big.Int)
+	}
 	zinv := new(big.Int).ModInverse(z, BitCurve.P)
 	zinvsq := new(big.Int).Mul(zinv, zinv)
 
@@ -64,6 +68,13 @@ func (BitCurve *BitCurve) affineFromJacobian(x, y, z *big.Int) (xOut, yOut *big.
 
 //返回 (x1,y1) 和 (x2,y2) 的总和
 func (BitCurve *BitCurve) Add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
+	//与无穷远点 (0,0) 相加不改变另一点
+	if x1.Sign() == 0 && y1.Sign() == 0 {
+		return new(big.Int).Set(x2), new(big.Int).Set(y2)
+	}
+	if x2.Sign() == 0 && y2.Sign() == 0 {
+		return new(big.Int).Set(x1), new(big.Int).Set(y1)
+	}
 	z := new(big.Int).SetInt64(1)
 	return BitCurve.affineFromJacobian(BitCurve.addJacobian(x1, y1, z, x2, y2, z))
 }
@@ -71,6 +82,13 @@ func (BitCurve *BitCurve) Add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
 //在雅可比坐标系中取两点 (x1, y1, z1) 和
 // (x2, y2, z2) 并返回它们的总和，也是雅可比形式。
 func (BitCurve *BitCurve) addJacobian(x1, y1, z1, x2, y2, z2 *big.Int) (*big.Int, *big.Int, *big.Int) {
+	//z 为 0 表示无穷远点
+	if z1.Sign() == 0 {
+		return x2, y2, z2
+	}
+	if z2.Sign() == 0 {
+		return x1, y1, z1
+	}
 	// See http://hyperelliptic.org/EFD/g1p/auto-shortw-jacobian-0.html#addition-add-2007-bl
 	z1z1 := new(big.Int).Mul(z1, z1)
 	z1z1.Mod(z1z1, BitCurve.P)
@@ -99,6 +117,10 @@ func (BitCurve *BitCurve) addJacobian(x1, y1, z1, x2, y2, z2 *big.Int) (*big.Int
 	if r.Sign() == -1 {
 		r.Add(r, BitCurve.P)
 	}
+	if h.Sign() == 0 && r.Sign() == 0 {
+		//两点相同，加法公式不适用
+		return BitCurve.doubleJacobian(x1, y1, z1)
+	}
 	r.Lsh(r, 1)
 	v := new(big.Int).Mul(u1, i)
 
@@ -195,7 +217,7 @@ func (BitCurve *BitCurve) ScalarMult(Bx, By *big.Int, k []byte) (*big.Int, *big.
 		}
 	}
 
-	if !seenFirstTrue {
+	if !seenFirstTrue || z.Sign() == 0 {
 		return nil, nil
 	}
 
-- 
2.43.0


From a47b46dce88ecbf9a3e47a69eddf470114c41852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 12/31] fix: crypto: encode every 8-digit group of a mnemonic
 message

The group step was an eighth of the message length, right for 64 digits
only: other lengths repeated or skipped digits, or panicked.
---
 crypto/mnemonic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/mnemonic.go b/crypto/mnemonic.go
index d43dc8f..9ff2733 100644
--- a/crypto/mnemonic.go
+++ b/crypto/mnemonic.go
@@ -19,7 +19,7 @@ func MnemonicEncode(message string) []string {
 	var out []string
 	n := int64(len(MnemonicWords))
 
-	for i := 0; i < len(message); i += (len(message) / 8) {
+	for i := 0; i < len(message); i += 8 {
 		x := message[i : i+8]
 		bit, _ := strconv.ParseInt(x, 16, 64)
 		w1 := (bit % n)
-- 
2.43.0


From 2e251efe6db0c17f6adf62f61e98d5abc64b60e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 13/31] fix: common/math: pad big integers to the requested
 length

---
 common/math/big.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/math/big.go b/common/math/big.go
index 4d7df93..2d78daf 100644
--- a/common/math/big.go
+++ b/common/math/big.go
@@ -138,10 +138,10 @@ func FirstBitSet(v *big.Int) int {
 // PaddedBigBytes 将大整数编码为大端字节切片。长度
 // 切片至少有 n 个字节。
 func PaddedBigBytes(bigint *big.Int, n int) []byte {
-	if bigint.BitLen()/8 >= 8 {
+	if bigint.BitLen()/8 >= n {
 		return bigint.Bytes()
 	}
-	ret := make([]byte, 8)
+	ret := make([]byte, n)
 	ReadBits(bigint, ret)
 	return ret
 }
-- 
2.43.0


From ace9e0d103dd603785eace5c5ce52232193acc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 14/31] fix: common/math: leave the base of Exp unchanged

---
 common/math/big.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/math/big.go b/common/math/big.go
index 2d78daf..6a76bbe 100644
--- a/common/math/big.go
+++ b/common/math/big.go
@@ -219,6 +219,7 @@ func S256(x *big.Int) *big.Int {
 // 由@karalabe 和@chfast 提供
 func Exp(base, exponent *big.Int) *big.Int {
 	result := big.NewInt(1)
+	base = new(big.Int).Set(base) // 不改变调用者的基数
 
 	for _, word := range exponent.Bits() {
 		for i := 0; i < wordBits; i++ {
-- 
2.43.0


From 0ccd4eb3207f7892e945e4e45ed4e51406dd33a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 15/31] fix: common: marshal mixed-case addresses with an
 upper-case prefix

---
 common/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/types.go b/common/types.go
index cc36bd3..6ff3a9a 100644
--- a/common/types.go
+++ b/common/types.go
@@ -385,7 +385,7 @@ func (ma *MixedcaseAddress) UnmarshalJSON(input []byte) error {
 
 // MarshalJSON 编组原始值
 func (ma *MixedcaseAddress) MarshalJSON() ([]byte, error) {
-	if strings.HasPrefix(ma.original, "0x") || strings.HasPrefix(ma.original, "0x") {
+	if strings.HasPrefix(ma.original, "0x") || strings.HasPrefix(ma.original, "0X") {
 		return json.Marshal(fmt.Sprintf("0x%s", ma.original[2:]))
 	}
 	return json.Marshal(fmt.Sprintf("0x%s", ma.original))
-- 
2.43.0


From 4ffcb886e3a1f6a85c46a6c4b9ca290f06be2a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 16/31] fix: common: close the bracket after an invalid
 checksum

---
 common/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/types.go b/common/types.go
index 6ff3a9a..fa914b1 100644
--- a/common/types.go
+++ b/common/types.go
@@ -401,7 +401,7 @@ func (ma *MixedcaseAddress) String() string {
 	if ma.ValidChecksum() {
 		return fmt.Sprintf("%s [chksum ok]", ma.original)
 	}
-	return fmt.Sprintf("%s [chksum INVALID", ma.original)
+	return fmt.Sprintf("%s [chksum INVALID]", ma.original)
 }
 
 // 如果地址具有有效校验和，则 ValidChecksum 返回 true
-- 
2.43.0


From 80aa4c6252283d85175dcd6869a5e899ebb57ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 17/31] fix: common/hexutil: report out-of-range 64-bit
 quantities as such

---
 common/hexutil/hexutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/hexutil/hexutil.go b/common/hexutil/hexutil.go
index 35ced3d..c6e6941 100644
--- a/common/hexutil/hexutil.go
+++ b/common/hexutil/hexutil.go
@@ -212,7 +212,7 @@ func mapError(err error) error {
 	if err, ok := err.(*strconv.NumError); ok {
 		switch err.Err {
 		case strconv.ErrRange:
-			return ErrUintRange
+			return ErrUint64Range
 		case strconv.ErrSyntax:
 			return ErrSyntax
 		}
-- 
2.43.0


From 8f24a5501cec29a7077beec1d407c08ba4039c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 18/31] fix: common/hexutil: report an empty quantity as an
 empty string

---
 common/hexutil/hexutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/hexutil/hexutil.go b/common/hexutil/hexutil.go
index c6e6941..3bcd891 100644
--- a/common/hexutil/hexutil.go
+++ b/common/hexutil/hexutil.go
@@ -174,7 +174,7 @@ func EncodeBig(bigint *big.Int) string {
  
 func checkNumber(input string) (raw string, err error) {
 	if len(input) == 0 {
-		return "", ErrEmptyNumber
+		return "", ErrEmptyString
 	}
 	if !has0xPrefix(input) {
 		return "", ErrMissingPrefix
-- 
2.43.0


From b6f56bcd61dfe44b0e9eca8a42b4f63a0b1c9146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 19/31] fix: rlp: recognise the "tail" struct tag

---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index 12a7185..823fd4f 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -172,7 +172,7 @@ func parseTag(field Field, lastPublic int) (Tags, error) {
 			if ts.Tail {
 				return ts, TagError{Field: name, Tag: t, Err: `also has "tail" tag`}
 			}
-		case "tali":
+		case "tail":
 			ts.Tail = true
 			if field.Index != lastPublic {
 				return ts, TagError{Field: name, Tag: t, Err: "must be on last field"}
-- 
2.43.0


From cba943d41713262b76ed12bb0b5b689fcdf37121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 20/31] fix: rlp: require optional fields only after an
 optional field

---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index 823fd4f..91d74d6 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -135,7 +135,7 @@ func ProcessFields(allFields []Field) ([]Field, []Tags, error) {
 			}
 			anyOptional = true
 		} else {
-			if !anyOptional {
+			if anyOptional {
 				msg := fmt.Sprintf("must be optional because preceding field %q is optional", firstOptionalName)
 				return nil, nil, TagError{Field: name, Err: msg}
 			}
-- 
2.43.0


From ce335412490729cf4fdd93ff8afdaf4fa3fcfc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 21/31] fix: rlp: separate the field name in tag errors

---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index 91d74d6..7f6b8ee 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -92,7 +92,7 @@ type TagError struct {
 }
 
 func (e TagError) Error() string {
-	field := "field" + e.Field
+	field := "field " + e.Field
 	if e.StructType != "" {
 		field = e.StructType + "." + e.Field
 	}
-- 
2.43.0


From c4664446ff13b7c2550e1df2a0f3e343e3068424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:25 +0000
Subject: [PATCH 22/31] fix: common: print ages of exactly one unit

---
 common/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/format.go b/common/format.go
index e5cb82e..2a68c0f 100644
--- a/common/format.go
+++ b/common/format.go
@@ -52,7 +52,7 @@ func (t PrettyAge) String() string {
 	// 返回前累加 3 个分量的精度
 	result, prec := "", 0
 	for _, unit := range ageUnits {
-		if diff > unit.Size{
+		if diff >= unit.Size {
 			result = fmt.Sprintf("%s%d%s", result, diff/unit.Size, unit.Symbol)
 			diff %= unit.Size
 
-- 
2.43.0


From 38520a9374b3e75684560e7929bd2e8d407af58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 23/31] fix: crypto/sha3: rotate the last plane of the first
 round correctly

Five lanes of round 1 were stored in the wrong temporaries, so the
permutation was not Keccak-f[1600].
---
 crypto/sha3/keccakf.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crypto/sha3/keccakf.go b/crypto/sha3/keccakf.go
index ad56f08..72f243e 100644
--- a/crypto/sha3/keccakf.go
+++ b/crypto/sha3/keccakf.go
@@ -115,15 +115,15 @@ func keccakF1600(a *[25]uint64) {
 		a[4] = bc4 ^ (bc1 &^ bc0)
 
 		t = a[15] ^ d0
-		bc2 = t<<41 | t>>(64-41)
+		bc3 = t<<41 | t>>(64-41)
 		t = a[21] ^ d1
-		bc3 = t<<2 | t>>(64-2)
+		bc4 = t<<2 | t>>(64-2)
 		t = a[2] ^ d2
-		bc4 = t<<62 | t>>(64-62)
+		bc0 = t<<62 | t>>(64-62)
 		t = a[8] ^ d3
-		bc0 = t<<55 | t>>(64-55)
+		bc1 = t<<55 | t>>(64-55)
 		t = a[14] ^ d4
-		bc1 = t<<39 | t>>(64-39)
+		bc2 = t<<39 | t>>(64-39)
 		a[15] = bc0 ^ (bc2 &^ bc1)
 		a[21] = bc1 ^ (bc3 &^ bc2)
 		a[2] = bc2 ^ (bc4 &^ bc3)
-- 
2.43.0


From 67a9c8dfb6d172cbb28f674eca5b9377e3221576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:16 +0000
Subject: [PATCH 24/31] fix: rlp: derive the "nil" tag's empty value from the
 pointed-to type

---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index 7f6b8ee..807aeef 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -161,7 +161,7 @@ func parseTag(field Field, lastPublic int) (Tags, error) {
 			}
 			switch t {
 			case "nil":
-				ts.NilKind = field.Type.DefaultNilValue()
+				ts.NilKind = field.Type.Elem.DefaultNilValue()
 			case "nilString":
 				ts.NilKind = NilKindString
 			case "nilList":
-- 
2.43.0


From 54f58b0be3cdd12cfca0643a44407a96e550ecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:17 +0000
Subject: [PATCH 25/31] fix: rlpgen: refuse predeclared named types instead of
 crashing

---
 rlp/rlpgen/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/rlpgen/types.go b/rlp/rlpgen/types.go
index f24e4fb..0bdc120 100644
--- a/rlp/rlpgen/types.go
+++ b/rlp/rlpgen/types.go
@@ -78,7 +78,7 @@ func isBigInt(typ types.Type) bool {
 		return false
 	}
 	name := named.Obj()
-	return name.Pkg().Path() == "math/big" && name.Name() == "Int"
+	return name.Pkg() != nil && name.Pkg().Path() == "math/big" && name.Name() == "Int"
 }
 
 // isByte 检查 'typ' 的底层类型是否为 uint8。
-- 
2.43.0


From d513ed671f285dea7a6e0e8c41b2cb27ba6534cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:00 +0000
Subject: [PATCH 26/31] fix: event: sending an untyped nil left the feed locked

---
 event/feed.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/event/feed.go b/event/feed.go
index 9e48d87..8b99570 100644
--- a/event/feed.go
+++ b/event/feed.go
@@ -111,6 +111,7 @@ func (f *Feed) remove(sub *feedSub) {
 // 它返回值被发送到的订阅者的数量。
 func (f *Feed) Send(value interface{}) (nsent int) {
 	rvalue := reflect.ValueOf(value)
+	rtype := rvalue.Type() // 在加锁之前：无类型的 nil 会在此恐慌
 
 	f.once.Do(f.init)
 	<-f.sendLock
@@ -120,10 +121,10 @@ func (f *Feed) Send(value interface{}) (nsent int) {
 	f.sendCases = append(f.sendCases, f.inbox...)
 	f.inbox = nil
 
-	if !f.typecheck(rvalue.Type()) {
+	if !f.typecheck(rtype) {
 		f.sendLock <- struct{}{}
 		f.mu.Unlock()
-		panic(feedTypeError{op: "Send", got: rvalue.Type(), want: f.etype})
+		panic(feedTypeError{op: "Send", got: rtype, want: f.etype})
 	}
 	f.mu.Unlock()
 
-- 
2.43.0


From 7507398d58e4ded5fc62e36dd8dc8f1410caf22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 27/31] fix: log: a nil pointer to a type with a terminal form
 crashed the terminal format

Nil pointers whose String or Error method is the value's are logged as
"nil" in every format; those with a TerminalString method panicked.
---
 log/format.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/log/format.go b/log/format.go
index e4557c1..132e2a9 100644
--- a/log/format.go
+++ b/log/format.go
@@ -321,7 +321,7 @@ func formatJSONValue(value interface{}) interface{} {
 }
 
 // formatValue 为序列化格式化一个值
-func formatLogfmtValue(value interface{}, term bool) string {
+func formatLogfmtValue(value interface{}, term bool) (result string) {
 	if value == nil {
 		return "nil"
 	}
@@ -342,6 +342,16 @@ func formatLogfmtValue(value interface{}, term bool) string {
 	}
 	if term {
 		if s, ok := value.(TerminalStringer); ok {
+			// 与 formatShared 一样，nil 指针表示为 "nil"
+			defer func() {
+				if err := recover(); err != nil {
+					if v := reflect.ValueOf(value); v.Kind() == reflect.Ptr && v.IsNil() {
+						result = "nil"
+					} else {
+						panic(err)
+					}
+				}
+			}()
 			// 提供的自定义终端纵梁，使用它
 			return escapeString(s.TerminalString())
 		}
-- 
2.43.0


From d220737545def5110162efc4e5f529296ad064e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 28/31] fix: rlpgen: fields of alias types were refused,
 aliases as the given type crashed

Toolchains since Go 1.22 represent aliases as types of their own. A field
of an alias type was refused as unhandled, and naming an alias crashed the
generator instead of being resolved or refused.
---
 rlp/rlpgen/gen.go   |  2 +-
 rlp/rlpgen/main.go  |  6 +++++-
 rlp/rlpgen/types.go | 13 ++++++++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index fdfa357..186bf1b 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -629,7 +629,7 @@ func (op sliceOp) genDecode(ctx *genContext) (string, string) {
 }
 
 func (bctx *buildContext) makeOp(name *types.Named, typ types.Type, tags rlpstruct.Tags) (op, error) {
-	switch typ := typ.(type) {
+	switch typ := unalias(typ).(type) {
 	case *types.Named:
 		if isBigInt(typ) {
 			return bigIntOp{}, nil
diff --git a/rlp/rlpgen/main.go b/rlp/rlpgen/main.go
index e01dba7..33087c3 100644
--- a/rlp/rlpgen/main.go
+++ b/rlp/rlpgen/main.go
@@ -143,5 +143,9 @@ func lookupType(scope *types.Scope, name string) (*types.Named, error) {
 	if !ok {
 		return nil, errors.New("not a type")
 	}
-	return typ.Type().(*types.Named), nil
+	named, ok := unalias(typ.Type()).(*types.Named)
+	if !ok {
+		return nil, errors.New("not a defined type")
+	}
+	return named, nil
 }
\ No newline at end of file
diff --git a/rlp/rlpgen/types.go b/rlp/rlpgen/types.go
index 0bdc120..31c2a84 100644
--- a/rlp/rlpgen/types.go
+++ b/rlp/rlpgen/types.go
@@ -73,7 +73,7 @@ func nonZeroCheck(v string, vtyp types.Type, qualify types.Qualifier) string {
 
 // isBigInt 检查 'typ' 是否为 "math/big".Int。
 func isBigInt(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -87,6 +87,17 @@ func isByte(typ types.Type) bool {
 	return ok && basic.Kind() == types.Uint8
 }
 
+// unalias 返回别名所代表的类型。较新的工具链以单独的类型 (types.Alias) 表示别名。
+func unalias(typ types.Type) types.Type {
+	for {
+		alias, ok := typ.(interface{ Rhs() types.Type })
+		if !ok {
+			return typ
+		}
+		typ = alias.Rhs()
+	}
+}
+
 func resolveUnderlying(typ types.Type) types.Type {
 	for {
 		t := typ.Underlying()
-- 
2.43.0


From d53c4fb2f303c3f320ed9cae625d6fdc0c6f44ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:33 +0000
Subject: [PATCH 29/31] fix: rlpgen: recursive types overflowed the stack
 instead of being refused

---
 rlp/rlpgen/gen.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index 186bf1b..954cf0d 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -34,6 +34,7 @@ type buildContext struct {
 	rawValueType *types.Named
 
 	typeToStructCache map[types.Type]*rlpstruct.Type
+	pending           map[*types.Named]bool // named types whose op is being made
 }
 
 func newBuildContext(packageRLP *types.Package) *buildContext {
@@ -42,6 +43,7 @@ func newBuildContext(packageRLP *types.Package) *buildContext {
 	rawv := packageRLP.Scope().Lookup("RawValue").Type()
 	return &buildContext{
 		typeToStructCache: make(map[types.Type]*rlpstruct.Type),
+		pending:           make(map[*types.Named]bool),
 		encoderIface:      enc.(*types.Interface),
 		decoderIface:      dec.(*types.Interface),
 		rawValueType:      rawv.(*types.Named),
@@ -63,7 +65,7 @@ func (bctx *buildContext) typeToStructType(typ types.Type) *rlpstruct.Type {
 	}
 
 	// Resolve named types to their underlying type, but keep the name.
-	name := types.TypeString(typ, nil)
+	key, name := typ, types.TypeString(typ, nil)
 	for {
 		utype := typ.Underlying()
 		if utype == typ {
@@ -79,7 +81,7 @@ func (bctx *buildContext) typeToStructType(typ types.Type) *rlpstruct.Type {
 		IsEncoder: bctx.isEncoder(typ),
 		IsDecoder: bctx.isDecoder(typ),
 	}
-	bctx.typeToStructCache[typ] = t
+	bctx.typeToStructCache[key] = t
 
 	// Assign element type.
 	switch typ.(type) {
@@ -640,6 +642,12 @@ func (bctx *buildContext) makeOp(name *types.Named, typ types.Type, tags rlpstru
 		if bctx.isDecoder(typ) {
 			return nil, fmt.Errorf("type %v implements rlp.Decoder with non-pointer receiver", typ)
 		}
+		// Ops are trees, so they can't represent a type that contains itself.
+		if bctx.pending[typ] {
+			return nil, fmt.Errorf("recursive type %v is not supported", typ)
+		}
+		bctx.pending[typ] = true
+		defer delete(bctx.pending, typ)
 		// TODO: same check for encoder?
 		return bctx.makeOp(typ, typ.Underlying(), tags)
 	case *types.Pointer:
-- 
2.43.0


From 78277501fa4a398dc3b316f692f792905d6d75fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 30/31] fix: rlpgen: generating in package rlp itself crashed

---
 rlp/rlpgen/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rlp/rlpgen/main.go b/rlp/rlpgen/main.go
index 33087c3..d866281 100644
--- a/rlp/rlpgen/main.go
+++ b/rlp/rlpgen/main.go
@@ -101,6 +101,9 @@ func (cfg *Config) process() (code []byte, err error) {
 			pkg = p.Types
 		}
 	}
+	if pkg == nil {
+		return nil, fmt.Errorf("can't generate code for package %s itself", pathOfPackageRLP)
+	}
 	bctx := newBuildContext(packageRLP)
 
 	// Find the type and generate.
-- 
2.43.0


From a95e87a2762b595f93eb19f3c4e49b0f2525ce2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:35 +0000
Subject: [PATCH 31/31] fix: event: a removed subscription's channel stayed
 referenced by its feed

---
 event/feed.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/event/feed.go b/event/feed.go
index 8b99570..79355ed 100644
--- a/event/feed.go
+++ b/event/feed.go
@@ -204,9 +204,13 @@ func (cs caseList) find(channel interface{}) int {
 	return -1
 }
 
-// delete 从 cs 中移除给定的 case。
+// delete 从 cs 中移除给定的 case。腾出的尾部元素会被清空，
+// 否则已取消订阅的频道（及其中的值）会一直被引用。
 func (cs caseList) delete(index int) caseList {
-	return append(cs[:index], cs[index+1:]...)
+	last := len(cs) - 1
+	copy(cs[index:], cs[index+1:])
+	cs[last] = reflect.SelectCase{}
+	return cs[:last]
 }
 
 // deactivate 将索引处的案例移动到 cs 切片的不可访问部分。
-- 
2.43.0

