From 539f42ec8ad5de91813d14216f66c20f3f07d901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 01/20] fix: do not wrap prefix integers nor consume bytes of
 incomplete ones

---
 bnl/http3/src/codec/qpack/prefix_int/decode.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/prefix_int/decode.cpp b/bnl/http3/src/codec/qpack/prefix_int/decode.cpp
index 9fa5498..0854e2f 100644
--- a/bnl/http3/src/codec/qpack/prefix_int/decode.cpp
+++ b/bnl/http3/src/codec/qpack/prefix_int/decode.cpp
@@ -26,7 +26,7 @@ decode(Sequence &encoded, uint8_t prefix) noexcept
 {
   typename Sequence::lookahead_type lookahead(encoded);
 
-  uint64_t result = BNL_TRY(uint8_decode(encoded));
+  uint64_t result = BNL_TRY(uint8_decode(lookahead));
 
   uint8_t prefix_max = static_cast<uint8_t>((1U << prefix) - 1);
   result &= prefix_max;
@@ -35,8 +35,18 @@ decode(Sequence &encoded, uint8_t prefix) noexcept
     uint64_t offset = 0;
     uint8_t byte = 0;
     do {
-      byte = BNL_TRY(uint8_decode(encoded));
-      result += (byte & 127U) * (1U << offset);
+      byte = BNL_TRY(uint8_decode(lookahead));
+      uint64_t digit = byte & 127U;
+
+      if (digit != 0) {
+        // The integer has to fit in 64 bits.
+        if (offset >= 64 || digit > ((UINT64_MAX - result) >> offset)) {
+          return error::qpack_decompression_failed;
+        }
+
+        result += digit << offset;
+      }
+
       offset += 7;
     } while ((byte & 128U) == 128);
   }
-- 
2.43.0


From e35bf384a4cb303dc478e2561971e2f77a595a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 02/20] fix: zero the first byte of freshly allocated prefix
 integers and literals

---
 bnl/http3/src/codec/qpack/literal/encode.cpp    | 3 +++
 bnl/http3/src/codec/qpack/prefix_int/encode.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/bnl/http3/src/codec/qpack/literal/encode.cpp b/bnl/http3/src/codec/qpack/literal/encode.cpp
index e2fbc2f..0760112 100644
--- a/bnl/http3/src/codec/qpack/literal/encode.cpp
+++ b/bnl/http3/src/codec/qpack/literal/encode.cpp
@@ -48,6 +48,9 @@ encode(base::string_view literal, uint8_t prefix)
   size_t encoded_size = literal::encoded_size(literal, prefix);
   base::buffer encoded(encoded_size);
 
+  // The bits in front of the prefix are kept as they are by `encode`.
+  encoded[0] = 0;
+
   encode(encoded.data(), literal, prefix);
 
   return encoded;
diff --git a/bnl/http3/src/codec/qpack/prefix_int/encode.cpp b/bnl/http3/src/codec/qpack/prefix_int/encode.cpp
index 25c0b68..b7c4445 100644
--- a/bnl/http3/src/codec/qpack/prefix_int/encode.cpp
+++ b/bnl/http3/src/codec/qpack/prefix_int/encode.cpp
@@ -61,6 +61,9 @@ encode(uint64_t value, uint8_t prefix)
   size_t encoded_size = prefix_int::encoded_size(value, prefix);
   base::buffer encoded(encoded_size);
 
+  // The bits in front of the prefix are kept as they are by `encode`.
+  encoded[0] = 0;
+
   encode(encoded.data(), value, prefix);
 
   return encoded;
-- 
2.43.0


From 00305ae4bffca297308ce83176ed6b5392eb7650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 03/20] fix: write all bits of Huffman codes that end on a byte
 boundary

---
 bnl/http3/src/codec/qpack/huffman/encode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/qpack/huffman/encode.cpp b/bnl/http3/src/codec/qpack/huffman/encode.cpp
index 332aecb..eddda1f 100644
--- a/bnl/http3/src/codec/qpack/huffman/encode.cpp
+++ b/bnl/http3/src/codec/qpack/huffman/encode.cpp
@@ -76,7 +76,7 @@ symbol_encode(uint8_t *dest, size_t *rem_bits, const encoding::symbol &symbol)
     }
 
     while (num_bits > 8) {
-      *dest = static_cast<uint8_t>(code >> (num_bits - (num_bits % 8)));
+      *dest = static_cast<uint8_t>(code >> (((num_bits - 1) / 8) * 8));
 
       dest++;
       num_bits -= 8;
-- 
2.43.0


From 4dcbbc36d137656af3f3d3d750b6ffd390f12326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:38 +0000
Subject: [PATCH 04/20] fix: compare header strings after a static table hash
 match

---
 .../src/codec/qpack/encode_generated.cpp      | 390 ++++++++++++++++++
 bnl/http3/tools/generate_qpack.py             |  23 +-
 2 files changed, 406 insertions(+), 7 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/encode_generated.cpp b/bnl/http3/src/codec/qpack/encode_generated.cpp
index 5521d1a..ca6f092 100644
--- a/bnl/http3/src/codec/qpack/encode_generated.cpp
+++ b/bnl/http3/src/codec/qpack/encode_generated.cpp
@@ -21,357 +21,747 @@ find_index(header_view header)
 
   switch (name_hash) {
     case 16895098521482341206U: // :authority
+      if (header.name() != ":authority") {
+        break;
+      }
       return { type::header_only, uint8_t(0) };
     case 11800921616074793521U: // :method
+      if (header.name() != ":method") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 1969084168692057419U: // CONNECT
+          if (header.value() != "CONNECT") {
+            break;
+          }
           return { type::header_value, uint8_t(15) };
         case 3416820684017772195U: // DELETE
+          if (header.value() != "DELETE") {
+            break;
+          }
           return { type::header_value, uint8_t(16) };
         case 3137017853320178759U: // GET
+          if (header.value() != "GET") {
+            break;
+          }
           return { type::header_value, uint8_t(17) };
         case 5077457392360958184U: // HEAD
+          if (header.value() != "HEAD") {
+            break;
+          }
           return { type::header_value, uint8_t(18) };
         case 13449464674369688059U: // OPTIONS
+          if (header.value() != "OPTIONS") {
+            break;
+          }
           return { type::header_value, uint8_t(19) };
         case 1393561109570896241U: // POST
+          if (header.value() != "POST") {
+            break;
+          }
           return { type::header_value, uint8_t(20) };
         case 8278045464579020327U: // PUT
+          if (header.value() != "PUT") {
+            break;
+          }
           return { type::header_value, uint8_t(21) };
       }
       return { type::header_only, uint8_t(15) };
     case 1432527143127418564U: // :path
+      if (header.name() != ":path") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 16761507700594825962U: // /
+          if (header.value() != "/") {
+            break;
+          }
           return { type::header_value, uint8_t(1) };
       }
       return { type::header_only, uint8_t(1) };
     case 16734001141632695329U: // :scheme
+      if (header.name() != ":scheme") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13730016396111666430U: // http
+          if (header.value() != "http") {
+            break;
+          }
           return { type::header_value, uint8_t(22) };
         case 10742537861312705840U: // https
+          if (header.value() != "https") {
+            break;
+          }
           return { type::header_value, uint8_t(23) };
       }
       return { type::header_only, uint8_t(22) };
     case 11145724770861396798U: // :status
+      if (header.name() != ":status") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 2891813017576360282U: // 103
+          if (header.value() != "103") {
+            break;
+          }
           return { type::header_value, uint8_t(24) };
         case 2685111111418367100U: // 200
+          if (header.value() != "200") {
+            break;
+          }
           return { type::header_value, uint8_t(25) };
         case 2860949800888200221U: // 304
+          if (header.value() != "304") {
+            break;
+          }
           return { type::header_value, uint8_t(26) };
         case 5957985645556640011U: // 404
+          if (header.value() != "404") {
+            break;
+          }
           return { type::header_value, uint8_t(27) };
         case 12373623763172808772U: // 503
+          if (header.value() != "503") {
+            break;
+          }
           return { type::header_value, uint8_t(28) };
         case 6146904730557115430U: // 100
+          if (header.value() != "100") {
+            break;
+          }
           return { type::header_value, uint8_t(63) };
         case 11759795502426644276U: // 204
+          if (header.value() != "204") {
+            break;
+          }
           return { type::header_value, uint8_t(64) };
         case 17033585193496081404U: // 206
+          if (header.value() != "206") {
+            break;
+          }
           return { type::header_value, uint8_t(65) };
         case 1337354901647857481U: // 302
+          if (header.value() != "302") {
+            break;
+          }
           return { type::header_value, uint8_t(66) };
         case 11111781720710347155U: // 400
+          if (header.value() != "400") {
+            break;
+          }
           return { type::header_value, uint8_t(67) };
         case 14993518005534636743U: // 403
+          if (header.value() != "403") {
+            break;
+          }
           return { type::header_value, uint8_t(68) };
         case 1128097706726417269U: // 421
+          if (header.value() != "421") {
+            break;
+          }
           return { type::header_value, uint8_t(69) };
         case 17924379407345689140U: // 425
+          if (header.value() != "425") {
+            break;
+          }
           return { type::header_value, uint8_t(70) };
         case 12667669577372699657U: // 500
+          if (header.value() != "500") {
+            break;
+          }
           return { type::header_value, uint8_t(71) };
       }
       return { type::header_only, uint8_t(24) };
     case 14776963886974432617U: // accept
+      if (header.name() != "accept") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 285960807216420690U: // */*
+          if (header.value() != "*/*") {
+            break;
+          }
           return { type::header_value, uint8_t(29) };
         case 6373961066247414572U: // application/dns-message
+          if (header.value() != "application/dns-message") {
+            break;
+          }
           return { type::header_value, uint8_t(30) };
       }
       return { type::header_only, uint8_t(29) };
     case 14455144075924042224U: // accept-encoding
+      if (header.name() != "accept-encoding") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 9032900040511447184U: // gzip, deflate, br
+          if (header.value() != "gzip, deflate, br") {
+            break;
+          }
           return { type::header_value, uint8_t(31) };
       }
       return { type::header_only, uint8_t(31) };
     case 12586352021634702904U: // accept-language
+      if (header.name() != "accept-language") {
+        break;
+      }
       return { type::header_only, uint8_t(72) };
     case 14590555536192441974U: // accept-ranges
+      if (header.name() != "accept-ranges") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 3279652670845457604U: // bytes
+          if (header.value() != "bytes") {
+            break;
+          }
           return { type::header_value, uint8_t(32) };
       }
       return { type::header_only, uint8_t(32) };
     case 5881923794129529227U: // access-control-allow-credentials
+      if (header.name() != "access-control-allow-credentials") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13702020392090633634U: // FALSE
+          if (header.value() != "FALSE") {
+            break;
+          }
           return { type::header_value, uint8_t(73) };
         case 13992295306875567947U: // TRUE
+          if (header.value() != "TRUE") {
+            break;
+          }
           return { type::header_value, uint8_t(74) };
       }
       return { type::header_only, uint8_t(73) };
     case 3800686319607884068U: // access-control-allow-headers
+      if (header.name() != "access-control-allow-headers") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 6792126209451122079U: // cache-control
+          if (header.value() != "cache-control") {
+            break;
+          }
           return { type::header_value, uint8_t(33) };
         case 3910122139284074053U: // content-type
+          if (header.value() != "content-type") {
+            break;
+          }
           return { type::header_value, uint8_t(34) };
         case 765293966243412708U: // *
+          if (header.value() != "*") {
+            break;
+          }
           return { type::header_value, uint8_t(75) };
       }
       return { type::header_only, uint8_t(33) };
     case 10756748986426057606U: // access-control-allow-methods
+      if (header.name() != "access-control-allow-methods") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 2774841317834080824U: // get
+          if (header.value() != "get") {
+            break;
+          }
           return { type::header_value, uint8_t(76) };
         case 13368036589511723433U: // get, post, options
+          if (header.value() != "get, post, options") {
+            break;
+          }
           return { type::header_value, uint8_t(77) };
         case 16398749137410613924U: // options
+          if (header.value() != "options") {
+            break;
+          }
           return { type::header_value, uint8_t(78) };
       }
       return { type::header_only, uint8_t(76) };
     case 9436417403599124064U: // access-control-allow-origin
+      if (header.name() != "access-control-allow-origin") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 765293966243412708U: // *
+          if (header.value() != "*") {
+            break;
+          }
           return { type::header_value, uint8_t(35) };
       }
       return { type::header_only, uint8_t(35) };
     case 6796384088407939286U: // access-control-expose-headers
+      if (header.name() != "access-control-expose-headers") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 17031230962583399322U: // content-length
+          if (header.value() != "content-length") {
+            break;
+          }
           return { type::header_value, uint8_t(79) };
       }
       return { type::header_only, uint8_t(79) };
     case 4242818872217734295U: // access-control-request-headers
+      if (header.name() != "access-control-request-headers") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 3910122139284074053U: // content-type
+          if (header.value() != "content-type") {
+            break;
+          }
           return { type::header_value, uint8_t(80) };
       }
       return { type::header_only, uint8_t(80) };
     case 14051338931492133901U: // access-control-request-method
+      if (header.name() != "access-control-request-method") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 2774841317834080824U: // get
+          if (header.value() != "get") {
+            break;
+          }
           return { type::header_value, uint8_t(81) };
         case 3178169103122520677U: // post
+          if (header.value() != "post") {
+            break;
+          }
           return { type::header_value, uint8_t(82) };
       }
       return { type::header_only, uint8_t(81) };
     case 5092756294692198100U: // age
+      if (header.name() != "age") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 7148434200721666028U: // 0
+          if (header.value() != "0") {
+            break;
+          }
           return { type::header_value, uint8_t(2) };
       }
       return { type::header_only, uint8_t(2) };
     case 12092656254601729054U: // alt-svc
+      if (header.name() != "alt-svc") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 9623284816163994036U: // clear
+          if (header.value() != "clear") {
+            break;
+          }
           return { type::header_value, uint8_t(83) };
       }
       return { type::header_only, uint8_t(83) };
     case 8846816503791876372U: // authorization
+      if (header.name() != "authorization") {
+        break;
+      }
       return { type::header_only, uint8_t(84) };
     case 6792126209451122079U: // cache-control
+      if (header.name() != "cache-control") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 10032073942971583664U: // max-age=0
+          if (header.value() != "max-age=0") {
+            break;
+          }
           return { type::header_value, uint8_t(36) };
         case 3044507098168884424U: // max-age=2592000
+          if (header.value() != "max-age=2592000") {
+            break;
+          }
           return { type::header_value, uint8_t(37) };
         case 441477139842840241U: // max-age=604800
+          if (header.value() != "max-age=604800") {
+            break;
+          }
           return { type::header_value, uint8_t(38) };
         case 8897988708233174624U: // no-cache
+          if (header.value() != "no-cache") {
+            break;
+          }
           return { type::header_value, uint8_t(39) };
         case 3660001317594812985U: // no-store
+          if (header.value() != "no-store") {
+            break;
+          }
           return { type::header_value, uint8_t(40) };
         case 9509473917879564042U: // public, max-age=31536000
+          if (header.value() != "public, max-age=31536000") {
+            break;
+          }
           return { type::header_value, uint8_t(41) };
       }
       return { type::header_only, uint8_t(36) };
     case 17156266451297603303U: // content-disposition
+      if (header.name() != "content-disposition") {
+        break;
+      }
       return { type::header_only, uint8_t(3) };
     case 11860813331948357247U: // content-encoding
+      if (header.name() != "content-encoding") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 12202383188974104177U: // br
+          if (header.value() != "br") {
+            break;
+          }
           return { type::header_value, uint8_t(42) };
         case 12621183860903199653U: // gzip
+          if (header.value() != "gzip") {
+            break;
+          }
           return { type::header_value, uint8_t(43) };
       }
       return { type::header_only, uint8_t(42) };
     case 17031230962583399322U: // content-length
+      if (header.name() != "content-length") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 7148434200721666028U: // 0
+          if (header.value() != "0") {
+            break;
+          }
           return { type::header_value, uint8_t(4) };
       }
       return { type::header_only, uint8_t(4) };
     case 18043880115709070015U: // content-security-policy
+      if (header.name() != "content-security-policy") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 165232284275397264U: // script-src 'none'; object-src 'none';
+          if (header.value() != "script-src 'none'; object-src 'none';") {
+            break;
+          }
                                   // base-uri 'none'
           return { type::header_value, uint8_t(85) };
       }
       return { type::header_only, uint8_t(85) };
     case 3910122139284074053U: // content-type
+      if (header.name() != "content-type") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 6373961066247414572U: // application/dns-message
+          if (header.value() != "application/dns-message") {
+            break;
+          }
           return { type::header_value, uint8_t(44) };
         case 9423039217905102597U: // application/javascript
+          if (header.value() != "application/javascript") {
+            break;
+          }
           return { type::header_value, uint8_t(45) };
         case 116355269824119741U: // application/json
+          if (header.value() != "application/json") {
+            break;
+          }
           return { type::header_value, uint8_t(46) };
         case 15711274223642436716U: // application/x-www-form-urlencoded
+          if (header.value() != "application/x-www-form-urlencoded") {
+            break;
+          }
           return { type::header_value, uint8_t(47) };
         case 12727226202374957143U: // image/gif
+          if (header.value() != "image/gif") {
+            break;
+          }
           return { type::header_value, uint8_t(48) };
         case 12200045138720289141U: // image/jpeg
+          if (header.value() != "image/jpeg") {
+            break;
+          }
           return { type::header_value, uint8_t(49) };
         case 12092489581388341001U: // image/png
+          if (header.value() != "image/png") {
+            break;
+          }
           return { type::header_value, uint8_t(50) };
         case 6791077934204364231U: // text/css
+          if (header.value() != "text/css") {
+            break;
+          }
           return { type::header_value, uint8_t(51) };
         case 8886412932112875563U: // text/html; charset=utf-8
+          if (header.value() != "text/html; charset=utf-8") {
+            break;
+          }
           return { type::header_value, uint8_t(52) };
         case 16588200704567877914U: // text/plain
+          if (header.value() != "text/plain") {
+            break;
+          }
           return { type::header_value, uint8_t(53) };
         case 9119350762400467667U: // text/plain;charset=utf-8
+          if (header.value() != "text/plain;charset=utf-8") {
+            break;
+          }
           return { type::header_value, uint8_t(54) };
       }
       return { type::header_only, uint8_t(44) };
     case 905780767293800022U: // cookie
+      if (header.name() != "cookie") {
+        break;
+      }
       return { type::header_only, uint8_t(5) };
     case 9202271988582577219U: // date
+      if (header.name() != "date") {
+        break;
+      }
       return { type::header_only, uint8_t(6) };
     case 12326157660028381149U: // early-data
+      if (header.name() != "early-data") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13237225503670494420U: // 1
+          if (header.value() != "1") {
+            break;
+          }
           return { type::header_value, uint8_t(86) };
       }
       return { type::header_only, uint8_t(86) };
     case 6439525432329186999U: // etag
+      if (header.name() != "etag") {
+        break;
+      }
       return { type::header_only, uint8_t(7) };
     case 9568944059520352163U: // expect-ct
+      if (header.name() != "expect-ct") {
+        break;
+      }
       return { type::header_only, uint8_t(87) };
     case 5644212460638603090U: // forwarded
+      if (header.name() != "forwarded") {
+        break;
+      }
       return { type::header_only, uint8_t(88) };
     case 12678664253902784264U: // if-modified-since
+      if (header.name() != "if-modified-since") {
+        break;
+      }
       return { type::header_only, uint8_t(8) };
     case 8836338662272140136U: // if-none-match
+      if (header.name() != "if-none-match") {
+        break;
+      }
       return { type::header_only, uint8_t(9) };
     case 10086758965902305572U: // if-range
+      if (header.name() != "if-range") {
+        break;
+      }
       return { type::header_only, uint8_t(89) };
     case 5803729767262815818U: // last-modified
+      if (header.name() != "last-modified") {
+        break;
+      }
       return { type::header_only, uint8_t(10) };
     case 17841021884467483934U: // link
+      if (header.name() != "link") {
+        break;
+      }
       return { type::header_only, uint8_t(11) };
     case 14592406158319853782U: // location
+      if (header.name() != "location") {
+        break;
+      }
       return { type::header_only, uint8_t(12) };
     case 7034821444952201446U: // origin
+      if (header.name() != "origin") {
+        break;
+      }
       return { type::header_only, uint8_t(90) };
     case 4274379369960325767U: // purpose
+      if (header.name() != "purpose") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 15048569516378897441U: // prefetch
+          if (header.value() != "prefetch") {
+            break;
+          }
           return { type::header_value, uint8_t(91) };
       }
       return { type::header_only, uint8_t(91) };
     case 12715602975004390753U: // range
+      if (header.name() != "range") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 6181996873389341388U: // bytes=0-
+          if (header.value() != "bytes=0-") {
+            break;
+          }
           return { type::header_value, uint8_t(55) };
       }
       return { type::header_only, uint8_t(55) };
     case 14154313121195327909U: // referer
+      if (header.name() != "referer") {
+        break;
+      }
       return { type::header_only, uint8_t(13) };
     case 16290507850670895904U: // server
+      if (header.name() != "server") {
+        break;
+      }
       return { type::header_only, uint8_t(92) };
     case 666465872145128107U: // set-cookie
+      if (header.name() != "set-cookie") {
+        break;
+      }
       return { type::header_only, uint8_t(14) };
     case 4179674550753269761U: // strict-transport-security
+      if (header.name() != "strict-transport-security") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13034728143243030830U: // max-age=31536000
+          if (header.value() != "max-age=31536000") {
+            break;
+          }
           return { type::header_value, uint8_t(56) };
         case 11632417432576482556U: // max-age=31536000; includesubdomains
+          if (header.value() != "max-age=31536000; includesubdomains") {
+            break;
+          }
           return { type::header_value, uint8_t(57) };
         case 16736049223785386895U: // max-age=31536000; includesubdomains;
+          if (header.value() != "max-age=31536000; includesubdomains;") {
+            break;
+          }
                                     // preload
           return { type::header_value, uint8_t(58) };
       }
       return { type::header_only, uint8_t(56) };
     case 5374862646944647126U: // timing-allow-origin
+      if (header.name() != "timing-allow-origin") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 765293966243412708U: // *
+          if (header.value() != "*") {
+            break;
+          }
           return { type::header_value, uint8_t(93) };
       }
       return { type::header_only, uint8_t(93) };
     case 18069291607417813553U: // upgrade-insecure-requests
+      if (header.name() != "upgrade-insecure-requests") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13237225503670494420U: // 1
+          if (header.value() != "1") {
+            break;
+          }
           return { type::header_value, uint8_t(94) };
       }
       return { type::header_only, uint8_t(94) };
     case 16625730634708209664U: // user-agent
+      if (header.name() != "user-agent") {
+        break;
+      }
       return { type::header_only, uint8_t(95) };
     case 8816542506507529547U: // vary
+      if (header.name() != "vary") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 14455144075924042224U: // accept-encoding
+          if (header.value() != "accept-encoding") {
+            break;
+          }
           return { type::header_value, uint8_t(59) };
         case 7034821444952201446U: // origin
+          if (header.value() != "origin") {
+            break;
+          }
           return { type::header_value, uint8_t(60) };
       }
       return { type::header_only, uint8_t(59) };
     case 6196956168349306122U: // x-content-type-options
+      if (header.name() != "x-content-type-options") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 4306527442339074562U: // nosniff
+          if (header.value() != "nosniff") {
+            break;
+          }
           return { type::header_value, uint8_t(61) };
       }
       return { type::header_only, uint8_t(61) };
     case 1042837635865018085U: // x-forwarded-for
+      if (header.name() != "x-forwarded-for") {
+        break;
+      }
       return { type::header_only, uint8_t(96) };
     case 8598773544412918900U: // x-frame-options
+      if (header.name() != "x-frame-options") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 6492545016868164575U: // deny
+          if (header.value() != "deny") {
+            break;
+          }
           return { type::header_value, uint8_t(97) };
         case 13303836962186157521U: // sameorigin
+          if (header.value() != "sameorigin") {
+            break;
+          }
           return { type::header_value, uint8_t(98) };
       }
       return { type::header_only, uint8_t(97) };
     case 15732293358711069708U: // x-xss-protection
+      if (header.name() != "x-xss-protection") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 7412498726110841680U: // 1; mode=block
+          if (header.value() != "1; mode=block") {
+            break;
+          }
           return { type::header_value, uint8_t(62) };
       }
       return { type::header_only, uint8_t(62) };
diff --git a/bnl/http3/tools/generate_qpack.py b/bnl/http3/tools/generate_qpack.py
index acc06d3..5e736b8 100644
--- a/bnl/http3/tools/generate_qpack.py
+++ b/bnl/http3/tools/generate_qpack.py
@@ -126,22 +126,31 @@ static std::pair<type, uint8_t> find_index(header_view header)
 """
 
 no_values_template = """\
-case {}U: // {}
-  return {{ type::header_only, uint8_t({}) }};\
+case {0}U: // {1}
+  if (header.name() != "{1}") {{
+    break;
+  }}
+  return {{ type::header_only, uint8_t({2}) }};\
 """
 
 values_template = """\
-case {}U: // {}
+case {0}U: // {1}
+  if (header.name() != "{1}") {{
+    break;
+  }}
   value_hash = XXH64(header.value().data(), header.value().size(), 0);
   switch(value_hash) {{
-    {}
+    {2}
   }}
-  return {{ type::header_only, uint8_t({}) }};\
+  return {{ type::header_only, uint8_t({3}) }};\
 """
 
 value_template = """\
-case {}U: // {}
-  return {{ type::header_value, uint8_t({}) }};\
+case {0}U: // {1}
+  if (header.value() != "{1}") {{
+    break;
+  }}
+  return {{ type::header_value, uint8_t({2}) }};\
 """
 
 static_table = [line.split() for line in static_table_raw.splitlines()]
-- 
2.43.0


From 36cc04d209179f3a8dbf95615ba046bb2babd668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:38 +0000
Subject: [PATCH 05/20] fix: do not truncate static table indices

---
 bnl/http3/src/codec/qpack/decode.cpp           | 6 ++----
 bnl/http3/src/codec/qpack/decode_generated.cpp | 4 ++--
 bnl/http3/tools/generate_qpack.py              | 4 ++--
 3 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/decode.cpp b/bnl/http3/src/codec/qpack/decode.cpp
index c01bf84..214666d 100644
--- a/bnl/http3/src/codec/qpack/decode.cpp
+++ b/bnl/http3/src/codec/qpack/decode.cpp
@@ -47,8 +47,7 @@ decoder::decode(Sequence &encoded)
         return error::qpack_decompression_failed;
       }
 
-      uint8_t index =
-        static_cast<uint8_t>(BNL_TRY(prefix_int::decode(lookahead, 6)));
+      uint64_t index = BNL_TRY(prefix_int::decode(lookahead, 6));
 
       bool found = false;
       std::tie(found, header) = table::fixed::find_header_value(index);
@@ -68,8 +67,7 @@ decoder::decode(Sequence &encoded)
         return error::qpack_decompression_failed;
       }
 
-      uint8_t index =
-        static_cast<uint8_t>(BNL_TRY(prefix_int::decode(lookahead, 4)));
+      uint64_t index = BNL_TRY(prefix_int::decode(lookahead, 4));
 
       bool found = false;
       base::string name;
diff --git a/bnl/http3/src/codec/qpack/decode_generated.cpp b/bnl/http3/src/codec/qpack/decode_generated.cpp
index 2e74ee8..1b37fee 100644
--- a/bnl/http3/src/codec/qpack/decode_generated.cpp
+++ b/bnl/http3/src/codec/qpack/decode_generated.cpp
@@ -37,7 +37,7 @@ find_type(uint8_t byte)
 }
 
 std::pair<bool, header>
-find_header_value(uint8_t index)
+find_header_value(uint64_t index)
 {
   switch (index) {
     case 15:
@@ -208,7 +208,7 @@ find_header_value(uint8_t index)
 }
 
 std::pair<bool, base::string>
-find_header_only(uint8_t index)
+find_header_only(uint64_t index)
 {
   switch (index) {
     case 0:
diff --git a/bnl/http3/tools/generate_qpack.py b/bnl/http3/tools/generate_qpack.py
index 5e736b8..09372f2 100644
--- a/bnl/http3/tools/generate_qpack.py
+++ b/bnl/http3/tools/generate_qpack.py
@@ -214,7 +214,7 @@ file.write(encode_generated)
 file.close()
 
 find_header_value_template = """\
-std::pair<bool, header> find_header_value(uint8_t index)
+std::pair<bool, header> find_header_value(uint64_t index)
 {{
   switch(index) {{
     {}
@@ -239,7 +239,7 @@ for entry in static_table:
 find_header_value = find_header_value_template.format(cases)
 
 find_header_only_template = """\
-std::pair<bool, base::string> find_header_only(uint8_t index)
+std::pair<bool, base::string> find_header_only(uint64_t index)
 {{
   switch(index) {{
     {}
-- 
2.43.0


From e75d30c7000f5e24b218b4ae05ccbb3e2aeaa7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:38 +0000
Subject: [PATCH 06/20] fix: decode empty Huffman strings

---
 bnl/http3/src/codec/qpack/huffman/decode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/qpack/huffman/decode.cpp b/bnl/http3/src/codec/qpack/huffman/decode.cpp
index b7b5d32..cc04059 100644
--- a/bnl/http3/src/codec/qpack/huffman/decode.cpp
+++ b/bnl/http3/src/codec/qpack/huffman/decode.cpp
@@ -43,7 +43,7 @@ decoded_size(const Lookahead &encoded, size_t encoded_size) noexcept
 
   size_t decoded_size = 0;
   uint8_t state = 0;
-  bool accept = false;
+  bool accept = true;
 
   for (size_t i = 0; i < encoded_size; i++) {
     const decoding::node &first = decoding::table[state][encoded[i] >> 4U];
-- 
2.43.0


From 23f29617728d6bdff86da2f80784373a7ffa39a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:38 +0000
Subject: [PATCH 07/20] fix: do not wrap the payload size of PUSH_PROMISE
 frames

---
 bnl/http3/src/codec/frame/encode.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bnl/http3/src/codec/frame/encode.cpp b/bnl/http3/src/codec/frame/encode.cpp
index 3ed034c..747e0ee 100644
--- a/bnl/http3/src/codec/frame/encode.cpp
+++ b/bnl/http3/src/codec/frame/encode.cpp
@@ -53,6 +53,8 @@ payload_size(const frame &frame) noexcept
     case frame::type::push_promise: {
       uint64_t push_id = frame.push_promise.push_id;
       payload_size += BNL_TRY(varint::encoded_size(push_id));
+      // Also keeps the sum from wrapping around.
+      BNL_TRY(varint::encoded_size(frame.push_promise.size));
       payload_size += frame.push_promise.size;
       break;
     }
-- 
2.43.0


From 0c532a23f194cfb26916d0b9a72e50d1b565b5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 08/20] fix: skip the payload of unknown frames in frame::peek

---
 bnl/http3/src/codec/frame/decode.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/frame/decode.cpp b/bnl/http3/src/codec/frame/decode.cpp
index 7283b88..95ca7c1 100644
--- a/bnl/http3/src/codec/frame/decode.cpp
+++ b/bnl/http3/src/codec/frame/decode.cpp
@@ -26,8 +26,16 @@ frame::peek(const Sequence &encoded) noexcept
       case frame::type::duplicate_push:
         return static_cast<frame::type>(type);
       default:
-        continue;
+        break;
     }
+
+    // Unknown frame => skip its payload.
+    uint64_t size = BNL_TRY(varint::decode(lookahead));
+    if (size > lookahead.size()) {
+      return error::incomplete;
+    }
+
+    lookahead.consume(static_cast<size_t>(size));
   }
 
   assert(false);
-- 
2.43.0


From 1298d36ec4463a797c4c262ed975cf89667d83ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 09/20] fix: allow empty slices of empty buffers

---
 bnl/base/src/base/buffers.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bnl/base/src/base/buffers.cpp b/bnl/base/src/base/buffers.cpp
index fc1d2f4..b7527f5 100644
--- a/bnl/base/src/base/buffers.cpp
+++ b/bnl/base/src/base/buffers.cpp
@@ -59,6 +59,10 @@ buffers::slice(size_t size)
 {
   assert(size <= this->size());
 
+  if (size == 0) {
+    return base::buffer();
+  }
+
   auto begin = find_first_not_empty(buffers_);
   assert(begin != buffers_.end());
 
-- 
2.43.0


From 4ff8bda2d9b9dec1c48b7b32b7e3b6fd1f0d5c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 10/20] fix: decode empty DATA frames at the end of the
 received data

---
 bnl/http3/src/codec/body.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/body.cpp b/bnl/http3/src/codec/body.cpp
index 347b1df..6214509 100644
--- a/bnl/http3/src/codec/body.cpp
+++ b/bnl/http3/src/codec/body.cpp
@@ -98,7 +98,7 @@ decoder::decode(Sequence &encoded)
     }
     /* FALLTHRU */
     case state::data: {
-      if (encoded.empty()) {
+      if (encoded.empty() && remaining_ != 0) {
         return error::incomplete;
       }
 
-- 
2.43.0


From 59480a21a65a9d4f883d46af059d92c060bd1210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 11/20] fix: refuse to start a message without headers

---
 bnl/http3/src/codec/headers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/headers.cpp b/bnl/http3/src/codec/headers.cpp
index 4176342..cdabca4 100644
--- a/bnl/http3/src/codec/headers.cpp
+++ b/bnl/http3/src/codec/headers.cpp
@@ -20,7 +20,7 @@ encoder::add(header_view header)
 result<void>
 encoder::fin() noexcept
 {
-  if (state_ != state::idle) {
+  if (state_ != state::idle || buffers_.empty()) {
     return error::internal;
   }
 
-- 
2.43.0


From 7e5fcd8363a6cf37ed89dfd584d42871868a6607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 12/20] fix: report unexpected control stream types instead of
 aborting

---
 bnl/http3/src/endpoint/stream/control.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bnl/http3/src/endpoint/stream/control.cpp b/bnl/http3/src/endpoint/stream/control.cpp
index c204910..2702a5c 100644
--- a/bnl/http3/src/endpoint/stream/control.cpp
+++ b/bnl/http3/src/endpoint/stream/control.cpp
@@ -69,8 +69,10 @@ receiver::process() noexcept
     // the control stream until we've decoded the type.
     case state::type: {
       uint64_t type = BNL_TRY(varint::decode(buffers_));
-      (void) type; // Silence GCC 9 Wunused-variable warning
-      assert(type == control::type);
+      if (type != control::type) {
+        return error::wrong_stream;
+      }
+
       state_ = state::settings;
     }
     /* FALLTHRU */
-- 
2.43.0


From 54836b76daf2a5e0ad9e87a9361352925cd84e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 13/20] fix: send the fin of bodies finished after their last
 chunk

---
 bnl/http3/src/endpoint/stream/request.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 48e1b74..35ec49d 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -77,6 +77,12 @@ sender::send() noexcept
     }
 
     case state::body: {
+      // The body was finished after all of its data had been sent.
+      if (body_.finished()) {
+        state_ = state::fin;
+        return quic::data{ id_, true, base::buffer() };
+      }
+
       base::buffer encoded = BNL_TRY(body_.encode());
 
       if (body_.finished()) {
-- 
2.43.0


From 59293f2d2405811c7b3e0f8ddc81d44f47f139c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:12 +0000
Subject: [PATCH 14/20] fix: accept a fin that follows the last frame of a
 message

---
 bnl/http3/src/endpoint/stream/request.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 35ec49d..90a157e 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -310,12 +310,27 @@ receiver::process() noexcept
       return event::payload::finished{ id_ };
   };
 
+  if (error == error::incomplete && fin_received_ &&
+      state_ == receiver::state::body && !body_.in_progress()) {
+    // Skip the unknown frames that follow the body.
+    result<frame> r = frame::decode(buffers_);
+    if (!r && buffers_.empty()) {
+      state_ = state::fin;
+      return event::payload::body{ id_, true, base::buffer() };
+    }
+  }
+
   if (error == error::incomplete && fin_received_) {
     return error::malformed_frame;
   }
 
   if (error == error::delegate) {
-    frame frame = BNL_TRY(frame::decode(buffers_));
+    result<http3::frame> r = frame::decode(buffers_);
+    if (!r && r.error() == error::incomplete && fin_received_) {
+      return error::malformed_frame;
+    }
+
+    frame frame = BNL_TRY(std::move(r));
 
     switch (frame) {
       case frame::type::headers:
-- 
2.43.0


From 7dfbc08269218955f698fe2a003b690caf541d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:12 +0000
Subject: [PATCH 15/20] fix: do not terminate when a completed stream is
 processed

---
 bnl/http3/src/server/connection.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/server/connection.cpp b/bnl/http3/src/server/connection.cpp
index d25cf9d..a9a37a2 100644
--- a/bnl/http3/src/server/connection.cpp
+++ b/bnl/http3/src/server/connection.cpp
@@ -105,7 +105,12 @@ connection::process(uint64_t id)
     return event;
   }
 
-  server::stream::request::receiver &request = requests_.at(id).second;
+  auto match = requests_.find(id);
+  if (match == requests_.end()) {
+    return error::stream_closed;
+  }
+
+  server::stream::request::receiver &request = match->second.second;
 
   return request.process();
 }
-- 
2.43.0


From 6bb4d9096fdb30e562b5ddb274589cbf9772c351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:12 +0000
Subject: [PATCH 16/20] fix: do not treat unidirectional streams as requests

---
 bnl/http3/src/server/connection.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bnl/http3/src/server/connection.cpp b/bnl/http3/src/server/connection.cpp
index a9a37a2..8ad64fe 100644
--- a/bnl/http3/src/server/connection.cpp
+++ b/bnl/http3/src/server/connection.cpp
@@ -70,6 +70,11 @@ connection::recv(quic::data data)
     return control.recv(std::move(data));
   };
 
+  // TODO: Actually handle unidirectional streams.
+  if ((data.id & 0x2U) != 0) {
+    return base::success();
+  }
+
   auto match = requests_.find(data.id);
   if (match == requests_.end()) {
     server::stream::request::sender sender(data.id);
@@ -105,6 +110,11 @@ connection::process(uint64_t id)
     return event;
   }
 
+  // TODO: Actually handle unidirectional streams.
+  if ((id & 0x2U) != 0) {
+    return error::incomplete;
+  }
+
   auto match = requests_.find(id);
   if (match == requests_.end()) {
     return error::stream_closed;
-- 
2.43.0


From 3d3b57ea2b16ac576901187fa76b41c6b27ab248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:12 +0000
Subject: [PATCH 17/20] fix: unlink senders and handles that are replaced

---
 bnl/http3/src/endpoint/stream/request.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 90a157e..e4cfe8d 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -30,6 +30,10 @@ sender &
 sender::operator=(sender &&other) noexcept
 {
   if (&other != this) {
+    if (handle_ != nullptr) {
+      handle_->sender_ = nullptr;
+    }
+
     handle_ = other.handle_;
     state_ = other.state_;
     headers_ = std::move(other.headers_);
@@ -128,6 +132,11 @@ sender::handle::handle(sender *sender)
   : id_(sender->id_)
   , sender_(sender)
 {
+  // A sender has one handle: an older one loses its sender.
+  if (sender_->handle_ != nullptr) {
+    sender_->handle_->sender_ = nullptr;
+  }
+
   sender_->handle_ = this;
 }
 
@@ -141,6 +150,10 @@ sender::handle &
 sender::handle::operator=(sender::handle &&other) noexcept
 {
   if (&other != this) {
+    if (sender_ != nullptr) {
+      sender_->handle_ = nullptr;
+    }
+
     id_ = other.id_;
     sender_ = other.sender_;
     other.id_ = UINT64_MAX;
-- 
2.43.0


From 4088543a556cf3e1aff28822cb732466980b407d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:25 +0000
Subject: [PATCH 18/20] fix: encode the length of HKDF labels in base 256

---
 bnl/quic/src/crypto.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bnl/quic/src/crypto.cpp b/bnl/quic/src/crypto.cpp
index 6cf924a..2f48135 100644
--- a/bnl/quic/src/crypto.cpp
+++ b/bnl/quic/src/crypto.cpp
@@ -155,8 +155,8 @@ crypto::hkdf_expand_label(base::buffer_view secret,
   // HkdfLabel
 
   // length (uint16_t)
-  *it++ = static_cast<uint8_t>(size / UINT8_MAX); // MSB
-  *it++ = static_cast<uint8_t>(size % UINT8_MAX); // LSB
+  *it++ = static_cast<uint8_t>(size >> 8U); // MSB
+  *it++ = static_cast<uint8_t>(size & 0xffU); // LSB
 
   // "tls 13 " + Label
   static const base::buffer_view LABEL = "tls13 ";
-- 
2.43.0


From fdc647817288cf2dcb1b386c3bcc092fab0a11bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:13 +0000
Subject: [PATCH 19/20] fix: decode references to static table entries without
 a value

---
 .../src/codec/qpack/decode_generated.cpp      | 42 +++++++++++++++++++
 bnl/http3/tools/generate_qpack.py             |  6 +--
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/decode_generated.cpp b/bnl/http3/src/codec/qpack/decode_generated.cpp
index 1b37fee..e8af30d 100644
--- a/bnl/http3/src/codec/qpack/decode_generated.cpp
+++ b/bnl/http3/src/codec/qpack/decode_generated.cpp
@@ -40,6 +40,8 @@ std::pair<bool, header>
 find_header_value(uint64_t index)
 {
   switch (index) {
+    case 0:
+      return { true, { ":authority", "" } };
     case 15:
       return { true, { ":method", "CONNECT" } };
     case 16:
@@ -94,6 +96,8 @@ find_header_value(uint64_t index)
       return { true, { "accept", "application/dns-message" } };
     case 31:
       return { true, { "accept-encoding", "gzip, deflate, br" } };
+    case 72:
+      return { true, { "accept-language", "" } };
     case 32:
       return { true, { "accept-ranges", "bytes" } };
     case 73:
@@ -126,6 +130,8 @@ find_header_value(uint64_t index)
       return { true, { "age", "0" } };
     case 83:
       return { true, { "alt-svc", "clear" } };
+    case 84:
+      return { true, { "authorization", "" } };
     case 36:
       return { true, { "cache-control", "max-age=0" } };
     case 37:
@@ -138,6 +144,8 @@ find_header_value(uint64_t index)
       return { true, { "cache-control", "no-store" } };
     case 41:
       return { true, { "cache-control", "public, max-age=31536000" } };
+    case 3:
+      return { true, { "content-disposition", "" } };
     case 42:
       return { true, { "content-encoding", "br" } };
     case 43:
@@ -170,12 +178,42 @@ find_header_value(uint64_t index)
       return { true, { "content-type", "text/plain" } };
     case 54:
       return { true, { "content-type", "text/plain;charset=utf-8" } };
+    case 5:
+      return { true, { "cookie", "" } };
+    case 6:
+      return { true, { "date", "" } };
     case 86:
       return { true, { "early-data", "1" } };
+    case 7:
+      return { true, { "etag", "" } };
+    case 87:
+      return { true, { "expect-ct", "" } };
+    case 88:
+      return { true, { "forwarded", "" } };
+    case 8:
+      return { true, { "if-modified-since", "" } };
+    case 9:
+      return { true, { "if-none-match", "" } };
+    case 89:
+      return { true, { "if-range", "" } };
+    case 10:
+      return { true, { "last-modified", "" } };
+    case 11:
+      return { true, { "link", "" } };
+    case 12:
+      return { true, { "location", "" } };
+    case 90:
+      return { true, { "origin", "" } };
     case 91:
       return { true, { "purpose", "prefetch" } };
     case 55:
       return { true, { "range", "bytes=0-" } };
+    case 13:
+      return { true, { "referer", "" } };
+    case 92:
+      return { true, { "server", "" } };
+    case 14:
+      return { true, { "set-cookie", "" } };
     case 56:
       return { true, { "strict-transport-security", "max-age=31536000" } };
     case 57:
@@ -190,12 +228,16 @@ find_header_value(uint64_t index)
       return { true, { "timing-allow-origin", "*" } };
     case 94:
       return { true, { "upgrade-insecure-requests", "1" } };
+    case 95:
+      return { true, { "user-agent", "" } };
     case 59:
       return { true, { "vary", "accept-encoding" } };
     case 60:
       return { true, { "vary", "origin" } };
     case 61:
       return { true, { "x-content-type-options", "nosniff" } };
+    case 96:
+      return { true, { "x-forwarded-for", "" } };
     case 97:
       return { true, { "x-frame-options", "deny" } };
     case 98:
diff --git a/bnl/http3/tools/generate_qpack.py b/bnl/http3/tools/generate_qpack.py
index 09372f2..9be470b 100644
--- a/bnl/http3/tools/generate_qpack.py
+++ b/bnl/http3/tools/generate_qpack.py
@@ -232,9 +232,9 @@ case {0}:
 cases = ""
 
 for entry in static_table:
-    if len(entry) > 2:
-        values = str.join(" ", entry[2:])
-        cases += header_value_case_template.format(entry[0], entry[1], values)
+    # Entries without a value have an empty value.
+    values = str.join(" ", entry[2:])
+    cases += header_value_case_template.format(entry[0], entry[1], values)
 
 find_header_value = find_header_value_template.format(cases)
 
-- 
2.43.0


From bd727323693e105e13b34f084749e09e40d263fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:07 +0000
Subject: [PATCH 20/20] fix: compare with the whole value of long static table
 entries

---
 bnl/http3/src/codec/qpack/encode_generated.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/encode_generated.cpp b/bnl/http3/src/codec/qpack/encode_generated.cpp
index ca6f092..59b8fe7 100644
--- a/bnl/http3/src/codec/qpack/encode_generated.cpp
+++ b/bnl/http3/src/codec/qpack/encode_generated.cpp
@@ -459,10 +459,11 @@ find_index(header_view header)
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 165232284275397264U: // script-src 'none'; object-src 'none';
-          if (header.value() != "script-src 'none'; object-src 'none';") {
+                                  // base-uri 'none'
+          if (header.value() !=
+              "script-src 'none'; object-src 'none'; base-uri 'none'") {
             break;
           }
-                                  // base-uri 'none'
           return { type::header_value, uint8_t(85) };
       }
       return { type::header_only, uint8_t(85) };
@@ -660,10 +661,11 @@ find_index(header_view header)
           }
           return { type::header_value, uint8_t(57) };
         case 16736049223785386895U: // max-age=31536000; includesubdomains;
-          if (header.value() != "max-age=31536000; includesubdomains;") {
+                                    // preload
+          if (header.value() !=
+              "max-age=31536000; includesubdomains; preload") {
             break;
           }
-                                    // preload
           return { type::header_value, uint8_t(58) };
       }
       return { type::header_only, uint8_t(56) };
-- 
2.43.0

