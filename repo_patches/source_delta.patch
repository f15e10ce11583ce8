From 79e2cfcec9bb95475d24f0aeadeeb339a12199c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:36 +0000
Subject: [PATCH 01/52] fix: fromHex writes past the end of the output buffer

The output size was only used to zero the buffer; hex text longer than
the buffer overflowed it. Stop when the buffer is full.
---
 src/Conversion.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 7a37261..c549c92 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -111,6 +111,9 @@ size_t fromHex(const char * hex, size_t hexLen, uint8_t * array, size_t arraySiz
         if((v1 > 0x0F) || (v2 > 0x0F)){ // if invalid char stop parsing
             return i;
         }
+        if(i >= arraySize){ // output is full
+            return i;
+        }
         array[i] = (v1<<4) | v2;
     }
     return hexLen/2;
-- 
2.43.0


From 224096b4026f6594297ee072d9a0ebb991d71001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:36 +0000
Subject: [PATCH 02/52] fix: fromBin misplaces bits of strings longer than 2048
 characters

The byte index was truncated to 8 bits.
---
 src/Conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index c549c92..a6c1d60 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -148,7 +148,7 @@ size_t fromBin(const char * bin, size_t binLen, uint8_t * array, size_t arraySiz
     for(size_t i = 0; i < binLen; i++){
         // we go in reverse order (from the end of the string)
         uint8_t exp = (i%8); // shift
-        uint8_t n = (i/8); // current byte from the end
+        size_t n = (i/8); // current byte from the end
         char c = bin[binLen-i-1];
         if(c == '1'){
             // set bit
-- 
2.43.0


From d783d530d9f2c3d6f0a1dacbfdf648602fb8f381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:36 +0000
Subject: [PATCH 03/52] fix: base58/base43 decoding loses leading zero bytes

The scratch buffer was sized as if a leading zero digit were worth less
than a byte, so texts dominated by leading zero digits (an all-zero
hash160 address, for example) decoded to too few bytes. The terminating
NUL was taken for an alphabet character, and the zero counters wrapped
at 256.
---
 src/Conversion.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index a6c1d60..d51902d 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -361,11 +361,15 @@ String toBase58Check(const uint8_t * array, size_t arraySize){
 #endif
 
 
-// TODO: add zero count, fix wrong length
 size_t fromBase58Length(const char * array, size_t arraySize){
     if(array == NULL){ return 0; }
-    size_t size = arraySize * 361 / 493 + 1;
-    return size;
+    // every leading zero digit stands for a whole zero byte
+    size_t zeroCount = 0;
+    while(zeroCount < arraySize && array[zeroCount] == BASE58_CHARS[0]){
+        zeroCount++;
+    }
+    size_t size = (arraySize - zeroCount) * 361 / 493 + 1;
+    return size+zeroCount;
 }
 
 size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, size_t outputSize){
@@ -376,7 +380,7 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
     // looking for the end of char array
     for(l=0; l<encodedSize; l++){
         const char * pch = strchr(BASE58_CHARS, encoded[l]);
-        if(pch==NULL){ // char not in the alphabet
+        if(pch==NULL || encoded[l]==0){ // char not in the alphabet
             break;
         }
     }
@@ -385,7 +389,7 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
     uint8_t * tmp = (uint8_t *) calloc(size, sizeof(uint8_t));
     if(tmp == NULL){ return 0; }
 
-    uint8_t zeroCount = 0;
+    size_t zeroCount = 0;
     for(size_t i = 0; i<encodedSize; i++){
         if(encoded[i] == BASE58_CHARS[0]){
             zeroCount++;
@@ -411,7 +415,7 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
     }
     // shifting array
-    uint8_t shift = 0;
+    size_t shift = 0;
     for(size_t i = zeroCount; i < size; i++){
         if(tmp[i] == 0){
             shift++;
@@ -558,11 +562,15 @@ String toBase43(const uint8_t * array, size_t arraySize){
     return s;
 }
 #endif
-// TODO: add zero count, fix wrong length
 size_t fromBase43Length(const char * array, size_t arraySize){
     if(array == NULL){ return 0; }
-    size_t size = arraySize * 68 / 100 + 1;
-    return size;
+    // every leading zero digit stands for a whole zero byte
+    size_t zeroCount = 0;
+    while(zeroCount < arraySize && array[zeroCount] == BASE43_CHARS[0]){
+        zeroCount++;
+    }
+    size_t size = (arraySize - zeroCount) * 68 / 100 + 1;
+    return size+zeroCount;
 }
 
 size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, size_t outputSize){
@@ -573,7 +581,7 @@ size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, si
     // looking for the end of char array
     for(l=0; l<encodedSize; l++){
         const char * pch = strchr(BASE43_CHARS, encoded[l]);
-        if(pch==NULL){ // char not in the alphabet
+        if(pch==NULL || encoded[l]==0){ // char not in the alphabet
             break;
         }
     }
@@ -582,7 +590,7 @@ size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, si
     uint8_t * tmp = (uint8_t *) calloc(size, sizeof(uint8_t));
     if(tmp == NULL){ return 0; }
 
-    uint8_t zeroCount = 0;
+    size_t zeroCount = 0;
     for(size_t i = 0; i<encodedSize; i++){
         if(encoded[i] == BASE43_CHARS[0]){
             zeroCount++;
@@ -608,7 +616,7 @@ size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
     }
     // shifting array
-    uint8_t shift = 0;
+    size_t shift = 0;
     for(size_t i = zeroCount; i < size; i++){
         if(tmp[i] == 0){
             shift++;
-- 
2.43.0


From 811f02094e51a787462692b2e58e512987445756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:36 +0000
Subject: [PATCH 04/52] fix: toBase58Check reads past the end of an all-zero
 array

toBase58Length was asked to scan four bytes more than the array has.
---
 src/Conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index d51902d..ae1ee90 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -350,7 +350,7 @@ size_t toBase58Check(const uint8_t * array, size_t arraySize, char * output, siz
 #if USE_ARDUINO_STRING || USE_STD_STRING
 String toBase58Check(const uint8_t * array, size_t arraySize){
     if(array == NULL){ return String(); }
-    size_t len = toBase58Length(array, arraySize + 4) + 1; // +4 checksum +1 for null terminator
+    size_t len = toBase58Length(array, arraySize) + 6 + 1; // +6 for 4-byte checksum +1 for null terminator
     char * buf = (char *)malloc(len);
     if(buf == NULL){ return String(); }
     toBase58Check(array, arraySize, buf, len);
-- 
2.43.0


From e0b390597870cf57b754836de895f0f4899f8fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:36 +0000
Subject: [PATCH 05/52] fix: base64 reads outside its input

Encoding an empty array read three bytes and produced text; the length
of an empty text was computed from the bytes before it; decoding without
padding read up to three characters past the end; a NUL character
decoded as 'A'.
---
 src/Conversion.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index ae1ee90..95cf014 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -664,6 +664,9 @@ size_t toBase64(const uint8_t * array, size_t arraySize, char * output, size_t o
     if(outputSize < toBase64Length(array, arraySize, flags)){
         return 0;
     }
+    if(arraySize == 0){
+        return 0;
+    }
     while(3 * cur + 3 < arraySize){
         uint32_t val = bigEndianToInt(array+3*cur, 3);
         for(uint8_t i=0; i<4; i++){
@@ -718,7 +721,7 @@ String toBase64(const uint8_t * array, size_t arraySize, uint8_t flags){
 }
 #endif
 size_t fromBase64Length(const char * array, size_t arraySize, uint8_t flags){
-    if(array == NULL){ return 0; }
+    if(array == NULL || arraySize == 0){ return 0; }
     if(arraySize % 4 != 0 && (flags & BASE64_NOPADDING) == 0){ return 0; }
     size_t v = (arraySize / 4) * 3;
     if(flags & BASE64_NOPADDING){
@@ -749,7 +752,7 @@ size_t fromBase64(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
         uint32_t val = 0;
         for(size_t i=0; i<4; i++){
-            char c = encoded[cur*4+i];
+            char c = (cur*4+i < encodedSize) ? encoded[cur*4+i] : 0;
             // replace characters for urlsafe version
             if(c=='-' && (flags & BASE64_URLSAFE)){
                 c = '+';
@@ -757,9 +760,9 @@ size_t fromBase64(const char * encoded, size_t encodedSize, uint8_t * output, si
             if(c=='_' && (flags & BASE64_URLSAFE)){
                 c = '/';
             }
-            const char * pch = strchr(BASE64_CHARS, c);
-            if(pch==NULL || ((flags & BASE64_NOPADDING) && (c == 0))){
-                if((encoded[cur*4+i] == '=') || (c == 0 && (flags & BASE64_NOPADDING))){
+            const char * pch = (c == 0) ? NULL : strchr(BASE64_CHARS, c);
+            if(pch==NULL){
+                if((c == '=') || (c == 0 && (flags & BASE64_NOPADDING))){
                     if(i==3){
                         val = (val >> 2);
                         if(outputSize < 3*cur+2){
-- 
2.43.0


From e4997eeaae190582ad29fa983bf9dc6b4e72ea90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:36 +0000
Subject: [PATCH 06/52] fix: readVarInt reads an empty array

---
 src/Conversion.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 95cf014..723b621 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -874,6 +874,9 @@ uint8_t lenVarInt(uint64_t num){
     return 9;
 }
 uint64_t readVarInt(const uint8_t * array, size_t arraySize){
+    if(arraySize == 0){
+        return 0;
+    }
     if(array[0] < 0xfd){
         return array[0];
     }else{
-- 
2.43.0


From 441a4e752d80765d7f486eefca7575019fa5506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:49 +0000
Subject: [PATCH 07/52] fix: bech32_decode writes out of bounds when the
 separator is missing

---
 src/utility/segwit_addr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/segwit_addr.c b/src/utility/segwit_addr.c
index 337968f..96b3d04 100755
--- a/src/utility/segwit_addr.c
+++ b/src/utility/segwit_addr.c
@@ -96,10 +96,10 @@ int bech32_decode(char* hrp, uint8_t *data, size_t *data_len, const char *input)
     while (*data_len < input_len && input[(input_len - 1) - *data_len] != '1') {
         ++(*data_len);
     }
-    hrp_len = input_len - (1 + *data_len);
-    if (hrp_len < 1 || *data_len < 6) {
+    if (1 + *data_len >= input_len || *data_len < 6) {
         return 0;
     }
+    hrp_len = input_len - (1 + *data_len);
     *(data_len) -= 6;
     for (i = 0; i < hrp_len; ++i) {
         int ch = input[i];
-- 
2.43.0


From e41201795b7228f7200f3ead7c0fb5532980ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:49 +0000
Subject: [PATCH 08/52] fix: segwit_addr_decode overflows its buffers on
 addresses longer than 90 characters

---
 src/utility/segwit_addr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utility/segwit_addr.c b/src/utility/segwit_addr.c
index 96b3d04..2061c89 100755
--- a/src/utility/segwit_addr.c
+++ b/src/utility/segwit_addr.c
@@ -178,6 +178,7 @@ int segwit_addr_decode(int* witver, uint8_t* witdata, size_t* witdata_len, const
     uint8_t data[84];
     char hrp_actual[84];
     size_t data_len;
+    if (strlen(addr) > 90) return 0; // longer strings do not fit in the buffers above
     if (!bech32_decode(hrp_actual, data, &data_len, addr)) return 0;
     if (data_len == 0 || data_len > 65) return 0;
     if (strncmp(hrp, hrp_actual, 84) != 0) return 0;
-- 
2.43.0


From df7eefa06476f3d73efcb4779c81d0da45237bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:49 +0000
Subject: [PATCH 09/52] fix: addresses of regtest and of longer or newer
 witness programs are misread

The program buffer was shorter than the longest program (40 bytes), a bcrt
address was decoded with the bc prefix, and the witness version was stored
as a raw number instead of its opcode.
---
 src/Script.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 4fb5eb5..b7724d9 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -147,7 +147,8 @@ void Script::fromAddress(const char * address){
     ScriptType type = UNKNOWN_TYPE;
     const Network * network;
     for(int i=0; i<networks_len; i++){
-        if(memcmp(address, networks[i]->bech32, strlen(networks[i]->bech32))==0){
+        size_t hrp_len = strlen(networks[i]->bech32);
+        if(strncmp(address, networks[i]->bech32, hrp_len)==0 && address[hrp_len]=='1'){
             type = P2WPKH;
             network = networks[i];
             break;
@@ -156,7 +157,7 @@ void Script::fromAddress(const char * address){
     // segwit
     if(type == P2WPKH){
         int ver = 0;
-        uint8_t prog[32];
+        uint8_t prog[40];
         size_t prog_len = 0;
         int r = segwit_addr_decode(&ver, prog, &prog_len, network->bech32, address);
         if(r != 1){ // decoding failed
@@ -165,7 +166,7 @@ void Script::fromAddress(const char * address){
         scriptLen = prog_len + 2;
         scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
         if(scriptArray == NULL){ scriptLen = 0; return; }
-        scriptArray[0] = ver;
+        scriptArray[0] = (ver > 0) ? OP_1+ver-1 : 0;
         scriptArray[1] = prog_len; // varint?
         memcpy(scriptArray+2, prog, prog_len);
     }else{ // legacy or nested segwit
-- 
2.43.0


From 8fd366fa2dbf3cbe8e0ef481d6799dceece81121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:08 +0000
Subject: [PATCH 10/52] fix: Script::push(Script) writes a compact size instead
 of a push opcode and leaks

---
 src/Script.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index b7724d9..b314dc1 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -469,12 +469,28 @@ size_t Script::push(const Signature sig, SigHashType sigType){
     return scriptLen;
 }
 size_t Script::push(const Script sc){
-    size_t len = sc.length();
+    // push opcode: direct push, OP_PUSHDATA1 or OP_PUSHDATA2
+    uint8_t prefix[3];
+    size_t prefixLen = 0;
+    if(sc.scriptLen > 0xff){
+        prefix[prefixLen++] = OP_PUSHDATA2;
+    }else if(sc.scriptLen > 75){
+        prefix[prefixLen++] = OP_PUSHDATA1;
+    }
+    prefix[prefixLen++] = sc.scriptLen & 0xff;
+    if(sc.scriptLen > 0xff){
+        prefix[prefixLen++] = sc.scriptLen >> 8;
+    }
+    size_t len = prefixLen + sc.scriptLen;
     uint8_t * tmp;
     tmp = (uint8_t *)calloc(len, sizeof(uint8_t));
     if(tmp == NULL){ return 0; }
-    sc.serialize(tmp, len);
+    memcpy(tmp, prefix, prefixLen);
+    if(sc.scriptLen > 0){
+        memcpy(tmp + prefixLen, sc.scriptArray, sc.scriptLen);
+    }
     push(tmp, len);
+    free(tmp);
     return scriptLen;
 }
 Script Script::scriptPubkey(ScriptType type) const{
-- 
2.43.0


From 24e69b2d034683f5699f315362e410d1eca12581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:08 +0000
Subject: [PATCH 11/52] fix: pushing a key or signature to a full script leaves
 half of it

---
 src/Script.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index b314dc1..73d3ace 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -454,18 +454,18 @@ size_t Script::push(const uint8_t * data, size_t len){
     return scriptLen;
 }
 size_t Script::push(const PublicKey pubkey){
-    uint8_t sec[65];
-    uint8_t len = pubkey.sec(sec, sizeof(sec));
-    push(len);
-    push(sec, len);
+    uint8_t sec[66];
+    uint8_t len = pubkey.sec(sec+1, sizeof(sec)-1);
+    sec[0] = len;
+    push(sec, len+1); // all or nothing if the script becomes too large
     return scriptLen;
 }
 size_t Script::push(const Signature sig, SigHashType sigType){
     uint8_t der[75];
-    uint8_t len = sig.der(der, sizeof(der));
-    push(len+1);
-    push(der, len);
-    push(sigType);
+    uint8_t len = sig.der(der+1, sizeof(der)-2);
+    der[0] = len+1;
+    der[len+1] = sigType;
+    push(der, len+2); // all or nothing if the script becomes too large
     return scriptLen;
 }
 size_t Script::push(const Script sc){
-- 
2.43.0


From d55c9d03d2bd3afc7a76e7a935143791ff275a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:08 +0000
Subject: [PATCH 12/52] fix: sortedmulti does not sort the keys and
 ECPoint::operator< is inverted

---
 src/BitcoinCurve.cpp |  6 +++---
 src/Script.cpp       | 12 +++++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 941b47f..5450a9e 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -262,11 +262,11 @@ bool ECScalar::operator<(const ECScalar& other) const{
 	return bn_is_less(&a, &b);
 }
 bool ECPoint::operator<(const ECPoint& other) const{
-	uint8_t sec1[65];
-	uint8_t sec2[65];
+	uint8_t sec1[65] = { 0 };
+	uint8_t sec2[65] = { 0 };
 	sec(sec1, sizeof(sec1));
 	other.sec(sec2, sizeof(sec2));
-	return memcmp(sec1, sec2, sizeof(sec1)) > 0;
+	return memcmp(sec1, sec2, sizeof(sec1)) < 0;
 }
 ECPoint operator*(const ECScalar& scalar, const ECPoint& point){
 	ECPoint r;
diff --git a/src/Script.cpp b/src/Script.cpp
index 73d3ace..44c6c7b 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -103,9 +103,15 @@ static void quickSort(PublicKey array[], int low, int high) {
 }
 
 Script sortedmulti(uint8_t threshold, const PublicKey * pubkeys, uint8_t pubkeys_len){
-    // sort first
-    PublicKey * sortedkeys = (PublicKey *) pubkeys;
-    // TODO: the most
+    if(threshold > pubkeys_len || pubkeys_len == 0 || pubkeys_len > 16 || threshold == 0){
+        return Script(); // empty script
+    }
+    // sort a copy first
+    PublicKey sortedkeys[16];
+    for(int i=0; i<pubkeys_len; i++){
+        sortedkeys[i] = pubkeys[i];
+    }
+    quickSort(sortedkeys, 0, pubkeys_len-1);
     return multi(threshold, sortedkeys, pubkeys_len);
 }
 
-- 
2.43.0


From 76ec0c0b201a196eea17be917fff1b5c7ef28073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:08 +0000
Subject: [PATCH 13/52] fix: empty scripts leak their buffer

---
 src/Script.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 44c6c7b..65e3396 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -261,12 +261,12 @@ Script::Script(const Script &other, ScriptType type){
     }
 }
 void Script::clear(){
-    if(scriptLen > 0 && scriptArray != NULL){
+    if(scriptArray != NULL){
         free(scriptArray);
         scriptArray = NULL;
-        scriptLen = 0;
-        lenLen = 0;
     }
+    scriptLen = 0;
+    lenLen = 0;
 }
 size_t Script::from_stream(ParseStream *s){
     if(status == PARSING_FAILED){
@@ -430,6 +430,7 @@ size_t Script::push(uint8_t code){
         return 0;
     }
     if(scriptLen == 0){
+        clear();
         scriptLen = 1;
         scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
         if(scriptArray == NULL){ scriptLen = 0; return 0; } // check if allocation failed
@@ -447,7 +448,11 @@ size_t Script::push(const uint8_t * data, size_t len){
         clear();
         return 0;
     }
+    if(len == 0){
+        return scriptLen;
+    }
     if(scriptLen == 0){
+        clear();
         scriptArray = (uint8_t *) calloc( len, sizeof(uint8_t));
     }else{
         uint8_t * ptr = (uint8_t *) realloc( scriptArray, (scriptLen + len) * sizeof(uint8_t));
-- 
2.43.0


From 078bececb101d1d43fa5e2e87941273b646bd4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:08 +0000
Subject: [PATCH 14/52] fix: Script parsing mishandles empty chunks and long or
 oversized lengths

---
 src/Script.cpp | 54 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 65e3396..88f28e0 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -10,6 +10,8 @@ using std::string;
 #endif
 
 #define MAX_SCRIPT_SIZE 10000
+// longest script or witness element accepted from a stream (same as MAX_SIZE in Bitcoin Core)
+#define MAX_PARSE_SIZE 0x02000000
 
 //------------------------------------------------------------ Script-generating functions
 
@@ -280,37 +282,47 @@ size_t Script::from_stream(ParseStream *s){
     size_t bytes_read = 0;
     // reading scriptLen varint
     if(s->available() && bytes_parsed == 0){ 
-        lenLen = s->read();
+        uint8_t c = s->read();
         bytes_read++;
-        if(lenLen < 0xfd){
-            scriptLen = lenLen;
+        clear();
+        if(c < 0xfd){
+            scriptLen = c;
+            lenLen = 1;
             if(scriptLen > 0){
                 scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
+                if(scriptArray == NULL){ status = PARSING_FAILED; scriptLen = 0; return 0; }
             }
-            lenLen = 1;
         }else{
-            scriptLen = 0;
-            lenLen = 1+(1 << (lenLen - 0xfc));
-            scriptArray = (uint8_t *) calloc( 255, sizeof(uint8_t));
+            lenLen = 1+(1 << (c - 0xfc));
+            // collects the bytes of the length, scriptLen is set when all of them are known
+            scriptArray = (uint8_t *) calloc( 8, sizeof(uint8_t));
+            if(scriptArray == NULL){ status = PARSING_FAILED; return 0; }
         }
-        if(scriptArray == NULL && scriptLen > 0){ status = PARSING_FAILED; scriptLen = 0; return 0; }
-    }
-    while(s->available() > 0 && bytes_parsed+bytes_read < lenLen){
-        scriptLen += (s->read() << (8*(bytes_parsed+bytes_read-1)));
-        bytes_read++;
     }
-    if(bytes_parsed+bytes_read == lenLen && scriptLen > 0){
-        free(scriptArray);
-        scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
-        if(scriptArray == NULL){ status = PARSING_FAILED; scriptLen = 0; return 0; }
+    if(bytes_parsed+bytes_read == 0){ // nothing to read yet
+        return 0;
     }
-    if(bytes_parsed+bytes_read == lenLen && lenVarInt(scriptLen) != lenLen){
-        status = PARSING_FAILED;
-        bytes_parsed+=bytes_read;
-        return bytes_read;
+    if(bytes_parsed+bytes_read < lenLen){
+        while(s->available() > 0 && bytes_parsed+bytes_read < lenLen){
+            scriptArray[bytes_parsed+bytes_read-1] = s->read();
+            bytes_read++;
+        }
+        if(bytes_parsed+bytes_read == lenLen){
+            uint64_t l = littleEndianToInt(scriptArray, lenLen-1);
+            free(scriptArray);
+            scriptArray = NULL;
+            if(lenVarInt(l) != lenLen || l > MAX_PARSE_SIZE){
+                status = PARSING_FAILED;
+                bytes_parsed+=bytes_read;
+                return bytes_read;
+            }
+            scriptArray = (uint8_t *) calloc( l, sizeof(uint8_t));
+            if(scriptArray == NULL){ status = PARSING_FAILED; return 0; }
+            scriptLen = l;
+        }
     }
     // reading the script
-    while(s->available() > 0 && bytes_parsed+bytes_read < scriptLen+lenLen){
+    while(s->available() > 0 && bytes_parsed+bytes_read >= lenLen && bytes_parsed+bytes_read < scriptLen+lenLen){
         scriptArray[bytes_parsed+bytes_read-lenLen] = s->read();
         bytes_read++;
     }
-- 
2.43.0


From 1a54759928923c23cd041a5f284f39984b14277f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:08 +0000
Subject: [PATCH 15/52] fix: Witness parsing mishandles empty chunks and
 oversized elements, clear leaves a dangling pointer

---
 src/Script.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 88f28e0..a4878eb 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -546,10 +546,11 @@ Script::Script(const Script &other){
 
 void Witness::clear(){
     numElements = 0;
-    if(witnessLen > 0){
+    if(witnessArray != NULL){
         free(witnessArray);
-        witnessLen = 0;
+        witnessArray = NULL;
     }
+    witnessLen = 0;
 }
 void Witness::init(){
     numElements = 0;
@@ -601,10 +602,8 @@ size_t Witness::from_stream(ParseStream *s){
             return bytes_read;
         }
     }
-    if(bytes_parsed+bytes_read == lenLen && lenVarInt(numElements) != lenLen){
-        status = PARSING_FAILED;
-        bytes_parsed+=bytes_read;
-        return bytes_read;
+    if(bytes_parsed+bytes_read == 0){ // nothing to read yet
+        return 0;
     }
     // reading elements
     while(s->available() && cur_element<numElements){
@@ -624,10 +623,10 @@ size_t Witness::from_stream(ParseStream *s){
             }
         }
         while(s->available() && cur_bytes_parsed+cur_bytes_read < curLen){
-            cur_element_len += (s->read() << (8*(cur_bytes_parsed+cur_bytes_read-1)));
+            cur_element_len += ((uint64_t)s->read() << (8*(cur_bytes_parsed+cur_bytes_read-1)));
             cur_bytes_read++;
         }
-        if(lenVarInt(cur_element_len) != curLen && cur_bytes_parsed+cur_bytes_read == curLen){
+        if((lenVarInt(cur_element_len) != curLen || cur_element_len > MAX_PARSE_SIZE) && cur_bytes_parsed+cur_bytes_read == curLen){
             status = PARSING_FAILED;
             cur_bytes_parsed+=cur_bytes_read;
             bytes_read+=cur_bytes_read;
@@ -642,7 +641,7 @@ size_t Witness::from_stream(ParseStream *s){
                 writeVarInt(cur_element_len, witnessArray, lenVarInt(cur_element_len));
             }else{
                 uint8_t * ptr = (uint8_t *)realloc( witnessArray, (witnessLen + cur_element_len + lenVarInt(cur_element_len)) * sizeof(uint8_t));
-                if(ptr == NULL){ free(witnessArray); witnessLen = 0; status=PARSING_FAILED; return 0;}
+                if(ptr == NULL){ clear(); status=PARSING_FAILED; return 0;}
                 witnessArray = ptr;
                 witnessLen += cur_element_len+lenVarInt(cur_element_len);
                 writeVarInt(cur_element_len, witnessArray+offset, lenVarInt(cur_element_len));
@@ -698,7 +697,7 @@ size_t Witness::push(const uint8_t * data, size_t len){
         if(witnessArray == NULL){ witnessLen = 0; return 0; }
     }else{
         uint8_t * ptr = (uint8_t *) realloc( witnessArray, (witnessLen + len + lenVarInt(len)) * sizeof(uint8_t));
-        if(ptr == NULL){ free(witnessArray); witnessLen = 0; return 0; }
+        if(ptr == NULL){ clear(); return 0; }
         witnessArray = ptr;
     }
     writeVarInt(len, witnessArray+witnessLen, lenVarInt(len));
@@ -743,6 +742,7 @@ Witness::Witness(const Witness &other){
 };
 Witness &Witness::operator=(Witness const &other){
     if (this == &other){ return *this; } // self-assignment
+    reset();
     clear();
     numElements = other.numElements;
     if(other.witnessLen > 0){
-- 
2.43.0


From 8fcfcbb1ac53e0e34851c2343bf7bd8034745d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:45 +0000
Subject: [PATCH 16/52] fix: characters that are not hex digits are parsed as
 0xff bytes

---
 src/BaseClasses.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/BaseClasses.cpp b/src/BaseClasses.cpp
index ccc51b1..8153e52 100644
--- a/src/BaseClasses.cpp
+++ b/src/BaseClasses.cpp
@@ -16,12 +16,23 @@ size_t ParseStream::parse(Streamable * s){
 }
 /************ Parse Byte Stream Class ************/
 
+// number of leading characters that form pairs of hex digits, the stream ends there
+static size_t hexLength(const uint8_t * arr, size_t length){
+    size_t l = 0;
+    while(l+1 < length && hexToVal(arr[l]) < 0x10 && hexToVal(arr[l+1]) < 0x10){
+        l += 2;
+    }
+    return l;
+}
 ParseByteStream::ParseByteStream(const uint8_t * arr, size_t length, encoding_format f){
     last = -1;
     format = f;
     cursor = 0;
     len = (arr == NULL) ? 0 : length;
     buf = arr;
+    if(format == HEX_ENCODING){
+        len = hexLength(buf, len);
+    }
 }
 // TODO: call prev constructor
 ParseByteStream::ParseByteStream(const char * arr, encoding_format f){
@@ -30,6 +41,9 @@ ParseByteStream::ParseByteStream(const char * arr, encoding_format f){
     cursor = 0;
     len = (arr == NULL) ? 0 : strlen(arr);
     buf = (const uint8_t *) arr;
+    if(format == HEX_ENCODING){
+        len = hexLength(buf, len);
+    }
 }
 ParseByteStream::~ParseByteStream(){
     buf = NULL;
@@ -43,7 +57,7 @@ size_t ParseByteStream::available(){
 };
 int ParseByteStream::read(){
     if(format == HEX_ENCODING){
-        if(cursor < len-1){
+        if(cursor+1 < len){
             uint8_t c1 = hexToVal(buf[cursor]);
             uint8_t c2 = hexToVal(buf[cursor+1]);
             if(c1 < 0x10 && c2 < 0x10){
-- 
2.43.0


From e1e45585f4f90a246e9bd683e129843497464c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:45 +0000
Subject: [PATCH 17/52] fix: serializing from an offset past the end underflows

---
 src/BaseClasses.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BaseClasses.cpp b/src/BaseClasses.cpp
index 8153e52..ca715bd 100644
--- a/src/BaseClasses.cpp
+++ b/src/BaseClasses.cpp
@@ -168,7 +168,7 @@ String Readable::toString() const{
 #if USE_ARDUINO_STRING || USE_STD_STRING
 String Streamable::serialize(size_t offset, size_t len) const{
     if(len == 0){
-        len = (length()-offset);
+        len = (offset < length()) ? (length()-offset) : 0;
     }
     char * arr = (char *)calloc(2*len+1, sizeof(char));
     serialize(arr, 2*len, offset, HEX_ENCODING);
-- 
2.43.0


From 8979e6a346a77d1d1e22d21a339157a685a7c9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:45 +0000
Subject: [PATCH 18/52] fix: TxIn with a script and a malformed txid has an
 uninitialized hash

---
 src/Transaction.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 39d74b9..d80e4be 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -35,6 +35,7 @@ TxIn::TxIn(const uint8_t prev_id[32], uint32_t prev_index, uint32_t sequence_num
     }
 }
 TxIn::TxIn(const uint8_t prev_id[32], uint32_t prev_index, const Script script, uint32_t sequence_number){
+    init();
     outputIndex = prev_index;
     sequence = sequence_number;
     for(int i=0; i<32; i++){
@@ -57,6 +58,7 @@ TxIn::TxIn(const char * prev_id, uint32_t prev_index, uint32_t sequence_number){
     }
 }
 TxIn::TxIn(const char * prev_id, uint32_t prev_index, const Script script, uint32_t sequence_number){
+    init();
     outputIndex = prev_index;
     sequence = sequence_number;
     if(strlen(prev_id) < 64){
-- 
2.43.0


From dfa087be98400ae458364afa8030020446d34c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:45 +0000
Subject: [PATCH 19/52] fix: transactions without inputs or outputs leak

---
 src/Transaction.cpp | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index d80e4be..38cce45 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -231,13 +231,8 @@ Tx::Tx(const Tx & other){
 }
 Tx& Tx::operator=(Tx const &other){ // copy-paste =(
     if (this == &other){ return *this; } // self-assignment
+    clear();
     version = other.version;
-    if(inputsNumber > 0){
-        delete [] txIns;
-    }
-    if(outputsNumber > 0){
-        delete [] txOuts;
-    }
     inputsNumber = other.inputsNumber;
     outputsNumber = other.outputsNumber;
     txIns = new TxIn[inputsNumber];
@@ -258,16 +253,13 @@ Tx::~Tx(){
     clear();
 }
 void Tx::clear(){
-    if(inputsNumber > 0){
-        inputsNumber = 0;
-        delete [] txIns;
-        txIns = NULL;
-    }
-    if(outputsNumber > 0){
-        outputsNumber = 0;
-        delete [] txOuts;
-        txOuts = NULL;
-    }
+    // arrays of zero elements are allocated too
+    inputsNumber = 0;
+    delete [] txIns;
+    txIns = NULL;
+    outputsNumber = 0;
+    delete [] txOuts;
+    txOuts = NULL;
 }
 size_t Tx::length() const{
     bool is_segwit = isSegwit();
@@ -606,9 +598,7 @@ uint8_t Tx::addInput(const TxIn txIn){
         arr[i] = txIns[i];
     }
     arr[inputsNumber] = txIn;
-    if(inputsNumber > 0){
-        delete [] txIns;
-    }
+    delete [] txIns;
     txIns = arr;
     inputsNumber++;
     return inputsNumber;
@@ -619,9 +609,7 @@ uint8_t Tx::addOutput(const TxOut txOut){
         arr[i] = txOuts[i];
     }
     arr[outputsNumber] = txOut;
-    if(outputsNumber > 0){
-        delete [] txOuts;
-    }
+    delete [] txOuts;
     txOuts = arr;
     outputsNumber++;
     return outputsNumber;
-- 
2.43.0


From 90719fa7bd2791ff50b22ebd07d2d17f3c86b43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:45 +0000
Subject: [PATCH 20/52] fix: transactions with more than 252 inputs or outputs
 are serialized wrongly

---
 src/Transaction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 38cce45..f8e75c3 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -302,7 +302,7 @@ size_t Tx::to_stream(SerializeStream *s, size_t offset) const{
     }
     size_t cur_offset = 4+2*is_segwit;
     size_t l = writeVarInt(inputsNumber, arr, 10);
-    if(s->available() && bytes_written+offset < cur_offset+l){
+    while(s->available() && bytes_written+offset < cur_offset+l){
         s->write(arr[bytes_written+offset-cur_offset]);
         bytes_written++;
     }
@@ -315,7 +315,7 @@ size_t Tx::to_stream(SerializeStream *s, size_t offset) const{
         cur_offset+=l;
     }
     l = writeVarInt(outputsNumber, arr, 10);
-    if(s->available() && bytes_written+offset < cur_offset+l){
+    while(s->available() && bytes_written+offset < cur_offset+l){
         s->write(arr[bytes_written+offset-cur_offset]);
         bytes_written++;
     }
-- 
2.43.0


From ee60ad833c0cb2ecadacf95e924f16278ca27fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:45 +0000
Subject: [PATCH 21/52] fix: multibyte input and output counts are taken for
 the count itself

---
 src/Transaction.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index f8e75c3..b48fc5e 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -366,6 +366,10 @@ size_t Tx::from_stream(ParseStream *s){
         bytes_read++;
         if(c == 0x00){ // segwit!
             segwit_flag = 1;
+        }else if(c >= 0xfd){ // multibyte counts are not supported
+            status = PARSING_FAILED;
+            bytes_parsed+=bytes_read;
+            return bytes_read;
         }else{
             inputsNumber = c; // FIXME: should be varint, but 255 inputs will kill the MCU...
             txIns = new TxIn[inputsNumber];
@@ -384,8 +388,14 @@ size_t Tx::from_stream(ParseStream *s){
         }
     }
     if(s->available() && segwit_flag > 0 && bytes_read+bytes_parsed == 6){
-        inputsNumber = s->read();
+        uint8_t c = s->read();
         bytes_read++;
+        if(c >= 0xfd){ // multibyte counts are not supported
+            status = PARSING_FAILED;
+            bytes_parsed+=bytes_read;
+            return bytes_read;
+        }
+        inputsNumber = c;
         txIns = new TxIn[inputsNumber];
         for(unsigned int i=0; i<inputsNumber; i++){ // this will at least set all txins to PARSING_INCOMPLETE
             bytes_read += s->parse(&txIns[i]);
@@ -406,8 +416,14 @@ size_t Tx::from_stream(ParseStream *s){
         current_offset += txIns[i].length();
     }
     if(s->available() && bytes_read+bytes_parsed == current_offset){
-        outputsNumber = s->read();
+        uint8_t c = s->read();
         bytes_read++;
+        if(c >= 0xfd){ // multibyte counts are not supported
+            status = PARSING_FAILED;
+            bytes_parsed+=bytes_read;
+            return bytes_read;
+        }
+        outputsNumber = c;
         txOuts = new TxOut[outputsNumber];
         for(unsigned int i=0; i<outputsNumber; i++){ // this will at least set all txouts to PARSING_INCOMPLETE
             bytes_read += s->parse(&txOuts[i]);
-- 
2.43.0


From 8c3773ba4efa8afe76d33ab21465d93d013046a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:17 +0000
Subject: [PATCH 22/52] fix: signInput and signSegwitInput always append
 SIGHASH_ALL to the signature

---
 src/Transaction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index b48fc5e..78ddbae 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -709,7 +709,7 @@ Signature Tx::signInput(uint8_t inputIndex, const PrivateKey pk, const Script re
     Signature sig = pk.sign(h);
 
     Script sc;
-    sc.push(sig);
+    sc.push(sig, sighash);
     sc.push(pubkey);
     // push script itself for timelocks and other single-key things if P2SH
     if(redeemScript.type() != P2PKH){
@@ -749,7 +749,7 @@ Signature Tx::signSegwitInput(uint8_t inputIndex, const PrivateKey pk, const Scr
     }
 
     Witness w;
-    w.push(sig);
+    w.push(sig, sighash);
     w.push(pubkey);
     if(redeem_type != P2WPKH){
         w.push(redeemScript);
-- 
2.43.0


From 7cb9da1a89c6380f4494ee2b6e3736f3359a3d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:17 +0000
Subject: [PATCH 23/52] fix: signature hashes of SIGHASH_NONE and
 SIGHASH_SINGLE commit to everything

---
 src/Transaction.cpp | 43 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 78ddbae..8640d98 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -495,6 +495,12 @@ size_t Tx::from_stream(ParseStream *s){
     return bytes_read;
 }
 int Tx::sigHash(uint8_t h[32], uint8_t inputIndex, const Script scriptPubkey, SigHashType sighash) const{
+    if(sighash == SIGHASH_SINGLE && inputIndex >= outputsNumber){
+        // no matching output: hash is the number 1 by consensus
+        memset(h, 0, 32);
+        h[0] = 1;
+        return 32;
+    }
     Script empty;
     DoubleSha s;
     s.begin();
@@ -511,13 +517,27 @@ int Tx::sigHash(uint8_t h[32], uint8_t inputIndex, const Script scriptPubkey, Si
             t.scriptSig = scriptPubkey;
         }else{
             t.scriptSig = empty;
+            if(sighash == SIGHASH_NONE || sighash == SIGHASH_SINGLE){
+                t.sequence = 0; // other inputs may be updated
+            }
         }
         s.serialize(&t, 0);
     }
-    l = writeVarInt(outputsNumber, arr, 10);
+    size_t outputsToSign = outputsNumber;
+    if(sighash == SIGHASH_NONE){
+        outputsToSign = 0;
+    }else if(sighash == SIGHASH_SINGLE){
+        outputsToSign = (size_t)inputIndex+1;
+    }
+    l = writeVarInt(outputsToSign, arr, 10);
     s.write(arr, l);
-    for(size_t i=0; i<outputsNumber; i++){
-        s.serialize(&txOuts[i], 0);
+    for(size_t i=0; i<outputsToSign; i++){
+        if(sighash == SIGHASH_SINGLE && i != inputIndex){
+            TxOut blank(0xffffffffffffffffULL, empty); // -1 and empty script
+            s.serialize(&blank, 0);
+        }else{
+            s.serialize(&txOuts[i], 0);
+        }
     }
     intToLittleEndian(locktime, arr, 4);
     s.write(arr, 4);
@@ -676,7 +696,11 @@ int Tx::sigHashSegwit(uint8_t h[32], uint8_t inputIndex, const Script scriptPubK
     hashPrevouts(h);
     s.write(h, 32);
 
-    hashSequence(h);
+    if(sighash == SIGHASH_NONE || sighash == SIGHASH_SINGLE){
+        memset(h, 0, 32);
+    }else{
+        hashSequence(h);
+    }
     s.write(h, 32);
 
     s.write(txIns[inputIndex].hash, 32);
@@ -689,7 +713,16 @@ int Tx::sigHashSegwit(uint8_t h[32], uint8_t inputIndex, const Script scriptPubK
     intToLittleEndian(txIns[inputIndex].sequence, arr, 4);
     s.write(arr, 4);
 
-    hashOutputs(h);
+    if(sighash == SIGHASH_SINGLE && inputIndex < outputsNumber){
+        DoubleSha o;
+        o.begin();
+        o.serialize(&txOuts[inputIndex], 0);
+        o.end(h);
+    }else if(sighash == SIGHASH_NONE || sighash == SIGHASH_SINGLE){
+        memset(h, 0, 32);
+    }else{
+        hashOutputs(h);
+    }
     s.write(h, 32);
 
     intToLittleEndian(locktime, arr, 4);
-- 
2.43.0


From dc98ce0f3dab7fe063da5750cd384950207749f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:13 +0000
Subject: [PATCH 24/52] fix: a chunk ending inside the length of a witness
 element is taken for an empty element

---
 src/Script.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Script.cpp b/src/Script.cpp
index a4878eb..42021ae 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -626,6 +626,11 @@ size_t Witness::from_stream(ParseStream *s){
             cur_element_len += ((uint64_t)s->read() << (8*(cur_bytes_parsed+cur_bytes_read-1)));
             cur_bytes_read++;
         }
+        if(cur_bytes_parsed+cur_bytes_read < curLen){ // the length is not complete yet
+            cur_bytes_parsed+=cur_bytes_read;
+            bytes_read+=cur_bytes_read;
+            break;
+        }
         if((lenVarInt(cur_element_len) != curLen || cur_element_len > MAX_PARSE_SIZE) && cur_bytes_parsed+cur_bytes_read == curLen){
             status = PARSING_FAILED;
             cur_bytes_parsed+=cur_bytes_read;
-- 
2.43.0


From 0143fb5a9fbe765735719d89174e5689f249a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:06 +0000
Subject: [PATCH 25/52] fix: a signature that arrives in chunks is refused

---
 src/Bitcoin.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 419a2fe..e5f6cf7 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -174,6 +174,10 @@ size_t Signature::from_stream(ParseStream *stream){
         r[bytes_parsed+bytes_read-4+32-tot[1]] = stream->read();
         bytes_read++;
     }
+    if(bytes_parsed+bytes_read < 4 || bytes_parsed+bytes_read < (size_t)4+tot[1]){ // need more data
+        bytes_parsed+=bytes_read;
+        return bytes_read;
+    }
     if(rlen() != tot[1]){ status = PARSING_FAILED; return bytes_read; }
     // s
     if(stream->available() && bytes_parsed+bytes_read < (size_t)4+tot[1]+1){
@@ -195,6 +199,10 @@ size_t Signature::from_stream(ParseStream *stream){
         s[bytes_parsed+bytes_read-4-tot[1]-2-tot[2]+32] = stream->read();
         bytes_read++;
     }
+    if(bytes_parsed+bytes_read < (size_t)4+tot[1]+2 || bytes_parsed+bytes_read < (size_t)4+tot[1]+2+tot[2]){ // need more data
+        bytes_parsed+=bytes_read;
+        return bytes_read;
+    }
     if(slen() != tot[2]){ status = PARSING_FAILED; return bytes_read; }
     if(bytes_parsed+bytes_read == (size_t)4+tot[1]+2+tot[2]){
         status = PARSING_DONE;
-- 
2.43.0


From 910e475af409051463143346acfac1ed25654d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:06 +0000
Subject: [PATCH 26/52] fix: total length of a DER signature is not checked
 against its parts

---
 src/Bitcoin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index e5f6cf7..1dab14c 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -204,6 +204,7 @@ size_t Signature::from_stream(ParseStream *stream){
         return bytes_read;
     }
     if(slen() != tot[2]){ status = PARSING_FAILED; return bytes_read; }
+    if(tot[0] != 4+tot[1]+tot[2]){ status = PARSING_FAILED; return bytes_read; }
     if(bytes_parsed+bytes_read == (size_t)4+tot[1]+2+tot[2]){
         status = PARSING_DONE;
     }
-- 
2.43.0


From 18569575130acd8da96d4434855b93d5372a4115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:06 +0000
Subject: [PATCH 27/52] fix: points share the prefix byte while parsing and use
 uninitialized data when it fails

---
 src/BitcoinCurve.cpp | 9 +++++++--
 src/BitcoinCurve.h   | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 5450a9e..92e1355 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -8,7 +8,6 @@ const ECPoint InfinityPoint;
 const ECPoint GeneratorPoint("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798");
 
 size_t ECPoint::from_stream(ParseStream *s){
-	static uint8_t first_byte;
 	if(status == PARSING_FAILED){
 		return 0;
 	}
@@ -48,7 +47,11 @@ size_t ECPoint::from_stream(ParseStream *s){
 			buf[0] = first_byte;
 			memcpy(buf+1, point, 32);
             uint8_t arr[65];
-            ecdsa_uncompress_pubkey(&secp256k1, buf, arr);
+            if(!ecdsa_uncompress_pubkey(&secp256k1, buf, arr)){
+                status = PARSING_FAILED;
+                bytes_parsed += bytes_read;
+                return bytes_read;
+            }
             memcpy(point, arr+1, 64);
 		}
 		status = PARSING_DONE;
@@ -89,10 +92,12 @@ size_t ECPoint::fromSec(const uint8_t * arr, size_t len){
 }
 
 ECPoint::ECPoint(const uint8_t pubkeyArr[64], bool use_compressed){ 
+	reset();
 	memcpy(point, pubkeyArr, 64);
 	compressed = use_compressed;
 };
 ECPoint::ECPoint(const uint8_t * secArr){ 
+	reset();
 	if(secArr[0] == 0x04){
 		ECPoint::fromSec(secArr, 65);
 	}else{
diff --git a/src/BitcoinCurve.h b/src/BitcoinCurve.h
index 1709010..b3d40e8 100644
--- a/src/BitcoinCurve.h
+++ b/src/BitcoinCurve.h
@@ -8,13 +8,14 @@
 
 class ECPoint : public Streamable{
 protected:
+    uint8_t first_byte; // prefix of the sec encoding that is being parsed
     virtual size_t from_stream(ParseStream *s);
     virtual size_t to_stream(SerializeStream *s, size_t offset = 0) const;
 public:
     uint8_t point[64];  // point on curve: (x,y)
     bool compressed;
 
-    virtual void reset(){ bytes_parsed = 0; status=PARSING_DONE; memset(point, 0, 64); compressed = true; };
+    virtual void reset(){ bytes_parsed = 0; status=PARSING_DONE; memset(point, 0, 64); compressed = true; first_byte = 0; };
     virtual size_t length() const{ return 33 + 32*(1-compressed); };
     virtual size_t stringLength() const{ return 2*ECPoint::length(); };
 
-- 
2.43.0


From 975bf7045a882a50e268c0a9b2d68b4de608124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:47 +0000
Subject: [PATCH 28/52] fix: integer to bytes conversion for arrays longer than
 8 bytes shifted by more than the width (ECScalar(uint32_t) was wrong)

---
 src/Conversion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 723b621..4367bc2 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -840,7 +840,7 @@ uint64_t littleEndianToInt(const uint8_t * array, size_t arraySize){
 
 void intToLittleEndian(uint64_t num, uint8_t * array, size_t arraySize){
     for(size_t i = 0; i < arraySize; i++){
-        array[i] = ((num >> (8*i)) & 0xFF);
+        array[i] = (i < sizeof(num)) ? ((num >> (8*i)) & 0xFF) : 0;
     }
 }
 
@@ -855,7 +855,7 @@ uint64_t bigEndianToInt(const uint8_t * array, size_t arraySize){
 
 void intToBigEndian(uint64_t num, uint8_t * array, size_t arraySize){
     for(size_t i = 0; i < arraySize; i++){
-        array[arraySize-i-1] = ((num >> (8*i)) & 0xFF);
+        array[arraySize-i-1] = (i < sizeof(num)) ? ((num >> (8*i)) & 0xFF) : 0;
     }
 }
 
-- 
2.43.0


From 681a3a9a9c968f56464ed1b7759011acf68314c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:47 +0000
Subject: [PATCH 29/52] fix: negating the zero scalar gives zero instead of the
 group order

---
 src/BitcoinCurve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 92e1355..0786df1 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -223,6 +223,7 @@ ECScalar ECScalar::operator-() const{
     bignum256 a, b;
 	bn_read_be(this->num, &a);
 	bn_subtract(&secp256k1.order, &a, &b);
+	bn_mod(&b, &secp256k1.order); // -0 is 0, not the order
 	ECScalar neg;
 	bn_write_be(&b, neg.num);
 	return neg;
-- 
2.43.0


From 1079b8e37b834be1f91fbd5e6080e0f0a128adc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:47 +0000
Subject: [PATCH 30/52] fix: a scalar or secret equal to the group order is
 zero and refused by the parser

---
 src/Bitcoin.cpp      | 8 ++++----
 src/BitcoinCurve.cpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 1dab14c..7db7a15 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -496,14 +496,14 @@ size_t PrivateKey::from_stream(ParseStream *s){
     }
     if(bytes_parsed+bytes_read == 32){
         status = PARSING_DONE;
-        uint8_t zero[32] = { 0 };
-        if(memcmp(num, zero, 32)==0){ // should we add something else here?
-            status = PARSING_FAILED;
-        }
         bignum256 n;
         bn_read_be(num, &n);
         bn_mod(&n, &secp256k1.order);
         bn_write_be(&n, num);
+        uint8_t zero[32] = { 0 };
+        if(memcmp(num, zero, 32)==0){ // zero modulo the order
+            status = PARSING_FAILED;
+        }
         pubKey = *this * GeneratorPoint;
     }
     bytes_parsed += bytes_read;
diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 0786df1..963b59a 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -180,14 +180,14 @@ size_t ECScalar::from_stream(ParseStream *s){
 	}
 	if(bytes_parsed+bytes_read == 32){
 		status = PARSING_DONE;
-		uint8_t zero[32] = { 0 };
-		if(memcmp(num, zero, 32)==0){ // should we add something else here?
-		status = PARSING_FAILED;
-		}
 		bignum256 n;
 		bn_read_be(num, &n);
 		bn_mod(&n, &secp256k1.order);
 		bn_write_be(&n, num);
+		uint8_t zero[32] = { 0 };
+		if(memcmp(num, zero, 32)==0){ // zero modulo the order
+			status = PARSING_FAILED;
+		}
 	}
 	bytes_parsed += bytes_read;
 	return bytes_read;
-- 
2.43.0


From fd8c3e159a1858943e56fabd5f6b0adb42b12e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:47 +0000
Subject: [PATCH 31/52] fix: refuse WIF strings with an invalid secret, suffix
 or prefix and leave no key behind

---
 src/Bitcoin.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 7db7a15..5580a23 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -568,11 +568,21 @@ String PrivateKey::wif() const{
 int PrivateKey::fromWIF(const char * wifArr, size_t wifSize){
     uint8_t arr[40] = { 0 };
     size_t l = fromBase58Check(wifArr, wifSize, arr, sizeof(arr));
+    memzero(num, 32); // no key if the string is not valid
     if( (l < 33) || (l > 34) ){
-        memzero(num, 32);
         return 0;
     }
-    bool compressed;
+    bool compressed = (l == 34);
+    if(compressed && arr[33] != 0x01){
+        return 0;
+    }
+    // secret should be between 1 and order-1
+    bignum256 n;
+    bn_read_be(arr+1, &n);
+    if(bn_is_zero(&n) || !bn_is_less(&n, &secp256k1.order)){
+        memzero(arr, sizeof(arr));
+        return 0;
+    }
     network = &DEFAULT_NETWORK;
     bool found = false;
     for(int i=0; i<networks_len; i++){
@@ -586,12 +596,6 @@ int PrivateKey::fromWIF(const char * wifArr, size_t wifSize){
         return 0;
     }
 
-    if(l == 34){
-        compressed = (arr[33] > 0);
-    }
-    if(l == 33){
-        compressed = false;
-    }
     memcpy(num, arr+1, 32);
     memzero(arr, 40); // clear memory
 
@@ -709,10 +713,14 @@ SchnorrSignature PrivateKey::schnorr_sign(const uint8_t hash[32]) const{
 }
 #if USE_ARDUINO_STRING || USE_STD_STRING
 PrivateKey::PrivateKey(const String wifString){
+    reset();
+    network = &DEFAULT_NETWORK;
     fromWIF(wifString.c_str());
 }
 #else
 PrivateKey::PrivateKey(const char * wifArr){
+    reset();
+    network = &DEFAULT_NETWORK;
     fromWIF(wifArr);
 }
 #endif
-- 
2.43.0


From 085c1441469626c2aec5ac5d467615f74c9ac82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:31 +0000
Subject: [PATCH 32/52] fix: refuse extended private keys whose secret is not
 below the group order

---
 src/HDWallet.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index f822fc4..5272f7e 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -214,14 +214,12 @@ size_t HDPrivateKey::from_stream(ParseStream *s){
     }
     if(bytes_parsed+bytes_read == 78){
         status = PARSING_DONE;
-        uint8_t zero[32] = { 0 };
-        if(memcmp(num, zero, 32)==0){ // should we add something else here?
-            status = PARSING_FAILED;
-        }
         bignum256 n;
         bn_read_be(num, &n);
-        bn_mod(&n, &secp256k1.order);
-        bn_write_be(&n, num);
+        if(bn_is_zero(&n) || !bn_is_less(&n, &secp256k1.order)){ // should be between 1 and order-1
+            status = PARSING_FAILED;
+            memzero(num, 32);
+        }
         pubKey = *this * GeneratorPoint;
         pubKey.compressed = true;
     }
-- 
2.43.0


From ccb5a2c219fdae38f83a4f63b5fa78bbdc381846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:31 +0000
Subject: [PATCH 33/52] fix: extended public keys with an invalid point read
 out of bounds or used an uninitialised buffer

---
 src/HDWallet.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index 5272f7e..1c330b3 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -643,12 +643,13 @@ size_t HDPublicKey::from_stream(ParseStream *s){
         status = PARSING_DONE;
         uint8_t arr[33];
         memcpy(arr, point, 33);
-        uint8_t buf[65];
-        ecdsa_uncompress_pubkey(&secp256k1, arr, buf);
-        memcpy(point, buf+1, 64);
-        if(!isValid()){
+        uint8_t buf[65] = { 0 };
+        // only compressed keys are allowed here
+        if((arr[0] != 0x02 && arr[0] != 0x03) || !ecdsa_uncompress_pubkey(&secp256k1, arr, buf)){
+            memzero(buf, sizeof(buf));
             status = PARSING_FAILED;
         }
+        memcpy(point, buf+1, 64);
     }
     bytes_parsed += bytes_read;
     return bytes_read;
-- 
2.43.0


From c013e3d2c946f878e31df07c53e05391b1c21490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:31 +0000
Subject: [PATCH 34/52] fix: refuse extended keys whose payload is not 78 bytes
 and leave nothing uninitialised

---
 src/HDWallet.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index 1c330b3..68a1289 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -230,12 +230,13 @@ size_t HDPrivateKey::from_str(const char * xprvArr, size_t xprvLen){
     init();
     uint8_t arr[85] = { 0 };
     size_t l = fromBase58Check(xprvArr, xprvLen, arr, sizeof(arr));
-    if(l == 0){
+    if(l != 78){
         return 0; // decoding error
     }
-    ParseByteStream s(arr, sizeof(arr));
+    ParseByteStream s(arr, l);
     HDPrivateKey::from_stream(&s);
-    return xprvLen;
+    memzero(arr, sizeof(arr));
+    return (status == PARSING_DONE) ? xprvLen : 0;
 }
 int HDPrivateKey::fromSeed(const uint8_t * seed, size_t seedSize, const Network * net){
     init();
@@ -655,14 +656,15 @@ size_t HDPublicKey::from_stream(ParseStream *s){
     return bytes_read;
 }
 size_t HDPublicKey::from_str(const char * xpubArr, size_t xpubLen){
+    reset();
     uint8_t arr[85] = { 0 };
     size_t l = fromBase58Check(xpubArr, xpubLen, arr, sizeof(arr));
-    if(l == 0){
+    if(l != 78){
         return 0; // decoding error
     }
-    ParseByteStream s(arr, sizeof(arr));
+    ParseByteStream s(arr, l);
     HDPublicKey::from_stream(&s);
-    return xpubLen;
+    return (status == PARSING_DONE) ? xpubLen : 0;
 }
 
 HDPublicKey::HDPublicKey():PublicKey(){
@@ -712,7 +714,11 @@ HDPublicKey &HDPublicKey::operator=(const HDPublicKey &other){
 HDPublicKey::HDPublicKey(const char * xpubArr){
     reset();
     memzero(prefix, 4);
+    memzero(chainCode, 32);
+    depth = 0;
+    memzero(parentFingerprint, 4);
     childNumber = 0;
+    type = UNKNOWN_TYPE;
     network = &DEFAULT_NETWORK;
     from_str(xpubArr, strlen(xpubArr));
 }
-- 
2.43.0


From affcc5683aea0a7855d65654d6dfe2261e3de256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:31 +0000
Subject: [PATCH 35/52] fix: hardened children of public keys are refused
 instead of returning an unrelated key

---
 src/HDWallet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index 68a1289..fc110a2 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -780,6 +780,9 @@ String HDPublicKey::fingerprint() const{
 
 HDPublicKey HDPublicKey::child(uint32_t index) const{
     HDPublicKey child;
+    if(index >= HARDENED_INDEX){ // can't be derived from the public key
+        return child;
+    }
 
     uint8_t secArr[65] = { 0 };
     int l = sec(secArr, sizeof(secArr));
@@ -814,6 +817,9 @@ HDPublicKey HDPublicKey::child(uint32_t index) const{
 HDPublicKey HDPublicKey::derive(uint32_t * index, size_t len) const{
     HDPublicKey pk = *this;
     for(size_t i=0; i<len; i++){
+        if(index[i] >= HARDENED_INDEX){ // can't be derived from the public key
+            return HDPublicKey();
+        }
         pk = pk.child(index[i]);
     }
     return pk;
-- 
2.43.0


From 071f2bb5eaae9a15fc36ddd77b052c384f780167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:31 +0000
Subject: [PATCH 36/52] fix: derivation paths are parsed strictly (empty path,
 missing or too large indexes, stray characters)

---
 src/HDWallet.cpp | 141 +++++++++++++++++++++--------------------------
 1 file changed, 64 insertions(+), 77 deletions(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index fc110a2..d422ce6 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -16,6 +16,66 @@ using std::string;
 #define String string
 #endif
 
+// parses derivation path like "m/44h/0'/5", leading "m/" and trailing "/" are optional
+// returns an array of indexes that should be freed, or NULL if the path is not valid
+static uint32_t * parsePath(const char * path, bool allowHardened, size_t * pathLen){
+    size_t len = strlen(path);
+    const char * cur = path;
+    if(len > 0 && cur[0] == 'm'){ // remove leading "m" or "m/"
+        cur++;
+        len--;
+        if(len > 0){
+            if(cur[0] != '/'){
+                return NULL;
+            }
+            cur++;
+            len--;
+        }
+    }
+    size_t derivationLen = 0;
+    if(len > 0){
+        if(cur[len-1] == '/'){ // remove trailing "/"
+            len--;
+        }
+        derivationLen = 1;
+        for(size_t i=0; i<len; i++){
+            if(cur[i] == '/'){
+                derivationLen++;
+            }
+        }
+    }
+    uint32_t * derivation = (uint32_t *)calloc(derivationLen+1, sizeof(uint32_t));
+    if(derivation == NULL){ return NULL; }
+    size_t pos = 0;
+    for(size_t current=0; current<derivationLen; current++){
+        uint32_t val = 0;
+        size_t digits = 0;
+        while(pos < len && cur[pos] >= '0' && cur[pos] <= '9'){
+            uint32_t digit = cur[pos]-'0';
+            if(val > (HARDENED_INDEX-1-digit)/10){ // index should be less than 0x80000000
+                free(derivation);
+                return NULL;
+            }
+            val = val*10 + digit;
+            digits++;
+            pos++;
+        }
+        if(digits > 0 && allowHardened && pos < len && (cur[pos] == 'h' || cur[pos] == '\'')){
+            val += HARDENED_INDEX;
+            pos++;
+        }
+        // there should be an index and nothing else until the next "/"
+        if(digits == 0 || (pos < len && cur[pos] != '/')){
+            free(derivation);
+            return NULL;
+        }
+        derivation[current] = val;
+        pos++;
+    }
+    *pathLen = derivationLen;
+    return derivation;
+}
+
 // ---------------------------------------------------------------- HDPrivateKey class
 
 void HDPrivateKey::init(){
@@ -474,48 +534,10 @@ HDPrivateKey HDPrivateKey::derive(uint32_t * index, size_t len) const{
     return pk;
 }
 HDPrivateKey HDPrivateKey::derive(const char * path) const{
-    static const char VALID_CHARS[] = "0123456789/'h";
-    size_t len = strlen(path);
-    const char * cur = path;
-    if(path[0] == 'm'){ // remove leading "m/"
-        cur+=2;
-        len-=2;
-    }
-    if(cur[len-1] == '/'){ // remove trailing "/"
-        len--;
-    }
     HDPrivateKey pk; // invalid private key to return if something failed
-    size_t derivationLen = 1;
-    // checking if all chars are valid and counting derivation length
-    for(size_t i=0; i<len; i++){
-        const char * pch = strchr(VALID_CHARS, cur[i]);
-        if(pch == NULL){ // wrong character
-            return pk;
-        }
-        if(cur[i] == '/'){
-            derivationLen++;
-        }
-    }
-    uint32_t * derivation = (uint32_t *)calloc(derivationLen, sizeof(uint32_t));
+    size_t derivationLen = 0;
+    uint32_t * derivation = parsePath(path, true, &derivationLen);
     if(derivation == NULL){ return pk; }
-    size_t current = 0;
-    for(size_t i=0; i<len; i++){
-        if(cur[i] == '/'){ // next
-            current++;
-            continue;
-        }
-        const char * pch = strchr(VALID_CHARS, cur[i]);
-        uint32_t val = pch-VALID_CHARS;
-        if(derivation[current] >= HARDENED_INDEX){ // can't have anything after hardened
-            free(derivation);
-            return pk;
-        }
-        if(val < 10){
-            derivation[current] = derivation[current]*10 + val;
-        }else{ // h or ' -> hardened
-            derivation[current] += HARDENED_INDEX;
-        }
-    }
     pk = derive(derivation, derivationLen);
     free(derivation);
     return pk;
@@ -825,46 +847,11 @@ HDPublicKey HDPublicKey::derive(uint32_t * index, size_t len) const{
     return pk;
 }
 HDPublicKey HDPublicKey::derive(const char * path) const{
-    static const char VALID_CHARS[] = "0123456789/";
-    size_t len = strlen(path);
-    const char * cur = path;
-    if(path[0] == 'm'){ // remove leading "m/"
-        cur+=2;
-        len-=2;
-    }
-    if(cur[len-1] == '/'){ // remove trailing "/"
-        len--;
-    }
     HDPublicKey pk; // dummy to return if something failed
-    size_t derivationLen = 1;
-    // checking if all chars are valid and counting derivation length
-    for(size_t i=0; i<len; i++){
-        const char * pch = strchr(VALID_CHARS, cur[i]);
-        if(pch == NULL){ // wrong character
-            return pk;
-        }
-        if(cur[i] == '/'){
-            derivationLen++;
-        }
-    }
-    uint32_t * derivation = (uint32_t *)calloc(derivationLen, sizeof(uint32_t));
+    size_t derivationLen = 0;
+    uint32_t * derivation = parsePath(path, false, &derivationLen);
     if(derivation == NULL){ return pk; }
-    size_t current = 0;
-    for(size_t i=0; i<len; i++){
-        if(cur[i] == '/'){ // next
-            if(derivation[current] >= HARDENED_INDEX){ // can't be hardened
-                free(derivation);
-                return pk;
-            }
-            current++;
-            continue;
-        }
-        const char * pch = strchr(VALID_CHARS, cur[i]);
-        uint32_t val = pch-VALID_CHARS;
-        derivation[current] = derivation[current]*10 + val;
-    }
     pk = derive(derivation, derivationLen);
     free(derivation);
     return pk;
 }
-
-- 
2.43.0


From 8fae6e9e04127056b6c9ed4ca008e725e8b49587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:30 +0000
Subject: [PATCH 37/52] fix: adding or subtracting large integers to a scalar
 in place gave a wrong result or aborted

---
 src/BitcoinCurve.cpp | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 963b59a..42a2028 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -211,13 +211,7 @@ ECScalar ECScalar::operator+(const ECScalar& other) const{
 	return sum;
 }
 ECScalar ECScalar::operator+(const uint32_t& i) const{
-	bignum256 a;
-	bn_read_be(this->num, &a);
-	bn_addi(&a, i);
-	bn_mod(&a, &secp256k1.order);
-	ECScalar sum;
-	bn_write_be(&a, sum.num);
-	return sum;
+	return *this + ECScalar(i);
 }
 ECScalar ECScalar::operator-() const{
     bignum256 a, b;
@@ -229,13 +223,7 @@ ECScalar ECScalar::operator-() const{
 	return neg;
 }
 ECScalar ECScalar::operator-(const uint32_t& i) const{
-    bignum256 a;
-	bn_read_be(this->num, &a);
-	bn_subi(&a, i, &secp256k1.order);
-    bn_mod(&a, &secp256k1.order);
-	ECScalar sum;
-	bn_write_be(&a, sum.num);
-	return sum;
+	return *this - ECScalar(i);
 }
 ECScalar ECScalar::operator-(const ECScalar& other) const{
 	return (*this+(-other));
-- 
2.43.0


From 0b395543a15c257a8ab7b3726533340dcf0ecb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:05 +0000
Subject: [PATCH 38/52] fix: PSBT metadata is allocated, copied and freed in
 one place, nothing dangles after a failed parse

---
 src/PSBT.cpp | 278 ++++++++++++++++++---------------------------------
 src/PSBT.h   |   3 +
 2 files changed, 102 insertions(+), 179 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index a262a08..c6ec4d6 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -85,42 +85,103 @@ String descriptorChecksum(String descriptor){
 }
 #endif
 
+// frees derivations and forgets about them
+static void freeDerivations(PSBTDerivation ** derivations, uint8_t * len){
+    for(size_t i=0; i<*len; i++){
+        free((*derivations)[i].derivation);
+    }
+    delete [] *derivations;
+    *derivations = NULL;
+    *len = 0;
+}
+// makes a copy of the derivations
+static PSBTDerivation * copyDerivations(const PSBTDerivation * derivations, uint8_t len){
+    if(len == 0){
+        return NULL;
+    }
+    PSBTDerivation * copy = new PSBTDerivation[len];
+    for(size_t i=0; i<len; i++){
+        copy[i] = derivations[i];
+        copy[i].derivation = (uint32_t *)calloc(copy[i].derivationLen+1, sizeof(uint32_t));
+        if(copy[i].derivation == NULL){
+            copy[i].derivationLen = 0;
+        }else{
+            memcpy(copy[i].derivation, derivations[i].derivation, copy[i].derivationLen*sizeof(uint32_t));
+        }
+    }
+    return copy;
+}
+
+void PSBT::allocMeta(){
+    txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
+    for(size_t i=0; i<tx.inputsNumber; i++){
+        txInsMeta[i].derivations = NULL;
+        txInsMeta[i].derivationsLen = 0;
+        txInsMeta[i].signatures = NULL;
+        txInsMeta[i].signaturesLen = 0;
+    }
+    txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
+    for(size_t i=0; i<tx.outputsNumber; i++){
+        txOutsMeta[i].derivations = NULL;
+        txOutsMeta[i].derivationsLen = 0;
+    }
+}
+void PSBT::freeMeta(){
+    if(txInsMeta != NULL){
+        for(size_t i=0; i<tx.inputsNumber; i++){
+            freeDerivations(&txInsMeta[i].derivations, &txInsMeta[i].derivationsLen);
+            delete [] txInsMeta[i].signatures;
+        }
+        delete [] txInsMeta;
+        txInsMeta = NULL;
+    }
+    if(txOutsMeta != NULL){
+        for(size_t i=0; i<tx.outputsNumber; i++){
+            freeDerivations(&txOutsMeta[i].derivations, &txOutsMeta[i].derivationsLen);
+        }
+        delete [] txOutsMeta;
+        txOutsMeta = NULL;
+    }
+}
+void PSBT::copyFrom(PSBT const &other){
+    tx = other.tx;
+    status = other.status;
+    bytes_parsed = other.bytes_parsed;
+    key = other.key;
+    value = other.value;
+    current_section = other.current_section;
+    last_key_pos = other.last_key_pos;
+    if(other.txInsMeta == NULL || other.txOutsMeta == NULL){
+        return;
+    }
+    txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
+    for(size_t i=0; i<tx.inputsNumber; i++){
+        txInsMeta[i] = other.txInsMeta[i];
+        txInsMeta[i].derivations = copyDerivations(other.txInsMeta[i].derivations, txInsMeta[i].derivationsLen);
+        txInsMeta[i].signatures = NULL;
+        if(txInsMeta[i].signaturesLen > 0){
+            txInsMeta[i].signatures = new PSBTPartialSignature[txInsMeta[i].signaturesLen];
+            for(size_t j=0; j<txInsMeta[i].signaturesLen; j++){
+                txInsMeta[i].signatures[j] = other.txInsMeta[i].signatures[j];
+            }
+        }
+    }
+    txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
+    for(size_t i=0; i<tx.outputsNumber; i++){
+        txOutsMeta[i] = other.txOutsMeta[i];
+        txOutsMeta[i].derivations = copyDerivations(other.txOutsMeta[i].derivations, txOutsMeta[i].derivationsLen);
+    }
+}
+
 size_t PSBT::from_stream(ParseStream *s){
     if(status == PARSING_FAILED){
         return 0;
     }
     if(status == PARSING_DONE){
-        // free memory
-        if(tx.inputsNumber > 0){
-            for(size_t i=0; i<tx.inputsNumber; i++){
-                if(txInsMeta[i].derivationsLen > 0){
-                    for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                        if(txInsMeta[i].derivations[j].derivationLen > 0){
-                            free(txInsMeta[i].derivations[j].derivation);
-                        }
-                    }
-                    delete [] txInsMeta[i].derivations;
-                }
-                if(txInsMeta[i].signaturesLen > 0){
-                    delete [] txInsMeta[i].signatures;
-                }
-            }
-            delete [] txInsMeta;
-        }
-        if(tx.outputsNumber > 0){
-            for(size_t i=0; i<tx.outputsNumber; i++){
-                if(txOutsMeta[i].derivationsLen > 0){
-                    for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                        if(txOutsMeta[i].derivations[j].derivationLen > 0){
-                            free(txOutsMeta[i].derivations[j].derivation);
-                        }
-                    }
-                    delete [] txOutsMeta[i].derivations;
-                }
-            }
-            delete [] txOutsMeta;
-        }
-        tx.reset();
+        freeMeta();
+        tx = Tx();
+        key = Script();
+        value = Script();
         bytes_parsed = 0;
         current_section = 0;
         last_key_pos = 5;
@@ -181,21 +242,14 @@ size_t PSBT::from_stream(ParseStream *s){
         tx.parse(arr+l, value.length()-l);
         if(tx.getStatus() != PARSING_DONE){
             status = PARSING_FAILED;
+            tx = Tx(); // there is no metadata for inputs and outputs
         }
         free(arr);
         if(status == PARSING_FAILED){
             bytes_parsed += bytes_read;
             return bytes_read;
         }
-        txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
-        for(size_t i=0; i<tx.inputsNumber; i++){
-            txInsMeta[i].derivationsLen = 0;
-            txInsMeta[i].signaturesLen = 0;
-        }
-        txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
-        for(size_t i=0; i<tx.outputsNumber; i++){
-            txOutsMeta[i].derivationsLen = 0;
-        }
+        allocMeta();
         last_key_pos += key.length()+value.length();
     }
     uint8_t sections_number = 0;
@@ -528,75 +582,12 @@ size_t PSBT::length() const{
 }
 
 PSBT::PSBT(PSBT const &other){
-    reset();
-    txInsMeta = NULL; txOutsMeta = NULL; status = PARSING_DONE; current_section = 0; last_key_pos = 0;
-    tx = other.tx;
-    status = other.status;
-    txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
-    txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
-    for(size_t i=0; i<tx.inputsNumber; i++){
-        txInsMeta[i] = other.txInsMeta[i];
-        txInsMeta[i].derivations = new PSBTDerivation[txInsMeta[i].derivationsLen];
-        for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-            txInsMeta[i].derivations[j] = other.txInsMeta[i].derivations[j];
-            txInsMeta[i].derivations[j].derivation = (uint32_t *)calloc(txInsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
-            if(txInsMeta[i].derivations[j].derivation == NULL){
-                txInsMeta[i].derivations[j].derivationLen = 0;
-            }else{
-                memcpy(txInsMeta[i].derivations[j].derivation, other.txInsMeta[i].derivations[j].derivation, txInsMeta[i].derivations[j].derivationLen*sizeof(uint32_t));
-            }
-        }
-        txInsMeta[i].signatures = new PSBTPartialSignature[txInsMeta[i].signaturesLen];
-        for(size_t j=0; j<txInsMeta[i].signaturesLen; j++){
-            txInsMeta[i].signatures[j] = other.txInsMeta[i].signatures[j];
-        }
-    }
-    for(size_t i=0; i<tx.outputsNumber; i++){
-        txOutsMeta[i] = other.txOutsMeta[i];
-        txOutsMeta[i].derivations = new PSBTDerivation[txOutsMeta[i].derivationsLen];
-        for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-            txOutsMeta[i].derivations[j] = other.txOutsMeta[i].derivations[j];
-            txOutsMeta[i].derivations[j].derivation = (uint32_t *)calloc(txOutsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
-            if(txOutsMeta[i].derivations[j].derivation == NULL){
-                txOutsMeta[i].derivations[j].derivationLen = 0;
-            }else{
-                memcpy(txOutsMeta[i].derivations[j].derivation, other.txOutsMeta[i].derivations[j].derivation, txOutsMeta[i].derivations[j].derivationLen*sizeof(uint32_t));
-            }
-        }
-    }
+    txInsMeta = NULL; txOutsMeta = NULL;
+    copyFrom(other);
 }
 
 PSBT::~PSBT(){
-    // free memory
-    if(tx.inputsNumber > 0){
-        for(size_t i=0; i<tx.inputsNumber; i++){
-            if(txInsMeta[i].derivationsLen > 0){
-                for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                    if(txInsMeta[i].derivations[j].derivationLen > 0){
-                        free(txInsMeta[i].derivations[j].derivation);
-                    }
-                }
-                delete [] txInsMeta[i].derivations;
-            }
-            if(txInsMeta[i].signaturesLen > 0){
-                delete [] txInsMeta[i].signatures;
-            }
-        }
-        delete [] txInsMeta;
-    }
-    if(tx.outputsNumber > 0){
-        for(size_t i=0; i<tx.outputsNumber; i++){
-            if(txOutsMeta[i].derivationsLen > 0){
-                for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                    if(txOutsMeta[i].derivations[j].derivationLen > 0){
-                        free(txOutsMeta[i].derivations[j].derivation);
-                    }
-                }
-                delete [] txOutsMeta[i].derivations;
-            }
-        }
-        delete [] txOutsMeta;
-    }
+    freeMeta();
 }
 
 uint8_t PSBT::sign(const HDPrivateKey root){
@@ -739,78 +730,7 @@ bool PSBT::isMine(uint8_t outputNumber, const HDPrivateKey xprv) const{
 
 PSBT& PSBT::operator=(PSBT const &other){
     if (this == &other){ return *this; } // self-assignment
-    // free memory
-    if(tx.inputsNumber > 0){
-        for(size_t i=0; i<tx.inputsNumber; i++){
-            if(txInsMeta[i].derivationsLen > 0){
-                for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                    if(txInsMeta[i].derivations[j].derivationLen > 0){
-                        free(txInsMeta[i].derivations[j].derivation);
-                    }
-                }
-                delete [] txInsMeta[i].derivations;
-            }
-            if(txInsMeta[i].signaturesLen > 0){
-                delete [] txInsMeta[i].signatures;
-            }
-        }
-        delete [] txInsMeta;
-    }
-    if(tx.outputsNumber > 0){
-        for(size_t i=0; i<tx.outputsNumber; i++){
-            if(txOutsMeta[i].derivationsLen > 0){
-                for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                    if(txOutsMeta[i].derivations[j].derivationLen > 0){
-                        free(txOutsMeta[i].derivations[j].derivation);
-                    }
-                }
-                delete [] txOutsMeta[i].derivations;
-            }
-        }
-        delete [] txOutsMeta;
-    }
-    // copy
-    tx = other.tx;
-    status = other.status;
-    if(tx.inputsNumber > 0){
-        txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
-        for(size_t i=0; i<tx.inputsNumber; i++){
-            txInsMeta[i] = other.txInsMeta[i];
-            if(txInsMeta[i].derivationsLen > 0){
-                txInsMeta[i].derivations = new PSBTDerivation[txInsMeta[i].derivationsLen];
-                for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                    txInsMeta[i].derivations[j] = other.txInsMeta[i].derivations[j];
-                    txInsMeta[i].derivations[j].derivation = (uint32_t*)calloc(txInsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
-                    if(txInsMeta[i].derivations[j].derivation == NULL){
-                        txInsMeta[i].derivations[j].derivationLen = 0;
-                    }else{
-                        memcpy(txInsMeta[i].derivations[j].derivation, other.txInsMeta[i].derivations[j].derivation, txInsMeta[i].derivations[j].derivationLen*sizeof(uint32_t));
-                    }
-                }
-            }
-            if(txInsMeta[i].signaturesLen > 0){
-                txInsMeta[i].signatures = new PSBTPartialSignature[txInsMeta[i].signaturesLen];
-                for(size_t j=0; j<txInsMeta[i].signaturesLen; j++){
-                    txInsMeta[i].signatures[j] = other.txInsMeta[i].signatures[j];
-                }
-            }
-        }
-    }
-    if(tx.outputsNumber > 0){
-        txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
-        for(size_t i=0; i<tx.outputsNumber; i++){
-            txOutsMeta[i] = other.txOutsMeta[i];
-            txOutsMeta[i].derivations = new PSBTDerivation[txOutsMeta[i].derivationsLen];
-            for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                txOutsMeta[i].derivations[j] = other.txOutsMeta[i].derivations[j];
-                txOutsMeta[i].derivations[j].derivation = (uint32_t *)calloc(txOutsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
-                if(txOutsMeta[i].derivations[j].derivation == NULL){
-                    txOutsMeta[i].derivations[j].derivationLen = 0;
-                }else{
-                    memcpy(txOutsMeta[i].derivations[j].derivation, other.txOutsMeta[i].derivations[j].derivation, txOutsMeta[i].derivations[j].derivationLen*sizeof(uint32_t));
-                }
-            }
-        }
-    }
+    freeMeta();
+    copyFrom(other);
     return *this;
 }
diff --git a/src/PSBT.h b/src/PSBT.h
index 60073a2..02c6f31 100644
--- a/src/PSBT.h
+++ b/src/PSBT.h
@@ -74,6 +74,9 @@ protected:
     Script value; // value for parsing
     uint8_t current_section;
     size_t last_key_pos;
+    void allocMeta(); // creates empty metadata for all inputs and outputs
+    void freeMeta();
+    void copyFrom(PSBT const &other);
 public:
     virtual size_t length() const;
     PSBT(){ txInsMeta = NULL; txOutsMeta = NULL; status = PARSING_DONE; current_section = 0; last_key_pos = 0; };
-- 
2.43.0


From 1b1a56b16e429acd8644a9384295f9247b1e844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:55 +0000
Subject: [PATCH 39/52] fix: PSBT fields are validated before they are stored
 (lengths, derivations, signatures, sighash type, section number)

---
 src/PSBT.cpp | 131 ++++++++++++++++++++++++---------------------------
 src/PSBT.h   |   4 +-
 2 files changed, 65 insertions(+), 70 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index c6ec4d6..51870f8 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -112,6 +112,37 @@ static PSBTDerivation * copyDerivations(const PSBTDerivation * derivations, uint
     return copy;
 }
 
+// parses public key, fingerprint and derivation path and adds them to the list
+// returns 1 or negative value if it is not valid
+static int addDerivation(PSBTDerivation ** derivations, uint8_t * len, const uint8_t * sec, size_t secLen, const uint8_t * path, size_t pathLen){
+    if(*len == 0xFF){ // can't count more
+        return -1;
+    }
+    if(pathLen < 4 || pathLen % 4 != 0 || pathLen/4-1 > 0xFF){
+        return -2;
+    }
+    PSBTDerivation der;
+    if(der.pubkey.parse(sec, secLen) != secLen || der.pubkey.getStatus() != PARSING_DONE){
+        return -1;
+    }
+    memcpy(der.fingerprint, path, 4);
+    der.derivationLen = pathLen/4-1;
+    der.derivation = (uint32_t *)calloc(der.derivationLen+1, sizeof(uint32_t));
+    if(der.derivation == NULL){ return -1; }
+    for(size_t i=0; i<der.derivationLen; i++){
+        der.derivation[i] = littleEndianToInt(path+4*(i+1), 4);
+    }
+    PSBTDerivation * list = new PSBTDerivation[*len+1];
+    for(size_t i=0; i<*len; i++){
+        list[i] = (*derivations)[i];
+    }
+    list[*len] = der;
+    delete [] *derivations;
+    *derivations = list;
+    (*len)++;
+    return 1;
+}
+
 void PSBT::allocMeta(){
     txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
     for(size_t i=0; i<tx.inputsNumber; i++){
@@ -302,21 +333,27 @@ size_t PSBT::from_stream(ParseStream *s){
     return bytes_read;
 }
 
-int PSBT::add(uint8_t section, const Script * k, const Script * v){
-    if(section == 0 || section > 1+tx.inputsNumber+tx.outputsNumber){
+int PSBT::add(size_t section, const Script * k, const Script * v){
+    if(section == 0 || section >= (size_t)tx.inputsNumber+tx.outputsNumber+1 || txInsMeta == NULL || txOutsMeta == NULL){
         return 0;
     }
+    if(k->scriptLen == 0){ // there is no key
+        return -1;
+    }
     uint8_t * key_arr = (uint8_t *)calloc(k->length(), sizeof(uint8_t));
     if(key_arr == NULL){ return 0; }
     k->serialize(key_arr, k->length());
     uint8_t * val_arr = (uint8_t *)calloc(v->length(), sizeof(uint8_t));
     if(val_arr == NULL){ free(key_arr); return 0; }
     v->serialize(val_arr, v->length());
-    uint8_t key_code = key_arr[lenVarInt(k->length())];
+    // key and value without the length
+    uint8_t * key_data = key_arr + (k->length()-k->scriptLen);
+    uint8_t * val_data = val_arr + (v->length()-v->scriptLen);
+    uint8_t key_code = key_data[0];
     int res = 0;
 
-    if(section < 1+tx.inputsNumber){ // input section
-        uint8_t input = section-1;
+    if(section < (size_t)tx.inputsNumber+1){ // input section
+        size_t input = section-1;
         switch(key_code){
             case 0: { // PSBT_IN_NON_WITNESS_UTXO
                 // we need to verify that tx hashes to prevtx_hash
@@ -326,8 +363,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     break;
                 }
                 Tx tempTx;
-                tempTx.parse(val_arr+lenVarInt(v->length()), v->length()-lenVarInt(v->length()));
-                if(tempTx.getStatus() != PARSING_DONE){
+                if(tempTx.parse(val_data, v->scriptLen) != v->scriptLen || tempTx.getStatus() != PARSING_DONE){
                     res = -2;
                     break;
                 }
@@ -350,11 +386,12 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                txInsMeta[input].txOut.parse(val_arr+lenVarInt(v->length()), v->length()-lenVarInt(v->length()));
-                if(txInsMeta[input].txOut.getStatus() != PARSING_DONE){
+                TxOut txOut;
+                if(txOut.parse(val_data, v->scriptLen) != v->scriptLen || txOut.getStatus() != PARSING_DONE){
                     res = -2;
                     break;
                 }
+                txInsMeta[input].txOut = txOut;
                 res = 1;
                 break;
             }
@@ -364,16 +401,20 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     break;
                 }
                 PSBTPartialSignature psig;
-                psig.pubkey.parse(key_arr+2, k->length()-2);
-                if(psig.pubkey.getStatus() != PARSING_DONE){
+                if(psig.pubkey.parse(key_data+1, k->scriptLen-1) != k->scriptLen-1 || psig.pubkey.getStatus() != PARSING_DONE){
                     res = -1;
                     break;
                 }
-                psig.signature.parse(val_arr+1, v->length()-1);
-                if(psig.signature.getStatus() != PARSING_DONE){
+                // der signature and sighash type
+                if(v->scriptLen < 1 || psig.signature.parse(val_data, v->scriptLen-1) != v->scriptLen-1 || psig.signature.getStatus() != PARSING_DONE){
                     res = -2;
                     break;
                 }
+                psig.sighash = val_data[v->scriptLen-1];
+                if(txInsMeta[input].signaturesLen == 0xFF){ // can't count more
+                    res = -1;
+                    break;
+                }
                 if(txInsMeta[input].signaturesLen == 0){
                     txInsMeta[input].signaturesLen = 1;
                     txInsMeta[input].signatures = new PSBTPartialSignature[txInsMeta[input].signaturesLen];
@@ -418,32 +459,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                if(txInsMeta[input].derivationsLen == 0){
-                    txInsMeta[input].derivationsLen = 1;
-                    txInsMeta[input].derivations = new PSBTDerivation[txInsMeta[input].derivationsLen];
-                }else{
-                    PSBTDerivation * p = txInsMeta[input].derivations;
-                    txInsMeta[input].derivations = new PSBTDerivation[txInsMeta[input].derivationsLen+1];
-                    for(size_t i=0; i<txInsMeta[input].derivationsLen; i++){
-                        txInsMeta[input].derivations[i] = p[i];
-                    }
-                    txInsMeta[input].derivationsLen++;
-                    delete [] p;
-                }
-                PSBTDerivation * der = &txInsMeta[input].derivations[txInsMeta[input].derivationsLen-1];
-                der->pubkey.parse(key_arr+2, k->length()-2);
-                if(der->pubkey.getStatus() != PARSING_DONE){
-                    res = -1;
-                    break;
-                }
-                memcpy(der->fingerprint, val_arr+lenVarInt(v->length()), 4);
-                der->derivationLen = (v->length()-lenVarInt(v->length())-4)/sizeof(uint32_t);
-                der->derivation = (uint32_t *)calloc(der->derivationLen, sizeof(uint32_t));
-                if(der->derivation == NULL){ der->derivationLen = 0; res = -1; break; }
-                for(size_t i=0; i<der->derivationLen; i++){
-                    der->derivation[i] = littleEndianToInt(val_arr+lenVarInt(v->length())+4*(i+1),4);
-                }
-                res = 1;
+                res = addDerivation(&txInsMeta[input].derivations, &txInsMeta[input].derivationsLen, key_data+1, k->scriptLen-1, val_data, v->scriptLen);
                 break;
             }
             case 7: { // PSBT_IN_FINAL_SCRIPTSIG
@@ -456,11 +472,12 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
             }
         }
     }else{ // output section
-        uint8_t output = section-1-tx.inputsNumber;
+        size_t output = section-1-tx.inputsNumber;
         switch(key_code){
             case 0: { // PSBT_OUT_REDEEM_SCRIPT
                 if(k->length() != 2){
-                    return -1;
+                    res = -1;
+                    break;
                 }
                 txOutsMeta[output].redeemScript.parse(val_arr, v->length());
                 res = 1;
@@ -468,7 +485,8 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
             }
             case 1: { // PSBT_OUT_WITNESS_SCRIPT
                 if(k->length() != 2){
-                    return -1;
+                    res = -1;
+                    break;
                 }
                 txOutsMeta[output].witnessScript.parse(val_arr, v->length());
                 res = 1;
@@ -480,32 +498,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                if(txOutsMeta[output].derivationsLen == 0){
-                    txOutsMeta[output].derivationsLen = 1;
-                    txOutsMeta[output].derivations = new PSBTDerivation[txOutsMeta[output].derivationsLen];
-                }else{
-                    PSBTDerivation * p = txOutsMeta[output].derivations;
-                    txOutsMeta[output].derivations = new PSBTDerivation[txOutsMeta[output].derivationsLen+1];
-                    for(int i=0; i<txOutsMeta[output].derivationsLen; i++){
-                        txOutsMeta[output].derivations[i] = p[i];
-                    }
-                    txOutsMeta[output].derivationsLen++;
-                    delete [] p;
-                }
-                PSBTDerivation * der = &txOutsMeta[output].derivations[txOutsMeta[output].derivationsLen-1];
-                der->pubkey.parse(key_arr+2, k->length()-2);
-                if(der->pubkey.getStatus() != PARSING_DONE){
-                    res = -1;
-                    break;
-                }
-                memcpy(der->fingerprint, val_arr+lenVarInt(v->length()), 4);
-                der->derivationLen = (v->length()-lenVarInt(v->length())-4)/sizeof(uint32_t);
-                der->derivation = (uint32_t *)calloc(der->derivationLen, sizeof(uint32_t));
-                if(der->derivation == NULL){ der->derivationLen = 0; res = -1; break; }
-                for(size_t i=0; i<der->derivationLen; i++){
-                    der->derivation[i] = littleEndianToInt(val_arr+lenVarInt(v->length())+4*(i+1),4);
-                }
-                res = 1;
+                res = addDerivation(&txOutsMeta[output].derivations, &txOutsMeta[output].derivationsLen, key_data+1, k->scriptLen-1, val_data, v->scriptLen);
                 break;
             }
         }
@@ -553,7 +546,7 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
                 uint8_t val_arr[100];
                 uint8_t val_len = 1+txInsMeta[input].signatures[i].signature.serialize(val_arr+1, 98);
                 val_arr[0] = val_len;
-                val_arr[val_len] = SIGHASH_ALL;
+                val_arr[val_len] = txInsMeta[input].signatures[i].sighash;
                 while(s->available() && bytes_written+offset-cur < (size_t)val_len+1){
                     s->write(val_arr[bytes_written+offset-cur]);
                     bytes_written++;
diff --git a/src/PSBT.h b/src/PSBT.h
index 02c6f31..79f4351 100644
--- a/src/PSBT.h
+++ b/src/PSBT.h
@@ -24,6 +24,8 @@ typedef struct{
     PublicKey pubkey;
     /** \brief Signature we generated */
     Signature signature;
+    /** \brief SigHash type of the signature */
+    uint8_t sighash;
 } PSBTPartialSignature;
 
 /** \brief Data required for input signing */
@@ -87,7 +89,7 @@ public:
     PSBTOutputMetadata * txOutsMeta;
 
     /** \brief adds key-value pair to section */
-    int add(uint8_t section, const Script * k, const Script * v);
+    int add(size_t section, const Script * k, const Script * v);
     /** \brief Signes everything it can with keys derived from root HD private key */
     uint8_t sign(const HDPrivateKey root);
     /** \brief parses psbt transaction from base64 encoded string */
-- 
2.43.0


From 1f21a5d48af5d5241c7dcf2e0810b6361aee5f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:35 +0000
Subject: [PATCH 40/52] fix: PSBTs can be parsed in chunks, counts of inputs
 and outputs don't wrap, trailing data in the transaction is refused

---
 src/PSBT.cpp | 127 +++++++++++++++------------------------------------
 src/PSBT.h   |   2 +-
 2 files changed, 39 insertions(+), 90 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 51870f8..94b13e9 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -230,102 +230,51 @@ size_t PSBT::from_stream(ParseStream *s){
             return bytes_read;
         }
     }
-    // global scope
-    if(bytes_read+bytes_parsed == last_key_pos){
-        bytes_read += s->parse(&key);
-        bytes_read += s->parse(&value);
-    }
-    while(s->available() && key.getStatus() == PARSING_INCOMPLETE){
-        bytes_read += s->parse(&key);
-    }
-    if(key.getStatus() == PARSING_FAILED){
-        status = PARSING_FAILED;
-        ubtc_errno = UBTC_ERR_PSBT_KEY;
-        bytes_parsed += bytes_read;
-        return bytes_read;
-    }
-    while(s->available() && value.getStatus() == PARSING_INCOMPLETE){
-        bytes_read += s->parse(&value);
-    }
-    if(value.getStatus() == PARSING_FAILED){
-        status = PARSING_FAILED;
-        ubtc_errno = UBTC_ERR_PSBT_VALUE;
-        bytes_parsed += bytes_read;
-        return bytes_read;
-    }
-    if(last_key_pos == 5 && value.getStatus() == PARSING_DONE && key.getStatus() == PARSING_DONE){
-        uint8_t * arr = (uint8_t *)calloc(key.length(), sizeof(uint8_t));
-        if(arr == NULL){ status = PARSING_FAILED; return 0; }
-        key.serialize(arr, key.length());
-        if(key.length() != 2 || arr[0] != 1 || arr[1] != 0){
-            status = PARSING_FAILED;
-            ubtc_errno = UBTC_ERR_PSBT_SCOPE;
-        }
-        free(arr);
-        if(status == PARSING_FAILED){
-            bytes_parsed += bytes_read;
-            return bytes_read;
-        }
-        arr = (uint8_t *)calloc(value.length(), sizeof(uint8_t));
-        if(arr == NULL){ status = PARSING_FAILED; return 0; }
-        value.serialize(arr, value.length());
-        size_t l = lenVarInt(value.length());
-        tx.parse(arr+l, value.length()-l);
-        if(tx.getStatus() != PARSING_DONE){
-            status = PARSING_FAILED;
-            tx = Tx(); // there is no metadata for inputs and outputs
-        }
-        free(arr);
-        if(status == PARSING_FAILED){
-            bytes_parsed += bytes_read;
-            return bytes_read;
-        }
-        allocMeta();
-        last_key_pos += key.length()+value.length();
-    }
-    uint8_t sections_number = 0;
-    if(last_key_pos > 5){ // tx is already parsed
-        sections_number = 1+tx.inputsNumber+tx.outputsNumber;
-    }
-    // parsing keys and values
-    while(s->available() && current_section < sections_number){
-        if(key.getStatus() == PARSING_DONE && value.getStatus() == PARSING_DONE){
+    // key-value pairs and delimiters, can be cut anywhere
+    while(status == PARSING_INCOMPLETE && bytes_read+bytes_parsed >= 5 && s->available()){
+        if(bytes_read+bytes_parsed == last_key_pos || key.getStatus() == PARSING_INCOMPLETE){
             bytes_read += s->parse(&key);
-        }
-        if(key.getStatus() == PARSING_DONE){
-            if(key.length() == 1){ // delimiter
-                current_section ++;
-                last_key_pos += key.length();
-                continue;
-            }else{
-                bytes_read += s->parse(&value);
+            if(key.getStatus() == PARSING_DONE && key.scriptLen == 0){ // delimiter
+                if(txInsMeta == NULL){ // transaction is missing
+                    status = PARSING_FAILED;
+                    ubtc_errno = UBTC_ERR_PSBT_SCOPE;
+                }else{
+                    current_section++;
+                    last_key_pos = bytes_read+bytes_parsed;
+                    if(current_section == (size_t)tx.inputsNumber+tx.outputsNumber+1){
+                        status = PARSING_DONE;
+                    }
+                }
+            }else if(key.getStatus() == PARSING_FAILED){
+                status = PARSING_FAILED;
+                ubtc_errno = UBTC_ERR_PSBT_KEY;
             }
-        }
-        if(key.getStatus() == PARSING_FAILED || value.getStatus() == PARSING_FAILED){
-            status = PARSING_FAILED;
-            ubtc_errno = (key.getStatus() == PARSING_FAILED) ? UBTC_ERR_PSBT_KEY : UBTC_ERR_PSBT_VALUE;
-            bytes_parsed += bytes_read;
-            return bytes_read;
-        }
-        if(key.getStatus() == PARSING_INCOMPLETE){
-            bytes_read += s->parse(&key);
-        }
-        if(value.getStatus() == PARSING_INCOMPLETE){
+        }else{
             bytes_read += s->parse(&value);
-        }
-        if(key.getStatus() == PARSING_DONE && value.getStatus() == PARSING_DONE){
-            int res = add(current_section, &key, &value);
-            if(res < 0){
+            if(value.getStatus() == PARSING_DONE){
+                last_key_pos = bytes_read+bytes_parsed;
+                if(txInsMeta == NULL){ // the first pair should be the transaction
+                    if(key.scriptLen != 1 || key.scriptArray[0] != 0){
+                        status = PARSING_FAILED;
+                        ubtc_errno = UBTC_ERR_PSBT_SCOPE;
+                    }else if(tx.parse(value.scriptArray, value.scriptLen) != value.scriptLen || tx.getStatus() != PARSING_DONE){
+                        status = PARSING_FAILED;
+                        ubtc_errno = UBTC_ERR_PSBT_TX;
+                        tx = Tx(); // there is no metadata for inputs and outputs
+                    }else{
+                        allocMeta();
+                    }
+                }else if(add(current_section, &key, &value) < 0){
+                    status = PARSING_FAILED;
+                    ubtc_errno = UBTC_ERR_PSBT_SCOPE;
+                }
+            }else if(value.getStatus() == PARSING_FAILED){
                 status = PARSING_FAILED;
-                ubtc_errno = UBTC_ERR_PSBT_SCOPE;
-                bytes_parsed += bytes_read;
-                return bytes_read;
+                ubtc_errno = UBTC_ERR_PSBT_VALUE;
             }
-            last_key_pos += key.length() + value.length();
         }
     }
-    if(current_section == sections_number && sections_number > 0){
-        status = PARSING_DONE;
+    if(status == PARSING_DONE){
         key = Script();
         value = Script();
     }
diff --git a/src/PSBT.h b/src/PSBT.h
index 79f4351..9aa9cce 100644
--- a/src/PSBT.h
+++ b/src/PSBT.h
@@ -74,7 +74,7 @@ protected:
     virtual size_t to_stream(SerializeStream *s, size_t offset = 0) const;
     Script key; // key for parsing
     Script value; // value for parsing
-    uint8_t current_section;
+    size_t current_section;
     size_t last_key_pos;
     void allocMeta(); // creates empty metadata for all inputs and outputs
     void freeMeta();
-- 
2.43.0


From 6a8b28ce7926128f43e35f9effc201592c76c729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:35 +0000
Subject: [PATCH 41/52] fix: PSBT serialization wrote delimiters past the end
 of the buffer and repeated them from an offset

---
 src/PSBT.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 94b13e9..b3f77e2 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -477,11 +477,11 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
         bytes_written += s->serialize(&tx, offset+bytes_written-cur);
     }
     cur+=tx.length();
-    uint8_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
-    uint8_t section = 0;
+    size_t sections_number = (size_t)tx.inputsNumber + tx.outputsNumber + 1;
+    size_t section = 0;
     while(s->available() && section < sections_number){
-        if(section > 0 && section < tx.inputsNumber+1){
-            uint8_t input = section-1;
+        if(section > 0 && section < (size_t)tx.inputsNumber+1){
+            size_t input = section-1;
             for(size_t i=0; i<txInsMeta[input].signaturesLen; i++){
                 uint8_t key_arr[67];
                 key_arr[1] = 0x02; // PSBT_IN_PARTIAL_SIG
@@ -503,8 +503,10 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
                 cur += val_len+1;
             }
         }
-        s->write(0);
-        bytes_written++;
+        if(s->available() && bytes_written+offset == cur){
+            s->write(0);
+            bytes_written++;
+        }
         section++;
         cur++;
     }
@@ -512,7 +514,7 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
 }
 
 size_t PSBT::length() const{
-    uint8_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
+    size_t sections_number = (size_t)tx.inputsNumber + tx.outputsNumber + 1;
     size_t len = 7 + lenVarInt(tx.length()) + tx.length() + sections_number;
     for(size_t input=0; input<tx.inputsNumber; input++){
         for(size_t i=0; i<txInsMeta[input].signaturesLen; i++){
-- 
2.43.0


From b88c3e90d187eecf02c578a25bc79e0dc9cb0a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:35 +0000
Subject: [PATCH 42/52] fix: PSBT signing read past the end of short derivation
 paths and added the same signature again when repeated

---
 src/PSBT.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index b3f77e2..2014290 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -360,6 +360,18 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
                     break;
                 }
                 psig.sighash = val_data[v->scriptLen-1];
+                // one signature per public key
+                bool found = false;
+                for(size_t i=0; i<txInsMeta[input].signaturesLen; i++){
+                    if(txInsMeta[input].signatures[i].pubkey == psig.pubkey && txInsMeta[input].signatures[i].pubkey.compressed == psig.pubkey.compressed){
+                        txInsMeta[input].signatures[i] = psig;
+                        found = true;
+                    }
+                }
+                if(found){
+                    res = 1;
+                    break;
+                }
                 if(txInsMeta[input].signaturesLen == 0xFF){ // can't count more
                     res = -1;
                     break;
@@ -561,7 +573,7 @@ uint8_t PSBT::sign(const HDPrivateKey root){
                     }
                     PrivateKey pk;
                     // checking if cached key is ok
-                    if(memcmp(first_derivation, txInsMeta[i].derivations[j].derivation, first_derivation_len*sizeof(uint32_t))==0){
+                    if(txInsMeta[i].derivations[j].derivationLen >= first_derivation_len && memcmp(first_derivation, txInsMeta[i].derivations[j].derivation, first_derivation_len*sizeof(uint32_t))==0){
                         pk = account.derive(txInsMeta[i].derivations[j].derivation+first_derivation_len, txInsMeta[i].derivations[j].derivationLen - first_derivation_len);
                     }else{
                         pk = root.derive(txInsMeta[i].derivations[j].derivation, txInsMeta[i].derivations[j].derivationLen);
-- 
2.43.0


From f9cc16d3dcf5d63f2bcf851d2de227d0e59cb4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:35 +0000
Subject: [PATCH 43/52] fix: PSBT fee ignored overflows and isMine read past
 the last output

---
 src/PSBT.cpp | 16 ++++++++++++++--
 src/PSBT.h   |  4 ++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 2014290..147cb43 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -645,9 +645,15 @@ uint64_t PSBT::fee() const{
         if(txInsMeta[i].txOut.amount == 0){
             return 0;
         }
+        if(input_amount + txInsMeta[i].txOut.amount < input_amount){ // overflow
+            return 0;
+        }
         input_amount += txInsMeta[i].txOut.amount;
     }
     for(size_t i=0; i<tx.outputsNumber; i++){
+        if(output_amount + tx.txOuts[i].amount < output_amount){ // overflow
+            return 0;
+        }
         output_amount += tx.txOuts[i].amount;
     }
     if(output_amount > input_amount){
@@ -656,8 +662,11 @@ uint64_t PSBT::fee() const{
     return input_amount-output_amount;
 }
 
-bool PSBT::isMine(uint8_t outputNumber, const HDPublicKey xpub) const{
+bool PSBT::isMine(size_t outputNumber, const HDPublicKey xpub) const{
     bool mine = false;
+    if(outputNumber >= tx.outputsNumber || txOutsMeta == NULL){
+        return false;
+    }
     if(txOutsMeta[outputNumber].derivationsLen > 0){
         for(unsigned int j=0; j<txOutsMeta[outputNumber].derivationsLen; j++){
             HDPublicKey pub = xpub.derive(txOutsMeta[outputNumber].derivations[j].derivation, txOutsMeta[outputNumber].derivations[j].derivationLen);
@@ -670,8 +679,11 @@ bool PSBT::isMine(uint8_t outputNumber, const HDPublicKey xpub) const{
     return mine;
 }
 
-bool PSBT::isMine(uint8_t outputNumber, const HDPrivateKey xprv) const{
+bool PSBT::isMine(size_t outputNumber, const HDPrivateKey xprv) const{
     bool mine = false;
+    if(outputNumber >= tx.outputsNumber || txOutsMeta == NULL){
+        return false;
+    }
     if(txOutsMeta[outputNumber].derivationsLen > 0){
         for(unsigned int j=0; j<txOutsMeta[outputNumber].derivationsLen; j++){
             HDPublicKey pub = xprv.derive(txOutsMeta[outputNumber].derivations[j].derivation, txOutsMeta[outputNumber].derivations[j].derivationLen).xpub();
diff --git a/src/PSBT.h b/src/PSBT.h
index 9aa9cce..18a144e 100644
--- a/src/PSBT.h
+++ b/src/PSBT.h
@@ -104,8 +104,8 @@ public:
     /** \brief Calculates fee if input amounts are known */
     uint64_t fee() const;
     /** \brief Verifies if output is mine */
-    bool isMine(uint8_t outputNumber, const HDPublicKey xpub) const;
-    bool isMine(uint8_t outputNumber, const HDPrivateKey xprv) const;
+    bool isMine(size_t outputNumber, const HDPublicKey xpub) const;
+    bool isMine(size_t outputNumber, const HDPrivateKey xprv) const;
     // TODO: add verify() function that checks all the fields (scripts, pubkeys etc)
     // TODO: add isChange() function that would verify the output with respect the inputs
     PSBT &operator=(PSBT const &other);
-- 
2.43.0


From 7c2b406a5d5cea72b8bc7af43a7e1b4d63354ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:58 +0000
Subject: [PATCH 44/52] fix: mnemonics of 15 and 21 words are generated but
 refused by checkMnemonic and mnemonicToEntropy

---
 src/utility/trezor/bip39.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utility/trezor/bip39.c b/src/utility/trezor/bip39.c
index e02422f..33b5933 100755
--- a/src/utility/trezor/bip39.c
+++ b/src/utility/trezor/bip39.c
@@ -116,7 +116,7 @@ int mnemonic_to_entropy(const char *mnemonic, uint8_t *entropy)
 	n++;
 
 	// check number of words
-	if (n != 12 && n != 18 && n != 24) {
+	if (n != 12 && n != 15 && n != 18 && n != 21 && n != 24) {
 		return 0;
 	}
 
@@ -167,7 +167,7 @@ int mnemonic_check(const char *mnemonic)
 {
 	uint8_t bits[32 + 1];
 	int seed_len = mnemonic_to_entropy(mnemonic, bits);
-	if (seed_len != (12 * 11) && seed_len != (18 * 11) && seed_len != (24 * 11)) {
+	if (seed_len != (12 * 11) && seed_len != (15 * 11) && seed_len != (18 * 11) && seed_len != (21 * 11) && seed_len != (24 * 11)) {
 		return 0;
 	}
 	int words = seed_len / 11;
@@ -176,8 +176,12 @@ int mnemonic_check(const char *mnemonic)
 	sha256_Raw(bits, words * 4 / 3, bits);
 	if (words == 12) {
 		return (bits[0] & 0xF0) == (checksum & 0xF0); // compare first 4 bits
+	} else if (words == 15) {
+		return (bits[0] & 0xF8) == (checksum & 0xF8); // compare first 5 bits
 	} else if (words == 18) {
 		return (bits[0] & 0xFC) == (checksum & 0xFC); // compare first 6 bits
+	} else if (words == 21) {
+		return (bits[0] & 0xFE) == (checksum & 0xFE); // compare first 7 bits
 	} else if (words == 24) {
 		return bits[0] == checksum; // compare 8 bits
 	}
-- 
2.43.0


From 24afa3e0d24a255db7cf01f41d028d77df5fccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:58 +0000
Subject: [PATCH 45/52] fix: generateMnemonic ignored the entropy string from
 its first zero byte on

---
 src/Bitcoin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 5580a23..13c974c 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -84,7 +84,7 @@ bool checkMnemonic(const char * mnemonic){
 }
 #else
 const char * generateMnemonic(uint8_t numWords, const String entropy_string){
-    return generateMnemonic(numWords, (uint8_t*)entropy_string.c_str(), strlen(entropy_string.c_str()));
+    return generateMnemonic(numWords, (uint8_t*)entropy_string.c_str(), entropy_string.length());
 }
 const char * generateMnemonic(const String entropy_string){
     return generateMnemonic(24, entropy_string);
-- 
2.43.0


From a7f03931d32ed3ba76f1335abf4760b34c72b43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:25 +0000
Subject: [PATCH 46/52] fix: mnemonic_to_seed overflows its salt buffer on
 passphrases longer than 256 characters

---
 src/utility/trezor/bip39.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility/trezor/bip39.c b/src/utility/trezor/bip39.c
index 33b5933..eceed19 100755
--- a/src/utility/trezor/bip39.c
+++ b/src/utility/trezor/bip39.c
@@ -193,6 +193,9 @@ void mnemonic_to_seed(const char *mnemonic, const char *passphrase, uint8_t seed
 {
 	int mnemoniclen = strlen(mnemonic);
 	int passphraselen = strlen(passphrase);
+	if (passphraselen > 256) {
+		passphraselen = 256;
+	}
 #if USE_BIP39_CACHE
 	// check cache
 	if (mnemoniclen < 256 && passphraselen < 64) {
-- 
2.43.0


From fd8835d3608ff43948556db20a70c324acb55603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:10 +0000
Subject: [PATCH 47/52] fix: schnorr_verify accepted (r, -s), aborted on s not
 below the order and never returned for an invalid key

---
 src/Bitcoin.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 13c974c..49d011a 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -451,6 +451,9 @@ bool PublicKey::verify(const Signature sig, const uint8_t hash[32]) const{
     return (ecdsa_verify_digest(&secp256k1, pub, signature, hash)==0);
 }
 bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32]) const{
+    if(!isValid()){
+        return false;
+    }
     PublicKey pub = *this;
     if(!pub.isEven()){
         pub = -pub;
@@ -459,6 +462,14 @@ bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32
     sig.serialize(rs, sizeof(rs));
     PublicKey R;
     R.from_x(rs, 32);
+    if(!R.isValid()){ // r is not the x coordinate of a point
+        return false;
+    }
+    bignum256 n;
+    bn_read_be(rs+32, &n);
+    if(!bn_is_less(&n, &secp256k1.order)){
+        return false;
+    }
     // calculate hash using tagged hash with "BIP0340/challenge" prefix
     uint8_t e[32];
     uint8_t tmp[32];
@@ -473,10 +484,9 @@ bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32
     tch.end(e);
     PrivateKey challenge(e);
     PublicKey S = challenge*pub + R;
-    S.x(tmp, sizeof(tmp));
     PrivateKey s(rs+32);
-    s.publicKey().x(e, 32);
-    return memcmp(tmp, e, 32) == 0;
+    // comparing only x coordinates would accept (r, -s) as well
+    return S == s.publicKey();
 };
 
 // ---------------------------------------------------------------- PrivateKey class
-- 
2.43.0


From 5f02114ce2a47580e6fdf1a6124b949aebe5b75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:56 +0000
Subject: [PATCH 48/52] fix: Signature::der refuses a buffer that is too small

---
 src/Bitcoin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 49d011a..e8b2bdd 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -262,6 +262,7 @@ size_t Signature::fromDer(const uint8_t * raw, size_t rawLen){
 }
 size_t Signature::der(uint8_t * bytes, size_t len) const{
     memzero(bytes, len);
+    if(len < Signature::length()){ return 0; }
     uint8_t _rlen = rlen();
     uint8_t _slen = slen();
     bytes[0] = 0x30;
-- 
2.43.0


From 553e4d3303b4e5c0c62a5dc47007bc4dd40fe507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:13 +0000
Subject: [PATCH 49/52] fix: descriptorChecksum refuses a zero byte, which
 strchr finds at the end of the alphabet

---
 src/PSBT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 147cb43..015eb25 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -55,7 +55,7 @@ size_t descriptorChecksum(const char * span, size_t spanLen, char * output, size
     for(size_t i=0; i<spanLen; i++){
         char ch = span[i];
         const char * pch = strchr(INPUT_CHARSET, ch);
-        if(pch==NULL){ // char not in the alphabet
+        if(ch==0 || pch==NULL){ // char not in the alphabet
             return 0;
         }
         size_t pos = pch - INPUT_CHARSET;
-- 
2.43.0


From 6f0b212ed8ad49facdf9713aa4606fc2072a0038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:33 +0000
Subject: [PATCH 50/52] fix: copying an Electrum transaction that is not parsed
 yet, and metadata of one without inputs

---
 src/Electrum.cpp | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index 13bdd26..e1463cc 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -2,23 +2,28 @@
 
 ElectrumTx::ElectrumTx(ElectrumTx const &other){
     tx = other.tx;
-    is_segwit = false;
-    txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
-    for(unsigned int i=0; i<tx.inputsNumber; i++){
-        txInsMeta[i] = other.txInsMeta[i];
+    is_segwit = other.is_segwit;
+    txInsMeta = NULL;
+    if(other.txInsMeta != NULL){ // not known until the transaction is parsed
+        txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
+        for(unsigned int i=0; i<tx.inputsNumber; i++){
+            txInsMeta[i] = other.txInsMeta[i];
+        }
     }
     status = other.status;
     bytes_parsed = other.bytes_parsed;
 }
 ElectrumTx& ElectrumTx::operator=(ElectrumTx const &other){
     if (this == &other){ return *this; } // self-assignment
-    if(tx.inputsNumber > 0){
-        delete [] txInsMeta;
-    }
+    delete [] txInsMeta;
+    txInsMeta = NULL;
     tx = other.tx;
-    txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
-    for(unsigned int i=0; i<tx.inputsNumber; i++){
-        txInsMeta[i] = other.txInsMeta[i];
+    is_segwit = other.is_segwit;
+    if(other.txInsMeta != NULL){ // not known until the transaction is parsed
+        txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
+        for(unsigned int i=0; i<tx.inputsNumber; i++){
+            txInsMeta[i] = other.txInsMeta[i];
+        }
     }
     status = other.status;
     bytes_parsed = other.bytes_parsed;
@@ -30,9 +35,7 @@ size_t ElectrumTx::from_stream(ParseStream *s){
         return 0;
     }
     if(status == PARSING_DONE){
-        if(tx.inputsNumber > 0){
-            delete [] txInsMeta;
-        }
+        delete [] txInsMeta;
         txInsMeta = NULL;
         tx = Tx();
         bytes_parsed = 0;
-- 
2.43.0


From cb363851f7f1c3850299e193604c2507270e497b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:33 +0000
Subject: [PATCH 51/52] fix: parsing an Electrum transaction with an invalid
 account key does not end

---
 src/Electrum.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index e1463cc..0be4aad 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -121,6 +121,11 @@ size_t ElectrumTx::from_stream(ParseStream *s){
             start += 7;
             while(s->available() && bytes_parsed+bytes_read < start + 78){
                 bytes_read+=s->parse(&txInsMeta[i].hd);
+                if(txInsMeta[i].hd.getStatus() == PARSING_FAILED){
+                    status = PARSING_FAILED;
+                    bytes_parsed += bytes_read;
+                    return bytes_read;
+                }
             }
             start += 78;
             while(s->available() && bytes_parsed+bytes_read < start + 4){
-- 
2.43.0


From 377d6028faf0b244c9497cfe493e73cebf14a5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:33 +0000
Subject: [PATCH 52/52] fix: fee of a legacy Electrum transaction used
 uninitialized amounts

---
 src/Electrum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index 0be4aad..7e8437b 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -73,6 +73,7 @@ size_t ElectrumTx::from_stream(ParseStream *s){
                         bytes_parsed+=bytes_read;
                         return bytes_read;
                     }
+                    txInsMeta[i].amount = 0; // unknown
                     txInsMeta[i].derivation[0] = arr[84] + (arr[85] << 8);
                     txInsMeta[i].derivation[1] = arr[86] + (arr[87] << 8);
                     tx.txIns[i].scriptSig = Script();
-- 
2.43.0

