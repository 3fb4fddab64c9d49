From ea63ac8e1ce8add23ca59aa4cfebcd4910e998b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:16 +0000
Subject: [PATCH 01/26] fix: Hash::put must hash buffered bytes before a large
 chunk

---
 emp-tool/utils/hash.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/emp-tool/utils/hash.h b/emp-tool/utils/hash.h
index 9f287a3..acd678f 100644
--- a/emp-tool/utils/hash.h
+++ b/emp-tool/utils/hash.h
@@ -23,9 +23,12 @@ class Hash { public:
 		EVP_MD_CTX_destroy(mdctx);
 	}
 	void put(const void * data, int nbyte) {
-		if (nbyte >= HASH_BUFFER_SIZE)
+		if (nbyte >= HASH_BUFFER_SIZE) {
+			// bytes buffered by earlier calls come first
+			EVP_DigestUpdate(mdctx, buffer, size);
+			size = 0;
 			EVP_DigestUpdate(mdctx, data, nbyte);
-		else if(size + nbyte < HASH_BUFFER_SIZE) {
+		} else if(size + nbyte < HASH_BUFFER_SIZE) {
 			memcpy(buffer+size, data, nbyte);
 			size+=nbyte;
 		} else {
-- 
2.43.0


From bcb3f3afb77e897cb04ff3cd5fcd8bad5de8e142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:43 +0000
Subject: [PATCH 02/26] fix: PRP(const char*) must install the key it is given

---
 emp-tool/utils/prp.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emp-tool/utils/prp.h b/emp-tool/utils/prp.h
index 08db0da..0ee4d5f 100644
--- a/emp-tool/utils/prp.h
+++ b/emp-tool/utils/prp.h
@@ -18,6 +18,8 @@ class PRP { public:
 	PRP(const char * key = nullptr) {
 		if(key == nullptr)
 			aes_set_key(zero_block);
+		else
+			aes_set_key(_mm_loadu_si128((const block *)key));
 	}
 
 	PRP(const block& key) {
-- 
2.43.0


From be72be7cc7afcce149b714c9b6b834f2ee3f9458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:43 +0000
Subject: [PATCH 03/26] fix: PRG::reseed must discard words buffered from the
 old stream

---
 emp-tool/utils/prg.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/utils/prg.h b/emp-tool/utils/prg.h
index 5c1dba1..5e64ca7 100644
--- a/emp-tool/utils/prg.h
+++ b/emp-tool/utils/prg.h
@@ -52,6 +52,7 @@ class PRG { public:
 		key = v;
 		AES_set_encrypt_key(v, &aes);
 		counter = 0;
+		ptr = 32;
 	}
 
 	void random_data(void *data, int nbytes) {
-- 
2.43.0


From 3a4f1ffccfe73dd47a86d39a548d6c52c7a492f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:43 +0000
Subject: [PATCH 04/26] fix: PRG unaligned requests must consume the same
 blocks on any address

---
 emp-tool/utils/prg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/utils/prg.h b/emp-tool/utils/prg.h
index 5e64ca7..3d3a37d 100644
--- a/emp-tool/utils/prg.h
+++ b/emp-tool/utils/prg.h
@@ -104,7 +104,7 @@ class PRG { public:
             }
         } else {
             block tmp[2];
-            random_block(tmp, 2);
+            random_block(tmp, (nbytes + (int)sizeof(block) - 1) / (int)sizeof(block));
             memcpy(data, tmp, nbytes);
         }
     }
-- 
2.43.0


From 1a3db8f61c18a38a6d1deba539a07f76b89c96cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:43 +0000
Subject: [PATCH 05/26] fix: MITCCRH::hash must not run past its scheduled keys
 when K varies

---
 emp-tool/utils/mitccrh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/utils/mitccrh.h b/emp-tool/utils/mitccrh.h
index 8164e85..0387765 100644
--- a/emp-tool/utils/mitccrh.h
+++ b/emp-tool/utils/mitccrh.h
@@ -45,7 +45,7 @@ class MITCCRH { public:
 	void hash(block * blks) {
 		assert(K <= BatchSize);
 		assert(BatchSize % K == 0);
-		if(key_used == BatchSize) renew_ks();
+		if(key_used + K > BatchSize) renew_ks();
 
 		block tmp[K*H];
 		for(int i = 0; i < K*H; ++i)
-- 
2.43.0


From fdf9f5715d97efcb923de421421dc6e721406932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:18 +0000
Subject: [PATCH 06/26] fix: to_bool/from_bool reversed order must stay inside
 the array

---
 emp-tool/utils/utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emp-tool/utils/utils.hpp b/emp-tool/utils/utils.hpp
index 13e2cef..e5e730f 100644
--- a/emp-tool/utils/utils.hpp
+++ b/emp-tool/utils/utils.hpp
@@ -58,7 +58,7 @@ inline void int_to_bool(bool * data, T input, int len) {
 template<typename T>
 inline void to_bool(bool * data, const T * input, const int len, const bool reverse) {
 	for (int i = 0; i < len; ++i) {
-		data[reverse ? len - i : i] = (bool) ((((uint8_t *) input)[i / 8] & (((uint8_t) 1) << (i % 8))) != 0);
+		data[reverse ? len - 1 - i : i] = (bool) ((((uint8_t *) input)[i / 8] & (((uint8_t) 1) << (i % 8))) != 0);
 	}
 }
 
@@ -70,7 +70,7 @@ template<typename T>
 inline void from_bool(const bool * data, T * output, const int len, const bool reverse) {
 	for (int i = 0; i < len; ++i) {
     ((uint8_t *) output)[i / 8] &= (~(((uint8_t) 1) << (i % 8))); // sets bit to 0
-    ((uint8_t *) output)[i / 8] |= (((uint8_t) data[reverse ? len - i : i]) << (i % 8)); // sets bit to bool[i]
+    ((uint8_t *) output)[i / 8] |= (((uint8_t) data[reverse ? len - 1 - i : i]) << (i % 8)); // sets bit to bool[i]
 	}
 }
 
-- 
2.43.0


From 1d3151c8aef5d4f02224eb399b75b6acc8ed01e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:18 +0000
Subject: [PATCH 07/26] fix: MemIO::clear must also reset the read position

---
 emp-tool/io/mem_io_channel.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/io/mem_io_channel.h b/emp-tool/io/mem_io_channel.h
index 48f1a00..aa61624 100644
--- a/emp-tool/io/mem_io_channel.h
+++ b/emp-tool/io/mem_io_channel.h
@@ -31,6 +31,7 @@ class MemIO: public IOChannel<MemIO> { public:
 	}
 	void clear() {
 		size = 0;
+		read_pos = 0;
 	}
 	void send_data_internal(const void * data, int64_t len) {
 		if(size + len >= cap){
-- 
2.43.0


From b29711a4b068187c76e60467c4f0faee36332735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:17 +0000
Subject: [PATCH 08/26] fix: half-gates num_and must count executed gates, not
 scheduled keys

---
 emp-tool/gc/halfgate_eva.h | 2 +-
 emp-tool/gc/halfgate_gen.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/emp-tool/gc/halfgate_eva.h b/emp-tool/gc/halfgate_eva.h
index e79dfcb..ad4b594 100644
--- a/emp-tool/gc/halfgate_eva.h
+++ b/emp-tool/gc/halfgate_eva.h
@@ -58,7 +58,7 @@ public:
 		return xor_gate(a, public_label(true));
 	}
 	uint64_t num_and() override {
-		return mitccrh.gid/2;
+		return (mitccrh.gid - 8 + mitccrh.key_used)/2;
 	}
 };
 }
diff --git a/emp-tool/gc/halfgate_gen.h b/emp-tool/gc/halfgate_gen.h
index 7f8837d..ddf86c4 100644
--- a/emp-tool/gc/halfgate_gen.h
+++ b/emp-tool/gc/halfgate_gen.h
@@ -76,7 +76,7 @@ public:
 		return xor_gate(a, public_label(true));
 	}
 	uint64_t num_and() override {
-		return mitccrh.gid/2;
+		return (mitccrh.gid - 8 + mitccrh.key_used)/2;
 	}
 };
 }
-- 
2.43.0


From dad62df6cf533a814d05b40befd6047eec4a18c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:08 +0000
Subject: [PATCH 09/26] fix: privacy-free evaluation must use the whole table
 block, not its low word

---
 emp-tool/gc/privacy_free_eva.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/gc/privacy_free_eva.h b/emp-tool/gc/privacy_free_eva.h
index e239b3e..fce9e2e 100644
--- a/emp-tool/gc/privacy_free_eva.h
+++ b/emp-tool/gc/privacy_free_eva.h
@@ -27,7 +27,7 @@ inline block privacy_free_eval(block A, block B, const block &table, uint64_t id
 	}
 	if (sa) {
 		*((char *) &HA) |= 0x01;
-		W = HA ^ table[0];
+		W = HA ^ table;
 		W = W ^ B;
 	} else {
 		*((char *) &HA) &= 0xfe;
-- 
2.43.0


From e6b3141737f9180ce9c94784107af242c201e85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:17 +0000
Subject: [PATCH 10/26] fix: emitted circuits must output revealed public
 constants, not input wire 0

---
 emp-tool/execution/plain_prot.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/emp-tool/execution/plain_prot.h b/emp-tool/execution/plain_prot.h
index 2330915..9fd5004 100644
--- a/emp-tool/execution/plain_prot.h
+++ b/emp-tool/execution/plain_prot.h
@@ -46,7 +46,10 @@ public:
 	void reveal(bool* b, int party, const block * label, int length) override {
 		for (int i = 0; i < length; ++i) {
 			uint64_t *arr = (uint64_t*) (&label[i]);
-			output_vec.push_back(arr[1]);
+			if(cast_circ_exec->is_public(label[i], party))
+				output_vec.push_back(cast_circ_exec->get_value(label[i]) ? -2 : -1);//no wire: constant one/zero
+			else
+				output_vec.push_back(arr[1]);
 			b[i] = cast_circ_exec->get_value(label[i]);
 		}
 		n3+=length;
@@ -64,7 +67,10 @@ inline void finalize_plain_prot () {
 	int64_t z_index = cast_circ_exec->gid++;
 	cast_circ_exec->fout<<2<<" "<<1<<" "<<0<<" "<<0<<" "<<z_index<<" XOR"<<endl;
 	for (auto v : cast_prot_exec->output_vec) {
-		cast_circ_exec->fout<<2<<" "<<1<<" "<<z_index<<" "<<v<<" "<<cast_circ_exec->gid++<<" XOR"<<endl;
+		if(v == -2)
+			cast_circ_exec->fout<<1<<" "<<1<<" "<<z_index<<" "<<cast_circ_exec->gid++<<" INV"<<endl;
+		else
+			cast_circ_exec->fout<<2<<" "<<1<<" "<<z_index<<" "<<(v == -1 ? z_index : v)<<" "<<cast_circ_exec->gid++<<" XOR"<<endl;
 	}
 	cast_circ_exec->gates += (1+cast_prot_exec->output_vec.size());
 	cast_circ_exec->finalize();
-- 
2.43.0


From 73b893ee46829575df396d51ef11058533a152d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:17 +0000
Subject: [PATCH 11/26] fix: BristolFashion::from_file must not add to the
 sizes of a previous load

---
 emp-tool/circuits/circuit_file.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/circuits/circuit_file.h b/emp-tool/circuits/circuit_file.h
index 6159ac0..71ec9f3 100644
--- a/emp-tool/circuits/circuit_file.h
+++ b/emp-tool/circuits/circuit_file.h
@@ -146,6 +146,7 @@ class BristolFashion { public:
 		int tmp;
 		(void)fscanf(f, "%d%d\n", &num_gate, &num_wire);
 		int niov = 0;
+		num_input = num_output = 0;
 		(void)fscanf(f, "%d", &niov);
 		for(int i = 0; i < niov; ++i) {
 			(void)fscanf(f, "%d", &tmp);
-- 
2.43.0


From 276143bf5012bccbf8e10a73bd7187f77f15c5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:17 +0000
Subject: [PATCH 12/26] fix: AES-CTR counter must carry into the upper 64 bits
 of the IV

---
 emp-tool/circuits/aes_128_ctr.h | 34 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/emp-tool/circuits/aes_128_ctr.h b/emp-tool/circuits/aes_128_ctr.h
index 6a1f278..dd4484e 100644
--- a/emp-tool/circuits/aes_128_ctr.h
+++ b/emp-tool/circuits/aes_128_ctr.h
@@ -23,6 +23,19 @@ extern unsigned char emp_tool_circuits_files_bristol_fashion_aes_128_txt[];
 
 namespace emp {
 
+// Add n to the 128-bit big-endian counter iv (modulo 2^128)
+inline __m128i aes_128_ctr_increment(__m128i iv, uint64_t n) {
+	uint8_t * bytes = (uint8_t *)(&iv);
+	unsigned int carry = 0;
+	for(int i = 15; i >= 0; --i) {
+		carry += bytes[i] + (unsigned int)(n & 0xff);
+		bytes[i] = (uint8_t)carry;
+		carry >>= 8;
+		n >>= 8;
+	}
+	return iv;
+}
+
 // Calculate the AES_128_CTR encryption of some bytes
 // (length refers to the number of elements of type T in the array "input").
 template<typename T>
@@ -35,14 +48,7 @@ int aes_128_ctr(const __m128i key,
 	const size_t num_bytes = (input == nullptr) ? length : (length * sizeof(T));
 	__m128i counter = iv;
 	if (start_chunk != 0) { // increment iv, but it's big-endian, so it's funky
-		uint64_t count;
-		for(size_t i = 0; i < 8; ++i) {
-			((uint8_t *)(&count))[i] = ((uint8_t *)(&counter))[15 - i];
-		}
-		count += start_chunk;
-		for(size_t i = 0; i < 8; ++i) {
-			((uint8_t *)(&counter))[15 - i] = ((uint8_t *)(&count))[i];
-		}
+		counter = aes_128_ctr_increment(iv, start_chunk);
 	}
 	if (input == nullptr && output == nullptr) {
 		std::cerr << "input and output of aes_128_ctr can't both be null pointers\n"<<std::flush;
@@ -208,17 +214,9 @@ class AES_128_CTR_Calculator { public:
 		}
 
 		int answer;
-		__m128i counter = iv;
-		uint64_t count;
-		for(size_t j = 0; j < 8; ++j) {
-			((uint8_t *)(&count))[j] = ((uint8_t *)(&counter))[15 - j];
-		}
-		count += start_chunk;
+		__m128i counter = aes_128_ctr_increment(iv, start_chunk);
 
 		for (uint64_t i = 0; (128 * i) < length; ++i) {
-			for(size_t j = 0; j < 8; ++j) {
-				((uint8_t *)(&counter))[15 - j] = ((uint8_t *)(&count))[j];
-			}
 			answer = this->aes_128_ctr(nullptr,
 					&(emp::Integer(128, &counter, party).bits[0].bit),
 					(input == nullptr ) ? nullptr : &(input[ 128 * i]),
@@ -229,7 +227,7 @@ class AES_128_CTR_Calculator { public:
 			if (answer != 0) {
 				return answer;
 			}
-			++count;
+			counter = aes_128_ctr_increment(counter, 1);
 		}
 
 		return 0;
-- 
2.43.0


From 9ae3ae27eb5f8f87c446ac5b173e083cb06449d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:03 +0000
Subject: [PATCH 13/26] fix: NetIO no longer loses data when sending while
 received input is still buffered

---
 emp-tool/io/net_io_channel.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/emp-tool/io/net_io_channel.h b/emp-tool/io/net_io_channel.h
index 6566564..fd0b74f 100644
--- a/emp-tool/io/net_io_channel.h
+++ b/emp-tool/io/net_io_channel.h
@@ -25,6 +25,8 @@ class NetIO: public IOChannel<NetIO> { public:
 	int consocket = -1;
 	FILE * stream = nullptr;
 	char * buffer = nullptr;
+	FILE * recv_stream = nullptr;
+	char * recv_buffer = nullptr;
 	bool has_sent = false;
 	string addr;
 	int port;
@@ -78,10 +80,16 @@ class NetIO: public IOChannel<NetIO> { public:
 			}
 		}
 		set_nodelay();
-		stream = fdopen(consocket, "wb+");
+		// A socket cannot seek, so one stdio stream must not switch from reading to
+		// writing while input is still buffered: use one stream per direction.
+		stream = fdopen(consocket, "wb");
 		buffer = new char[NETWORK_BUFFER_SIZE];
 		memset(buffer, 0, NETWORK_BUFFER_SIZE);
 		setvbuf(stream, buffer, _IOFBF, NETWORK_BUFFER_SIZE);
+		recv_stream = fdopen(dup(consocket), "rb");
+		recv_buffer = new char[NETWORK_BUFFER_SIZE];
+		memset(recv_buffer, 0, NETWORK_BUFFER_SIZE);
+		setvbuf(recv_stream, recv_buffer, _IOFBF, NETWORK_BUFFER_SIZE);
 		if(!quiet)
 			std::cout << "connected\n";
 	}
@@ -101,7 +109,9 @@ class NetIO: public IOChannel<NetIO> { public:
 	~NetIO(){
 		flush();
 		fclose(stream);
+		fclose(recv_stream);
 		delete[] buffer;
+		delete[] recv_buffer;
 	}
 
 	void set_nodelay() {
@@ -136,7 +146,7 @@ class NetIO: public IOChannel<NetIO> { public:
 		has_sent = false;
 		size_t sent = 0;
 		while(sent < len) {
-			size_t res = fread(sent + (char*)data, 1, len - sent, stream);
+			size_t res = fread(sent + (char*)data, 1, len - sent, recv_stream);
 			if (res > 0)
 				sent += res;
 			else
-- 
2.43.0


From cb49fca6bcdb9da6a658f03a1a27e5fb44162178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:38 +0000
Subject: [PATCH 14/26] fix: HighSpeedNetIO flush pads from inside its own
 initialised buffer

---
 emp-tool/io/highspeed_net_io_channel.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index 4400bad..97b76cd 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -33,6 +33,7 @@ class SubChannel { public:
 		buf = new char[NETWORK_BUFFER_SIZE2];
 		stream = fdopen(sock, "wb+");
 		memset(stream_buf, 0, NETWORK_BUFFER_SIZE);
+		memset(buf, 0, NETWORK_BUFFER_SIZE2);
 		setvbuf(stream, stream_buf, _IOFBF, NETWORK_BUFFER_SIZE);
 	}
 	~SubChannel() {
@@ -49,7 +50,7 @@ class SenderSubChannel : public SubChannel { public:
 		flushes++;
 		send_data_raw(buf, ptr);
 		if (counter % NETWORK_BUFFER_SIZE2 != 0)
-			send_data_raw(buf + ptr, NETWORK_BUFFER_SIZE2 - counter % NETWORK_BUFFER_SIZE2);
+			send_data_raw(buf, NETWORK_BUFFER_SIZE2 - counter % NETWORK_BUFFER_SIZE2);
 		fflush(stream);
 		ptr = 0;
 	}
-- 
2.43.0


From fa9de7eb44a2217de460e83eb6f6bfee94e15354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:38 +0000
Subject: [PATCH 15/26] fix: HighSpeedNetIO and FileIO report a lost peer or
 short file instead of looping forever

---
 emp-tool/io/file_io_channel.h          | 10 +++++-----
 emp-tool/io/highspeed_net_io_channel.h |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/emp-tool/io/file_io_channel.h b/emp-tool/io/file_io_channel.h
index 173f78a..7b5807a 100644
--- a/emp-tool/io/file_io_channel.h
+++ b/emp-tool/io/file_io_channel.h
@@ -38,20 +38,20 @@ class FileIO: public IOChannel<FileIO> { public:
 		int sent = 0;
 		while(sent < len) {
 			int res = fwrite(sent+(char*)data, 1, len-sent, stream);
-			if (res >= 0)
+			if (res > 0)
 				sent+=res;
 			else
-				fprintf(stderr,"error: file_send_data %d\n", res);
+				error("file_send_data\n");
 		}
 	}
 	void recv_data_internal(void  * data, int len) {
 		int sent = 0;
 		while(sent < len) {
 			int res = fread(sent+(char*)data, 1, len-sent, stream);
-			if (res >= 0)
+			if (res > 0)
 				sent+=res;
-			else 
-				fprintf(stderr,"error: file_recv_data %d\n", res);
+			else
+				error("file_recv_data\n");
 		}
 	}
 };
diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index 97b76cd..2aad77c 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -71,10 +71,10 @@ class SenderSubChannel : public SubChannel { public:
 		int sent = 0;
 		while (sent < len) {
 			int res = fwrite(sent + (char *)data, 1, len - sent, stream);
-			if (res >= 0)
+			if (res > 0)
 				sent += res;
 			else
-				fprintf(stderr, "error: net_send_data %d\n", res);
+				error("net_send_data\n");
 		}
 	}
 };
@@ -114,10 +114,10 @@ class RecverSubChannel : public SubChannel { public:
 		int sent = 0;
 		while (sent < len) {
 			int res = fread(sent + (char *)data, 1, len - sent, stream);
-			if (res >= 0)
+			if (res > 0)
 				sent += res;
 			else
-				fprintf(stderr, "error: net_send_data %d\n", res);
+				error("net_recv_data\n");
 		}
 	}
 };
-- 
2.43.0


From e4419429d0200d5d70ca9aa0fdbb1ca9ee007654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:38 +0000
Subject: [PATCH 16/26] fix: send_bool/recv_bool use one wire format whatever
 the alignment of the arrays

---
 emp-tool/io/io_channel.h | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/emp-tool/io/io_channel.h b/emp-tool/io/io_channel.h
index 66d7750..e2d3878 100644
--- a/emp-tool/io/io_channel.h
+++ b/emp-tool/io/io_channel.h
@@ -50,30 +50,14 @@ class IOChannel { public:
 		}
 	}	
 
+	// The wire format must not depend on the alignment of either party's array,
+	// so always pack from the first element; the packing itself needs no alignment.
 	void send_bool(bool * data, size_t length) {
-		void * ptr = (void *)data;
-		size_t space = length;
-		const void * aligned = std::align(alignof(uint64_t), sizeof(uint64_t), ptr, space);
-		if(aligned == nullptr)
-			send_data(data, length);
-		else{
-			size_t diff = length - space;
-			send_data(data, diff);
-			send_bool_aligned((const bool*)aligned, length - diff);
-		}
+		send_bool_aligned(data, length);
 	}
 
 	void recv_bool(bool * data, size_t length) {
-		void * ptr = (void *)data;
-		size_t space = length;
-		void * aligned = std::align(alignof(uint64_t), sizeof(uint64_t), ptr, space);
-		if(aligned == nullptr)
-			recv_data(data, length);
-		else{
-			size_t diff = length - space;
-			recv_data(data, diff);
-			recv_bool_aligned((bool*)aligned, length - diff);
-		}
+		recv_bool_aligned(data, length);
 	}
 
 
-- 
2.43.0


From 5256fb2c1dd96aa942f60a3be16848ba3e79b7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:38 +0000
Subject: [PATCH 17/26] fix: HighSpeedNetIO closes each of its sockets exactly
 once

---
 emp-tool/io/highspeed_net_io_channel.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index 2aad77c..6ab69a6 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -206,8 +206,6 @@ class HighSpeedNetIO : public IOChannel<HighSpeedNetIO> { public:
 		}
 		delete schannel;
 		delete rchannel;
-		close(send_sock);
-		close(recv_sock);
 	}
 
 	void sync() {}
-- 
2.43.0


From cb4ec2688533153d1ce2ec68a1b58f6ef2ab3c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:01 +0000
Subject: [PATCH 18/26] fix: HighSpeedNetIO lost messages of 2 GB and more
 (length held in int)

---
 emp-tool/io/highspeed_net_io_channel.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index 6ab69a6..b98ec8c 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -55,7 +55,7 @@ class SenderSubChannel : public SubChannel { public:
 		ptr = 0;
 	}
 
-	void send_data(const void *data, int len) {
+	void send_data(const void *data, int64_t len) {
 		if (len <= NETWORK_BUFFER_SIZE2 - ptr) {
 			memcpy(buf + ptr, data, len);
 			ptr += len;
@@ -66,11 +66,11 @@ class SenderSubChannel : public SubChannel { public:
 		}
 	}
 
-	void send_data_raw(const void *data, int len) {
+	void send_data_raw(const void *data, int64_t len) {
 		counter += len;
-		int sent = 0;
+		int64_t sent = 0;
 		while (sent < len) {
-			int res = fwrite(sent + (char *)data, 1, len - sent, stream);
+			int64_t res = fwrite(sent + (char *)data, 1, len - sent, stream);
 			if (res > 0)
 				sent += res;
 			else
@@ -86,12 +86,12 @@ class RecverSubChannel : public SubChannel { public:
 		ptr = NETWORK_BUFFER_SIZE2;
 	}
 
-	void recv_data(void *data, int len) {
+	void recv_data(void *data, int64_t len) {
 		if (len <= NETWORK_BUFFER_SIZE2 - ptr) {
 			memcpy(data, buf + ptr, len);
 			ptr += len;
 		} else {
-			int remain = len;
+			int64_t remain = len;
 			memcpy(data, buf + ptr, NETWORK_BUFFER_SIZE2 - ptr);
 			remain -= NETWORK_BUFFER_SIZE2 - ptr;
 
@@ -109,11 +109,11 @@ class RecverSubChannel : public SubChannel { public:
 		}
 	}
 
-	void recv_data_raw(void *data, int len) {
+	void recv_data_raw(void *data, int64_t len) {
 		counter += len;
-		int sent = 0;
+		int64_t sent = 0;
 		while (sent < len) {
-			int res = fread(sent + (char *)data, 1, len - sent, stream);
+			int64_t res = fread(sent + (char *)data, 1, len - sent, stream);
 			if (res > 0)
 				sent += res;
 			else
@@ -231,7 +231,7 @@ class HighSpeedNetIO : public IOChannel<HighSpeedNetIO> { public:
 		FSM = 0;
 	}
 
-	void send_data_internal(const void *data, int len) {
+	void send_data_internal(const void *data, int64_t len) {
 		if (FSM == 1) {
 			rchannel->flush();
 		}
@@ -239,7 +239,7 @@ class HighSpeedNetIO : public IOChannel<HighSpeedNetIO> { public:
 		FSM = 2;
 	}
 
-	void recv_data_internal(void *data, int len) {
+	void recv_data_internal(void *data, int64_t len) {
 		if (FSM == 2) {
 			schannel->flush();
 		}
-- 
2.43.0


From dee19abf3bcd0f4ea720453c0621bcf266318e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:01 +0000
Subject: [PATCH 19/26] fix: FileIO ignored transfers of 2 GB and more (length
 held in int)

---
 emp-tool/io/file_io_channel.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/emp-tool/io/file_io_channel.h b/emp-tool/io/file_io_channel.h
index 7b5807a..217f7af 100644
--- a/emp-tool/io/file_io_channel.h
+++ b/emp-tool/io/file_io_channel.h
@@ -33,21 +33,21 @@ class FileIO: public IOChannel<FileIO> { public:
 	void reset() {
 		rewind(stream);
 	}
-	void send_data_internal(const void * data, int len) {
+	void send_data_internal(const void * data, int64_t len) {
 		bytes_sent += len;
-		int sent = 0;
+		int64_t sent = 0;
 		while(sent < len) {
-			int res = fwrite(sent+(char*)data, 1, len-sent, stream);
+			int64_t res = fwrite(sent+(char*)data, 1, len-sent, stream);
 			if (res > 0)
 				sent+=res;
 			else
 				error("file_send_data\n");
 		}
 	}
-	void recv_data_internal(void  * data, int len) {
-		int sent = 0;
+	void recv_data_internal(void  * data, int64_t len) {
+		int64_t sent = 0;
 		while(sent < len) {
-			int res = fread(sent+(char*)data, 1, len-sent, stream);
+			int64_t res = fread(sent+(char*)data, 1, len-sent, stream);
 			if (res > 0)
 				sent+=res;
 			else
-- 
2.43.0


From 07a934cd2985b3261de772a14c5e8d993bc7c930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:01 +0000
Subject: [PATCH 20/26] fix: Hash::put_block of 2^27 blocks or more passed a
 negative length

---
 emp-tool/utils/hash.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emp-tool/utils/hash.h b/emp-tool/utils/hash.h
index acd678f..d0c95b9 100644
--- a/emp-tool/utils/hash.h
+++ b/emp-tool/utils/hash.h
@@ -22,7 +22,7 @@ class Hash { public:
 	~Hash() {
 		EVP_MD_CTX_destroy(mdctx);
 	}
-	void put(const void * data, int nbyte) {
+	void put(const void * data, size_t nbyte) {
 		if (nbyte >= HASH_BUFFER_SIZE) {
 			// bytes buffered by earlier calls come first
 			EVP_DigestUpdate(mdctx, buffer, size);
@@ -53,7 +53,7 @@ class Hash { public:
 		EVP_DigestInit_ex(mdctx, EVP_sha256(), NULL);
 		size=0;
 	}
-	static void hash_once(void * dgst, const void * data, int nbyte) {
+	static void hash_once(void * dgst, const void * data, size_t nbyte) {
 		Hash hash;
 		hash.put(data, nbyte);
 		hash.digest(dgst);
@@ -61,7 +61,7 @@ class Hash { public:
 	#ifdef __x86_64__
 	__attribute__((target("sse2")))
 	#endif
-	static block hash_for_block(const void * data, int nbyte) {
+	static block hash_for_block(const void * data, size_t nbyte) {
 		char digest[DIGEST_SIZE];
 		hash_once(digest, data, nbyte);
 		return _mm_load_si128((__m128i*)&digest[0]);
-- 
2.43.0


From 661e2c05a1ccb5210826e7f56d22058a53014dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:10 +0000
Subject: [PATCH 21/26] fix: aes_128_ctr encrypts messages of 2^31 bytes and
 more

EVP_EncryptUpdate takes an int length; a longer message was truncated
(nothing encrypted, or a crash). Feed it in pieces.
---
 emp-tool/circuits/aes_128_ctr.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/emp-tool/circuits/aes_128_ctr.h b/emp-tool/circuits/aes_128_ctr.h
index dd4484e..f8125b8 100644
--- a/emp-tool/circuits/aes_128_ctr.h
+++ b/emp-tool/circuits/aes_128_ctr.h
@@ -80,15 +80,21 @@ int aes_128_ctr(const __m128i key,
 	}
 	// Provide the message to be encrypted, and obtain the encrypted output.
 	// EVP_EncryptUpdate can be called multiple times if necessary
-	if(1 != EVP_EncryptUpdate(ctx, (unsigned char *) output, &len, (unsigned char *) input, num_bytes)) {
-		std::cerr<< "EVP_EncryptUpdate gave something besides 1\n"<<std::flush;
-		EVP_CIPHER_CTX_free(ctx);
-		return -3;
+	// (it takes an int, so a long message needs several calls)
+	size_t ciphertext_len = 0;
+	for (size_t done = 0; done < num_bytes;) {
+		const size_t chunk = (num_bytes - done < (1UL << 30)) ? (num_bytes - done) : (1UL << 30);
+		if(1 != EVP_EncryptUpdate(ctx, ((unsigned char *) output) + done, &len, ((unsigned char *) input) + done, chunk)) {
+			std::cerr<< "EVP_EncryptUpdate gave something besides 1\n"<<std::flush;
+			EVP_CIPHER_CTX_free(ctx);
+			return -3;
+		}
+		done += chunk;
+		ciphertext_len += len;
 	}
-	size_t ciphertext_len = len;
 	// Finalise the encryption. Further ciphertext bytes may be written at
 	// this stage.
-	if(1 != EVP_EncryptFinal_ex(ctx, ((unsigned char *) output) + len, &len)) {
+	if(1 != EVP_EncryptFinal_ex(ctx, ((unsigned char *) output) + ciphertext_len, &len)) {
 		std::cerr<< "EVP_EncryptFinal gave something besides 1\n"<<std::flush;
 		EVP_CIPHER_CTX_free(ctx);
 		return -4;
-- 
2.43.0


From 30a302df08da785e59af59bb46d2730c58fc0a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:10 +0000
Subject: [PATCH 22/26] fix: in-circuit AES-CTR with a secret IV counts chunks
 beyond 2^64

start_chunk + i wrapped around at 64 bits, so the chunks after the
wrap reused the key stream of the first chunks instead of continuing
with the 128-bit counter.
---
 emp-tool/circuits/aes_128_ctr.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/emp-tool/circuits/aes_128_ctr.h b/emp-tool/circuits/aes_128_ctr.h
index f8125b8..8363a04 100644
--- a/emp-tool/circuits/aes_128_ctr.h
+++ b/emp-tool/circuits/aes_128_ctr.h
@@ -185,9 +185,23 @@ class AES_128_CTR_Calculator { public:
 
 		} else {
 			int answer;
+			const block * chunk_iv = iv;
+			vector<block> next_iv;
 			for (uint64_t i = 0; (128 * i) < length; ++i) {
+				if (i != 0 && i + start_chunk == 0) { // the chunk number has outgrown 64 bits: go on from iv + 2^64
+					uint64_t carry[2] = {0, 1};
+					for(size_t j = 0; j < 128; ++j) {
+						this->counter.bits[j].bit = iv[reverse_bytes(j)];
+					}
+					this->counter = this->counter + emp::Integer(128, carry, party);
+					next_iv.resize(128);
+					for(size_t j = 0; j < 128; ++j) {
+						next_iv[j] = this->counter.bits[reverse_bytes(j)].bit;
+					}
+					chunk_iv = next_iv.data();
+				}
 				answer = this->aes_128_ctr(nullptr,
-						iv,
+						chunk_iv,
 						(input == nullptr ) ? nullptr : &(input[ 128 * i]),
 						(output == nullptr) ? nullptr : &(output[128 * i]),
 						((128 * (i + 1)) > length) ? (length - (128 * i)) : 128,
-- 
2.43.0


From 13bbcaaa9e7c71f8030b6baedbaeb23b05d622f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:23 +0000
Subject: [PATCH 23/26] fix: uni_hash_coeff_gen of zero coefficients wrote past
 the array

---
 emp-tool/utils/f2k.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/utils/f2k.h b/emp-tool/utils/f2k.h
index 4819b0e..5efeede 100644
--- a/emp-tool/utils/f2k.h
+++ b/emp-tool/utils/f2k.h
@@ -167,6 +167,7 @@ inline void vector_inn_prdt_sum_no_red(block *res, const block *a, const block *
 /* coefficients of almost universal hash function */
 inline void uni_hash_coeff_gen(block* coeff, block seed, int sz) {
 	// Handle the case with small `sz`
+	if(sz == 0) return;
 	coeff[0] = seed;
 	if(sz == 1) return;
 
-- 
2.43.0


From 0b1a17e57f69fc89495bb1041c460b0ae3910054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:39 +0000
Subject: [PATCH 24/26] fix: revealing a very wide Integer as a number no
 longer overflows the stack

---
 emp-tool/circuits/integer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/emp-tool/circuits/integer.hpp b/emp-tool/circuits/integer.hpp
index ebff9ba..9972797 100644
--- a/emp-tool/circuits/integer.hpp
+++ b/emp-tool/circuits/integer.hpp
@@ -183,10 +183,11 @@ template<>
 inline uint32_t Integer::reveal<uint32_t>(int party) const {
 	std::bitset<32> bs;
 	bs.reset();
-	bool b[size()];
+	bool * b = new bool[size()];
 	ProtocolExecution::prot_exec->reveal(b, party, (block *)bits.data(), size());
 	for (size_t i = 0; i < min(32UL, size()); ++i)
 		bs.set(i, b[i]);
+	delete[] b;
 	return bs.to_ulong();
 }
 
@@ -194,10 +195,11 @@ template<>
 inline uint64_t Integer::reveal<uint64_t>(int party) const {
 	std::bitset<64> bs;
 	bs.reset();
-	bool b[size()];
+	bool * b = new bool[size()];
 	ProtocolExecution::prot_exec->reveal(b, party, (block *)bits.data(), size());
 	for (size_t i = 0; i < min(64UL, size()); ++i)
 		bs.set(i, b[i]);
+	delete[] b;
 	return bs.to_ullong();
 }
 template<>
-- 
2.43.0


From f1be388fcddf9802a4a8d557b381625ea2645af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:07 +0000
Subject: [PATCH 25/26] fix: in-circuit AES-CTR with a public key no longer
 overflows the stack on long messages

---
 emp-tool/circuits/aes_128_ctr.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emp-tool/circuits/aes_128_ctr.h b/emp-tool/circuits/aes_128_ctr.h
index 8363a04..ebcece5 100644
--- a/emp-tool/circuits/aes_128_ctr.h
+++ b/emp-tool/circuits/aes_128_ctr.h
@@ -265,12 +265,12 @@ class AES_128_CTR_Calculator { public:
 			return -1;
 		}
 
-		uint8_t bytes[(length + 7) / 8];
-		int success = emp::aes_128_ctr(key, iv, (uint8_t *) nullptr, bytes, (length + 7) / 8, start_chunk);
+		std::unique_ptr<uint8_t[]> bytes(new uint8_t[(length + 7) / 8]);
+		int success = emp::aes_128_ctr(key, iv, (uint8_t *) nullptr, bytes.get(), (length + 7) / 8, start_chunk);
 		if (success != 0) {
 			return success;
 		}
-		emp::Integer blind = emp::Integer(length, bytes, party);
+		emp::Integer blind = emp::Integer(length, bytes.get(), party);
 
 		if (input == nullptr) {
 			for(size_t i = 0; i < length; ++i) {
-- 
2.43.0


From 7d01907ae75a24ec2ecffcaa6f145b58cd421e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:42 +0000
Subject: [PATCH 26/26] fix: in-circuit SHA3-256 of an Integer that also
 receives the digest hashes the whole message

---
 emp-tool/circuits/sha3_256.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emp-tool/circuits/sha3_256.h b/emp-tool/circuits/sha3_256.h
index c62ba0b..f3cdbc1 100644
--- a/emp-tool/circuits/sha3_256.h
+++ b/emp-tool/circuits/sha3_256.h
@@ -193,8 +193,9 @@ class SHA3_256_Calculator {
 		void sha3_256(Integer * output,// we'll write 256 bits to here as the output hash.
 				const Integer inputs[],// we'll concatenate these, and hash the result.
 				const size_t input_count = 1) {// the number of Integers in "inputs"
-			output->bits.resize(256);
-			this->sha3_256(&(output->bits[0].bit), inputs, input_count);
+			std::vector<Bit> digest(256); // "output" can be one of the inputs, so it stays as it is until the hash is done
+			this->sha3_256(&(digest[0].bit), inputs, input_count);
+			output->bits.swap(digest);
 		}
 };
 }
-- 
2.43.0

