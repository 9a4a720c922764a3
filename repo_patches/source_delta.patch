From faa551a818c2117b56d19800dc6a0c4958d9292d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:31 +0000
Subject: [PATCH 01/16] fix: integer_cast from floating point accepted NaN and
 max()+1, invoking undefined behaviour

---
 include/crab/integer_cast.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/crab/integer_cast.hpp b/include/crab/integer_cast.hpp
index dffc7ca..5f7b537 100644
--- a/include/crab/integer_cast.hpp
+++ b/include/crab/integer_cast.hpp
@@ -184,9 +184,13 @@ inline T integer_cast_is_integral(const char *arg, std::false_type, std::false_t
 
 template<typename T, typename S>  // source floating point
 inline T integer_cast_is_integral(const S &arg, std::false_type, std::true_type) {
-	if (arg > std::numeric_limits<T>::max())
+	// max() of wide types is not representable in S and is rounded up to the next power of 2, then equality is already out of range
+	// Comparisons are negated, so that NaN is also rejected
+	constexpr bool exact_max = std::numeric_limits<T>::digits <= std::numeric_limits<S>::digits;
+	constexpr S max_value    = static_cast<S>(std::numeric_limits<T>::max());
+	if (!(exact_max ? arg <= max_value : arg < max_value))
 		throw_out_of_range<T>(arg);
-	if (arg < std::numeric_limits<T>::min())
+	if (!(arg >= static_cast<S>(std::numeric_limits<T>::min())))
 		throw_out_of_range<T>(arg);
 	return static_cast<T>(arg);
 }
-- 
2.43.0


From c484982330f4e4562b834bf81300b91a394a7405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:40 +0000
Subject: [PATCH 02/16] fix: rol by a multiple of the width shifted right by
 the full width, which is undefined

---
 include/crab/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/util.hpp b/include/crab/util.hpp
index eba7d1f..552e344 100644
--- a/include/crab/util.hpp
+++ b/include/crab/util.hpp
@@ -169,7 +169,7 @@ inline bool is_valid_utf8(const std::string &str) { return is_valid_utf8(uint8_c
 template<typename T>
 T rol(T mask, size_t shift) {
 	shift = shift & (sizeof(T) * 8 - 1);
-	return (mask << shift) | (mask >> (sizeof(T) * 8 - shift));
+	return (mask << shift) | (mask >> ((sizeof(T) * 8 - shift) & (sizeof(T) * 8 - 1)));
 }
 
 namespace details {
-- 
2.43.0


From 497a39065cea8e001e417e3b8eab9e47f7c45a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:40 +0000
Subject: [PATCH 03/16] fix: Random::double_value could return 1.0, outside of
 documented range

---
 include/crab/util.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crab/util.hxx b/include/crab/util.hxx
index 9b45a40..f55d8b8 100644
--- a/include/crab/util.hxx
+++ b/include/crab/util.hxx
@@ -176,7 +176,8 @@ CRAB_INLINE std::string Random::printable_string(size_t size) {
 
 CRAB_INLINE double Random::double_value() {
 	auto hipart = uint64_t(pcg32_random_r()) << 31U;  // leave top bit zero for faster ldexp() on some platforms
-	return ldexp(double(hipart ^ pcg32_random_r()), -63);
+	// Keep 53 bits, so that conversion is exact. With more bits, it would round up to 1.0 for largest values
+	return ldexp(double((hipart ^ pcg32_random_r()) >> 10U), -53);
 }
 
 CRAB_INLINE void memzero(void *data, size_t len) {
-- 
2.43.0


From 08141a3ce85ef6de4fe69572a3f43ced998d681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:40 +0000
Subject: [PATCH 04/16] fix: WebSocket header parser rejected continuation
 frames, which connections support

---
 include/crab/http/web_message_parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crab/http/web_message_parser.hpp b/include/crab/http/web_message_parser.hpp
index 75cf882..2a8d295 100644
--- a/include/crab/http/web_message_parser.hpp
+++ b/include/crab/http/web_message_parser.hpp
@@ -46,6 +46,7 @@ public:
 
 	static bool is_opcode_supported(int opcode) {
 		switch (opcode) {
+		case 0:  // Continuation
 		case static_cast<int>(WebMessageOpcode::TEXT):
 		case static_cast<int>(WebMessageOpcode::BINARY):
 		case static_cast<int>(WebMessageOpcode::CLOSE):
-- 
2.43.0


From 1373110d24310da2ac098ff08c999cb4a4a78be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:08 +0000
Subject: [PATCH 05/16] fix: IMemoryStream::write_to lost data when the sink
 accepted only part of it

---
 include/crab/streams.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/streams.hxx b/include/crab/streams.hxx
index 8dc83ae..8929942 100644
--- a/include/crab/streams.hxx
+++ b/include/crab/streams.hxx
@@ -202,7 +202,7 @@ CRAB_INLINE size_t IMemoryStream::write_to(OStream &out, size_t max_count) {
 			break;
 		size_t count = out.write_some(data, rc);
 		data += count;
-		si -= rc;
+		si -= count;
 		max_count -= count;
 		total_count += count;
 		if (count == 0)
-- 
2.43.0


From 7eed8bb0837b4977d7c080560ab4e42178e018c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:08 +0000
Subject: [PATCH 06/16] fix: CombinedIStream::write_to did not count bytes
 written from the first stream

---
 include/crab/streams.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/crab/streams.hpp b/include/crab/streams.hpp
index 1c35ca8..3bd069f 100644
--- a/include/crab/streams.hpp
+++ b/include/crab/streams.hpp
@@ -295,13 +295,14 @@ public:
 	}
 	using IStream::read_some;
 	size_t write_to(OStream &out, size_t max_count) override {
+		size_t count = 0;
 		if (!a->empty()) {
-			size_t count = a->write_to(out, max_count);
+			count = a->write_to(out, max_count);
 			max_count -= count;
 			if (!a->empty())
 				return count;
 		}
-		return b->write_to(out, max_count);
+		return count + b->write_to(out, max_count);
 	}
 	using IFiniteStream::write_to;
 };
-- 
2.43.0


From 0369fd8a913699ae8dcaf33567a7077612b9ecfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:13 +0000
Subject: [PATCH 07/16] fix: query parser lost or merged pairs when '&'
 followed an incomplete percent sequence

---
 include/crab/http/query_parser.hxx | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/crab/http/query_parser.hxx b/include/crab/http/query_parser.hxx
index 0500109..8511ba7 100644
--- a/include/crab/http/query_parser.hxx
+++ b/include/crab/http/query_parser.hxx
@@ -87,6 +87,11 @@ CRAB_INLINE QueryParser::State QueryParser::consume(char input) {
 			key_.push_back(input);
 		return KEY;
 	case KEY_PERCENT1: {
+		if (input == '&') {
+			key_.push_back('%');
+			persist_pair();
+			return KEY;
+		}
 		if (input == '=') {
 			key_.push_back('%');
 			return VALUE;
@@ -101,6 +106,12 @@ CRAB_INLINE QueryParser::State QueryParser::consume(char input) {
 		return KEY_PERCENT2;
 	}
 	case KEY_PERCENT2: {
+		if (input == '&') {
+			key_.push_back('%');
+			key_.push_back(percent1_hex_sym);
+			persist_pair();
+			return KEY;
+		}
 		if (input == '=') {
 			key_.push_back('%');
 			key_.push_back(percent1_hex_sym);
@@ -130,6 +141,7 @@ CRAB_INLINE QueryParser::State QueryParser::consume(char input) {
 	case VALUE_PERCENT1: {
 		if (input == '&') {
 			value_.push_back('%');
+			persist_pair();
 			return KEY;
 		}
 		int digit1 = from_hex_digit(input);
@@ -142,10 +154,11 @@ CRAB_INLINE QueryParser::State QueryParser::consume(char input) {
 		return VALUE_PERCENT2;
 	}
 	case VALUE_PERCENT2: {
-		if (input == '=') {
+		if (input == '&') {
 			value_.push_back('%');
 			value_.push_back(percent1_hex_sym);
-			return VALUE;
+			persist_pair();
+			return KEY;
 		}
 		int digit2 = from_hex_digit(input);
 		if (digit2 < 0) {
-- 
2.43.0


From ca3b5d67826cf12198be7cedd560517d21a0e889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:46 +0000
Subject: [PATCH 08/16] fix: URI parser left '..' path segments in the last
 position or formed with %2f

---
 include/crab/http/query_parser.hxx | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/crab/http/query_parser.hxx b/include/crab/http/query_parser.hxx
index 8511ba7..e2696ad 100644
--- a/include/crab/http/query_parser.hxx
+++ b/include/crab/http/query_parser.hxx
@@ -326,7 +326,10 @@ CRAB_INLINE URIParser::State URIParser::consume(char input) {
 		int digit1 = from_hex_digit(input);
 		if (digit1 < 0) {
 			cur_path_.push_back('%');
-			cur_path_.push_back(input);
+			if (input == '/')
+				persist_path_component();
+			else
+				cur_path_.push_back(input);
 			return PATH;
 		}
 		percent1_hex_sym = input;
@@ -342,9 +345,12 @@ CRAB_INLINE URIParser::State URIParser::consume(char input) {
 		if (digit2 < 0) {
 			cur_path_.push_back('%');
 			cur_path_.push_back(percent1_hex_sym);
-			cur_path_.push_back(input);
 		} else
-			cur_path_.push_back(static_cast<char>(static_cast<uint8_t>(from_hex_digit(percent1_hex_sym) * 16 + digit2)));
+			input = static_cast<char>(static_cast<uint8_t>(from_hex_digit(percent1_hex_sym) * 16 + digit2));
+		if (input == '/')
+			persist_path_component();  // Cannot be told from separator in resulting path
+		else
+			cur_path_.push_back(input);
 		return PATH;
 	}
 	case QUERY:
@@ -365,6 +371,10 @@ CRAB_INLINE URIParser::State URIParser::consume_end() {
 		state = PATH;
 	}
 
+	// https://tools.ietf.org/html/rfc3986#section-5.2.4, last "." or ".." names directory
+	if (cur_path_ == string_view{"."} || cur_path_ == string_view{".."})
+		persist_path_component();
+
 	for (auto &&pc : path_components_)
 		uri.path.append('/' + pc);
 	uri.path.append('/' + cur_path_);
-- 
2.43.0


From af28e19757e3f34db3fcfeebcd5b31b8997ac773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:25 +0000
Subject: [PATCH 09/16] fix: chunked body parser did not end a trailer line at
 bare newline, though it tolerates it elsewhere

---
 include/crab/http/request_parser.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index 95b3fe8..9fc3ec6 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -449,6 +449,8 @@ CRAB_INLINE BodyParser::State BodyParser::consume(uint8_t input) {
 		trailers_total_length += 1;
 		if (input == '\r')
 			return TRAILER_LF;
+		if (input == '\n')
+			return TRAILER_LINE_START;
 		return TRAILER;
 	case TRAILER_LF:
 		trailers_total_length += 1;
-- 
2.43.0


From f83af3e5f49202b5111db84136077d6a0aeac6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:36 +0000
Subject: [PATCH 10/16] fix: request parser skips an empty line ended by a bare
 newline instead of starting an empty method

---
 include/crab/http/request_parser.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index 9fc3ec6..d0adc7f 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -31,7 +31,7 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 		if (input == '\r')
 			return METHOD_START_LF;
 		if (input == '\n')
-			return METHOD;
+			return METHOD_START;
 		if (!is_char(input) || is_ctl(input) || is_tspecial(input))
 			throw std::runtime_error{"Invalid character at method start"};
 		req.method.push_back(input);
-- 
2.43.0


From 7b1fdd94237b61157ec239e1e9d0b0864bd9969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:36 +0000
Subject: [PATCH 11/16] fix: request parser ends a request line with trailing
 spaces at its CRLF or LF, not at two newlines

---
 include/crab/http/request_parser.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index d0adc7f..1c2cb13 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -157,9 +157,11 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 	case STATUS_LINE_CR:
 		if (is_sp(input))
 			return STATUS_LINE_CR;
+		if (input == '\r')
+			return STATUS_LINE_LF;
 		if (input != '\n')
 			throw std::runtime_error{"Newline is expected"};
-		return STATUS_LINE_LF;
+		return FIRST_HEADER_LINE_START;
 	case STATUS_LINE_LF:
 		if (input != '\n')
 			throw std::runtime_error{"Newline is expected"};
-- 
2.43.0


From d2b438391e89aecea14da575a678b1a0fa1cee91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:36 +0000
Subject: [PATCH 12/16] fix: HTTP parsers reject unsupported single-digit major
 versions (2..9) like longer ones

---
 include/crab/http/request_parser.hxx  | 2 ++
 include/crab/http/response_parser.hxx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index 1c2cb13..53de9e6 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -126,6 +126,8 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 		if (!isdigit(input))
 			throw std::runtime_error{"Invalid http version major start, must be digit"};
 		req.http_version_major = input - '0';
+		if (req.http_version_major > 1)
+			throw std::runtime_error{"Unsupported http version"};
 		return HTTP_VERSION_MAJOR;
 	case HTTP_VERSION_MAJOR:
 		if (input == '.')
diff --git a/include/crab/http/response_parser.hxx b/include/crab/http/response_parser.hxx
index ca7559c..7057372 100644
--- a/include/crab/http/response_parser.hxx
+++ b/include/crab/http/response_parser.hxx
@@ -48,6 +48,8 @@ CRAB_INLINE ResponseParser::State ResponseParser::consume(char input) {
 		if (!isdigit(input))
 			throw std::runtime_error{"Invalid http version major start, must be digit"};
 		req.http_version_major = input - '0';
+		if (req.http_version_major > 1)
+			throw std::runtime_error{"Unsupported http version"};
 		return HTTP_VERSION_MAJOR;
 	case HTTP_VERSION_MAJOR:
 		if (input == '.')
-- 
2.43.0


From f4840f8dcdf48b987212c643432993dc20f113d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:36 +0000
Subject: [PATCH 13/16] fix: chunked must be the last transfer encoding: accept
 'gzip, chunked', reject 'chunked, gzip'

---
 include/crab/http/request_parser.hxx  | 4 ++--
 include/crab/http/response_parser.hxx | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index 53de9e6..2ddaf8c 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -266,14 +266,14 @@ CRAB_INLINE void RequestParser::process_ready_header() {
 	if (header.name == string_view{"transfer-encoding"}) {
 		tolower(header.value);
 		if (header.value == string_view{"chunked"}) {
-			if (!req.transfer_encodings.empty())
-				throw std::runtime_error{"chunk encoding must be applied last"};
 			req.transfer_encoding_chunked = true;
 			return;
 		}
 		if (header.value == string_view{"identity"}) {
 			return;  // like chunked, it is transparent to user
 		}
+		if (req.transfer_encoding_chunked)
+			throw std::runtime_error{"chunk encoding must be applied last"};
 		req.transfer_encodings.push_back(header.value);
 		return;
 	}
diff --git a/include/crab/http/response_parser.hxx b/include/crab/http/response_parser.hxx
index 7057372..d4c137b 100644
--- a/include/crab/http/response_parser.hxx
+++ b/include/crab/http/response_parser.hxx
@@ -219,14 +219,14 @@ CRAB_INLINE void ResponseParser::process_ready_header() {
 	if (header.name == string_view{"transfer-encoding"}) {
 		tolower(header.value);
 		if (header.value == string_view{"chunked"}) {
-			if (!req.transfer_encodings.empty())
-				throw std::runtime_error{"chunk encoding must be applied last"};
 			req.transfer_encoding_chunked = true;
 			return;
 		}
 		if (header.value == string_view{"identity"}) {
 			return;  // like chunked, it is transparent to user
 		}
+		if (req.transfer_encoding_chunked)
+			throw std::runtime_error{"chunk encoding must be applied last"};
 		req.transfer_encodings.push_back(header.value);
 		return;
 	}
-- 
2.43.0


From 6725b5cba25522a0b58f63992289dc9162240c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:16 +0000
Subject: [PATCH 14/16] fix: reject Content-Length values with a sign or
 leading whitespace

---
 include/crab/http/request_parser.hxx  | 2 ++
 include/crab/http/response_parser.hxx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index 2ddaf8c..f9a14ce 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -256,6 +256,8 @@ CRAB_INLINE void RequestParser::process_ready_header() {
 	if (header.name == string_view{"content-length"}) {
 		if (req.content_length)
 			throw std::runtime_error{"content length specified more than once"};
+		if (header.value.empty() || !isdigit(header.value.front()))  // integer_cast also accepts sign and leading whitespace
+			throw std::runtime_error{"Content length is not a number"};
 		try {
 			req.content_length = integer_cast<uint64_t>(header.value);
 		} catch (const std::exception &) {
diff --git a/include/crab/http/response_parser.hxx b/include/crab/http/response_parser.hxx
index d4c137b..a4418f3 100644
--- a/include/crab/http/response_parser.hxx
+++ b/include/crab/http/response_parser.hxx
@@ -209,6 +209,8 @@ CRAB_INLINE void ResponseParser::process_ready_header() {
 	if (header.name == string_view{"content-length"}) {
 		if (req.content_length)
 			throw std::runtime_error{"content length specified more than once"};
+		if (header.value.empty() || !isdigit(header.value.front()))  // integer_cast also accepts sign and leading whitespace
+			throw std::runtime_error{"Content length is not a number"};
 		try {
 			req.content_length = integer_cast<uint64_t>(header.value);
 		} catch (const std::exception &) {
-- 
2.43.0


From fa2b2a084227db0b2c2634c0acc5be912765eac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:51 +0000
Subject: [PATCH 15/16] fix: body position after writing a moved string

---
 include/crab/http/server.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index f557ace..31a4822 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -46,8 +46,9 @@ CRAB_INLINE void Client::write(const uint8_t *val, size_t count, BufferOptions b
 }
 
 CRAB_INLINE void Client::write(std::string &&ss, BufferOptions buffer_options) {
+	const auto count = ss.size();  // ss is unspecified after move
 	ServerConnection::write(std::move(ss), buffer_options);
-	body_position += ss.size();
+	body_position += count;
 	if (!is_writing_body()) {
 		rwd_handler = nullptr;
 	}
-- 
2.43.0


From f8f3282e5a0d4f0ade07db209335164d1be28176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:43 +0000
Subject: [PATCH 16/16] fix: forget partial web message on close

A connection object reused after close kept the fragments of the previous
peer's unfinished message and prepended them to the next one (or rejected
its first frame as out of order).
---
 include/crab/http/connection.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index ca3b7e8..8da4784 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -171,6 +171,7 @@ CRAB_INLINE void ClientConnection::close() {
 	read_buffer.clear();
 	dns.cancel();
 	waiting_request.reset();
+	web_message.reset();
 	sock.close();
 	peer_address = Address();
 	protocol.clear();
@@ -438,6 +439,7 @@ CRAB_INLINE void ServerConnection::accept(TCPAcceptor &acceptor) {
 CRAB_INLINE void ServerConnection::close() {
 	read_buffer.clear();
 	wm_ping_timer.cancel();
+	web_message.reset();
 	sock.close();
 	state                    = REQUEST_HEADER;
 	writing_web_message_body = false;
-- 
2.43.0

