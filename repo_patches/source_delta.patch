From c92e72a3e03545437247fee3b98d4fc35db5d4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 01/40] fix: cpu affinity mask selects wrong cpus above 30

The mask bits were tested with an int shifted by up to 255 bits.
---
 src/schedparam.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/schedparam.cc b/src/schedparam.cc
index 3f15ad3..2adf9b4 100644
--- a/src/schedparam.cc
+++ b/src/schedparam.cc
@@ -185,8 +185,8 @@ static int parse_cpumask(const std::string& str, cpumask& mask)
 		return errno;
 	if (eptr != sptr + str.size())
 		return EINVAL;
-	for (unsigned int i=0; i < mask.ncpus; i++)
-		if (m & (1<<i)) mask.set(i);
+	for (unsigned int i=0; i < mask.ncpus && i < sizeof(m) * 8; i++)
+		if (m & (1ULL << i)) mask.set(i);
 	return 0;
 }
 
-- 
2.43.0


From 36e18d99a901d03bd73dc134ef40af289a733752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 02/40] fix: cpu affinity list accepts numbers that wrap around
 32 bits

The parsed number was truncated before the range check, 4294967296 meant cpu 0.
---
 src/schedparam.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schedparam.cc b/src/schedparam.cc
index 2adf9b4..f175ee4 100644
--- a/src/schedparam.cc
+++ b/src/schedparam.cc
@@ -151,7 +151,7 @@ struct cpumask {
 static int parse_cpulist(const std::string& str, cpumask& mask)
 {
 	const char *p = str.c_str();
-	unsigned int a, b;
+	unsigned long a, b;
 	do {
 		if (!isdigit(*p)) return EINVAL;
 
-- 
2.43.0


From 0d684b1890f89688732a88b8b68b7a045d5dfdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 03/40] fix: mask self-assignment reads a deleted list

---
 src/mask.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mask.cc b/src/mask.cc
index eb43b80..92f833a 100644
--- a/src/mask.cc
+++ b/src/mask.cc
@@ -183,8 +183,10 @@ mask::mask(mask &m)
 
 void mask::operator=(const mask &m)
 {
+	// Copy first. This may be a self-assignment.
+	data_list *list = new data_list(*m._list);
 	delete _list;
-	_list = new data_list(*m._list);
+	_list = list;
 }
 
 mask::~mask()
-- 
2.43.0


From 6f7b029f64bc8fb0f5aa867f02b25623872b9782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 04/40] fix: reading a mask from a stream stops after the first
 line

get(stringbuf) leaves the newline in the stream: the next call extracts nothing,
adds an empty entry (which matches everything) and sets failbit.
---
 src/mask.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mask.cc b/src/mask.cc
index 92f833a..2c67383 100644
--- a/src/mask.cc
+++ b/src/mask.cc
@@ -115,13 +115,13 @@ mask& mask::operator<< (const std::string &str)
 
 std::istream& operator>> (std::istream &s, mask &m)
 {
-	std::stringbuf sb;
+	std::string str;
 
 	// Read lines from the stream and feed them into the mask
-	while (s.good()) {
-		sb.str("");
-		s.get(sb);
-		m << sb.str();
+	while (std::getline(s, str)) {
+		if (str.empty())
+			continue;
+		m << str;
 	}
 
 	return s;
-- 
2.43.0


From 068acccae5d618990671343e60155b7901160e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 05/40] fix: short and interrupted writes lose log data

writev() may write less than requested (disk nearly full, pipes, signals).
The rest of the data was silently dropped.
---
 include/hogl/detail/ostrbuf-fd.hpp | 12 +++++++++
 src/ostrbuf-fd.cc                  | 39 +++++++++++++++++++++++++++++-
 src/output-file.cc                 |  4 +--
 3 files changed, 52 insertions(+), 3 deletions(-)

diff --git a/include/hogl/detail/ostrbuf-fd.hpp b/include/hogl/detail/ostrbuf-fd.hpp
index 8fd80dd..e735ad4 100644
--- a/include/hogl/detail/ostrbuf-fd.hpp
+++ b/include/hogl/detail/ostrbuf-fd.hpp
@@ -32,6 +32,9 @@
 #ifndef HOGL_DETAIL_OSTRBUF_FD_HPP
 #define HOGL_DETAIL_OSTRBUF_FD_HPP
 
+#include <sys/types.h>
+#include <sys/uio.h>
+
 #include <hogl/detail/ostrbuf.hpp>
 
 __HOGL_PRIV_NS_OPEN__
@@ -56,6 +59,15 @@ public:
 	// Get file descriptor value
 	int fd() const { return _fd; }
 
+	/**
+	 * Write out all data. Continues after short and interrupted writes.
+	 * @param fd file descriptor
+	 * @param iov pointer to the iovec
+	 * @param iovcnt number of entries in the iovec
+	 * @return number of bytes written (all of them) or -1 on error
+	 */
+	static ssize_t writev_all(int fd, const struct iovec *iov, int iovcnt);
+
 	// Explicitly close the file descriptor
 	void close(); 
 
diff --git a/src/ostrbuf-fd.cc b/src/ostrbuf-fd.cc
index bf8737f..8b27563 100644
--- a/src/ostrbuf-fd.cc
+++ b/src/ostrbuf-fd.cc
@@ -40,6 +40,43 @@
 __HOGL_PRIV_NS_OPEN__
 namespace hogl {
 
+ssize_t ostrbuf_fd::writev_all(int fd, const struct iovec *iov, int iovcnt)
+{
+	ssize_t total = 0;
+	size_t  done  = 0; // number of bytes already written from the first entry
+
+	while (iovcnt > 0) {
+		ssize_t r;
+
+		if (done)
+			r = ::write(fd, (const uint8_t *) iov->iov_base + done, iov->iov_len - done);
+		else
+			r = ::writev(fd, iov, iovcnt);
+		if (r < 0) {
+			if (errno == EINTR)
+				continue;
+			return -1;
+		}
+
+		total += r;
+		done  += r;
+
+		// Skip completed entries
+		while (iovcnt > 0 && done >= iov->iov_len) {
+			done -= iov->iov_len;
+			iov++; iovcnt--;
+		}
+
+		// No progress. Must be a broken device, let's not spin here.
+		if (r == 0 && iovcnt > 0) {
+			errno = EIO;
+			return -1;
+		}
+	}
+
+	return total;
+}
+
 void ostrbuf_fd::do_flush(const uint8_t *data, size_t len)
 {
 	if (failed())
@@ -63,7 +100,7 @@ void ostrbuf_fd::do_flush(const uint8_t *data, size_t len)
 	}
 
 	if (i) {
-		int r = ::writev(_fd, iov, i);
+		ssize_t r = writev_all(_fd, iov, i);
 		if (r < 0)
 			ostrbuf::failure(strerror(errno));
 	}
diff --git a/src/output-file.cc b/src/output-file.cc
index 0eea4de..584982b 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -75,7 +75,7 @@ private:
 		}
 
 		if (i) {
-			int r = _of.writev(iov, i);
+			ssize_t r = _of.writev(iov, i);
 			if (r < 0)
 				ostrbuf::failure(strerror(errno));
 		}
@@ -310,7 +310,7 @@ ssize_t output_file::writev(const struct iovec *iov, int iovcnt)
 
 	pthread_mutex_lock(&_write_mutex);
 
-	n = ::writev(_fd, iov, iovcnt);
+	n = ostrbuf_fd::writev_all(_fd, iov, iovcnt);
 	if (n > 0) {
 		_size += n;
 		if (_size >= _max_size && !_rotate_pending) {
-- 
2.43.0


From c573c9a2fbbff93137e84511a8a9d0387de7d4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:05 +0000
Subject: [PATCH 06/40] fix: file output helper misses early wake-ups and may
 start before it is initialized

A rotation request or shutdown signalled before the helper thread waits
was lost: the destructor then never returned. A failed construction left the
helper running on a destroyed object.
---
 src/output-file.cc | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index 584982b..12978a8 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -254,13 +254,6 @@ output_file::output_file(const char *filename, format &fmt, const options &opts)
 	pthread_mutex_init(&_rotate_mutex, NULL);
 	pthread_cond_init(&_rotate_cond, NULL);
 
-	// Start helper thread
-	int err = pthread_create(&_rotate_thread, NULL, thread_entry, (void *) this);
-	if (err) {
-		fmt::fprintf(stderr, "hogl::output_file: failed to start helper thread. %d\n", err);
-		throw std::runtime_error("hogl::output_file: failed to start helper thread.");
-	}
-
 	init_name(filename);
 
 	_fd = open(_name.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, _mode);
@@ -276,6 +269,16 @@ output_file::output_file(const char *filename, format &fmt, const options &opts)
 	output::header(_name.c_str());
 
 	update_link();
+
+	// Start helper thread.
+	// It's the last step because the helper uses everything initialized above,
+	// and it must not be left behind if any of that fails.
+	int err = pthread_create(&_rotate_thread, NULL, thread_entry, (void *) this);
+	if (err) {
+		fmt::fprintf(stderr, "hogl::output_file: failed to start helper thread. %d\n", err);
+		close(_fd);
+		throw std::runtime_error("hogl::output_file: failed to start helper thread.");
+	}
 }
 
 output_file::~output_file()
@@ -421,7 +424,9 @@ void output_file::thread_loop()
 	pthread_mutex_lock(&_rotate_mutex);
 
 	while (1) {
-		pthread_cond_wait(&_rotate_cond, &_rotate_mutex);
+		// The signal might have been sent before we got here
+		while (!_killed && !_rotate_pending)
+			pthread_cond_wait(&_rotate_cond, &_rotate_mutex);
 		if (_killed)
 			break;
 
-- 
2.43.0


From f9fd57ff86a0b92aa4b60c960e9b35eae1980e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 07/40] fix: recovery tool follows stale string pointers in
 arguments 9 to 16

Only the first eight arguments were translated into the core image.
---
 tools/recovery-engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 7eef43e..2328982 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -311,7 +311,7 @@ void recovery_engine::fixup_records(ringbuf *ring)
 		r->area = fixup_area(r->area);
 
 		unsigned int i;
-		for (i=0; i < 8; i++) {
+		for (i=0; i < record::NARGS; i++) {
 			unsigned int type = r->get_arg_type(i);
 			switch (type) {
 			case arg::GSTR:
-- 
2.43.0


From 0ae6ccc0de2c2ebfc96828e99574139cedbc6337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 08/40] fix: recovery tool loses records with equal timestamps

---
 tools/recovery-engine.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/recovery-engine.hpp b/tools/recovery-engine.hpp
index dc049ec..dfdb315 100644
--- a/tools/recovery-engine.hpp
+++ b/tools/recovery-engine.hpp
@@ -59,7 +59,7 @@ private:
 		}
 	};
 
-	typedef std::set<record_entry, record_sorter> record_set;
+	typedef std::multiset<record_entry, record_sorter> record_set;
 	typedef std::map<uint64_t, area*> area_map;
 	typedef std::map<uint64_t, timesource*> timesource_map;
 	typedef std::map<uint64_t, ostrbuf *>   ostrbuf_map;
-- 
2.43.0


From 0b315a1b530656469fba7a6a4e7a2f777adaa57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:48 +0000
Subject: [PATCH 09/40] fix: core dump load failure is forgotten when a later
 section loads

---
 tools/coredump.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/coredump.cc b/tools/coredump.cc
index 51e78ab..bbcdef4 100644
--- a/tools/coredump.cc
+++ b/tools/coredump.cc
@@ -68,6 +68,9 @@ static asection *bfd_get_section_by_vma(bfd *b, uint64_t vma)
 
 void coredump::load_section(coredump::section *s)
 {
+	// Note that the failure flag is sticky.
+	// Cleared only if this section and all sections before it were loaded.
+	bool prev_failed = this->failed;
 	this->failed = true;
 
 	s->alloc();
@@ -105,7 +108,7 @@ void coredump::load_section(coredump::section *s)
 		vma  += ss;
 	}
 
-	this->failed = false;
+	this->failed = prev_failed;
 	return;
 }
 
-- 
2.43.0


From 70b0e327338c6ac320232d5b26fb98fdceedc19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:29 +0000
Subject: [PATCH 10/40] fix: recovery tool accepts rings whose size overflows
 32 bits

The validated range was then smaller than the one the iterators use.
---
 tools/recovery-engine.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 2328982..0163e7b 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -150,7 +150,7 @@ public:
 			return false;
 
 		// Record size of more than 1MB is definitely insane
-		if (!r->record_size() || r->record_size() > 1024*1024)
+		if (r->record_size() < sizeof(record) || r->record_size() > 1024*1024)
 			return false;
  
 		if (r->record_tailroom() > r->record_size())
@@ -160,7 +160,7 @@ public:
 			return false;
 
 		r->_name    = (char *)    core.remap(r->_name);
-		r->_rec_top = (uint8_t *) core.remap(r->_rec_top, r->record_size() * r->capacity());
+		r->_rec_top = (uint8_t *) core.remap(r->_rec_top, (unsigned long) r->record_size() * r->capacity());
 
 		if (!r->_name || !r->_rec_top)
 			return false;
-- 
2.43.0


From b3d6c9c9129e23bd95ce9c39b9c797c18adc4ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:29 +0000
Subject: [PATCH 11/40] fix: recovery tool follows corrupted argument offsets
 out of the record

---
 tools/recovery-engine.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 0163e7b..33affaa 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -293,6 +293,9 @@ hogl::area* recovery_engine::fixup_area(const void *ptr)
 // Note that this function fixes up areas as it goes through the records.
 void recovery_engine::fixup_records(ringbuf *ring)
 {
+	unsigned int room = ring->record_size() - record::header_size();
+	unsigned int len;
+
 	ringbuf::pop_iterator it(ring);
 	record *r;
 	while ((r = it.next())) {
@@ -320,6 +323,14 @@ void recovery_engine::fixup_records(ringbuf *ring)
 				else
 					r->argval[i].u64 = (uint64_t) _core.remap((void *) r->get_arg_val64(i));
 				break;
+			case arg::CSTR:
+			case arg::XDUMP:
+			case arg::RAW:
+				// Drop data that is not inside the record
+				r->get_arg_data(i, len);
+				if (r->argval[i].data.offset > room || len > room - r->argval[i].data.offset)
+					r->set_arg_data(i, 0, 0);
+				break;
 			default:
 				break;
 			}
-- 
2.43.0


From aae196484f7d3f295d463d09ec1b77e591461eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:29 +0000
Subject: [PATCH 12/40] fix: null global string argument crashes the formatters

This includes global strings that the recovery tool could not find in the core.
---
 src/format-basic.cc | 2 +-
 src/format-raw.cc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/format-basic.cc b/src/format-basic.cc
index b6dc737..135275a 100644
--- a/src/format-basic.cc
+++ b/src/format-basic.cc
@@ -516,7 +516,7 @@ static const char* get_arg_str(const record& r, unsigned int type, unsigned int
 		ptr = r.get_arg_val32(i);
 	else
 		ptr = r.get_arg_val64(i);
-	return (const char *) ptr;
+	return ptr ? (const char *) ptr : "null";
 }
 
 void format_basic::process(ostrbuf &sb, const format::data &d)
diff --git a/src/format-raw.cc b/src/format-raw.cc
index 7b7e2b9..4b634d3 100644
--- a/src/format-raw.cc
+++ b/src/format-raw.cc
@@ -60,7 +60,7 @@ private:
 	template <typename T>
 	void add_str(const char *str)
 	{
-		add_str<T>(str, strlen(str));
+		add_str<T>(str, str ? strlen(str) : 0);
 	}
 
 	void add_args(const record &r)
-- 
2.43.0


From 81400b59ce86c1a0e202c0bbef0449313cd99a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:29 +0000
Subject: [PATCH 13/40] fix: empty xdump argument and zero xdump width crash
 the formatter

---
 src/format-basic.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/format-basic.cc b/src/format-basic.cc
index 135275a..6e58df3 100644
--- a/src/format-basic.cc
+++ b/src/format-basic.cc
@@ -147,7 +147,17 @@ static const char* __dbl_fmt(unsigned int pr)
 
 static void do_xdump(hogl::ostrbuf &sb, const uint8_t *data, uint32_t len)
 {
+	if (len < sizeof(arg_xdump::format)) {
+		// Did not fit into the record
+		sb.push_back("null");
+		return;
+	}
+
 	const arg_xdump::format& xf = *(const arg_xdump::format *) data;
+	if (!xf.byte_width) {
+		sb.push_back("xdump width 0 not supported");
+		return;
+	}
 
 	const uint8_t *ptr = data + sizeof(arg_xdump::format);
 	len = (len - sizeof(arg_xdump::format)) / xf.byte_width;
-- 
2.43.0


From dd7ae46d50e4a93e74bd334de27af4856d112614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:29 +0000
Subject: [PATCH 14/40] fix: single line hexdump never ends

---
 src/format-basic.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/format-basic.cc b/src/format-basic.cc
index 6e58df3..988ebed 100644
--- a/src/format-basic.cc
+++ b/src/format-basic.cc
@@ -68,19 +68,22 @@ format_basic::format_basic(const char *fields) :
 
 static void do_hexdump(hogl::ostrbuf &sb, const uint8_t *data, uint32_t n, const hogl::arg_xdump::format& xf)
 {
-	unsigned int offset;
-	for (offset = 0; offset < n; offset += xf.line_width) {
+	// Zero width means single line
+	const uint32_t line_width = xf.line_width ? xf.line_width : n;
+
+	uint32_t offset;
+	for (offset = 0; offset < n; offset += line_width) {
 		sb.printf("\n\t%03d: ", offset);
 
 		unsigned int i;
-		for (i = 0; i < xf.line_width; i++) {
+		for (i = 0; i < line_width; i++) {
 			if ((i + offset) < n)
 				sb.printf("%02x ", data[offset + i]);
 			else
 				sb.push_back("   ");
 		}
 		sb.push_back("  ");
-		for (i = 0; i < xf.line_width && ((i + offset) < n); i++) {
+		for (i = 0; i < line_width && ((i + offset) < n); i++) {
 			uint8_t b = data[offset + i];
 			sb.push_back(isprint(b) ? b : '.');
 		}
-- 
2.43.0


From ee882ce23fa274dc52383520c7ee470458fd1b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:01 +0000
Subject: [PATCH 15/40] fix: raw log reader writes past its record buffer

Argument sizes in the input were not checked against the buffer size.
---
 tools/raw-parser.cc  | 17 +++++++++++------
 tools/raw-parser.hpp | 22 +++++++++++++++++++---
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/tools/raw-parser.cc b/tools/raw-parser.cc
index dda1b62..c489dfd 100644
--- a/tools/raw-parser.cc
+++ b/tools/raw-parser.cc
@@ -68,6 +68,7 @@ void raw_parser::read_args(hogl::record &r)
 	if (_failed) return;
 
 	unsigned long offset = 16 * 8;
+	unsigned long room   = _max_record_size - hogl::record::header_size();
 
 	r.argtype = read_uint<uint64_t>("argtype");
 
@@ -88,7 +89,7 @@ void raw_parser::read_args(hogl::record &r)
 			r.set_arg_type(i, hogl::arg::CSTR);
 			// fall through
 		case arg::CSTR:
-			n = read_str<uint16_t>((char *) r.argval + offset, "cstr-arg");
+			n = read_str<uint16_t>((char *) r.argval + offset, room - offset, "cstr-arg");
 			r.set_arg_data(i, offset, n - 1);
 			offset += n;
 			break;
@@ -96,9 +97,9 @@ void raw_parser::read_args(hogl::record &r)
 		case arg::XDUMP:
 		case arg::RAW:
 			if (_ver == V1)
-				n = read_blob<uint16_t>((char *) r.argval + offset, "raw-arg");
+				n = read_blob<uint16_t>((char *) r.argval + offset, room - offset, "raw-arg");
 			else
-				n = read_blob<uint32_t>((char *) r.argval + offset, "raw-arg");
+				n = read_blob<uint32_t>((char *) r.argval + offset, room - offset, "raw-arg");
 
 			r.set_arg_data(i, offset, n);
 			offset += n;
@@ -115,13 +116,17 @@ void raw_parser::read_args(hogl::record &r)
 }
 
 raw_parser::raw_parser(hogl::rdbuf &in, unsigned int ver, unsigned int max_record_size) :
-	_in(in), _ver(ver)
+	_in(in), _record(0), _max_record_size(max_record_size), _ring_name(0), _ver(ver)
 {
 	reset();
 
+	// Need room for at least the record itself
+	if (_max_record_size < sizeof(hogl::record))
+		_max_record_size = sizeof(hogl::record);
+
 	// Allocate nicely aligned buffer for the dummy record 
 	// we're going to populate with data read from the file.
-	int err = posix_memalign((void **)&_record, 64, max_record_size);
+	int err = posix_memalign((void **)&_record, 64, _max_record_size);
 	if (err) {
 		_error << "init: failed to allocate record buffer. "
 			<< strerror(errno) << "(" <<  errno << ")";
@@ -171,7 +176,7 @@ static bool valid_name(const char *str)
 
 void raw_parser::read_name(char *str, const char *stage)
 {
-	read_str<uint8_t>(str, stage);
+	read_str<uint8_t>(str, raw_area::MAX_NAME_LEN, stage);
 
 	if (_failed) return;
 
diff --git a/tools/raw-parser.hpp b/tools/raw-parser.hpp
index 1177e8b..be4e288 100644
--- a/tools/raw-parser.hpp
+++ b/tools/raw-parser.hpp
@@ -66,6 +66,7 @@ private:
 
 	hogl::format::data _format_data; // data struct passed to formatter
 	void              *_record;      // record buffer
+	unsigned int       _max_record_size; // size of the record buffer
 	raw_area           _area;        // raw area
 	char              *_ring_name;   // ringbuffer name for last record
 
@@ -85,8 +86,9 @@ private:
 	}
 
 	// Read a blob from the input stream
+	// Blobs that do not fit into the available room are rejected
 	template <typename T>
-	unsigned long read_blob(char *data, const char *stage = "")
+	unsigned long read_blob(char *data, unsigned long room, const char *stage = "")
 	{
 		if (_failed) return 0;
 
@@ -94,6 +96,12 @@ private:
 		if (_failed || !len)
 			return 0;
 
+		if (len > room) {
+			_failed = true;
+			_error << "format: blob is too large @ " << stage;
+			return 0;
+		}
+
 		_failed = ! _in.read(data, len);
 		if (_failed) {
 			_error << "input: failed to read blob @ " << stage;
@@ -104,13 +112,21 @@ private:
 
 	// Read a string from the input stream
 	// Strings are guarantied to be null-terminated
+	// Strings that do not fit into the available room are rejected
 	// Returns string length including the null-terminator.
 	template <typename T>
-	unsigned long read_str(char *str, const char *stage = "")
+	unsigned long read_str(char *str, unsigned long room, const char *stage = "")
 	{
 		if (_failed) return 0;
 
-		unsigned long len = read_blob<T>(str, stage);
+		if (!room) {
+			_failed = true;
+			_error << "format: string is too large @ " << stage;
+			return 0;
+		}
+
+		// Save room for null-terminator
+		unsigned long len = read_blob<T>(str, room - 1, stage);
 
 		if (_failed) return 0;
 
-- 
2.43.0


From 599b48ad25d0ec4a1b0000d5bba40663e4cf24d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:25 +0000
Subject: [PATCH 16/40] fix: engine drops a ring that was looked up while it
 was being reaped

Records posted to that ring were never output.
---
 src/engine.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/engine.cc b/src/engine.cc
index 99ec9e1..2312e2b 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -272,6 +272,13 @@ void engine::kill_orphan(unsigned int i, ringbuf *ring)
 	// This is not critical. We don't want to stall the engine 
 	// thread just to cleanup an orphan.
 	if (!pthread_mutex_trylock(&_ring_mutex)) {
+		// The caller checked without the lock. Someone might have
+		// found and used this ring in the meantime.
+		if (!ring->orphan() || !ring->empty()) {
+			pthread_mutex_unlock(&_ring_mutex);
+			return;
+		}
+
 		_ring_map.erase(ring->name());
 
 		// Invalidate index. It will be rebuilt next time we
@@ -654,7 +661,7 @@ ringbuf *engine::add_ring(const char *name, const ringbuf::options &opts)
 
 	pthread_mutex_lock(&_ring_mutex);
 	s = _ring_map.insert(ring_map::value_type(name, nr));
-	s.first->second->hold();
+	ringbuf *r = s.first->second->hold();
 	pthread_mutex_unlock(&_ring_mutex);
 
 	if (s.second == true) {
@@ -672,8 +679,6 @@ ringbuf *engine::add_ring(const char *name, const ringbuf::options &opts)
 	// and see if we can reuse the one we found.
 	nr->release();
 
-	ringbuf *r = s.first->second;
-
 	// Shared rings can be reused of course.
 	if (r->shared())
 		return r;
-- 
2.43.0


From aa85ce29a5460fafae7aa9f45b63b2c4eb628e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:25 +0000
Subject: [PATCH 17/40] fix: ring registered during a timesource change keeps
 the old timesource

---
 src/engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.cc b/src/engine.cc
index 2312e2b..ca18873 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -657,9 +657,9 @@ ringbuf *engine::add_ring(const char *name, const ringbuf::options &opts)
 
 	ringbuf *nr = new ringbuf(name, opts);
 	nr->hold();
-	nr->timesource(_timesource);
 
 	pthread_mutex_lock(&_ring_mutex);
+	nr->timesource(_timesource);
 	s = _ring_map.insert(ring_map::value_type(name, nr));
 	ringbuf *r = s.first->second->hold();
 	pthread_mutex_unlock(&_ring_mutex);
-- 
2.43.0


From 49132228c4fdfb38aaa67cbf11684ae28c6146f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:25 +0000
Subject: [PATCH 18/40] fix: change_timesource with explicit ring crashes the
 engine on null timesource

---
 src/timesource.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/timesource.cc b/src/timesource.cc
index 9cd84cd..f051200 100644
--- a/src/timesource.cc
+++ b/src/timesource.cc
@@ -90,6 +90,9 @@ static bool do_change_timesource(ringbuf *ring, timesource *ts, uint64_t to_usec
 
 bool change_timesource(ringbuf *ring, timesource *ts, unsigned int to_usec)
 {
+	if (!ts)
+		ts = &default_timesource;
+
 	bool r;
 	ring->lock();
 	r = do_change_timesource(ring, ts, to_usec);
@@ -99,8 +102,6 @@ bool change_timesource(ringbuf *ring, timesource *ts, unsigned int to_usec)
 
 bool change_timesource(timesource *ts, unsigned int to_usec)
 {
-	if (!ts)
-		ts = &default_timesource;
 	ringbuf *ring = tls::ring();
 	return change_timesource(ring, ts, to_usec);
 }
-- 
2.43.0


From 7b4c3ef7a6dedd8dea775c4f934d1f71fd47719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:25 +0000
Subject: [PATCH 19/40] fix: mask of a new area is not synchronized with
 apply_mask

---
 src/engine.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/engine.cc b/src/engine.cc
index ca18873..308df54 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -620,13 +620,13 @@ area *engine::add_area(const char *name, const char **sections)
 	s = _area_map.insert(area_map::value_type(name, na));
 	a = s.first->second;
 	_stats.areas_added++;
+	// Apply current mask to the new area before anybody can find it.
+	if (s.second)
+		_mask.apply(a);
 	pthread_mutex_unlock(&_area_mutex);
 
 	if (s.second != false) {
 		// New area.
-		// Apply current mask before returning the area to the caller.
-		_mask.apply(a);
-
 		hogl::post(internal_area(), internal::AREA_DEBUG,
 			"new area %s(%p): number-of-sections %u", a->name(), a, a->count());
 
-- 
2.43.0


From 64b2e9cc320ba3ea48617e4b606a056a97ef91bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:25 +0000
Subject: [PATCH 20/40] fix: engine mask is read without the lock

---
 include/hogl/detail/engine.hpp | 2 +-
 src/engine.cc                  | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/hogl/detail/engine.hpp b/include/hogl/detail/engine.hpp
index da357ae..8d1260d 100644
--- a/include/hogl/detail/engine.hpp
+++ b/include/hogl/detail/engine.hpp
@@ -204,7 +204,7 @@ public:
 	/**
  	 * Get current mask
  	 */
-	const mask& get_mask() const { return _mask; }
+	mask get_mask() const;
 
 	/**
 	 * Add log area.
diff --git a/src/engine.cc b/src/engine.cc
index 308df54..8c6e5c9 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -769,6 +769,14 @@ void engine::apply_mask(const mask &m)
 	pthread_mutex_unlock(&_area_mutex);
 }
 
+mask engine::get_mask() const
+{
+	pthread_mutex_lock(&_area_mutex);
+	mask m = _mask;
+	pthread_mutex_unlock(&_area_mutex);
+	return m;
+}
+
 /**
  * List all ring buffers
  */
-- 
2.43.0


From 2d05334f1a7f306ec684f71e25dcbcf7da8a0a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:25 +0000
Subject: [PATCH 21/40] fix: activate accepts default ring that is not both
 shared and immortal

---
 src/default-engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/default-engine.cc b/src/default-engine.cc
index 336be86..d0561aa 100644
--- a/src/default-engine.cc
+++ b/src/default-engine.cc
@@ -64,7 +64,7 @@ void activate(output &out, const engine::options &engine_opts)
 
 	// Default ringbuf must be shared and immortal.
 	// We check here because user app is allowed to replace default options.
-	if (!default_ring.immortal() && !default_ring.shared())
+	if (!default_ring.immortal() || !default_ring.shared())
 		throw std::logic_error("hogl::activate default ring properties not valid");
 
 	// Initialize default engine
-- 
2.43.0


From e6cd3d1199b8dc63f78dccf4efe483abee540f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:25 +0000
Subject: [PATCH 22/40] fix: writer that blocks right after the ring was
 emptied is never resumed

---
 src/engine.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/engine.cc b/src/engine.cc
index 8c6e5c9..90265ac 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -480,12 +480,17 @@ void engine::process_rings_tso()
 
 	// Commit all changes
 	for (i = 0; i < _ring_index.count; i++) {
-		if (!_ring_index(i)->lastrec)
-			continue;
-
 		ringbuf::pop_iterator &it = _ring_index(i)->pit;
 		if (hogl_unlikely(!it.valid()))
 			continue;
+
+		// The writer might have blocked after we freed the records
+		// it was waiting for.
+		if (!_ring_index(i)->lastrec) {
+			it.ring()->unblock();
+			continue;
+		}
+
 		it.rewind(_ring_index(i)->lastrec);
 		it.commit(ringbuf::NOBARRIER);
 		it.ring()->unblock();
-- 
2.43.0


From f6505783c9dca7ce20f96c6a3ae6a0b1c1475c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:25 +0000
Subject: [PATCH 23/40] fix: tso buffer with the capacity of one record
 overflows

---
 src/engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.cc b/src/engine.cc
index 90265ac..3575169 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -393,7 +393,7 @@ void engine::do_flush_tso(unsigned int size)
 // We only flush half of it to avoid flushing records out-of-order.
 void engine::flush_full_tso()
 {
-	unsigned int size  = _tso.size() / 2;
+	unsigned int size  = (_tso.size() + 1) / 2;
 
 	if (_internal_area->test(internal::TSOFULLMARK)) {
 		tsobuf::entry te = {};
-- 
2.43.0


From 713fff9e06bfbd836fb95b130eeb477869480b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:25 +0000
Subject: [PATCH 24/40] fix: failed ring allocation is not detected

---
 src/ringbuf.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringbuf.cc b/src/ringbuf.cc
index 2590974..ed11cf7 100644
--- a/src/ringbuf.cc
+++ b/src/ringbuf.cc
@@ -49,7 +49,7 @@ extern timesource default_timesource;
 void* ringbuf::operator new(size_t s)
 {
 	void *m = NULL;
-	if (posix_memalign(&m, 64, s) < 0)
+	if (posix_memalign(&m, 64, s) != 0)
 		throw std::bad_alloc();
 	return m;
 }
-- 
2.43.0


From d30d5d7a751196c1cecae6bf51d06f1634901403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:25 +0000
Subject: [PATCH 25/40] fix: rings larger than 4GB overflow their buffer

---
 include/hogl/detail/ringbuf.hpp | 2 +-
 src/ringbuf.cc                  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/hogl/detail/ringbuf.hpp b/include/hogl/detail/ringbuf.hpp
index 37c9067..9177e01 100644
--- a/include/hogl/detail/ringbuf.hpp
+++ b/include/hogl/detail/ringbuf.hpp
@@ -116,7 +116,7 @@ protected:
  	 */
 	record* get_record(unsigned int i)
 	{
-		return (record *) (_rec_top + (i << _rec_shift));
+		return (record *) (_rec_top + ((size_t) i << _rec_shift));
 	}
 
 	/**
diff --git a/src/ringbuf.cc b/src/ringbuf.cc
index ed11cf7..a2f5742 100644
--- a/src/ringbuf.cc
+++ b/src/ringbuf.cc
@@ -115,12 +115,12 @@ ringbuf::ringbuf(const char *name, const options &opts) :
 
 	// Allocate record buffers
 	_rec_top = 0;
-	err = posix_memalign((void **) &_rec_top, sysconf(_SC_PAGESIZE), capacity() * record_size());
+	err = posix_memalign((void **) &_rec_top, sysconf(_SC_PAGESIZE), (size_t) capacity() * record_size());
 	if (err && !_rec_top) {
 		_capacity = 0;
 		return;
 	}
-	memset(_rec_top, 0, capacity() * record_size());
+	memset(_rec_top, 0, (size_t) capacity() * record_size());
 
 	// Init ringbuf mutex.
 	// Enable priority inherintance.
-- 
2.43.0


From 03de6d5b649b239e3a46e6a45c1aa2fd82ed7b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 26/40] fix: null string argument crashes hogl_post in C

---
 include/hogl/c-api/post.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hogl/c-api/post.h b/include/hogl/c-api/post.h
index c10119b..83e4c77 100644
--- a/include/hogl/c-api/post.h
+++ b/include/hogl/c-api/post.h
@@ -59,7 +59,7 @@
 static inline void __hogl_strarg(struct hogl_arg *arg, const char *str)
 {
 	arg->type = HOGL_ARG_CSTR;
-	arg->len  = strlen(str);
+	arg->len  = str ? strlen(str) : 0;
 	arg->val  = (unsigned long) str;
 }
 
-- 
2.43.0


From 6a32d3f9ffede7d813fe0e0e862b5758f3584b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:46 +0000
Subject: [PATCH 27/40] fix: hogl_post in C drops long long, char and bool
 arguments and all after them

---
 include/hogl/c-api/post.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/hogl/c-api/post.h b/include/hogl/c-api/post.h
index 83e4c77..4df03cd 100644
--- a/include/hogl/c-api/post.h
+++ b/include/hogl/c-api/post.h
@@ -124,6 +124,22 @@ do {									\
 			un.s64 = *(int8_t *)__hogl_p;					\
 			args[i].type = HOGL_ARG_INT32;				\
 		} else								\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), unsigned long long)) { \
+			un.u64 = *(unsigned long long *)__hogl_p;	\
+			args[i].type = HOGL_ARG_UINT64;			\
+		} else							\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), long long)) { \
+			un.s64 = *(long long *)__hogl_p;		\
+			args[i].type = HOGL_ARG_INT64;			\
+		} else							\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), char)) { \
+			un.s64 = *(char *)__hogl_p;			\
+			args[i].type = HOGL_ARG_INT32;			\
+		} else							\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), bool)) { \
+			un.u64 = *(bool *)__hogl_p;			\
+			args[i].type = HOGL_ARG_UINT32;			\
+		} else							\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), void *)) {	\
 			un.u64 = (unsigned long) __hogl_x;			\
 			args[i].type = HOGL_ARG_POINTER;			\
-- 
2.43.0


From 0ac71ac6f7f6508cfe2e61dc5dc442d446b15420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:46 +0000
Subject: [PATCH 28/40] fix: timed out flush is reported as a dropped record

The sequence number was consumed even if the marker could not be posted.
---
 src/flush.cc      | 3 +--
 src/timesource.cc | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/flush.cc b/src/flush.cc
index c593adb..38d3aeb 100644
--- a/src/flush.cc
+++ b/src/flush.cc
@@ -55,7 +55,6 @@ bool timeout(uint64_t &to, uint64_t usec)
 // records out of this ring will ack the flush record.
 static bool do_flush(ringbuf *ring, uint64_t to_usec)
 {
-	uint64_t seq = ring->inc_seqnum();
 	uint64_t to = 0;
 
 	// Wait for some room in the ringbuf
@@ -67,7 +66,7 @@ static bool do_flush(ringbuf *ring, uint64_t to_usec)
 	// Push the flush reccord
 	record *r = ring->push_begin();
 	r->timestamp = ring->timestamp();
-	r->seqnum    = seq;
+	r->seqnum    = ring->inc_seqnum();
 	r->special(internal::SPR_FLUSH);
 	ring->push_commit(r);
 
diff --git a/src/timesource.cc b/src/timesource.cc
index f051200..0a6f624 100644
--- a/src/timesource.cc
+++ b/src/timesource.cc
@@ -57,7 +57,6 @@ extern bool timeout(uint64_t &to, uint64_t usec);
 // records out of this ring will ack the ts change record.
 static bool do_change_timesource(ringbuf *ring, timesource *ts, uint64_t to_usec)
 {
-	uint64_t seq = ring->inc_seqnum();
 	uint64_t to = 0;
 
 	// Wait for some room in the ringbuf
@@ -69,7 +68,7 @@ static bool do_change_timesource(ringbuf *ring, timesource *ts, uint64_t to_usec
 	// Push the timesource change reccord
 	record *r = ring->push_begin();
 	r->timestamp = ring->timestamp();
-	r->seqnum    = seq;
+	r->seqnum    = ring->inc_seqnum();
 	r->special(internal::SPR_TIMESOURCE_CHANGE, (uint64_t) ts);
 	ring->push_commit(r);
 
-- 
2.43.0


From bb15f6f0dbd51017ac797ddcbc64f25bf5b27988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:12 +0000
Subject: [PATCH 29/40] fix: reused ring is reported to have dropped all its
 earlier records

---
 include/hogl/detail/engine.hpp | 3 +++
 src/engine.cc                  | 6 ++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/hogl/detail/engine.hpp b/include/hogl/detail/engine.hpp
index 8d1260d..0c37ec5 100644
--- a/include/hogl/detail/engine.hpp
+++ b/include/hogl/detail/engine.hpp
@@ -96,6 +96,9 @@ public:
 			uint64_t  seqnum;
 		};
 
+		// Expected seqnum of a ring that no records came from yet
+		static const uint64_t UNKNOWN_SEQNUM = ~(uint64_t) 0;
+
 		entry         *entries;
 		unsigned int   count;
 		volatile bool  dirty;
diff --git a/src/engine.cc b/src/engine.cc
index 3575169..4a415c5 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -218,7 +218,9 @@ void engine::rebuild_ring_index()
 		ringbuf *ring = it->second;
 		ni(i)->pit.ring(ring);
 		ni(i)->lastrec = 0;
-		ni(i)->seqnum    = 0;
+		// The ring might have been used before (default ring after
+		// reactivation). Start counting from its first record.
+		ni(i)->seqnum    = ring_index::UNKNOWN_SEQNUM;
 
 		ring_index::entry *re = oi(ring);
 		if (re) {
@@ -370,7 +372,7 @@ void engine::do_flush_tso(unsigned int size)
 		const ringbuf *ring = _ring_index(i)->pit.ring();
 
 		// Check for dropped records by comparing sequence numbers
-		if (r->seqnum != _ring_index(i)->seqnum) {
+		if (r->seqnum != _ring_index(i)->seqnum && _ring_index(i)->seqnum != ring_index::UNKNOWN_SEQNUM) {
 			// Detected a drop
 			uint64_t n = r->seqnum - _ring_index(i)->seqnum;
 
-- 
2.43.0


From fc8c4e6dc7778ef990e42cf89819770d352444b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:45 +0000
Subject: [PATCH 30/40] fix: output_file helper must lock the rotate mutex
 while it reads the name

The constructor starts the helper thread last, so the user can call
switch_name() while the helper is still copying the symlink name.
---
 src/output-file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/output-file.cc b/src/output-file.cc
index 12978a8..fe96f57 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -398,8 +398,11 @@ void *output_file::thread_entry(void *_self)
 {
 	output_file *self = (output_file *) _self;
 
+	// The name might be switched at any time
 	std::ostringstream ss;
+	pthread_mutex_lock(&self->_rotate_mutex);
 	ss << "hogl::output_file helper (" << self->_symlink << ")";
+	pthread_mutex_unlock(&self->_rotate_mutex);
 
 	platform::set_thread_title(ss.str().c_str());
 
-- 
2.43.0


From 3c848ccd81712cc830ff34d19db0e9a3faaf4f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:14 +0000
Subject: [PATCH 31/40] fix: output_file index width computation never ended
 with max_count above 1000000000

The power of ten used to find the width was a 32-bit value: it wrapped around
and the loop never reached max_count.
---
 src/output-file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index fe96f57..0ea3935 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -227,7 +227,7 @@ void output_file::init_name(const char *filename)
 	}
 
 	// Figure out index width for zero-padding
-	unsigned int step = 10;
+	unsigned long long step = 10;
 	_index_width = 1;
 	while (step < _max_count) {
 		step *= 10;
-- 
2.43.0


From 64d4d542cc48c944d2b123e784a88dc7f791921a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:06 +0000
Subject: [PATCH 32/40] fix: empty and negative cpu affinity masks were
 accepted

strtoull() accepts an empty string as zero and wraps negative numbers around,
so that 'mask:' selected no cpu and '-1' selected all of them.
---
 src/schedparam.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/schedparam.cc b/src/schedparam.cc
index f175ee4..7461980 100644
--- a/src/schedparam.cc
+++ b/src/schedparam.cc
@@ -179,6 +179,10 @@ static int parse_cpumask(const std::string& str, cpumask& mask)
 	const char *sptr = str.c_str();
 	char *eptr = nullptr;
 
+	// strtoull accepts empty strings and negative numbers
+	if (!isdigit(*sptr))
+		return EINVAL;
+
 	errno = 0;
 	unsigned long long m = std::strtoull(sptr, &eptr, 0);
 	if (errno) 
-- 
2.43.0


From 76b910b594ee3edd99f9b8a5b0812008a83a678f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:58 +0000
Subject: [PATCH 33/40] fix: buffered raw reader counted as valid with
 uninitialised state when its construction failed

---
 tools/rdbuf.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/rdbuf.cc b/tools/rdbuf.cc
index 5a37787..fb2e843 100644
--- a/tools/rdbuf.cc
+++ b/tools/rdbuf.cc
@@ -41,7 +41,8 @@ __HOGL_PRIV_NS_OPEN__
 namespace hogl {
 
 file_rdbuf::file_rdbuf(const std::string &filename, unsigned int flags, unsigned int capacity) :
-	_flags(flags), _ifd(-1)
+	_data(0), _capacity(0), _head(0), _size(0), _count(0),
+	_flags(flags), _fd(-1), _ifd(-1), _errno(0)
 {
 	_data = (uint8_t *) malloc(capacity);
 	if (!_data) {
-- 
2.43.0


From d8a6fd0187a0815ebb4fa9becbc69c8fd869143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:07 +0000
Subject: [PATCH 34/40] fix: recovery remapped addresses outside of the core
 sections

The end of the range wrapped around for pointers close to the top of the
address space, and a pointer to the end of a section was accepted.
---
 tools/coredump.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tools/coredump.cc b/tools/coredump.cc
index bbcdef4..600e050 100644
--- a/tools/coredump.cc
+++ b/tools/coredump.cc
@@ -280,13 +280,17 @@ coredump::~coredump()
 void* coredump::remap(const void *ptr, unsigned long n)
 {
 	uint64_t start = (uint64_t) ptr;
-	uint64_t end   = start + n;
 
 	section_set::const_iterator it;
 	for (it = sections.begin(); it != sections.end(); ++it) {
 		const section *s = *it;
-		if (start >= s->vma && end <= (s->vma + s->size))
-			return s->addr + (start - s->vma);
+		if (start < s->vma)
+			continue;
+
+		// Note that adding n to the pointer could wrap around
+		uint64_t offset = start - s->vma;
+		if (offset < s->size && n <= s->size - offset)
+			return s->addr + offset;
 	}
 	return 0;
 }
-- 
2.43.0


From e7720ea76febaa89b730017a6253e5fcbedaa740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:07 +0000
Subject: [PATCH 35/40] fix: recovery followed strings that are not terminated
 inside of the core section

Names and string arguments were translated without checking that the
string ends inside of the section, formatting them read past the end
of the section image.
---
 tools/coredump.cc        | 18 ++++++++++++++++++
 tools/coredump.hpp       | 12 +++++++++++-
 tools/recovery-engine.cc | 12 ++++++------
 3 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/tools/coredump.cc b/tools/coredump.cc
index 600e050..7c0da01 100644
--- a/tools/coredump.cc
+++ b/tools/coredump.cc
@@ -295,6 +295,24 @@ void* coredump::remap(const void *ptr, unsigned long n)
 	return 0;
 }
 
+char* coredump::remap_str(const void *ptr)
+{
+	uint64_t start = (uint64_t) ptr;
+
+	section_set::const_iterator it;
+	for (it = sections.begin(); it != sections.end(); ++it) {
+		const section *s = *it;
+		if (start < s->vma)
+			continue;
+
+		// The string must end inside the section
+		uint64_t offset = start - s->vma;
+		if (offset < s->size && memchr(s->addr + offset, '\0', s->size - offset))
+			return (char *) s->addr + offset;
+	}
+	return 0;
+}
+
 } // namespace hogl
 __HOGL_PRIV_NS_CLOSE__
 
diff --git a/tools/coredump.hpp b/tools/coredump.hpp
index 15eb296..e2223e0 100644
--- a/tools/coredump.hpp
+++ b/tools/coredump.hpp
@@ -84,7 +84,17 @@ public:
 	coredump(const char *corefile, const char *execfile = 0);
 	~coredump();
 
-	void* remap(const void *ptr, unsigned long n = 0);
+	/**
+	 * Translate address of the object of n bytes.
+	 * @return null if the object is not fully inside of one of the sections
+	 */
+	void* remap(const void *ptr, unsigned long n);
+
+	/**
+	 * Translate address of the string.
+	 * @return null if the string is not null-terminated inside of one of the sections
+	 */
+	char* remap_str(const void *ptr);
 
 private:
 	void load(bfd *b);
diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 33affaa..76294dd 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -84,7 +84,7 @@ public:
 		if (!a->count() || a->count() > 256*1024)
 			return 0;
 
-		a->_name = (char *) core.remap(a->_name);
+		a->_name = core.remap_str(a->_name);
 		if (!a->_name)
 			return 0;
 
@@ -95,7 +95,7 @@ public:
 
 		unsigned int i;
 		for (i=0; i < a->count(); ++i) {
-			a->_section[i] = (const char *) core.remap((void *) a->_section[i]);
+			a->_section[i] = core.remap_str(a->_section[i]);
 			if (a->_section[i]) continue;
 
 			// Section name not found, likely because it was set to default (ie mmaped from hogl.so)
@@ -125,7 +125,7 @@ public:
 
 		timesource_validator *ts = (timesource_validator *) ptr;
 
-		ts->_name = (char *) core.remap(ts->_name);
+		ts->_name = core.remap_str(ts->_name);
                 if (!ts->_name)
                         return 0;
 		return ts;
@@ -159,7 +159,7 @@ public:
 		if (r->_head > r->_capacity || r->_tail > r->_capacity)
 			return false;
 
-		r->_name    = (char *)    core.remap(r->_name);
+		r->_name    = core.remap_str(r->_name);
 		r->_rec_top = (uint8_t *) core.remap(r->_rec_top, (unsigned long) r->record_size() * r->capacity());
 
 		if (!r->_name || !r->_rec_top)
@@ -319,9 +319,9 @@ void recovery_engine::fixup_records(ringbuf *ring)
 			switch (type) {
 			case arg::GSTR:
 				if (arg::is_32bit(arg::GSTR))
-					r->argval[i].u32 = (uint64_t) _core.remap((void *) (uint64_t) r->get_arg_val32(i));
+					r->argval[i].u32 = (uint64_t) _core.remap_str((void *) (uint64_t) r->get_arg_val32(i));
 				else
-					r->argval[i].u64 = (uint64_t) _core.remap((void *) r->get_arg_val64(i));
+					r->argval[i].u64 = (uint64_t) _core.remap_str((void *) r->get_arg_val64(i));
 				break;
 			case arg::CSTR:
 			case arg::XDUMP:
-- 
2.43.0


From 221d23c2c87f8471b859b6ca7496c6cb977b1a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:07 +0000
Subject: [PATCH 36/40] fix: recovery accepted rings with a bogus capacity or
 record shift

Ring iterators never reach the tail if the capacity is not a power of two,
UINT_MAX wraps around, and shifts above 31 were masked by the size check
but not by the record lookup.
---
 tools/recovery-engine.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 76294dd..917aa8c 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -150,12 +150,18 @@ public:
 			return false;
 
 		// Record size of more than 1MB is definitely insane
+		if (r->_rec_shift > 20)
+			return false;
 		if (r->record_size() < sizeof(record) || r->record_size() > 1024*1024)
 			return false;
  
 		if (r->record_tailroom() > r->record_size())
 			return false;
 
+		// Capacity is used as a mask
+		if (!r->capacity() || (r->_capacity & r->capacity()))
+			return false;
+
 		if (r->_head > r->_capacity || r->_tail > r->_capacity)
 			return false;
 
-- 
2.43.0


From f02503cbbee3fb469a3a5a70f27cffee1dd59a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:07 +0000
Subject: [PATCH 37/40] fix: recovery formatted record strings that are not
 terminated

The length of the string was validated but the formatter relies on the
null-terminator, which has to be inside of the record as well.
---
 tools/recovery-engine.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 917aa8c..fa0d49e 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -301,6 +301,7 @@ void recovery_engine::fixup_records(ringbuf *ring)
 {
 	unsigned int room = ring->record_size() - record::header_size();
 	unsigned int len;
+	const uint8_t *data;
 
 	ringbuf::pop_iterator it(ring);
 	record *r;
@@ -333,9 +334,12 @@ void recovery_engine::fixup_records(ringbuf *ring)
 			case arg::XDUMP:
 			case arg::RAW:
 				// Drop data that is not inside the record
-				r->get_arg_data(i, len);
+				data = r->get_arg_data(i, len);
 				if (r->argval[i].data.offset > room || len > room - r->argval[i].data.offset)
 					r->set_arg_data(i, 0, 0);
+				else if (type == arg::CSTR && len && (len == room - r->argval[i].data.offset || data[len]))
+					// Not terminated
+					r->set_arg_data(i, 0, 0);
 				break;
 			default:
 				break;
-- 
2.43.0


From 096c9bb37f9b4a39ce97063f513ec17f7323dc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:07 +0000
Subject: [PATCH 38/40] fix: recovery with DUMP_ALL lost the records in the
 first and the last slot

Iterator starts after the head and stops at the tail, so the slots 0 and
capacity were skipped even if they had records that were not flushed.
---
 tools/recovery-engine.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index fa0d49e..8f21f94 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -172,9 +172,9 @@ public:
 			return false;
 
 		if (reset) {
-			// Reset head/tail for dumping the entire ring
-			r->_head = 0;
-			r->_tail = r->_capacity;
+			// Reset tail for dumping the entire ring.
+			// Includes everything but the last consumed record.
+			r->_tail = r->_head;
 		}
 
 		return true;
-- 
2.43.0


From 74560ceb1c1d430d14dc7ed2564f7de14b94cda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:16 +0000
Subject: [PATCH 39/40] fix: recovery clobbered section names shared between
 the areas

Areas with default sections share the table of section names, fixing it up
in place broke the names for the areas recovered earlier.
---
 tools/recovery-engine.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 8f21f94..ee7e118 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -88,14 +88,17 @@ public:
 		if (!a->_name)
 			return 0;
 
-		// Fixup section names
-		a->_section = (const char **) core.remap(a->_section, sizeof(char *) * a->count());
-		if (!a->_section)
+		// Fixup section names.
+		// Areas can share the table of names, so leave the original as is.
+		const char **section = (const char **) core.remap(a->_section, sizeof(char *) * a->count());
+		if (!section)
 			return 0;
 
+		a->_section = new const char* [a->count()];
+
 		unsigned int i;
 		for (i=0; i < a->count(); ++i) {
-			a->_section[i] = core.remap_str(a->_section[i]);
+			a->_section[i] = core.remap_str(section[i]);
 			if (a->_section[i]) continue;
 
 			// Section name not found, likely because it was set to default (ie mmaped from hogl.so)
@@ -103,6 +106,7 @@ public:
 			// Otherwise set to a dummy string to avoid segfaults in the optimized header formats.
 
 			if (i == 0 && a->count() == 6) {
+				delete [] a->_section;
 				a->_section = default_section_names;
 				break;
 			}
-- 
2.43.0


From a847599a96fc12a145ac110c704b425e2f969598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:14 +0000
Subject: [PATCH 40/40] fix: reopened file output misread the chunk number when
 it contains the suffix

---
 src/output-file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index 0ea3935..8b9cc09 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -171,7 +171,7 @@ unsigned int output_file::read_link()
 
 	// Validate and strip suffix
 	if (_name_sufx.size()) {
-		pos = str.find(_name_sufx);
+		pos = str.rfind(_name_sufx);
 		if (_name_sufx.size() && pos == str.npos) {
 			// Suffix does not match.
 			// Ignore, we'll fix it during update.
-- 
2.43.0

