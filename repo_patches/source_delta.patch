From 7bddf03dff1b2dcf065835c58dd124ce117a0269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 01/82] fix: msg_queue_pop reports the real size of the popped
 message

---
 src/ring/msg_queue.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ring/msg_queue.c b/src/ring/msg_queue.c
index 697e1c8..a087a99 100644
--- a/src/ring/msg_queue.c
+++ b/src/ring/msg_queue.c
@@ -96,6 +96,7 @@ msg_q_code_e msg_queue_pop(__in msg_queue msg_queue_p, __out void* msg_p, __inou
 	ASSERT_ABORT(read_bytes == sizeof(msg_header_t));
 	read_bytes = RingBuffer_read(msg_queue_p->ring_buf_p, msg_p, header.msg_size);
 	ASSERT_ABORT(read_bytes == header.msg_size);
+	*msg_size_p = header.msg_size; // tell caller the real size of popped msg
 	return MSG_Q_CODE_SUCCESS;
 }
 
-- 
2.43.0


From de7862c057a71a7d916ed6781b46469afb036318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 02/82] fix: autocover_buffer no longer returns bytes of a
 later lap for a covered position

---
 src/ring/autocover_buffer.c | 39 ++++++-------------------------------
 1 file changed, 6 insertions(+), 33 deletions(-)

diff --git a/src/ring/autocover_buffer.c b/src/ring/autocover_buffer.c
index e468983..0ee7867 100644
--- a/src/ring/autocover_buffer.c
+++ b/src/ring/autocover_buffer.c
@@ -62,42 +62,15 @@ static int auto_cover_buf_internal_read(const auto_cover_buf_handle buf_handle,
 
 	//default status is the data you want to read is been covered.
 	int real_can_read_len = AUTO_COVER_BUF_ERR_DATA_COVERED;
-	const uint32_t cover_read_off = read_pos & (buf_handle->ring_buffer_size - 1);
 	const uint32_t ring_available_data = RingBuffer_available_read(buf_handle->ring);
-	const uint32_t ring_read_off = RingBuffer_current_read_position(buf_handle->ring) & (buf_handle->ring_buffer_size - 1);
-	const uint32_t ring_write_off = RingBuffer_current_write_position(buf_handle->ring) & (buf_handle->ring_buffer_size - 1);
-	if (ring_write_off - ring_read_off == ring_available_data)
+	//read_pos is stream position just like ring position(both increase continuously and overflow together),
+	//so only compare it modulo ring size is not enough: position of previous lap is already been covered.
+	const uint32_t cover_read_off = read_pos - RingBuffer_current_read_position(buf_handle->ring);
+	if (cover_read_off <= ring_available_data)
 	{
-		//current ring read from "out --> in"
-		//so "cover_read_off" should big(or equal) than "ring_read_off", small than "ring_write_off"
-		if (cover_read_off >= ring_read_off && cover_read_off < ring_write_off)
-		{
-			real_can_read_len = ring_available_data - (cover_read_off - ring_read_off);
-		}
-		//ELSE if "cover_read_off" not in range above, that means the data you want to read is already been covered.
-	}
-	else
-	{
-		//current ring available read from "out --> end" AND "0 --> in" 
-		do
-		{	//                     "in"	                              "out"
-			if (cover_read_off > ring_write_off && cover_read_off < ring_read_off)
-			{
-				//"cover_read_off" shouldn't in this range. if in, that means the data you want to read is already been covered.
-				break;
-			}
-			if (cover_read_off >= ring_read_off)
-			{
-				//cover_read_off is in "out --> end"
-				real_can_read_len = ring_available_data - (cover_read_off - ring_read_off);
-			}
-			else
-			{
-				//cover_read_off is in "0 --> in", so "0 --> cover_read_off" should discard.
-				real_can_read_len = ring_write_off - cover_read_off;
-			}
-		} while (0);
+		real_can_read_len = ring_available_data - cover_read_off;
 	}
+	//ELSE "read_pos" not in range of "out --> in", that means the data you want to read is already been covered.
 	ASSERT_ABORT(real_can_read_len <= (int)ring_available_data);
 
 	if (target && real_can_read_len >= (int)request_read_len)
-- 
2.43.0


From 83b20e64fcd0b27cd52ece96b2af85404a4bf833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 03/82] fix: autocover_buffer refuses a read request of 2 GiB
 or more instead of aborting

---
 src/ring/autocover_buffer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ring/autocover_buffer.c b/src/ring/autocover_buffer.c
index 0ee7867..6b1b9d4 100644
--- a/src/ring/autocover_buffer.c
+++ b/src/ring/autocover_buffer.c
@@ -73,7 +73,7 @@ static int auto_cover_buf_internal_read(const auto_cover_buf_handle buf_handle,
 	//ELSE "read_pos" not in range of "out --> in", that means the data you want to read is already been covered.
 	ASSERT_ABORT(real_can_read_len <= (int)ring_available_data);
 
-	if (target && real_can_read_len >= (int)request_read_len)
+	if (target && real_can_read_len >= 0 && (uint32_t)real_can_read_len >= request_read_len)
 	{
 		//perform discard
 		const uint32_t should_discard_len = ring_available_data - real_can_read_len;
@@ -108,7 +108,7 @@ int auto_cover_buf_read(__in const auto_cover_buf_handle buf_handle,
 		return available_read_data;
 	}
 	int real_read_len;
-	if (available_read_data < (int)req_read_len)
+	if ((uint32_t)available_read_data < req_read_len)
 	{
 		//error: not enough data, we NOT perform read operation.
 		real_read_len = AUTO_COVER_BUF_ERR_DATA_NOT_ENOUGH;
-- 
2.43.0


From 73217b254fd3f7625ec0886d2d96e4795d3f4f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 04/82] fix: thpool wakes every thread waiting in thpool_wait,
 not just one

---
 src/thread/thpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index ad47491..6d5f4bd 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -392,7 +392,7 @@ static void* thread_do(struct thread* thread_p){
 		pthread_mutex_lock(&thpool_p->thcount_lock);
 		thpool_p->num_threads_working--;
 		if (!thpool_p->num_threads_working) {
-			pthread_cond_signal(&thpool_p->threads_all_idle);
+			pthread_cond_broadcast(&thpool_p->threads_all_idle);
 		}
 		pthread_mutex_unlock(&thpool_p->thcount_lock);
 	}
-- 
2.43.0


From 4b6e4a9fb6962350ab80d225762202ed95595bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 05/82] fix: thpool_destroy no longer frees the pool while the
 last thread is releasing its lock

---
 src/thread/thpool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index 6d5f4bd..c1285c6 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -241,6 +241,10 @@ void thpool_destroy(thpool_* thpool_p){
 		sleep(1);
 	}
 
+	/* The last thread may still be about to release this lock */
+	pthread_mutex_lock(&thpool_p->thcount_lock);
+	pthread_mutex_unlock(&thpool_p->thcount_lock);
+
 	/* Job queue cleanup */
 	jobqueue_destroy(&thpool_p->jobqueue);
 	/* Deallocs */
-- 
2.43.0


From 8c63f29fa0d14a62685c6d4b9271a51ba79ad61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 06/82] fix: thpool_init reports failure instead of waiting
 forever when a thread cannot be started

---
 src/thread/thpool.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index c1285c6..63199c2 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -164,17 +164,24 @@ struct thpool_* thpool_init(int num_threads){
 	/* Thread init */
 	int n;
 	for (n=0; n<num_threads; n++){
-		thread_init(thpool_p, &thpool_p->threads[n], n);
+		if (thread_init(thpool_p, &thpool_p->threads[n], n) != 0){
+			break;
+		}
 #if THPOOL_DEBUG
 			printf("THPOOL_DEBUG: Created thread %d in pool \n", n);
 #endif
 	}
 
 	/* Wait for threads to initialize */
-	while (thpool_p->num_threads_alive != num_threads) {
+	while (thpool_p->num_threads_alive != n) {
 		usleep(1000);
 	}
 
+	if (n != num_threads){
+		thpool_destroy(thpool_p);
+		return NULL;
+	}
+
 	return thpool_p;
 }
 
@@ -319,7 +326,12 @@ static int thread_init (thpool_* thpool_p, struct thread** thread_p, int id){
 	(*thread_p)->thpool_p = thpool_p;
 	(*thread_p)->id       = id;
 
-	pthread_create(&(*thread_p)->pthread, NULL, (void * (*)(void *)) thread_do, (*thread_p));
+	if (pthread_create(&(*thread_p)->pthread, NULL, (void * (*)(void *)) thread_do, (*thread_p)) != 0){
+		err("thread_init(): Could not create thread\n");
+		free(*thread_p);
+		*thread_p = NULL;
+		return -1;
+	}
 	pthread_detach((*thread_p)->pthread);
 	return 0;
 }
-- 
2.43.0


From 463a41213827cd9697e2690ade079f0d6738db81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 07/82] fix: thpool pause state belongs to its pool and a
 prompt resume is not lost

---
 src/thread/thpool.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index 63199c2..635f1c4 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -38,7 +38,6 @@
 #endif
 
 //static volatile int threads_keepalive;
-static volatile int threads_on_hold;
 
 
 
@@ -83,6 +82,7 @@ typedef struct thread{
 typedef struct thpool_{
 	thread**   threads;                  /* pointer to threads        */
 	volatile int threads_keepalive;      /* flag of threadpool exit   */
+	volatile int threads_on_hold;        /* flag of threadpool pause  */
 	volatile int num_threads_alive;      /* threads currently alive   */
 	volatile int num_threads_working;    /* threads currently working */
 	pthread_mutex_t  thcount_lock;       /* used for thread count etc */
@@ -124,7 +124,6 @@ static void  bsem_wait(struct bsem *bsem_p);
 /* Initialize thread pool */
 struct thpool_* thpool_init(int num_threads){
 
-	threads_on_hold   = 0;
 	//threads_keepalive = 1;
 
 	if (num_threads < 0){
@@ -139,6 +138,7 @@ struct thpool_* thpool_init(int num_threads){
 		return NULL;
 	}
 	thpool_p->threads_keepalive   = 1;
+	thpool_p->threads_on_hold     = 0;
 	thpool_p->num_threads_alive   = 0;
 	thpool_p->num_threads_working = 0;
 
@@ -231,6 +231,9 @@ void thpool_destroy(thpool_* thpool_p){
 	/* End each thread's infinite loop */
 	thpool_p->threads_keepalive = 0;
 
+	/* Release threads held by thpool_pause */
+	thpool_p->threads_on_hold = 0;
+
 	/* Give one second to kill idle threads */
 	double TIMEOUT = 1.0;
 	time_t start, end;
@@ -265,11 +268,14 @@ void thpool_destroy(thpool_* thpool_p){
 
 #ifndef _WIN32
 
+/* The pool the calling thread works for */
+static __thread thpool_* current_thpool;
+
 /* Sets the calling thread on hold */
 static void thread_hold(int sig_id) {
 	(void)sig_id;
-	threads_on_hold = 1;
-	while (threads_on_hold) {
+	thpool_* thpool_p = current_thpool;
+	while (thpool_p && thpool_p->threads_on_hold) {
 		err("thread_hold(): thread(%ld) on sleep(1)...\n", (long)GETTID());
 		sleep(1);
 	}
@@ -279,6 +285,7 @@ static void thread_hold(int sig_id) {
 /* Pause all threads in threadpool */
 void thpool_pause(thpool_* thpool_p) {
 	int n;
+	thpool_p->threads_on_hold = 1;
 	for (n=0; n < thpool_p->num_threads_alive; n++){
 		if (pthread_kill(thpool_p->threads[n]->pthread, SIGUSR1)) {
 			err("send SIGUSR1 signal to thread failed.\n");
@@ -288,12 +295,7 @@ void thpool_pause(thpool_* thpool_p) {
 
 /* Resume all threads in threadpool */
 void thpool_resume(thpool_* thpool_p) {
-    // resuming a single threadpool hasn't been
-    // implemented yet, meanwhile this suppresses
-    // the warnings
-    (void)thpool_p;
-
-	threads_on_hold = 0;
+	thpool_p->threads_on_hold = 0;
 }
 
 #endif // !_WIN32
@@ -368,6 +370,7 @@ static void* thread_do(struct thread* thread_p){
 
 	/* Register signal handler */
 #ifndef _WIN32
+	current_thpool = thpool_p;
 	struct sigaction act;
 	sigemptyset(&act.sa_mask);
 	act.sa_flags = 0;
-- 
2.43.0


From 6dd5d2d83a753f1fd2d51bb24fc8e4f23aab42f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 08/82] fix: thpool threads are not held by a pause while
 owning the pool's locks

---
 src/thread/thpool.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index 635f1c4..55d2af0 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -378,6 +378,11 @@ static void* thread_do(struct thread* thread_p){
 	if (sigaction(SIGUSR1, &act, NULL) == -1) {
 		err("thread_do(): cannot handle SIGUSR1");
 	}
+	/* Hold only right before or during a job, never while owning a lock of the pool */
+	sigset_t hold_set;
+	sigemptyset(&hold_set);
+	sigaddset(&hold_set, SIGUSR1);
+	pthread_sigmask(SIG_BLOCK, &hold_set, NULL);
 #endif // !_WIN32
 
 	/* Mark thread as alive (initialized) */
@@ -404,7 +409,13 @@ static void* thread_do(struct thread* thread_p){
 		if (job_p) {
 			func_buff = job_p->function;
 			arg_buff = job_p->arg;
+#ifndef _WIN32
+			pthread_sigmask(SIG_UNBLOCK, &hold_set, NULL);
+#endif // !_WIN32
 			func_buff(arg_buff);
+#ifndef _WIN32
+			pthread_sigmask(SIG_BLOCK, &hold_set, NULL);
+#endif // !_WIN32
 			free(job_p);
 		}
 
-- 
2.43.0


From 4a57ea27283d14eee4221f5e1792da7b5e8b728b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 09/82] fix: hashmap_put of the value already stored no longer
 frees it

---
 src/data/hashmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/hashmap.c b/src/data/hashmap.c
index c90b6cd..ad3b649 100644
--- a/src/data/hashmap.c
+++ b/src/data/hashmap.c
@@ -280,7 +280,7 @@ void* hashmap_put(hashmap_t* map, void* key, void* value)
 		if (equalKeys(current->key, current->hash, key, hash, map->fn_key_equality))
 		{
 			ret = current->value;
-			if (ret && map->fn_value_free)
+			if (ret && ret != value && map->fn_value_free)
 			{
 				map->fn_value_free(ret);
 			}
-- 
2.43.0


From ec81cb02a1ea93895a6b6035d89e916d03d7aea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 10/82] fix: hashmap_foreach stops the whole iteration when the
 callback returns false

---
 src/data/hashmap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data/hashmap.c b/src/data/hashmap.c
index ad3b649..c0f2835 100644
--- a/src/data/hashmap.c
+++ b/src/data/hashmap.c
@@ -381,7 +381,8 @@ void hashmap_foreach(hashmap_t* map, hashmap_iter_cb callback, void* context) {
 			Entry* next = entry->next;
 			if (!callback(entry->key, entry->value, context))
 			{
-				break;
+				hashmap_leave(map);
+				return;
 			}
 			entry = next;
 		}
-- 
2.43.0


From 3178f3d4aad7d4c02fb5dd84c8fe4ed6652863c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 11/82] fix: hashmap_size reads the size under the map's lock

---
 src/data/hashmap.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/hashmap.c b/src/data/hashmap.c
index c0f2835..5357b91 100644
--- a/src/data/hashmap.c
+++ b/src/data/hashmap.c
@@ -246,7 +246,10 @@ static inline bool equalKeys(void* keyA, int hashA, void* keyB, int hashB,
 
 size_t hashmap_size(hashmap_t* map)
 {
-	return map->size;
+	hashmap_enter(map);
+	size_t size = map->size;
+	hashmap_leave(map);
+	return size;
 }
 
 void* hashmap_put(hashmap_t* map, void* key, void* value)
-- 
2.43.0


From c89a596f4ab550aaffbee7ed2b730325bf6256ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 12/82] fix: integer_rounddown_pow_of_two is right above 2^31

---
 src/data/integer.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/data/integer.c b/src/data/integer.c
index 44a3815..2820cfa 100644
--- a/src/data/integer.c
+++ b/src/data/integer.c
@@ -32,10 +32,12 @@ uint32_t integer_rounddown_pow_of_two(uint32_t i)
 	{
 		return 0;
 	}
-	uint32_t roundup_integer = integer_roundup_pow_of_two(i);
-	if (roundup_integer == i)
-	{
-		return roundup_integer;
-	}
-	return (roundup_integer >> 1);
+	// "Smear" the high-order bit all the way to the right.
+	i |= i >> 1;
+	i |= i >> 2;
+	i |= i >> 4;
+	i |= i >> 8;
+	i |= i >> 16;
+
+	return i - (i >> 1);
 }
-- 
2.43.0


From 550104a68f338897751056c880e328665905a160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 13/82] fix: stringbuilder_appendnstr stops at the end of the
 string

---
 src/mem/stringbuilder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mem/stringbuilder.c b/src/mem/stringbuilder.c
index a64fd98..36d4566 100644
--- a/src/mem/stringbuilder.c
+++ b/src/mem/stringbuilder.c
@@ -115,6 +115,10 @@ int stringbuilder_appendnstr(stringbuilder_t* sb, const char* str, size_t len)
 	{
 		len = strlen(str);
 	}
+	else
+	{
+		len = strnlen(str, len);
+	}
 	if (len == 0)
 	{
 		return -2;
-- 
2.43.0


From 163079e38e106fa0f21fd1adf4b3f1f865d9ec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 14/82] fix: stringbuilder_appendf refuses a text that cannot
 be formatted

---
 src/mem/stringbuilder.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mem/stringbuilder.c b/src/mem/stringbuilder.c
index 36d4566..bb76920 100644
--- a/src/mem/stringbuilder.c
+++ b/src/mem/stringbuilder.c
@@ -144,12 +144,13 @@ int stringbuilder_appendf(stringbuilder_t* sb, const char* format, ...)
 
 	va_start(va, format);
 	// first we get the string length that will write. ('\0' is not belong of the length)
-	size_t len = vsnprintf(NULL, 0, format, va);
+	int format_len = vsnprintf(NULL, 0, format, va);
 	va_end(va);
-	if (len < 1)
+	if (format_len < 1)
 	{
 		return -2;
 	}
+	size_t len = (size_t)format_len;
 
 	if (sb_ensure_space(sb, len) != 0)
 	{
-- 
2.43.0


From c90c16be83dba840eb3ce4ede451e27231ce55b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 15/82] fix: lcu_strndup reads no more than the stated number
 of characters

---
 src/mem/allocator.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/mem/allocator.c b/src/mem/allocator.c
index ad0f4f4..5b36d94 100644
--- a/src/mem/allocator.c
+++ b/src/mem/allocator.c
@@ -62,11 +62,7 @@ char* lcu_strdup(const char* str)
 
 char* lcu_strndup_trace(const char* str, size_t len, const char* file_path, const char* func_name, int file_line)
 {
-	size_t size = strlen(str);
-	if (len < size)
-	{
-		size = len;
-	}
+	size_t size = strnlen(str, len);
 	size_t real_size = allocation_tracker_resize_for_canary(size + 1);
 	void* ptr = malloc(real_size);
 	if (!ptr)
-- 
2.43.0


From f479c52a64ccdb5539bd817a991321fc610a3295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 16/82] fix: lcu_realloc keeps the content of the block when
 tracking is off

---
 src/mem/allocator.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mem/allocator.c b/src/mem/allocator.c
index 5b36d94..4a6138f 100644
--- a/src/mem/allocator.c
+++ b/src/mem/allocator.c
@@ -142,6 +142,12 @@ void* lcu_realloc_trace(void* ptr, size_t size, const char* file_path, const cha
 		return lcu_malloc_trace(size + 2048U, file_path, func_name, file_line);
 	}
 
+	if (0 == allocation_tracker_resize_for_canary(0))
+	{
+		/* no tracking: the size of the block is unknown here */
+		return realloc(ptr, size);
+	}
+
 	size_t cur_ptr_size = allocation_tracker_ptr_size(ALLOCTOR_ID, ptr);
 	if (cur_ptr_size && size <= cur_ptr_size)
 	{
-- 
2.43.0


From 7aaccba1b37c629db7ab66c06e7de6c687c10411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 17/82] fix: lcu allocation functions refuse sizes that
 overflow

---
 src/mem/allocator.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/mem/allocator.c b/src/mem/allocator.c
index 4a6138f..bb8cfee 100644
--- a/src/mem/allocator.c
+++ b/src/mem/allocator.c
@@ -20,6 +20,7 @@
 #include "mem/mem_debug.h"
 #include <stdlib.h>
 #include <string.h>
+#include <stdint.h>
 #include "mem/allocator.h"
 #include "mem/allocation_tracker.h"
 
@@ -88,6 +89,10 @@ char* lcu_strndup(const char* str, size_t len)
 void* lcu_malloc_trace(size_t size, const char* file_path, const char* func_name, int file_line)
 {
 	size_t real_size = allocation_tracker_resize_for_canary(size);
+	if (real_size < size)
+	{
+		return NULL;
+	}
 	void* ptr = malloc(real_size);
 	if (!ptr)
 	{
@@ -103,8 +108,16 @@ void* lcu_malloc(size_t size)
 
 void* lcu_calloc_trace(size_t item_count, size_t item_size, const char* file_path, const char* func_name, int file_line)
 {
+	if (item_size && item_count > SIZE_MAX / item_size)
+	{
+		return NULL;
+	}
 	size_t request_size = item_count * item_size;
 	size_t real_size = allocation_tracker_resize_for_canary(request_size);
+	if (real_size < request_size)
+	{
+		return NULL;
+	}
 	void* ptr = calloc(1, real_size);
 	if (!ptr)
 	{
@@ -139,7 +152,7 @@ void* lcu_realloc_trace(void* ptr, size_t size, const char* file_path, const cha
 	if (NULL == ptr)
 	{
 		/* a little trick: give more memory than you need, for maybe reduce realloc times */
-		return lcu_malloc_trace(size + 2048U, file_path, func_name, file_line);
+		return size > SIZE_MAX - 2048U ? NULL : lcu_malloc_trace(size + 2048U, file_path, func_name, file_line);
 	}
 
 	if (0 == allocation_tracker_resize_for_canary(0))
@@ -156,7 +169,7 @@ void* lcu_realloc_trace(void* ptr, size_t size, const char* file_path, const cha
 	}
 
 	/* a little trick: give more memory than you need, for reduce realloc times */
-	void* new_ptr = lcu_malloc_trace(size + 2048U, file_path, func_name, file_line);
+	void* new_ptr = size > SIZE_MAX - 2048U ? NULL : lcu_malloc_trace(size + 2048U, file_path, func_name, file_line);
 	if (!new_ptr)
 	{
 		return NULL;
-- 
2.43.0


From 21cb0d640fecb77c0a799c85d80401ac52737852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 18/82] fix: the allocation tracker publishes a record only
 when it is complete

---
 src/mem/allocation_tracker.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mem/allocation_tracker.c b/src/mem/allocation_tracker.c
index 5bba3c6..c61e81a 100644
--- a/src/mem/allocation_tracker.c
+++ b/src/mem/allocation_tracker.c
@@ -152,6 +152,7 @@ void* allocation_tracker_notify_alloc(allocator_id_t allocator_id, void* ptr, si
 	return_ptr += canary_size;
 
 	allocation_t* allocation = (allocation_t*)hashmap_get(allocations, return_ptr);
+	bool is_new = (allocation == NULL);
 	if (allocation)
 	{
 		ASSERT_ABORT(allocation->freed); // Must have been freed before
@@ -160,7 +161,6 @@ void* allocation_tracker_notify_alloc(allocator_id_t allocator_id, void* ptr, si
 	{
 		allocation = (allocation_t*)calloc(1, sizeof(allocation_t));
 		ASSERT_ABORT(allocation);
-		hashmap_put(allocations, return_ptr, allocation);
 	}
 	allocation->allocator_id = allocator_id;
 	allocation->freed = false;
@@ -179,6 +179,12 @@ void* allocation_tracker_notify_alloc(allocator_id_t allocator_id, void* ptr, si
 	// Add the canary on both sides
 	memcpy(return_ptr - canary_size, canary, canary_size);
 	memcpy(return_ptr + requested_size, canary, canary_size);
+
+	// Publish the record only when it is complete
+	if (is_new)
+	{
+		hashmap_put(allocations, return_ptr, allocation);
+	}
 	return return_ptr;
 }
 
-- 
2.43.0


From 9f99f5fa59e26a5ff215804d2395817cbb84a3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 19/82] fix: the allocation tracker marks a record freed under
 its lock

---
 src/mem/allocation_tracker.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mem/allocation_tracker.c b/src/mem/allocation_tracker.c
index c61e81a..c609696 100644
--- a/src/mem/allocation_tracker.c
+++ b/src/mem/allocation_tracker.c
@@ -198,7 +198,9 @@ void* allocation_tracker_notify_free(allocator_id_t allocator_id, void* ptr)
 	ASSERT_ABORT(allocation);                               // Must have been tracked before
 	ASSERT_ABORT(!allocation->freed);                       // Must not double free
 	ASSERT_ABORT(allocation->allocator_id == allocator_id); // Must be from the same allocator
+	pthread_mutex_lock(&allocations_lock);
 	allocation->freed = true;
+	pthread_mutex_unlock(&allocations_lock);
 	allocation_memory_corruption_checker(allocation);
 	// Free the hash map entry to avoid unlimited memory usage growth.
 	// Double-free of memory is detected with "ASSERT_ABORT(allocation)" above
-- 
2.43.0


From 7864ad89ba7da0b44d163ba2db88adbd44736e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 20/82] fix: mplite_init refuses a minimum allocation above the
 maximum instead of looping forever

---
 src/mem/mplite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem/mplite.c b/src/mem/mplite.c
index fb488c1..5b32df5 100644
--- a/src/mem/mplite.c
+++ b/src/mem/mplite.c
@@ -64,7 +64,7 @@ MPLITE_API int mplite_init(mplite_t* handle, const void* buf,
 
 	/* Check the parameters */
 	if ((NULL == handle) || (NULL == buf) ||
-		(buf_size <= 0) || (min_alloc <= 0))
+		(buf_size <= 0) || (min_alloc <= 0) || (min_alloc > MPLITE_MAX_ALLOC_SIZE))
 	{
 		return MPLITE_ERR_INVPAR;
 	}
-- 
2.43.0


From b5a1890c6f5b2ee67dd18c8a773d6f7fd90a1299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 21/82] fix: lcu_base64_encode encodes inputs shorter than two
 bytes

---
 src/data/base64.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/data/base64.c b/src/data/base64.c
index 2d7b613..85cac18 100644
--- a/src/data/base64.c
+++ b/src/data/base64.c
@@ -24,13 +24,9 @@ int lcu_base64_encode(char* out_buf_encoded, const char* src_buf_plain, const si
 {
 	size_t i;
 	char* p;
-    if (src_buf_len < 2)
-    {
-        return -1;
-    }
 
 	p = out_buf_encoded;
-	for (i = 0; i < src_buf_len - 2; i += 3)
+	for (i = 0; i + 2 < src_buf_len; i += 3)
 	{
 		*p++ = basis_64[(src_buf_plain[i] >> 2) & 0x3F];
 		*p++ = basis_64[((src_buf_plain[i] & 0x3) << 4) |
-- 
2.43.0


From 3a288fd80272bd1f6d61e63686323f18b895e1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 22/82] fix: strnutf8len reads no more than the stated number
 of bytes

---
 src/mem/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index bf405eb..82cfa34 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -187,7 +187,7 @@ size_t strnutf8len(const char* utf8str, size_t max_count)
 {
 	size_t code_points = 0;
 	size_t chars_count = 0;
-	while (*utf8str && chars_count < max_count) 
+	while (chars_count < max_count && *utf8str) 
 	{
 		code_points += ((*utf8str & 0xC0) != 0x80);
 		++utf8str;
-- 
2.43.0


From edb8c97cc4fce8102757338d635fa3ef9c998f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 23/82] fix: strreplace of an empty pattern returns a copy
 instead of looping forever

---
 src/mem/strings.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index 82cfa34..c1cd214 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -114,7 +114,7 @@ char* strreplace(char const* const original,
 	const char* patloc;
 
 	// find how many times the pattern occurs in the original string
-	for (oriptr = original; NULL != (patloc = strstr(oriptr, pattern)); oriptr = patloc + patlen)
+	for (oriptr = original; patlen && NULL != (patloc = strstr(oriptr, pattern)); oriptr = patloc + patlen)
 	{
 		++patcnt;
 	}
@@ -129,7 +129,7 @@ char* strreplace(char const* const original,
 		// copy the original string, 
 		// replacing all the instances of the pattern
 		char* retptr = returned;
-		for (oriptr = original; (patloc = strstr(oriptr, pattern)); oriptr = patloc + patlen)
+		for (oriptr = original; patlen && (patloc = strstr(oriptr, pattern)); oriptr = patloc + patlen)
 		{
 			size_t const skplen = patloc - oriptr;
 			// copy the section until the occurrence of the pattern
-- 
2.43.0


From 38c49397b7adc58ddc47985487b97edf5a7481bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 24/82] fix: str_char2hex stays inside its buffer and keeps the
 last digit

---
 src/mem/strings.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index c1cd214..cb768c8 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -201,17 +201,25 @@ size_t str_char2hex(char* out_hex_str, size_t out_hex_str_capacity,
 {
 #define ONE_HEX_STR_SIZE (3U)
 	size_t len_hex_str = 0U;
+	if (out_hex_str_capacity == 0U)
+	{
+		return 0U;
+	}
 	out_hex_str[0] = '\0';
 
-	if (chars_count * ONE_HEX_STR_SIZE >= out_hex_str_capacity)
+	if (chars_count > (out_hex_str_capacity - 1U) / ONE_HEX_STR_SIZE)
 	{
-		len_hex_str = snprintf(out_hex_str, out_hex_str_capacity - 1U, "hex truncated(%zu):", chars_count);
-		chars_count = out_hex_str_capacity / ONE_HEX_STR_SIZE - 1U;
+		len_hex_str = snprintf(out_hex_str, out_hex_str_capacity, "hex truncated(%zu):", chars_count);
+		if (len_hex_str >= out_hex_str_capacity)
+		{
+			len_hex_str = out_hex_str_capacity - 1U;
+		}
+		chars_count = (out_hex_str_capacity - 1U - len_hex_str) / ONE_HEX_STR_SIZE;
 	}
 	for (size_t chars_index = 0U; chars_index < chars_count; ++chars_index)
 	{
 		int ret_sn = snprintf(out_hex_str + len_hex_str,
-			out_hex_str_capacity - len_hex_str - 1,
+			out_hex_str_capacity - len_hex_str,
 			" %02x", (unsigned char)chars[chars_index]);
 		if (ONE_HEX_STR_SIZE != ret_sn /*ret_sn < 0*/) /* should be ONE_HEX_STR_SIZE */
 		{
-- 
2.43.0


From 63e75733ae161d6a02baeb98512e26161e666f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 25/82] fix: str_params_create_str frees the key of a repeated
 pair

---
 src/mem/str_params.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index 0407bd2..57d87ba 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -128,11 +128,14 @@ str_params_ptr str_params_create_str(const char* delimiter, const char* param_st
 			key = strdup(kvpair);
 			value = strdup("");
 		}
-		/* we replaced a value */
 		old_val = hashmap_put(parms->map, key, value);
+		if (old_val)
+		{
+			/* we replaced a value: the map keeps its own key */
+			free(key);
+		}
 		RELEASE_OWNERSHIP(value);
 		RELEASE_OWNERSHIP(old_val);
-		RELEASE_OWNERSHIP(key);
 
 		items++;
 	label_next_pair:
-- 
2.43.0


From c913d55b8308dba9785e42d50124896df99dd5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 26/82] fix: str_params_add_double keeps large numbers whole

---
 src/mem/str_params.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index 57d87ba..32cd97e 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -228,7 +228,7 @@ int str_params_add_int(str_params_ptr params, const char* key, int value)
 
 int str_params_add_double(str_params_ptr params, const char* key, double value)
 {
-	char val_str[32];
+	char val_str[328]; /* DBL_MAX has 309 integer digits */
 	int ret;
 	ret = snprintf(val_str, sizeof(val_str), "%.10f", value);
 	if (ret < 0)
-- 
2.43.0


From 4decc7326d1999ba091e197f49a0d64e6c4b76ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 27/82] fix: str_params refuses integers out of range instead
 of returning another number

---
 src/mem/str_params.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index 32cd97e..1a426d2 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -6,6 +6,7 @@
 #include "mem/str_params.h"
 
 #include <errno.h>
+#include <limits.h>
 #include <stdint.h>
 #include "mem/strings.h"
 #include "data/hashmap.h"
@@ -272,11 +273,19 @@ int str_params_get_long(str_params_ptr params, const char* key, long* out_val)
 	{
 		return -ENOENT;
 	}
+	int saved_errno = errno;
+	errno = 0;
 	long val = strtol(value, &end, 0);
+	bool out_of_range = (errno == ERANGE);
+	errno = saved_errno;
 	if (*value == '\0' || *end != '\0')
 	{
 		return -EINVAL;
 	}
+	if (out_of_range)
+	{
+		return -ERANGE;
+	}
 	*out_val = val;
 	return 0;
 }
@@ -287,7 +296,11 @@ int str_params_get_int(str_params_ptr params, const char* key, int* out_val)
 	int ret = str_params_get_long(params, key, &long_num);
 	if (ret == 0)
 	{
-		*out_val = long_num;
+		if (long_num < INT_MIN || long_num > INT_MAX)
+		{
+			return -ERANGE;
+		}
+		*out_val = (int)long_num;
 	}
 	return ret;
 }
-- 
2.43.0


From 4a43bc1d865306080a72cf1931ba3fcebbb2d46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 28/82] fix: hashmap_put that could not grow the table does not
 report a failure

---
 src/data/hashmap.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/hashmap.c b/src/data/hashmap.c
index 5357b91..9f809e1 100644
--- a/src/data/hashmap.c
+++ b/src/data/hashmap.c
@@ -133,10 +133,12 @@ static void expandIfNecessary(hashmap_t* map)
 	}
 	// Start off with a 0.33 load factor.
 	size_t newBucketCount = map->bucketCount << 1;
+	int saved_errno = errno;
 	Entry** newBuckets = (Entry**)(calloc(newBucketCount, sizeof(Entry*)));
 	if (newBuckets == NULL)
 	{
-		// Abort expansion.
+		// Abort expansion. The entry is in the map: that is no failure, callers look at errno.
+		errno = saved_errno;
 		return;
 	}
 	// Move over existing entries.
-- 
2.43.0


From 19b29b0ff884e48198b13ce715f64cc323a9528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 29/82] fix: str_params reports running out of memory

---
 src/mem/str_params.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index 1a426d2..b2e2dc3 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -129,7 +129,20 @@ str_params_ptr str_params_create_str(const char* delimiter, const char* param_st
 			key = strdup(kvpair);
 			value = strdup("");
 		}
+		if (!key || !value)
+		{
+			free(key);
+			free(value);
+			goto label_err_pair;
+		}
+		errno = 0;
 		old_val = hashmap_put(parms->map, key, value);
+		if (!old_val && errno == ENOMEM)
+		{
+			free(key);
+			free(value);
+			goto label_err_pair;
+		}
 		if (old_val)
 		{
 			/* we replaced a value: the map keeps its own key */
@@ -148,6 +161,8 @@ str_params_ptr str_params_create_str(const char* delimiter, const char* param_st
 	}
 	free(str);
 	return parms;
+label_err_pair:
+	free(str);
 label_err_strdup:
 	str_params_destroy(parms);
 label_err_create_str_parms:
@@ -338,6 +353,7 @@ typedef struct
 {
 	char* str;
 	str_params_ptr params_ptr;
+	bool failed;
 }combine_strings_ctx;
 
 static bool combine_strings(void* key, void* value, void* context)
@@ -358,12 +374,8 @@ static bool combine_strings(void* key, void* value, void* context)
 		combine_ctx->str = new_str;
 		return true;
 	}
-	if (new_str)
-	{
-		free(new_str);
-		new_str = NULL;
-	}
 	combine_ctx->str = NULL;
+	combine_ctx->failed = true;
 	return false;
 }
 
@@ -375,6 +387,10 @@ char* str_params_to_str(str_params_ptr params)
 	   .params_ptr = params,
 	};
 	hashmap_foreach(params->map, combine_strings, &ctx);
+	if (ctx.failed)
+	{
+		return NULL;
+	}
 	return (ctx.str != NULL) ? ctx.str : strdup("");
 }
 
-- 
2.43.0


From 415a607edd93ce355f31a47970bef106ac491642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 30/82] fix: ini_parser_delete_section forgets the cached
 section it frees

---
 src/file/ini_parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 957cf5c..db09468 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -422,6 +422,10 @@ ini_parser_code_e ini_parser_delete_section(ini_parser_handle parser_p, const ch
 	{
 		return INI_PARSER_CODE_NOT_FOUND_SECTION_KEY;
 	}
+	if (parser_p->p_last_used_section == p_section)
+	{
+		parser_p->p_last_used_section = NULL;
+	}
 	list_free(p_section->plist_section);
 	return list_remove(parser_p->plist_sections, p_section) ? INI_PARSER_CODE_SUCCEED : INI_PARSER_CODE_FAILED;
 }
-- 
2.43.0


From f8fb5931b04cd9e0a5918d6d0653a337d6794f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 31/82] fix: ini_parser_foreach stops the whole traversal when
 the handler says so

---
 src/file/ini_parser.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index db09468..e2be681 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -44,6 +44,7 @@ typedef struct
 	ini_parser_handler user_handler;
 	void* user_param;
 	section_info_t* p_section_info;
+	bool is_stopped;
 } ini_foreach_context_t;
 
 struct _ini_parser
@@ -203,8 +204,9 @@ static bool iter_foreach_section_key_value(void* data, void* context)
 	{
 		return true; // just ignored empty key and continue
 	}
-	return (0 == context_p->user_handler(context_p->p_section_info->section_name,
+	context_p->is_stopped = (0 != context_p->user_handler(context_p->p_section_info->section_name,
 		p_kv->key, p_kv->value, context_p->user_param));
+	return !context_p->is_stopped;
 }
 
 // foreach sections, for get key-value of section
@@ -221,7 +223,7 @@ static bool iter_foreach_section(void* data, void* context)
 
 	list_foreach(context_p->p_section_info->plist_section,
 		iter_foreach_section_key_value, context_p);
-	return true;
+	return !context_p->is_stopped;
 }
 
 ini_parser_code_e ini_parser_foreach(ini_parser_handle parser_p, ini_parser_handler handler, void* user)
-- 
2.43.0


From 7b5017ad4bd445511e9bb2732e1443af0338424d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 32/82] fix: ini_parser_save reports a file it could not write
 and leaks no handle

---
 src/file/ini_parser.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index e2be681..b17cd81 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -551,11 +551,6 @@ ini_parser_code_e ini_parser_save(ini_parser_handle parser_p, const char* file_p
 	{
 		return INI_PARSER_CODE_INVALID_PARAM;
 	}
-	FILE* fp = fopen(file_path, "wb");
-	if (!fp)
-	{
-		return INI_PARSER_CODE_INVALID_PARAM;
-	}
 	char* ini_str = ini_parser_dump(parser_p);
 	if (!ini_str || '\0' == ini_str[0])
 	{
@@ -565,11 +560,18 @@ ini_parser_code_e ini_parser_save(ini_parser_handle parser_p, const char* file_p
 		}
 		return INI_PARSER_CODE_FAILED;
 	}
+	FILE* fp = fopen(file_path, "wb");
+	if (!fp)
+	{
+		free(ini_str);
+		return INI_PARSER_CODE_INVALID_PARAM;
+	}
 	size_t ini_str_len = strlen(ini_str);
-	fwrite(ini_str, 1, ini_str_len, fp);
-	free(ini_str);
+	bool is_written = (fwrite(ini_str, 1, ini_str_len, fp) == ini_str_len);
+	is_written = (0 == fflush(fp)) && is_written;
 	fclose(fp);
-	return INI_PARSER_CODE_SUCCEED;
+	free(ini_str);
+	return is_written ? INI_PARSER_CODE_SUCCEED : INI_PARSER_CODE_FAILED;
 }
 
 ini_parser_code_e ini_parser_has_section_key(ini_parser_handle parser_p, const char* section, const char* key)
-- 
2.43.0


From 7f8a5e1af9fe3eb0a6d12970db29feeba7c49d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 33/82] fix: ini_parser_put_string refuses a missing section
 name instead of crashing

---
 src/file/ini_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index b17cd81..68f6132 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -309,7 +309,7 @@ static key_value_t* iter_section_for_search_target_kv(list_t* section, const cha
 ini_parser_code_e ini_parser_put_string(ini_parser_handle parser_p,
 	const char* section, const char* key, const char* value)
 {
-	if (!parser_p || !key || '\0' == key[0])
+	if (!parser_p || !section || !key || '\0' == key[0])
 	{
 		return INI_PARSER_CODE_INVALID_PARAM;
 	}
-- 
2.43.0


From dc448ed105bfa28d4031ee5cf4a113f72cb3bfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 34/82] fix: ini_parser_put_string refuses names and values
 that do not fit instead of storing others

---
 src/file/ini_parser.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 68f6132..9917acd 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -29,7 +29,7 @@ typedef struct
 
 typedef struct
 {
-	char key[SECTION_NAME_MAX_SIZE];
+	char key[INI_VALUE_STACK_SIZE];
 	char value[INI_VALUE_STACK_SIZE];
 } key_value_t;
 
@@ -315,7 +315,9 @@ ini_parser_code_e ini_parser_put_string(ini_parser_handle parser_p,
 	}
 	const size_t section_len = strlen(section);
 	const size_t key_len = strlen(key);
-	if (section_len < 1 || key_len < 1)
+	if (section_len < 1 || key_len < 1
+		|| section_len >= SECTION_NAME_MAX_SIZE || key_len >= INI_VALUE_STACK_SIZE
+		|| (value && strlen(value) >= INI_VALUE_STACK_SIZE))
 	{
 		return INI_PARSER_CODE_INVALID_PARAM;
 	}
-- 
2.43.0


From fed8f6c9ad571feccf2cccbddf2c5f746ddee1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 35/82] fix: the ini store leaks nothing and dumps nothing
 incomplete when memory runs out

---
 src/file/ini_parser.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 9917acd..b003986 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -281,6 +281,7 @@ static section_info_t* search_target_section(ini_parser_handle parser_p, bool au
 		strlcpy(target_section->section_name, section, sizeof(target_section->section_name));
 		if (false == list_append(parser_p->plist_sections, target_section))
 		{
+			list_free(target_section->plist_section);
 			allocator_my_free(target_section);
 			return NULL;
 		}
@@ -466,10 +467,16 @@ static bool iter_section_for_dump(void* data, void* context)
 	{
 		return false; // error occurred on foreach last section, break chain.
 	}
-	stringbuilder_appendf(dump_ctx->sb, "[%s]\r\n", (char*)p_section->section_name);
+	if (0 != (dump_ctx->ret_code = stringbuilder_appendf(dump_ctx->sb, "[%s]\r\n", (char*)p_section->section_name)))
+	{
+		return false;
+	}
 	list_foreach(p_section->plist_section, iter_key_value_for_dump, dump_ctx);
-	stringbuilder_appendstr(dump_ctx->sb, "\r\n");
-	return true;
+	if (0 == dump_ctx->ret_code)
+	{
+		dump_ctx->ret_code = stringbuilder_appendstr(dump_ctx->sb, "\r\n");
+	}
+	return 0 == dump_ctx->ret_code;
 }
 
 static stringbuilder_t* pri_dump_ini(ini_parser_handle parser_p)
-- 
2.43.0


From e0a6e87f4dd427269b117dcbe19d1e0a15cb1ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 36/82] fix: the ini store refuses integers out of range
 instead of returning another number

---
 src/file/ini_parser.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index b003986..02a68eb 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -5,6 +5,8 @@
 #include "common_macro.h"
 #include "mem/strings.h" /* for strcmp */
 #include "mem/stringbuilder.h"
+#include <errno.h>
+#include <limits.h>
 #include <stdio.h>       /* for fopen */
 #include <stdlib.h>      /* for atoi/atol/atof */
 
@@ -653,11 +655,13 @@ ini_parser_code_e ini_parser_destroy(ini_parser_handle* parser_pp)
 	return INI_PARSER_CODE_SUCCEED;
 }
 
-static long long parse_str2longlong(ini_parser_code_e* code_p, char* str_value)
+static long long parse_str2longlong(ini_parser_code_e* code_p, char* str_value, long long min, long long max)
 {
 	char* end_ptr = NULL;
+	errno = 0;
 	long long result = strtoll(str_value, &end_ptr, 0); // <-- when 0 == radix, it will auto detect radix 
-	*code_p = (!end_ptr || '\0' != *end_ptr) ? INI_PARSER_CODE_FAILED : INI_PARSER_CODE_SUCCEED;
+	*code_p = (!end_ptr || '\0' != *end_ptr || ERANGE == errno || result < min || result > max)
+		? INI_PARSER_CODE_FAILED : INI_PARSER_CODE_SUCCEED;
 	return result;
 }
 
@@ -707,7 +711,7 @@ if (!end_ptr || *end_ptr != '\0') { ret = INI_PARSER_CODE_FAILED; break; }\
 				result = false;
 				break;
 			}
-			int num = (int)parse_str2longlong(&ret, str_value);
+			long long num = parse_str2longlong(&ret, str_value, LLONG_MIN, LLONG_MAX);
 			if (INI_PARSER_CODE_SUCCEED == ret)
 			{
 				result = (0 == num ? false : true);
@@ -727,13 +731,13 @@ if (!end_ptr || *end_ptr != '\0') { ret = INI_PARSER_CODE_FAILED; break; }\
 	}
 	break;
 	case INI_VALUE_TYPE_INT:
-		*((int*)value) = (int)parse_str2longlong(&ret, str_value);
+		*((int*)value) = (int)parse_str2longlong(&ret, str_value, INT_MIN, INT_MAX);
 		break;
 	case INI_VALUE_TYPE_LONG:
-		*((long*)value) = (long)parse_str2longlong(&ret, str_value);
+		*((long*)value) = (long)parse_str2longlong(&ret, str_value, LONG_MIN, LONG_MAX);
 		break;
 	case INI_VALUE_TYPE_LONG_LONG:
-		*((long long*)value) = parse_str2longlong(&ret, str_value);
+		*((long long*)value) = parse_str2longlong(&ret, str_value, LLONG_MIN, LLONG_MAX);
 		break;
 	default:
 		ret = INI_PARSER_CODE_FAILED;
-- 
2.43.0


From 4213d3bcaf92a7e4c8cb5d746fce9c71c9798e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 37/82] fix: the ini reader hands out names without value after
 an error too

---
 src/file/ini_reader.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/file/ini_reader.c b/src/file/ini_reader.c
index 634a4d3..9ae4bcd 100644
--- a/src/file/ini_reader.c
+++ b/src/file/ini_reader.c
@@ -220,7 +220,7 @@ int ini_reader_parse_stream(ini_reader reader, void* stream, ini_reader_handler
                 if (!HANDLER(user, section, name, value) && !error)
                     error = lineno;
             }
-            else if (!error) {
+            else {
                 /* No '=' or ':' found on name[=:]value line */
 #if INI_ALLOW_NO_VALUE
                 *end = '\0';
@@ -228,7 +228,8 @@ int ini_reader_parse_stream(ini_reader reader, void* stream, ini_reader_handler
                 if (!HANDLER(user, section, name, NULL) && !error)
                     error = lineno;
 #else
-                error = lineno;
+                if (!error)
+                    error = lineno;
 #endif
             }
         }
-- 
2.43.0


From ccec63d88a37adf0f14358ef4f088d3feeea0a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 38/82] fix: the ini reader reports an over-long line instead
 of reading its rest as further lines

---
 src/file/ini_reader.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/file/ini_reader.c b/src/file/ini_reader.c
index 9ae4bcd..5876c66 100644
--- a/src/file/ini_reader.c
+++ b/src/file/ini_reader.c
@@ -118,6 +118,8 @@ int ini_reader_parse_stream(ini_reader reader, void* stream, ini_reader_handler
     char* value;
     int lineno = 0;
     int error = 0;
+    int overlong;
+    char rest[INI_MAX_LINE];
 
 #if !INI_USE_STACK
     line = (char*)ini_malloc(INI_INITIAL_ALLOC);
@@ -164,7 +166,20 @@ int ini_reader_parse_stream(ini_reader reader, void* stream, ini_reader_handler
             start += 3;
         }
 #endif
+        /* The rest of a line that does not fit is dropped, it is not a line of its own. */
+        overlong = 0;
+        if (strlen(line) == max_line - 1 && line[max_line - 2] != '\n') {
+            while (reader(rest, (int)sizeof(rest), stream) != NULL) {
+                if (rest[strspn(rest, "\r\n")])
+                    overlong = 1;
+                if (strchr(rest, '\n'))
+                    break;
+            }
+        }
+
         start = ini_lskip(ini_rstrip(start));
+        if (overlong && !error && !strchr(INI_START_COMMENT_PREFIXES, *start))
+            error = lineno;
 
         if (strchr(INI_START_COMMENT_PREFIXES, *start)) {
             /* Start-of-line comment */
-- 
2.43.0


From 8d80db05527c1324d26ef5a12e446a8c94b1e4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 39/82] fix: file_util_mkdirs: a path of 256 characters left no
 room for the terminator

---
 src/file/file_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index 1f859e4..8d5eea5 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -71,7 +71,7 @@ int file_util_mkdirs(__in const char* folder_path)
 	}
 	int ret;
 	size_t dir_path_len = strlen(folder_path);
-	if (dir_path_len > MAX_FOLDER_PATH_LEN)
+	if (dir_path_len >= MAX_FOLDER_PATH_LEN)
 	{
 		return -2; // dir too long
 	}
-- 
2.43.0


From be7f60e4107aa3881e99fde36be879d6731f30ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 40/82] fix: file_util_mkdirs: failed when another caller
 created the same folder meanwhile

---
 src/file/file_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index 8d5eea5..1f74664 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -89,7 +89,7 @@ int file_util_mkdirs(__in const char* folder_path)
 			//folder already exists
 			continue;
 		}
-		if (0 != (ret = MKDIR(tmp_dir_path)))
+		if (0 != (ret = MKDIR(tmp_dir_path)) && 0 != ACCESS(tmp_dir_path, 0))
 		{
 			//error occurred on mkdir
 			return ret;
-- 
2.43.0


From c0f0c24d558ff62f0309ae0421a0fe0613b9bdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 41/82] fix: file_util_append_slash_on_path_if_needed:
 destroyed the last character of a path that filled its buffer, and wrote past
 it

---
 src/file/file_util.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index 1f74664..f31c3a0 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -48,10 +48,12 @@ int file_util_append_slash_on_path_if_needed(__inout char* folder_path, __in con
 	{
 		return 0;
 	}
-	const size_t slash_location = (path_len + 1) < folder_path_size ?
-		path_len : (path_len - 1);
-	folder_path[slash_location] = slash_char;
-	folder_path[slash_location + 1] = '\0';
+	if ((path_len + 1) >= folder_path_size)
+	{
+		return -3; // no room for slash
+	}
+	folder_path[path_len] = slash_char;
+	folder_path[path_len + 1] = '\0';
 	return 0;
 }
 
-- 
2.43.0


From 12b63e12755499484747c400582ae08607592233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 42/82] fix: file_util_read_all: reported success with a
 negative length for files over 2GB

---
 src/file/file_util.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index f31c3a0..252a9a8 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -2,6 +2,7 @@
 #include "file/file_util.h"
 #include "mem/strings.h"
 #include <sys/stat.h>
+#include <limits.h>
 
 #ifdef _WIN32
 #include <io.h>
@@ -229,7 +230,7 @@ int file_util_read_all(__in const char* file_path, __out char** out_alloced_file
 	*out_file_byte_len = (int)file_size;
 	do
 	{
-		if (file_size < 1)
+		if (file_size < 1 || file_size > INT_MAX)
 		{
 			ret = -3;
 			break;
-- 
2.43.0


From 4c151bb15581690dc7c051fca86e47264563e376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 43/82] fix: file_util_read_txt: a line over 1023 characters
 was handed out in pieces, shifting the line numbers

---
 src/file/file_util.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index 252a9a8..35a15e5 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -163,16 +163,39 @@ int file_util_read_txt(__in const char* file_path,
 	int ret = 0;
 	FILE* fp;
 	int line_num;
-	char* p, buf[1024];
+	char* p, * buf;
+	size_t buf_size = 1024, len;
 
 	fp = fopen(file_path, "r");
 	if (NULL == fp)
 	{
 		return -1;
 	}
+	if (NULL == (buf = (char*)malloc(buf_size)))
+	{
+		fclose(fp);
+		return -2;
+	}
 	// if fgets returned not null, it make sure buf end with '\0'
-	for (line_num = 0; NULL != fgets(buf, sizeof(buf), fp); ++line_num) 
+	for (line_num = 0; NULL != fgets(buf, (int)buf_size, fp); ++line_num) 
 	{
+		// line is longer than buf: grow buf until it holds the whole line
+		while ((len = strlen(buf)) == buf_size - 1 && '\n' != buf[len - 1])
+		{
+			char* new_buf = (char*)realloc(buf, buf_size * 2);
+			if (NULL == new_buf)
+			{
+				free(buf);
+				fclose(fp);
+				return -2;
+			}
+			buf = new_buf;
+			buf_size *= 2;
+			if (NULL == fgets(buf + len, (int)(buf_size - len), fp))
+			{
+				break;
+			}
+		}
 		if (NULL == (p = strchr(buf, '\n'))) 
 		{
 			p = buf + strlen(buf);
@@ -197,6 +220,7 @@ int file_util_read_txt(__in const char* file_path,
 			break;
 		}
 	}
+	free(buf);
 	fclose(fp);
 	return ret;
 }
-- 
2.43.0


From 49958dfc5bce04bb298572161307346609c3ccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 44/82] fix: file_util_read_txt: a read error was reported as
 success

---
 src/file/file_util.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index 35a15e5..42595a9 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -220,6 +220,10 @@ int file_util_read_txt(__in const char* file_path,
 			break;
 		}
 	}
+	if (0 == ret && ferror(fp))
+	{
+		ret = -3; // read error, not the end of file
+	}
 	free(buf);
 	fclose(fp);
 	return ret;
-- 
2.43.0


From ccd139aeec13986115ef09d5577571a593afc038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 45/82] fix: file_iterator_foreach: one entry that cannot be
 examined silently hid the rest of the folder

---
 src/file/file_iterator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/file_iterator.c b/src/file/file_iterator.c
index a8ec870..c90ebb6 100644
--- a/src/file/file_iterator.c
+++ b/src/file/file_iterator.c
@@ -71,7 +71,7 @@ int file_iterator_foreach(char* dir, file_iterator_handle_file_info_fn handler,
 		}
 		snprintf(path_buf, sizeof(path_buf) - 1, "%s/%s", dir, direntp->d_name);
 		stats = pri_get_file_stat(path_buf, &statbuf);
-		if (stats == -1) break;
+		if (stats == -1) continue; // dangling link, or removed meanwhile
 		/*if (FILE_ITERATOR_TYPE_FILE == stats)
 		{
 			LOGD("file:%s", path_buf);
-- 
2.43.0


From 6f122f5cea072705b1b4c1e11989883404c34d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 46/82] fix: time_util_fast_second2date: seconds were cut to 32
 bits, wrong date from 2038 on

---
 src/time/time_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/time_util.c b/src/time/time_util.c
index 0955a69..7c724bc 100644
--- a/src/time/time_util.c
+++ b/src/time/time_util.c
@@ -193,9 +193,9 @@ int time_util_fast_second2date(const time_t* p_unix_sec, struct tm* lt, int time
 	#define kMagicUnkonwnFirst  (146097)
 	#define kMagicUnkonwnSec    (1461)
 	lt->tm_sec = (*p_unix_sec) % kMinutesInHour;
-	int minutes = ((int)(*p_unix_sec) / kMinutesInHour);
+	time_t minutes = (*p_unix_sec) / kMinutesInHour;
 	lt->tm_min = minutes % kMinutesInHour; //nn
-	int hours = minutes / kMinutesInHour + timezone_hour;
+	int hours = (int)(minutes / kMinutesInHour) + timezone_hour;
 	lt->tm_hour = hours % kHoursInDay; // hh
 	lt->tm_mday = hours / kHoursInDay;
 	int a = lt->tm_mday + kDaysFromUnixTime;
-- 
2.43.0


From 355ce9fc585e8e35be5689441e6d78cbe983bb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 47/82] fix: time_util_fast_second2date: negative hours west of
 UTC in the first hours of 1970

---
 src/time/time_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/time_util.c b/src/time/time_util.c
index 7c724bc..acbf65a 100644
--- a/src/time/time_util.c
+++ b/src/time/time_util.c
@@ -195,10 +195,10 @@ int time_util_fast_second2date(const time_t* p_unix_sec, struct tm* lt, int time
 	lt->tm_sec = (*p_unix_sec) % kMinutesInHour;
 	time_t minutes = (*p_unix_sec) / kMinutesInHour;
 	lt->tm_min = minutes % kMinutesInHour; //nn
-	int hours = (int)(minutes / kMinutesInHour) + timezone_hour;
+	int hours = (int)(minutes / kMinutesInHour) + timezone_hour + kHoursInDay; // one day ahead: never negative
 	lt->tm_hour = hours % kHoursInDay; // hh
 	lt->tm_mday = hours / kHoursInDay;
-	int a = lt->tm_mday + kDaysFromUnixTime;
+	int a = lt->tm_mday - 1 + kDaysFromUnixTime;
 	int b = (a * 4 + 3) / kMagicUnkonwnFirst;
 	int c = (-b * kMagicUnkonwnFirst) / 4 + a;
 	int d = ((c * 4 + 3) / kMagicUnkonwnSec);
-- 
2.43.0


From cb477f81bcdd1807c0e777fd6df31da1a3efcf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 48/82] fix: time_util_fast_second2date: week day, day of year
 and dst flag were left uninitialized

---
 src/time/time_util.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/time/time_util.c b/src/time/time_util.c
index acbf65a..fc6df5e 100644
--- a/src/time/time_util.c
+++ b/src/time/time_util.c
@@ -207,6 +207,16 @@ int time_util_fast_second2date(const time_t* p_unix_sec, struct tm* lt, int time
 	lt->tm_mday = -(kDaysFromYear * m + 2) / 5 + e + 1;
 	lt->tm_mon = (-m / 10) * 12 + m + 2;
 	lt->tm_year = b * 100 + d - 6700 + (m / 10);
+	static const short days_before_month[12] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
+	const int year = lt->tm_year + 1900;
+	const int leap_day = (lt->tm_mon > 1 && 0 == year % 4 && (0 != year % 100 || 0 == year % 400)) ? 1 : 0;
+	lt->tm_yday = days_before_month[lt->tm_mon] + leap_day + lt->tm_mday - 1;
+	lt->tm_wday = (hours / kHoursInDay - 1 + 4) % 7; // 1970-01-01 is Thursday
+	if (lt->tm_wday < 0)
+	{
+		lt->tm_wday += 7;
+	}
+	lt->tm_isdst = 0;
 	return 0;
 }
 
-- 
2.43.0


From 9d632963c4ea6d4c82bdad736da23ab2092049ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 49/82] fix: get_time_str: with the clock at the epoch the
 never written cache was hit, giving no text and writing before the buffer

---
 src/time/time_util.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/time/time_util.c b/src/time/time_util.c
index fc6df5e..e87a415 100644
--- a/src/time/time_util.c
+++ b/src/time/time_util.c
@@ -258,7 +258,8 @@ static inline int get_time_str(char str[TIME_STR_SIZE], struct timeval* tval_p,
 	{
 		time_cache_t* cache_p = &g_time_caches[GET_TIME_FORMAT_TYPE(time_format)];
 		TIME_UTIL_RD_LOCK(&cache_p->rw_lock); // lock rdlock
-		if (cache_p->timezone_hour == timezone_hour && cache_p->tval.tv_sec == tval_p->tv_sec)
+		if ('\0' != cache_p->format_cache[0] &&
+			cache_p->timezone_hour == timezone_hour && cache_p->tval.tv_sec == tval_p->tv_sec)
 		{	// hit cache, just copy whole cached time string
 			ftime_len = (int)strlcpy(str, cache_p->format_cache, TIME_STR_SIZE);
 			bool update_millis = cache_p->tval.tv_usec != tval_p->tv_usec;
-- 
2.43.0


From 798f44e47310f0f7ceb603d203ba41c64fe963b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 50/82] fix: time_util_zone_offset_seconds_to_utc: an hour off
 around daylight saving changes

---
 src/time/time_util.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/time/time_util.c b/src/time/time_util.c
index e87a415..7e3b984 100644
--- a/src/time/time_util.c
+++ b/src/time/time_util.c
@@ -166,18 +166,18 @@ int time_util_global_cleanup()
 int time_util_zone_offset_seconds_to_utc()
 {
 	time_t rawtime = time(NULL);
-	struct tm buf;
+	struct tm gmt, local;
 
-#if defined(_MSC_VER)
-	gmtime_s(&buf, &rawtime);
-#else
-	gmtime_r(&rawtime, &buf);
-#endif
-	// Request that mktime() looksup dst in timezone database
-	buf.tm_isdst = -1;
-	time_t gmt = mktime(&buf);
-
-	return (int)difftime(rawtime, gmt);//seconds
+	gmtime_r(&rawtime, &gmt);
+	localtime_r(&rawtime, &local);
+	// the two dates are at most one day apart
+	int days = local.tm_yday - gmt.tm_yday;
+	if (local.tm_year != gmt.tm_year)
+	{
+		days = local.tm_year > gmt.tm_year ? 1 : -1;
+	}
+	return ((days * 24 + local.tm_hour - gmt.tm_hour) * 60 +
+		local.tm_min - gmt.tm_min) * 60 + local.tm_sec - gmt.tm_sec;//seconds
 }
 
 /**
-- 
2.43.0


From af6d4f13e578b1bd0947644d49d171ab2b8aba8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 51/82] fix: time_rfc1123, time_rfc2822: a time that has no
 such text gave undefined content and success

---
 src/time/time_rfc1123.c |  9 ++++++---
 src/time/time_rfc2822.c | 22 ++++++++++------------
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/time/time_rfc1123.c b/src/time/time_rfc1123.c
index 5ad19b9..0ccd40d 100644
--- a/src/time/time_rfc1123.c
+++ b/src/time/time_rfc1123.c
@@ -15,9 +15,12 @@ int time_rfc1123(time_t* the_time, char* out_time_str, size_t out_time_str_size)
         return -1;
     }
     struct tm gmtime;
-    gmtime_r(the_time, &gmtime);
-
-    strftime(out_time_str, TIME_RFC1123_STR_SIZE, "---, %d --- %Y %H:%M:%S GMT", &gmtime);
+    if (!gmtime_r(the_time, &gmtime) ||
+        0 == strftime(out_time_str, TIME_RFC1123_STR_SIZE, "---, %d --- %Y %H:%M:%S GMT", &gmtime))
+    {
+        out_time_str[0] = '\0';
+        return -2;
+    }
     memcpy(out_time_str, DAY_NAMES[gmtime.tm_wday], 3);
     memcpy(out_time_str + 8, MONTH_NAMES[gmtime.tm_mon], 3);
     return 0;
diff --git a/src/time/time_rfc2822.c b/src/time/time_rfc2822.c
index 77915e5..042da34 100644
--- a/src/time/time_rfc2822.c
+++ b/src/time/time_rfc2822.c
@@ -1,18 +1,18 @@
 #include "time/time_util.h"
 #include "time/time_rfc2822.h"
 
-static inline void time_strf(time_t *the_time, char* out_time_str, size_t out_time_str_size, const char* time_fmt)
+static inline int time_strf(time_t *the_time, char* out_time_str, size_t out_time_str_size, const char* time_fmt)
 {
 	struct tm tm_time;
 	out_time_str[0] = '\0';
 
-	gmtime_r(the_time, &tm_time);
-	strftime(
-		out_time_str,
-		out_time_str_size,
-		time_fmt,
-		&tm_time
-	);
+	if (!gmtime_r(the_time, &tm_time) ||
+		0 == strftime(out_time_str, out_time_str_size, time_fmt, &tm_time))
+	{
+		out_time_str[0] = '\0';
+		return -2;
+	}
+	return 0;
 }
 
 int time_rfc2822(time_t* the_time, char* out_time_str, size_t out_time_str_size)
@@ -21,8 +21,7 @@ int time_rfc2822(time_t* the_time, char* out_time_str, size_t out_time_str_size)
 	{
 		return -1;
 	}
-	time_strf(the_time, out_time_str, out_time_str_size, "%a, %d %b %Y %T %z");
-	return 0;
+	return time_strf(the_time, out_time_str, out_time_str_size, "%a, %d %b %Y %T %z");
 }
 
 int time_rfc2822_utc(time_t* the_time, char* out_time_str, size_t out_time_str_size)
@@ -31,6 +30,5 @@ int time_rfc2822_utc(time_t* the_time, char* out_time_str, size_t out_time_str_s
 	{
 		return -1;
 	}
-	time_strf(the_time, out_time_str, out_time_str_size, "%a, %d %b %Y %T UTC");
-	return 0;
+	return time_strf(the_time, out_time_str, out_time_str_size, "%a, %d %b %Y %T UTC");
 }
-- 
2.43.0


From ca7d15e2265da1e755a6eaf7bc899f111abf0ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 52/82] fix: time_rfc2822: names followed the process locale

---
 src/time/time_rfc2822.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/time/time_rfc2822.c b/src/time/time_rfc2822.c
index 042da34..bc6f551 100644
--- a/src/time/time_rfc2822.c
+++ b/src/time/time_rfc2822.c
@@ -1,5 +1,12 @@
 #include "time/time_util.h"
 #include "time/time_rfc2822.h"
+#include <string.h>
+
+static const char* DAY_NAMES[] =
+	{ "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };
+static const char* MONTH_NAMES[] =
+	{ "Jan", "Feb", "Mar", "Apr", "May", "Jun",
+	 "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
 
 static inline int time_strf(time_t *the_time, char* out_time_str, size_t out_time_str_size, const char* time_fmt)
 {
@@ -12,6 +19,9 @@ static inline int time_strf(time_t *the_time, char* out_time_str, size_t out_tim
 		out_time_str[0] = '\0';
 		return -2;
 	}
+	// names are English in every locale
+	memcpy(out_time_str, DAY_NAMES[tm_time.tm_wday], 3);
+	memcpy(out_time_str + 8, MONTH_NAMES[tm_time.tm_mon], 3);
 	return 0;
 }
 
@@ -21,7 +31,7 @@ int time_rfc2822(time_t* the_time, char* out_time_str, size_t out_time_str_size)
 	{
 		return -1;
 	}
-	return time_strf(the_time, out_time_str, out_time_str_size, "%a, %d %b %Y %T %z");
+	return time_strf(the_time, out_time_str, out_time_str_size, "---, %d --- %Y %T %z");
 }
 
 int time_rfc2822_utc(time_t* the_time, char* out_time_str, size_t out_time_str_size)
@@ -30,5 +40,5 @@ int time_rfc2822_utc(time_t* the_time, char* out_time_str, size_t out_time_str_s
 	{
 		return -1;
 	}
-	return time_strf(the_time, out_time_str, out_time_str_size, "%a, %d %b %Y %T UTC");
+	return time_strf(the_time, out_time_str, out_time_str_size, "---, %d --- %Y %T UTC");
 }
-- 
2.43.0


From 55c8bc1b99ad92b7266e81cbf5a714c2f43c4d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 53/82] fix: xlog: a long function name overran the stack
 buffer of the trace macros

---
 src/log/xlog.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/log/xlog.c b/src/log/xlog.c
index 436cdfc..b70bdf8 100644
--- a/src/log/xlog.c
+++ b/src/log/xlog.c
@@ -395,12 +395,17 @@ static inline int my_int2str(int num, char* str)
 }
 
 // (func:line)  
-static inline int print_func_line(char* buffer, const char* func, int line_num)
+static inline int print_func_line(char* buffer, size_t buffer_size, const char* func, int line_num)
 {
 	char *str = buffer;
 	str[0] = '(';
 	++str;
 	size_t len_func = strlen(func);
+	const size_t max_len_func = buffer_size - 16U; // "(:", line number(max 10), ") " and NUL
+	if (len_func > max_len_func)
+	{
+		len_func = max_len_func;
+	}
 	memcpy(str, func, len_func);
 	str += len_func;
 	str[0] = ':';
@@ -484,7 +489,7 @@ void __xlog_internal_print(LogLevel level, const char* tag, const char* func_nam
 #if(defined(USE_SNPRINTF_HEADER) && USE_SNPRINTF_HEADER)
 			buffer_strlen += snprintf(buffer_log + buffer_strlen, default_buffer_remaining_size, "(%s:%d) ", func_name, file_line);
 #else
-			buffer_strlen += print_func_line(buffer_log + buffer_strlen, func_name, file_line);
+			buffer_strlen += print_func_line(buffer_log + buffer_strlen, default_buffer_remaining_size, func_name, file_line);
 #endif // USE_SNPRINTF_HEADER
 	    }
 
-- 
2.43.0


From 0657e1dec66e554cd609b293d345c6fcc2f94773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 54/82] fix: xlog_auto_level_up: accepted levels beyond the
 last one, reading outside the level table on each log

---
 src/log/xlog.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/log/xlog.c b/src/log/xlog.c
index b70bdf8..fd97752 100644
--- a/src/log/xlog.c
+++ b/src/log/xlog.c
@@ -187,6 +187,10 @@ void xlog_back2stdout()
 
 void xlog_auto_level_up(LogLevel trigger_level)
 {
+	if (trigger_level < LOG_LEVEL_OFF || trigger_level > LOG_LEVEL_ERROR)
+	{
+		return;
+	}
 	XLOG_LOCK();
 	g_xlog_cfg.trigger_up_level = trigger_level;
 	XLOG_UNLOCK();
-- 
2.43.0


From 28ddb83764858d05f34a9cfb584a897bce50eae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 55/82] fix: xlog: redirecting stdout used closed streams, lost
 the console when the file could not be opened, and never brought back a
 console that is no terminal

---
 src/log/xlog.c | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/log/xlog.c b/src/log/xlog.c
index fd97752..6eaa285 100644
--- a/src/log/xlog.c
+++ b/src/log/xlog.c
@@ -138,9 +138,17 @@ int xlog_global_cleanup()
 
 #if(!defined(_LCU_LOGGER_UNSUPPORT_STDOUT_REDIRECT) || 0 == _LCU_LOGGER_UNSUPPORT_STDOUT_REDIRECT)
 #ifdef _WIN32
+#include <io.h>
 #pragma warning(push)
 #pragma warning(disable:4996) //for disable freopen warning
+#define dup     _dup
+#define dup2    _dup2
+#define fileno  _fileno
+#define close   _close
 #endif // _WIN32
+/* where stdout went before it was redirected */
+static int g_origin_stdout_fd = -1;
+
 void xlog_stdout2file(char* file_path)
 {
 	if (NULL == file_path || '\0' == file_path[0])
@@ -151,14 +159,22 @@ void xlog_stdout2file(char* file_path)
 	if (g_xlog_cfg.fp_out)
 	{
 		fprintf(stderr, "[XLog] (%s:%d) warn: did you forgot to close the redirect stdout file stream!" _LOG_SUFFIX, __func__, __LINE__);
-		fflush(g_xlog_cfg.fp_out);
-		fclose(g_xlog_cfg.fp_out);
 	}
 	fflush(stdout);
-	g_xlog_cfg.fp_out = freopen(file_path, "w", stdout);
-	if (!g_xlog_cfg.fp_out)
+	FILE* fp_file = fopen(file_path, "w");
+	if (!fp_file)
 	{
-		fprintf(stderr, "[XLog] (%s:%d) err: failed on freopen stdout to file(%s)" _LOG_SUFFIX, __func__, __LINE__, file_path);
+		fprintf(stderr, "[XLog] (%s:%d) err: failed on redirect stdout to file(%s)" _LOG_SUFFIX, __func__, __LINE__, file_path);
+	}
+	else
+	{
+		if (g_origin_stdout_fd < 0)
+		{
+			g_origin_stdout_fd = dup(fileno(stdout));
+		}
+		dup2(fileno(fp_file), fileno(stdout));
+		fclose(fp_file);
+		g_xlog_cfg.fp_out = stdout;
 	}
 	XLOG_UNLOCK();
 }
@@ -170,17 +186,25 @@ void xlog_back2stdout()
 		return;
 	}
 	XLOG_LOCK();
-	// must close current stream first, and then reopen it
-	fflush(g_xlog_cfg.fp_out);
-	fclose(g_xlog_cfg.fp_out);
+	fflush(stdout);
 	g_xlog_cfg.fp_out = NULL;
-	if (!freopen(_STDOUT_NODE, "w", stdout))
+	if (g_origin_stdout_fd >= 0)
+	{
+		dup2(g_origin_stdout_fd, fileno(stdout));
+		close(g_origin_stdout_fd);
+		g_origin_stdout_fd = -1;
+	}
+	else if (!freopen(_STDOUT_NODE, "w", stdout))
 	{
 		fprintf(stderr, "[XLog] (%s:%d) err: failed on freopen to stdout" _LOG_SUFFIX, __func__, __LINE__);
 	}
 	XLOG_UNLOCK();
 }
 #ifdef _WIN32
+#undef dup
+#undef dup2
+#undef fileno
+#undef close
 #pragma warning(pop)
 #endif // _WIN32
 #endif // !_LCU_LOGGER_UNSUPPORT_STDOUT_REDIRECT
-- 
2.43.0


From 774b8801a7fbcfce35e10182c2fbb186f260ad54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 56/82] fix: slog: redirecting stdout used closed streams, lost
 the console when the file could not be opened, and never brought back a
 console that is no terminal

---
 src/log/slog.c | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/log/slog.c b/src/log/slog.c
index 10483db..7b8e7fe 100644
--- a/src/log/slog.c
+++ b/src/log/slog.c
@@ -32,9 +32,18 @@ LogLevel slog_get_min_level()
 
 #if(!defined(_LCU_LOGGER_UNSUPPORT_STDOUT_REDIRECT) || 0 == _LCU_LOGGER_UNSUPPORT_STDOUT_REDIRECT)
 #ifdef _WIN32
+#include <io.h>
 #pragma warning(push)
 #pragma warning(disable:4996) //for disable freopen warning
+#define dup     _dup
+#define dup2    _dup2
+#define fileno  _fileno
+#define close   _close
+#else
+#include <unistd.h>
 #endif // _WIN32
+/* where stdout went before it was redirected */
+static int g_origin_stdout_fd = -1;
 
 void slog_stdout2file(char* file_path)
 {
@@ -42,18 +51,24 @@ void slog_stdout2file(char* file_path)
 	{
 		return;
 	}
-	if (g_slog.fp_out && (g_slog.fp_out != stdout))
+	if (g_slog.fp_out)
 	{
 		fprintf(stderr, "[slog] (%s:%d) WARN: did you forgot to close the redirect stdout file stream!\n", __func__, __LINE__);
-		fflush(g_slog.fp_out);
-		fclose(g_slog.fp_out);
 	}
 	fflush(stdout);
-	g_slog.fp_out = freopen(file_path, "w", stdout);
-	if (!g_slog.fp_out)
+	FILE* fp_file = fopen(file_path, "w");
+	if (!fp_file)
+	{
+		fprintf(stderr, "[slog] (%s:%d) Error: failed on redirect stdout to file(%s)\n", __func__, __LINE__, file_path);
+		return;
+	}
+	if (g_origin_stdout_fd < 0)
 	{
-		fprintf(stderr, "[slog] (%s:%d) Error: failed on freopen to file(%s)\n", __func__, __LINE__, file_path);
+		g_origin_stdout_fd = dup(fileno(stdout));
 	}
+	dup2(fileno(fp_file), fileno(stdout));
+	fclose(fp_file);
+	g_slog.fp_out = stdout;
 }
 
 void slog_back2stdout()
@@ -62,11 +77,15 @@ void slog_back2stdout()
 	{
 		return;
 	}
-	// must close current stream first, and then reopen it
-	fflush(g_slog.fp_out);
-	fclose(g_slog.fp_out);
+	fflush(stdout);
 	g_slog.fp_out = NULL;
-	if (!freopen(_STDOUT_NODE, "w", stdout))
+	if (g_origin_stdout_fd >= 0)
+	{
+		dup2(g_origin_stdout_fd, fileno(stdout));
+		close(g_origin_stdout_fd);
+		g_origin_stdout_fd = -1;
+	}
+	else if (!freopen(_STDOUT_NODE, "w", stdout))
 	{
 		fprintf(stderr, "[slog] (%s:%d) Error: failed on freopen to stdout\n", __func__, __LINE__);
 	}
-- 
2.43.0


From 5334ee747fdec8acdbc08cc67c07e994ceac52a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:38 +0000
Subject: [PATCH 57/82] fix: file_logger: a piece begun within the same
 millisecond (or local time) as an earlier one destroyed it

---
 src/log/file_logger.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/log/file_logger.c b/src/log/file_logger.c
index 78e2601..1080ffd 100644
--- a/src/log/file_logger.c
+++ b/src/log/file_logger.c
@@ -7,6 +7,7 @@
 #include "file/file_util.h"        /* for mkdir */
 #include "thread/posix_thread.h"   /* for usleep */ 
 #include "time/time_util.h"        /* for timestamp file name */
+#include <errno.h>
 
 #define TRACE_FILE_LOGGER          1
 #if(TRACE_FILE_LOGGER)
@@ -27,6 +28,7 @@
 #endif // TRACE_FILE_LOGGER
 
 #define MAX_FULL_PATH_SIZE (256)
+#define MAX_SAME_TIME_PIECES (9999)
 
 typedef struct file_logger_s
 {
@@ -220,7 +222,14 @@ static int handle_log_queue_msg(queue_msg_t* msg_p, void* user_data)
 		path_buffer[MAX_FULL_PATH_SIZE - 1] = '\0';
 		snprintf(path_buffer, MAX_FULL_PATH_SIZE - 1, "%s%s%s.log", 
 			handle->cfg.log_folder_path, handle->cfg.log_file_name_prefix, cur_time);
-		handle->cur_fp = fopen(path_buffer, "wb");
+		// "x": never overwrite an earlier piece which was begun at the same (local) time
+		handle->cur_fp = fopen(path_buffer, "wbx");
+		for (int i = 1; !handle->cur_fp && EEXIST == errno && i <= MAX_SAME_TIME_PIECES; ++i)
+		{
+			snprintf(path_buffer, MAX_FULL_PATH_SIZE - 1, "%s%s%s_%04d.log",
+				handle->cfg.log_folder_path, handle->cfg.log_file_name_prefix, cur_time, i);
+			handle->cur_fp = fopen(path_buffer, "wbx");
+		}
 		handle->cur_log_file_size_counter = 0U;
 	}
 	if (!handle->cur_fp)
-- 
2.43.0


From abd4fc472c22af5d3839dfdeca5ca77ff61eccd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:38 +0000
Subject: [PATCH 58/82] fix: file_logger_deinit: accepted messages still in the
 queue were lost

---
 src/log/file_logger.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/log/file_logger.c b/src/log/file_logger.c
index 1080ffd..08f1bd5 100644
--- a/src/log/file_logger.c
+++ b/src/log/file_logger.c
@@ -35,6 +35,7 @@ typedef struct file_logger_s
 	int timezone_hour;
 	file_logger_cfg cfg;
 	msg_queue_handler msg_queue;
+	volatile bool is_worker_stopped;
 	size_t cur_log_file_size_counter;
 	FILE* cur_fp;
 	queue_msg_t* msg_cache_p;
@@ -52,6 +53,7 @@ typedef struct file_logger_s
 };
 
 static int handle_log_queue_msg(queue_msg_t* msg_p, void* user_data);
+static void handle_status_changed(msg_q_handler_status_e status, void* user_data);
 
 file_logger_handle file_logger_init(file_logger_cfg *cfg_p)
 {
@@ -85,7 +87,7 @@ file_logger_handle file_logger_init(file_logger_cfg *cfg_p)
 	{
 		.user_data = handle,
 		.fn_handle_msg = handle_log_queue_msg,
-		.fn_on_status_changed = NULL,
+		.fn_on_status_changed = handle_status_changed,
 	};
 	handle->msg_queue = msg_queue_handler_create((uint32_t)cfg_p->log_queue_size * 1024U, &msg_q_init_param);
 	if (NULL == handle->msg_queue)
@@ -188,6 +190,11 @@ int file_logger_deinit(file_logger_handle* handle_p)
 	file_logger_handle handle = *handle_p;
 	if (handle->msg_queue)
 	{
+		// destroying the handler drops what is still queued, so let it be written first
+		while (!handle->is_worker_stopped && msg_queue_handler_available_pop_bytes(handle->msg_queue) > 0U)
+		{
+			usleep(1000);
+		}
 		msg_queue_handler_destroy(&(handle->msg_queue));
 	}
 	if (handle->msg_cache_p)
@@ -206,6 +213,14 @@ int file_logger_deinit(file_logger_handle* handle_p)
 	return 0;
 }
 
+static void handle_status_changed(msg_q_handler_status_e status, void* user_data)
+{
+	if (MSG_Q_HANDLER_STATUS_ABOUT_TO_STOP == status)
+	{
+		((file_logger_handle)user_data)->is_worker_stopped = true;
+	}
+}
+
 static int handle_log_queue_msg(queue_msg_t* msg_p, void* user_data)
 {
 	if (msg_p->obj_len < 1)
-- 
2.43.0


From 323aa274f4c787852bb55a4d9579d4fa4343184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:38 +0000
Subject: [PATCH 59/82] fix: file_logger_init: a folder path without room for
 the slash logged into another folder

---
 src/log/file_logger.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/log/file_logger.c b/src/log/file_logger.c
index 08f1bd5..1f8509a 100644
--- a/src/log/file_logger.c
+++ b/src/log/file_logger.c
@@ -103,10 +103,16 @@ file_logger_handle file_logger_init(file_logger_cfg *cfg_p)
 	size_t log_folder_path_len = strlen(cfg_p->log_folder_path);
 	if (cfg_p->log_folder_path[log_folder_path_len - 1] != '/')
 	{
-		size_t slash_location = (log_folder_path_len + 1) < MAX_LOG_FOLDER_PATH_SIZE ?
-			log_folder_path_len : (log_folder_path_len - 1);
-		cfg_p->log_folder_path[slash_location] = '/';
-		cfg_p->log_folder_path[slash_location + 1] = '\0';
+		if (log_folder_path_len + 1 >= MAX_LOG_FOLDER_PATH_SIZE) // no room for the slash
+		{
+			MY_LOGE("log_folder_path too long");
+			msg_queue_handler_destroy(&(handle->msg_queue));
+			free(msg);
+			free(handle);
+			return NULL;
+		}
+		cfg_p->log_folder_path[log_folder_path_len] = '/';
+		cfg_p->log_folder_path[log_folder_path_len + 1] = '\0';
 	}
 	if (cfg_p->one_piece_file_max_len && cfg_p->one_piece_file_max_len < 64U) // file piece too small
 	{
-- 
2.43.0


From 4f57b8870515e10602a1c5c1eacd97c0e160692d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 60/82] fix: portable_mutex_unlock: unlocking a mutex that was
 never made (or was destroyed) read through NULL

---
 src/thread/portable_thread_posix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread/portable_thread_posix.c b/src/thread/portable_thread_posix.c
index 5b656ea..9709b1c 100644
--- a/src/thread/portable_thread_posix.c
+++ b/src/thread/portable_thread_posix.c
@@ -131,7 +131,7 @@ int portable_mutex_lock(portable_mutex_t* mutex)
 
 int portable_mutex_unlock(portable_mutex_t* mutex)
 {
-	if (NULL == mutex)
+	if (NULL == mutex || NULL == *mutex)
 	{
 		return -1;
 	}
-- 
2.43.0


From e5a4f09a0b6de65992be95179d2f794c0817d729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 61/82] fix: portable_thread_create: a name longer than 15
 characters was not set at all

---
 src/thread/portable_thread_posix.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/thread/portable_thread_posix.c b/src/thread/portable_thread_posix.c
index 9709b1c..70790ad 100644
--- a/src/thread/portable_thread_posix.c
+++ b/src/thread/portable_thread_posix.c
@@ -8,6 +8,9 @@
 #include <malloc.h>
 #include <string.h>
 
+/* a longer name (including NUL) is refused by pthread_setname_np */
+#define MAX_THREAD_NAME_SIZE (16)
+
 typedef struct
 {
 	pthread_t id;
@@ -65,7 +68,9 @@ int portable_thread_create(portable_thread_t* newthread_p,
 		*newthread_p = posix;
 		if (thread_attr && '\0' != thread_attr->name[0])
 		{
-			pthread_setname_np(posix->id, thread_attr->name);
+			char name[MAX_THREAD_NAME_SIZE] = { 0 };
+			strncpy(name, thread_attr->name, sizeof(name) - 1U);
+			pthread_setname_np(posix->id, name);
 		}
 	}
 	else
-- 
2.43.0


From ed4eabe79c44efc99df312728058afa7edbd9407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 62/82] fix: portable_thread_create: the requested stack size
 was ignored

---
 src/thread/portable_thread_posix.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/thread/portable_thread_posix.c b/src/thread/portable_thread_posix.c
index 70790ad..aee894e 100644
--- a/src/thread/portable_thread_posix.c
+++ b/src/thread/portable_thread_posix.c
@@ -5,6 +5,7 @@
 #undef GETTID
 #undef THREAD_SETNAME_FOR_CURRENT
 #include "thread/posix_thread.h"    /*  pthread/semaphore */
+#include <limits.h>  /* for PTHREAD_STACK_MIN */
 #include <malloc.h>
 #include <string.h>
 
@@ -61,8 +62,23 @@ int portable_thread_create(portable_thread_t* newthread_p,
 		return -2;
 	}
 	memset(posix, 0, sizeof(portable_thread_posix_t));
-	ret = pthread_create(&posix->id, thread_attr ? thread_attr->platform_attr : NULL,
-		start_routine, arg);
+	pthread_attr_t* attr_p = thread_attr ? (pthread_attr_t*)thread_attr->platform_attr : NULL;
+#ifndef _WIN32
+	pthread_attr_t attr;
+	if (!attr_p && thread_attr && thread_attr->stack_size > 0 && 0 == pthread_attr_init(&attr))
+	{
+		const size_t min_stack_size = (size_t)PTHREAD_STACK_MIN;
+		pthread_attr_setstacksize(&attr, thread_attr->stack_size > min_stack_size ? thread_attr->stack_size : min_stack_size);
+		attr_p = &attr;
+	}
+#endif // !_WIN32
+	ret = pthread_create(&posix->id, attr_p, start_routine, arg);
+#ifndef _WIN32
+	if (attr_p == &attr)
+	{
+		pthread_attr_destroy(&attr);
+	}
+#endif // !_WIN32
 	if (0 == ret)
 	{
 		*newthread_p = posix;
-- 
2.43.0


From f5b3915ac10d9ba2dc5e2bf8ebf33c82085a826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:22 +0000
Subject: [PATCH 63/82] fix: file_logger_init: report failure instead of
 copying from NULL when out of memory

---
 src/log/file_logger.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/log/file_logger.c b/src/log/file_logger.c
index 1f8509a..d5bd6d3 100644
--- a/src/log/file_logger.c
+++ b/src/log/file_logger.c
@@ -98,6 +98,13 @@ file_logger_handle file_logger_init(file_logger_cfg *cfg_p)
 		return NULL;
 	}
 	char* log_folder_path_formatted = strreplace(cfg_p->log_folder_path, "\\", "/");
+	if (!log_folder_path_formatted)
+	{
+		msg_queue_handler_destroy(&(handle->msg_queue));
+		free(msg);
+		free(handle);
+		return NULL;
+	}
 	strlcpy(cfg_p->log_folder_path, log_folder_path_formatted, MAX_LOG_FOLDER_PATH_SIZE);
 	free(log_folder_path_formatted);
 	size_t log_folder_path_len = strlen(cfg_p->log_folder_path);
-- 
2.43.0


From 652becaccca2a5c476a77acf1b66ccd22a2e8b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:22 +0000
Subject: [PATCH 64/82] fix: queue handlers: creation fails when the semaphore
 cannot be created

---
 src/ring/fixed_msg_queue_handler.c | 2 +-
 src/ring/msg_queue_handler.c       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ring/fixed_msg_queue_handler.c b/src/ring/fixed_msg_queue_handler.c
index d543cef..1eb8399 100644
--- a/src/ring/fixed_msg_queue_handler.c
+++ b/src/ring/fixed_msg_queue_handler.c
@@ -94,9 +94,9 @@ fixed_msg_queue_handler fixed_msg_queue_handler_create(__in uint32_t max_msg_cap
 	memcpy(&handler->param, init_param_p, sizeof(fixed_msg_queue_handler_init_param_t));
 	handler->token_counter = 0;
 	handler->min_valid_token = 0;
-	portable_sem_init(&(handler->semaphore), 0, 0);
 	handler->msg_queue_p = fixed_msg_queue_create(sizeof(fixed_handler_msg_t), max_msg_capacity);
 	if (!handler->msg_queue_p || 
+		0 != portable_sem_init(&(handler->semaphore), 0, 0) ||
 		0 != portable_thread_create(&(handler->thread_handler), NULL, thread_fun_handle_msg, handler))
 	{
 		LOGE("error on create thread or queue!");
diff --git a/src/ring/msg_queue_handler.c b/src/ring/msg_queue_handler.c
index 9ccc864..d0977de 100644
--- a/src/ring/msg_queue_handler.c
+++ b/src/ring/msg_queue_handler.c
@@ -128,9 +128,9 @@ msg_queue_handler msg_queue_handler_create(__in uint32_t queue_buf_size,
 	}
 	handler->flag2exit = false;
 	memcpy(&(handler->param), param_p, sizeof(msg_queue_handler_init_param_t));
-	portable_sem_init(&(handler->semaphore), 0, 0);
 	handler->msg_queue_p = msg_queue_create(queue_buf_size);
 	if (!handler->msg_queue_p ||
+		0 != portable_sem_init(&(handler->semaphore), 0, 0) ||
 		0 != portable_thread_create(&(handler->thread_handler), NULL, thread_worker_handle_msg, handler))
 	{
 		LOGE("error on create thread or queue!");
-- 
2.43.0


From e7303b8e588b408b65e07034e024d5a51993cbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 65/82] fix: msg_queue_handler: a failed allocation no longer
 stops the worker and drops queued messages

---
 src/ring/msg_queue_handler.c | 40 +++++++++++++++---------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/src/ring/msg_queue_handler.c b/src/ring/msg_queue_handler.c
index d0977de..94369c1 100644
--- a/src/ring/msg_queue_handler.c
+++ b/src/ring/msg_queue_handler.c
@@ -16,6 +16,8 @@ struct _msg_queue_handler_s
 	volatile bool flag2exit;
 	portable_thread_t thread_handler;
 	portable_sem_t semaphore;
+	char* popped_msg_buf; /* used by worker thread only */
+	size_t popped_msg_buf_size;
 };
 
 static size_t pri_roundup_power2(size_t n)
@@ -47,16 +49,6 @@ static void* thread_worker_handle_msg(void* thread_context)
 	LOGI(" (%s:%d) thread(%lu) started...", __func__, __LINE__, GETTID());
 	pri_notify_status_changed(handler, MSG_Q_HANDLER_STATUS_READY_TO_GO);
 
-	size_t cur_msg_buf_size = 4096U;
-	char* poped_msg_buf = (char *)malloc(cur_msg_buf_size);
-	if (!poped_msg_buf)
-	{
-		handler->flag2exit = true;
-		LOGE("can't malloc(%zu) on %s:%d, now thread exit...", cur_msg_buf_size, __func__, __LINE__);
-		pri_notify_status_changed(handler, MSG_Q_HANDLER_STATUS_ABOUT_TO_STOP);
-		return NULL;
-	}
-
 	int user_handle_ret = 0;
 	msg_q_code_e last_status = MSG_Q_CODE_SUCCESS;
 	for(;;)
@@ -69,21 +61,22 @@ static void* thread_worker_handle_msg(void* thread_context)
 		{
 			break;
 		}
-		uint32_t popped_msg_size = (uint32_t)cur_msg_buf_size;
-		last_status = msg_queue_pop(handler->msg_queue_p, poped_msg_buf, &popped_msg_size);
+		uint32_t popped_msg_size = (uint32_t)handler->popped_msg_buf_size;
+		last_status = msg_queue_pop(handler->msg_queue_p, handler->popped_msg_buf, &popped_msg_size);
 		if (MSG_Q_CODE_SUCCESS != last_status)
 		{
 			if (MSG_Q_CODE_BUF_NOT_ENOUGH == last_status)
 			{
-				free(poped_msg_buf);
 				size_t expect_buf_size = pri_roundup_power2(popped_msg_size);
-				poped_msg_buf = (char*)malloc(expect_buf_size);
-				if (!poped_msg_buf)
+				char* new_msg_buf = (char*)malloc(expect_buf_size);
+				if (!new_msg_buf)
 				{
-					LOGE("can't malloc(%zu) on %s:%d, now exit...", expect_buf_size, __func__, __LINE__);
-					break;
+					usleep(1000); // <-- msg is still in queue, wait for memory and retry
+					continue;
 				}
-				cur_msg_buf_size = expect_buf_size;
+				free(handler->popped_msg_buf);
+				handler->popped_msg_buf = new_msg_buf;
+				handler->popped_msg_buf_size = expect_buf_size;
 			}
 			else if (MSG_Q_CODE_AGAIN == last_status)
 			{
@@ -92,7 +85,7 @@ static void* thread_worker_handle_msg(void* thread_context)
 			continue;
 		}
 
-		queue_msg_t* msg = (queue_msg_t*)poped_msg_buf;
+		queue_msg_t* msg = (queue_msg_t*)handler->popped_msg_buf;
 		if (0 != (user_handle_ret = handler->param.fn_handle_msg(msg, handler->param.user_data)))
 		{
 			LOGE("error(%d) on user process msg, now exit...", user_handle_ret);
@@ -101,10 +94,6 @@ static void* thread_worker_handle_msg(void* thread_context)
 	}
 
 	handler->flag2exit = true; // <-- for mark thread not handle msg yet!
-	if (poped_msg_buf)
-	{
-		free(poped_msg_buf);
-	}
 	LOGI(" (%s:%d) thread(%lu) exited...", __func__, __LINE__, GETTID());
 	pri_notify_status_changed(handler, MSG_Q_HANDLER_STATUS_ABOUT_TO_STOP);
 	return NULL;
@@ -128,8 +117,10 @@ msg_queue_handler msg_queue_handler_create(__in uint32_t queue_buf_size,
 	}
 	handler->flag2exit = false;
 	memcpy(&(handler->param), param_p, sizeof(msg_queue_handler_init_param_t));
+	handler->popped_msg_buf_size = 4096U;
+	handler->popped_msg_buf = (char*)malloc(handler->popped_msg_buf_size);
 	handler->msg_queue_p = msg_queue_create(queue_buf_size);
-	if (!handler->msg_queue_p ||
+	if (!handler->popped_msg_buf || !handler->msg_queue_p ||
 		0 != portable_sem_init(&(handler->semaphore), 0, 0) ||
 		0 != portable_thread_create(&(handler->thread_handler), NULL, thread_worker_handle_msg, handler))
 	{
@@ -185,6 +176,7 @@ void msg_queue_handler_destroy(__inout msg_queue_handler* handler_p)
 		msg_queue_destroy(&(handler->msg_queue_p));
 	}
 	handler->msg_queue_p = NULL;
+	free(handler->popped_msg_buf);
 	free(handler);
 	*handler_p = NULL;
 }
-- 
2.43.0


From 8085d9f6f16aaed32e62e49707aefc407e1e1075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 66/82] fix: global init reports locks it could not create, and
 can be called again

---
 src/lcu.c            | 10 ++++++++++
 src/log/xlog.c       |  3 +--
 src/time/time_util.c |  6 +++++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/lcu.c b/src/lcu.c
index bfe1685..a6d9c90 100644
--- a/src/lcu.c
+++ b/src/lcu.c
@@ -18,7 +18,17 @@ int lcu_global_init()
 	}
 	// do not use any lcu function before init! such as XLOG, get TIME 
 	int ret = time_util_global_init();
+	if (ret < 0)
+	{
+		g_init_times = 0;
+		return ret;
+	}
 	ret |= xlog_global_init();
+	if (ret < 0)
+	{
+		time_util_global_cleanup();
+		g_init_times = 0;
+	}
 	return ret;
 }
 
diff --git a/src/log/xlog.c b/src/log/xlog.c
index 6eaa285..2691374 100644
--- a/src/log/xlog.c
+++ b/src/log/xlog.c
@@ -121,8 +121,7 @@ int xlog_global_init()
 	{
 		return 1;
 	}
-	portable_mutex_init(&g_xlog_mutex, NULL);
-	return 0;
+	return 0 == portable_mutex_init(&g_xlog_mutex, NULL) ? 0 : -1;
 }
 
 int xlog_global_cleanup()
diff --git a/src/time/time_util.c b/src/time/time_util.c
index 7e3b984..b458e45 100644
--- a/src/time/time_util.c
+++ b/src/time/time_util.c
@@ -140,7 +140,11 @@ int time_util_global_init()
 		{
 			continue;
 		}
-		portable_rwlock_init(&(g_time_caches[i].rw_lock), NULL);
+		if (0 != portable_rwlock_init(&(g_time_caches[i].rw_lock), NULL))
+		{
+			time_util_global_cleanup();
+			return -1;
+		}
 	}
 #endif // USE_TIME_CACHE  
 	return 0;
-- 
2.43.0


From f29d7ed3b9ad34e7692e1f52989bb59ea5b53d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 67/82] fix: ini_parser_put_string: no empty section left
 behind when out of memory

---
 src/file/ini_parser.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 02a68eb..0ac1dd0 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -324,6 +324,7 @@ ini_parser_code_e ini_parser_put_string(ini_parser_handle parser_p,
 	{
 		return INI_PARSER_CODE_INVALID_PARAM;
 	}
+	const size_t origin_section_count = list_length(parser_p->plist_sections);
 	section_info_t* target_section = search_target_section(parser_p, true, section, section_len);
 	if (!target_section)
 	{
@@ -336,6 +337,10 @@ ini_parser_code_e ini_parser_put_string(ini_parser_handle parser_p,
 		p_kv = (key_value_t*)allocator_my_calloc(1, sizeof(key_value_t));
 		if (!p_kv)
 		{
+			if (list_length(parser_p->plist_sections) != origin_section_count)
+			{
+				ini_parser_delete_section(parser_p, section); // no key for the new section
+			}
 			return INI_PARSER_CODE_NO_ENOUGH_MEMORY;
 		}
 		strlcpy(p_kv->key, key, sizeof(p_kv->key));
@@ -349,6 +354,10 @@ ini_parser_code_e ini_parser_put_string(ini_parser_handle parser_p,
 	else
 	{
 		allocator_my_free(p_kv);
+		if (list_length(parser_p->plist_sections) != origin_section_count)
+		{
+			ini_parser_delete_section(parser_p, section); // no key for the new section
+		}
 		return INI_PARSER_CODE_FAILED;
 	}
 }
-- 
2.43.0


From 828218a449612d0d8b44ea31de2d4a6fcbc427d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:49 +0000
Subject: [PATCH 68/82] fix: RingBuffer publishes its positions with
 acquire/release order

---
 src/ring/ringbuffer.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/ring/ringbuffer.c b/src/ring/ringbuffer.c
index 17debbc..5b289ad 100644
--- a/src/ring/ringbuffer.c
+++ b/src/ring/ringbuffer.c
@@ -56,7 +56,19 @@ struct __ring_buffer_t
 	char* buf;             /* ring buffer pointer, buf size must be power of 2 */
 };
 
-#define _RING_AVAILABLE_READ(ring_handle)  (ring_handle->in - ring_handle->out)
+/*
+** one thread may write while another one reads: a position is published after the bytes
+** it covers were copied, and read before the bytes it covers are touched.
+*/
+#if defined(__GNUC__) || defined(__clang__)
+#define _RING_LOAD_POS(pos)         __atomic_load_n(&(pos), __ATOMIC_ACQUIRE)
+#define _RING_STORE_POS(pos, value) __atomic_store_n(&(pos), (value), __ATOMIC_RELEASE)
+#else
+#define _RING_LOAD_POS(pos)         (*(volatile uint32_t*)&(pos))
+#define _RING_STORE_POS(pos, value) (*(volatile uint32_t*)&(pos) = (value))
+#endif // __GNUC__ || __clang__
+
+#define _RING_AVAILABLE_READ(ring_handle)  (_RING_LOAD_POS(ring_handle->in) - _RING_LOAD_POS(ring_handle->out))
 #define _RING_AVAILABLE_WRITE(ring_handle) (ring_handle->size - (_RING_AVAILABLE_READ(ring_handle)))
 
 ring_buffer_handle RingBuffer_create_with_mem(__in void* buf, __in uint32_t buf_size)
@@ -160,12 +172,12 @@ extern inline void RingBuffer_clear(__in ring_buffer_handle ring_handle)
 
 uint32_t RingBuffer_current_read_position(__in ring_buffer_handle ring_handle)
 {
-	return ring_handle->out;
+	return _RING_LOAD_POS(ring_handle->out);
 }
 
 uint32_t RingBuffer_current_write_position(__in ring_buffer_handle ring_handle)
 {
-	return ring_handle->in;
+	return _RING_LOAD_POS(ring_handle->in);
 }
 
 uint32_t RingBuffer_real_capacity(__in ring_buffer_handle ring_handle) 
@@ -218,7 +230,7 @@ uint32_t RingBuffer_write(__in ring_buffer_handle ring_handle, __in const void*
 	{
 		memcpy(ring_handle->buf, (char*)source + first_part_len, rest_len);
 	}
-	ring_handle->in += size;
+	_RING_STORE_POS(ring_handle->in, ring_handle->in + size);
 	return size;
 }
 
@@ -263,7 +275,7 @@ static uint32_t RingBuffer_read_internal(ring_buffer_handle ring_handle, void* t
 	}
 	if (!is_peek)
 	{
-		ring_handle->out += size;
+		_RING_STORE_POS(ring_handle->out, ring_handle->out + size);
 	}
 	return size;
 }
-- 
2.43.0


From 8055550e10574308b414228e7b0d810aa02dad9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:49 +0000
Subject: [PATCH 69/82] fix: ring_buf publishes its offsets with
 acquire/release order

---
 src/ring/ring_buf.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/ring/ring_buf.c b/src/ring/ring_buf.c
index fc015c1..855abcb 100644
--- a/src/ring/ring_buf.c
+++ b/src/ring/ring_buf.c
@@ -23,9 +23,21 @@ struct __ring_buf_t
 	size_t offset_write;
 };
 
-#define _RING_AVAILABLE_READ(handle)  ((handle->size + handle->offset_write - handle->offset_read) % (handle->size))
+/*
+** one thread may write while another one reads: an offset is published after the bytes
+** it covers were copied, and read before the bytes it covers are touched.
+*/
+#if defined(__GNUC__) || defined(__clang__)
+#define _RING_LOAD_OFFSET(offset)         __atomic_load_n(&(offset), __ATOMIC_ACQUIRE)
+#define _RING_STORE_OFFSET(offset, value) __atomic_store_n(&(offset), (value), __ATOMIC_RELEASE)
+#else
+#define _RING_LOAD_OFFSET(offset)         (*(volatile size_t*)&(offset))
+#define _RING_STORE_OFFSET(offset, value) (*(volatile size_t*)&(offset) = (value))
+#endif // __GNUC__ || __clang__
+
+#define _RING_AVAILABLE_READ(handle)  ((handle->size + _RING_LOAD_OFFSET(handle->offset_write) - _RING_LOAD_OFFSET(handle->offset_read)) % (handle->size))
 //#define _RING_AVAILABLE_WRITE(handle) (handle->size - _RING_AVAILABLE_READ(handle) - 1)
-#define _RING_AVAILABLE_WRITE(handle) ((handle->size + handle->offset_read - handle->offset_write - 1U) % (handle->size))
+#define _RING_AVAILABLE_WRITE(handle) ((handle->size + _RING_LOAD_OFFSET(handle->offset_read) - _RING_LOAD_OFFSET(handle->offset_write) - 1U) % (handle->size))
 
 ring_handle ring_buf_create_with_mem(void* pbuf, const size_t buf_size)
 {
@@ -107,7 +119,7 @@ static size_t internal_ring_buf_read(ring_handle handle, bool is_peek, void* tar
 		}
 		if (!is_peek)
 		{
-			handle->offset_read = second_part_len;
+			_RING_STORE_OFFSET(handle->offset_read, second_part_len);
 		}
 	}
 	else 
@@ -119,7 +131,7 @@ static size_t internal_ring_buf_read(ring_handle handle, bool is_peek, void* tar
 			{
 				new_offset_read = 0;
 			}
-			handle->offset_read = new_offset_read;
+			_RING_STORE_OFFSET(handle->offset_read, new_offset_read);
 		}
 	}
 	return len;
@@ -164,12 +176,12 @@ size_t ring_buf_write(ring_handle handle, void* source, size_t len)
 		{
 			new_offset_write = 0;
 		}
-		handle->offset_write = new_offset_write;
+		_RING_STORE_OFFSET(handle->offset_write, new_offset_write);
 	}
 	else 
 	{
 		memcpy(handle->pbuf, (char*)source + first_part_len, second_part_len);
-		handle->offset_write = second_part_len;
+		_RING_STORE_OFFSET(handle->offset_write, second_part_len);
 	}
 	return len;
 }
-- 
2.43.0


From eb3c7168119177dc424272f8593f896b3f605af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 70/82] fix: thpool_wait reads the queue length under the
 queue's lock

---
 src/thread/thpool.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index 55d2af0..ccb945f 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -106,6 +106,7 @@ static int   jobqueue_init(jobqueue* jobqueue_p);
 static void  jobqueue_clear(jobqueue* jobqueue_p);
 static void  jobqueue_push(jobqueue* jobqueue_p, struct job* newjob_p);
 static struct job* jobqueue_pull(jobqueue* jobqueue_p);
+static int   jobqueue_len(jobqueue* jobqueue_p);
 static void  jobqueue_destroy(jobqueue* jobqueue_p);
 
 static void  bsem_init(struct bsem *bsem_p, int value);
@@ -214,7 +215,7 @@ int thpool_add_work(thpool_* thpool_p, void (*function_p)(void*), void* arg_p){
 /* Wait until all jobs have finished */
 void thpool_wait(thpool_* thpool_p){
 	pthread_mutex_lock(&thpool_p->thcount_lock);
-	while (thpool_p->jobqueue.len || thpool_p->num_threads_working) {
+	while (jobqueue_len(&thpool_p->jobqueue) || thpool_p->num_threads_working) {
 		pthread_cond_wait(&thpool_p->threads_all_idle, &thpool_p->thcount_lock);
 	}
 	pthread_mutex_unlock(&thpool_p->thcount_lock);
@@ -539,6 +540,16 @@ static struct job* jobqueue_pull(jobqueue* jobqueue_p){
 }
 
 
+/* Number of jobs in queue */
+static int jobqueue_len(jobqueue* jobqueue_p){
+
+	pthread_mutex_lock(&jobqueue_p->rwmutex);
+	int len = jobqueue_p->len;
+	pthread_mutex_unlock(&jobqueue_p->rwmutex);
+	return len;
+}
+
+
 /* Free all queue resources back to the system */
 static void jobqueue_destroy(jobqueue* jobqueue_p){
 	jobqueue_clear(jobqueue_p);
-- 
2.43.0


From f5bf49d3988e31e66c3f50e4b4e39ea390750cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:17 +0000
Subject: [PATCH 71/82] fix: msg_queue_destroy accepts a handle that is already
 NULL

---
 src/ring/msg_queue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ring/msg_queue.c b/src/ring/msg_queue.c
index a087a99..d6e0c51 100644
--- a/src/ring/msg_queue.c
+++ b/src/ring/msg_queue.c
@@ -120,7 +120,7 @@ uint32_t msg_queue_available_push_bytes(__in msg_queue msg_queue_p)
 
 void msg_queue_destroy(__inout msg_queue* msg_queue_pp)
 {
-	if (!msg_queue_pp || !((*msg_queue_pp)->ring_buf_p))
+	if (!msg_queue_pp || !*msg_queue_pp || !((*msg_queue_pp)->ring_buf_p))
 	{
 		return;
 	}
-- 
2.43.0


From 0dd66f7d4f5a0d8434ca49b65c8125ddc9f7b69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:17 +0000
Subject: [PATCH 72/82] fix: fixed_msg_queue_create refuses sizes whose product
 overflows

---
 src/ring/fixed_msg_queue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ring/fixed_msg_queue.c b/src/ring/fixed_msg_queue.c
index ff41210..65e7b61 100644
--- a/src/ring/fixed_msg_queue.c
+++ b/src/ring/fixed_msg_queue.c
@@ -12,7 +12,7 @@ struct _fixed_msg_queue_s
 fixed_msg_queue fixed_msg_queue_create(__in uint32_t one_msg_byte_size,
                                        __in uint32_t max_msg_capacity) 
 {
-    if (one_msg_byte_size < 1 || max_msg_capacity < 1)
+    if (one_msg_byte_size < 1 || max_msg_capacity < 1 || max_msg_capacity > UINT32_MAX / one_msg_byte_size)
     {
         return NULL;
     }
-- 
2.43.0


From 000079ba92b494c4078f76f1ddbab3fe23d9d121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:17 +0000
Subject: [PATCH 73/82] fix: thpool_destroy releases the mutexes and conditions
 of the pool

---
 src/thread/thpool.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index ccb945f..94128f5 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -111,6 +111,7 @@ static void  jobqueue_destroy(jobqueue* jobqueue_p);
 
 static void  bsem_init(struct bsem *bsem_p, int value);
 static void  bsem_reset(struct bsem *bsem_p);
+static void  bsem_destroy(struct bsem *bsem_p);
 static void  bsem_post(struct bsem *bsem_p);
 static void  bsem_post_all(struct bsem *bsem_p);
 static void  bsem_wait(struct bsem *bsem_p);
@@ -258,6 +259,8 @@ void thpool_destroy(thpool_* thpool_p){
 
 	/* Job queue cleanup */
 	jobqueue_destroy(&thpool_p->jobqueue);
+	pthread_cond_destroy(&thpool_p->threads_all_idle);
+	pthread_mutex_destroy(&thpool_p->thcount_lock);
 	/* Deallocs */
 	int n;
 	for (n=0; n < threads_total; n++){
@@ -553,7 +556,9 @@ static int jobqueue_len(jobqueue* jobqueue_p){
 /* Free all queue resources back to the system */
 static void jobqueue_destroy(jobqueue* jobqueue_p){
 	jobqueue_clear(jobqueue_p);
+	bsem_destroy(jobqueue_p->has_jobs);
 	free(jobqueue_p->has_jobs);
+	pthread_mutex_destroy(&(jobqueue_p->rwmutex));
 }
 
 
@@ -577,7 +582,16 @@ static void bsem_init(bsem *bsem_p, int value) {
 
 /* Reset semaphore to 0 */
 static void bsem_reset(bsem *bsem_p) {
-	bsem_init(bsem_p, 0);
+	pthread_mutex_lock(&bsem_p->mutex);
+	bsem_p->v = 0;
+	pthread_mutex_unlock(&bsem_p->mutex);
+}
+
+
+/* Release the semaphore's own resources */
+static void bsem_destroy(bsem *bsem_p) {
+	pthread_cond_destroy(&bsem_p->cond);
+	pthread_mutex_destroy(&bsem_p->mutex);
 }
 
 
-- 
2.43.0


From 1a82cc087f1f7e945adc6c2865f4a8800dcfa074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 74/82] fix: ring buffers over more than 2 GB of memory keep a
 usable capacity

---
 src/ring/ringbuffer.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ring/ringbuffer.c b/src/ring/ringbuffer.c
index 5b289ad..fc7e28c 100644
--- a/src/ring/ringbuffer.c
+++ b/src/ring/ringbuffer.c
@@ -32,7 +32,7 @@ static inline int pri_is_power_of_2(uint32_t n)
 	return (n > 1 && !(n & (n - 1)));
 }
 
-static inline uint32_t pri_roundup_pow_of_two(uint32_t x)
+static inline uint64_t pri_roundup_pow_of_two(uint32_t x)
 {
 	if (x == 0 || pri_is_power_of_2(x))
 	{
@@ -44,7 +44,7 @@ static inline uint32_t pri_roundup_pow_of_two(uint32_t x)
 	{
 		counter++;
 	}
-	return (uint32_t)(2 << counter);
+	return (uint64_t)2 << counter;
 }
 
 struct __ring_buffer_t
@@ -87,7 +87,7 @@ ring_buffer_handle RingBuffer_create_with_mem(__in void* buf, __in uint32_t buf_
 	if (!pri_is_power_of_2(ring_buf_size))
 	{
 		RING_LOGW("%s buf_size=%u is not power of 2", __func__, ring_buf_size);
-		ring_buf_size = (pri_roundup_pow_of_two(ring_buf_size) >> 1);
+		ring_buf_size = (uint32_t)(pri_roundup_pow_of_two(ring_buf_size) >> 1);
 		RING_LOGW("%s changed buf_size to %u ", __func__, ring_buf_size);
 	}
 	ring_buffer_handle ring_buffer_p = (ring_buffer_handle)buf;
@@ -101,7 +101,7 @@ ring_buffer_handle RingBuffer_create_with_mem(__in void* buf, __in uint32_t buf_
 
 ring_buffer_handle RingBuffer_create(__in uint32_t buf_size)
 {
-	if (buf_size < 2)
+	if (buf_size < 2 || buf_size > 0x80000000U) // largest power of 2
 	{
 		RING_LOGE("invalid buf_size: %u", buf_size);
 		return NULL;
@@ -109,7 +109,7 @@ ring_buffer_handle RingBuffer_create(__in uint32_t buf_size)
 	if (!pri_is_power_of_2(buf_size))
 	{
 		RING_LOGW("%s buf_size=%u is not power of 2", __func__, buf_size);
-		buf_size = pri_roundup_pow_of_two(buf_size);
+		buf_size = (uint32_t)pri_roundup_pow_of_two(buf_size);
 		RING_LOGW("%s changed buf_size to %u ", __func__, buf_size);
 	}
 
-- 
2.43.0


From 35667017dbe5cc7f4ebc7768ea4838dbc16ae453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:31 +0000
Subject: [PATCH 75/82] fix: array_new_with_init_capacity refuses a capacity
 that cannot be stored

---
 src/data/array.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/array.c b/src/data/array.c
index 7d3246b..49e3ab5 100644
--- a/src/data/array.c
+++ b/src/data/array.c
@@ -49,6 +49,10 @@ array_t* array_new_with_init_capacity(size_t element_size, size_t init_capacity)
 	{
         init_capacity = 4;
 	}
+	if (element_size && init_capacity > (SIZE_MAX - sizeof(array_t)) / element_size)
+	{
+		return NULL;
+	}
 	array_t* array = (array_t*)calloc(1, sizeof(array_t) + element_size * init_capacity);
     if (array == NULL)
     {
-- 
2.43.0


From 332e14a2e7ecb9142e4859eff4f8f4b24fc4aa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:17 +0000
Subject: [PATCH 76/82] fix: msg_queue_handler delivers messages of more than 1
 GB

The size of the buffer for such a message was computed in an int and
overflowed, the worker then retried forever.
---
 src/ring/msg_queue_handler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ring/msg_queue_handler.c b/src/ring/msg_queue_handler.c
index 94369c1..66351d6 100644
--- a/src/ring/msg_queue_handler.c
+++ b/src/ring/msg_queue_handler.c
@@ -29,7 +29,7 @@ static size_t pri_roundup_power2(size_t n)
 		{
 			++counter;
 		}
-		n = (2 << counter);
+		n = ((size_t)2 << counter);
 	}
 	return n;
 }
-- 
2.43.0


From 8fa98aede82cdfe8f0db82eeed861e9c801d9567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:38 +0000
Subject: [PATCH 77/82] fix: file_logger_log refuses messages of 2 GB and more

Their size wrapped around, the message was copied past the end of a
smaller buffer.
---
 src/log/file_logger.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/log/file_logger.c b/src/log/file_logger.c
index d5bd6d3..ee53c70 100644
--- a/src/log/file_logger.c
+++ b/src/log/file_logger.c
@@ -141,7 +141,11 @@ int file_logger_log(file_logger_handle handle, void* log_msg, size_t msg_size)
 #define MAX_RETRY_LOG_TIMES_IF_FAIL (2)
 	msg_q_code_e status = MSG_Q_CODE_BUF_NOT_ENOUGH;
 	int retry_counter = 0;
-	
+
+	if (msg_size > 0x7FFFFFFFU)
+	{
+		return (int)MSG_Q_CODE_GENERIC_FAIL; // the queue can't carry such message
+	}
 	FILE_LOGGER_LOCK(handle);
 	do
 	{
-- 
2.43.0


From aa71df669d38b4257237875b10054eb20a978ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:35 +0000
Subject: [PATCH 78/82] fix: file_iterator never gives an entry another one's
 status when its path is too long

---
 src/file/file_iterator.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file/file_iterator.c b/src/file/file_iterator.c
index c90ebb6..f560062 100644
--- a/src/file/file_iterator.c
+++ b/src/file/file_iterator.c
@@ -69,7 +69,8 @@ int file_iterator_foreach(char* dir, file_iterator_handle_file_info_fn handler,
 				continue;
 			}
 		}
-		snprintf(path_buf, sizeof(path_buf) - 1, "%s/%s", dir, direntp->d_name);
+		int path_len = snprintf(path_buf, sizeof(path_buf) - 1, "%s/%s", dir, direntp->d_name);
+		if (path_len < 0 || (size_t)path_len >= sizeof(path_buf) - 1) continue; // truncated: another entry's path
 		stats = pri_get_file_stat(path_buf, &statbuf);
 		if (stats == -1) continue; // dangling link, or removed meanwhile
 		/*if (FILE_ITERATOR_TYPE_FILE == stats)
-- 
2.43.0


From b66b05dbf9faf9a6fb1d42102af52bc40849e884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:33 +0000
Subject: [PATCH 79/82] fix: file_util_read_txt terminates the line when
 reading on fails

---
 src/file/file_util.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index 42595a9..9e20ff5 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -193,6 +193,7 @@ int file_util_read_txt(__in const char* file_path,
 			buf_size *= 2;
 			if (NULL == fgets(buf + len, (int)(buf_size - len), fp))
 			{
+				buf[len] = '\0'; // a read error leaves the rest of buf undefined
 				break;
 			}
 		}
-- 
2.43.0


From 91ca43321dedfc3eaec93d598da5655ab923e096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:32 +0000
Subject: [PATCH 80/82] fix: str_params releases keys and values the way they
 were allocated when allocations are traced

---
 src/mem/str_params.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index b2e2dc3..cb2ae3b 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -53,11 +53,17 @@ static int str_hash_fn(const void* str)
 	return (int)hash;
 }
 
+/* keys and values come from the (maybe traced) strdup: they must go back the same way */
+static void free_str(void* str)
+{
+	free(str);
+}
+
 str_params_ptr str_params_create(const char* delimiter)
 {
 	str_params_ptr s = (str_params_ptr)calloc(1, sizeof(struct str_params));
 	if (!s) return NULL;
-	s->map = hashmap_create(16, str_hash_fn, free, free, str_eq, NULL);
+	s->map = hashmap_create(16, str_hash_fn, free_str, free_str, str_eq, NULL);
 	if (!s->map)
 	{
 		free(s);
-- 
2.43.0


From 2b98de5c7228227f1d443394f3e71964927d9512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:32 +0000
Subject: [PATCH 81/82] fix: str_params_to_str returns a string that the traced
 free accepts

---
 src/mem/str_params.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index cb2ae3b..61e3052 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -365,12 +365,12 @@ typedef struct
 static bool combine_strings(void* key, void* value, void* context)
 {
 	combine_strings_ctx* combine_ctx = (combine_strings_ctx*)context;
-	char* new_str = NULL;
-	int ret = asprintf(&new_str, "%s%s%s=%s",
-		combine_ctx->str ? combine_ctx->str : "",
-		combine_ctx->str ? combine_ctx->params_ptr->delimiter : "",
-		(char*)key,
-		(char*)value);
+	const char* str = combine_ctx->str ? combine_ctx->str : "";
+	const char* delimiter = combine_ctx->str ? combine_ctx->params_ptr->delimiter : "";
+	/* not asprintf: the string is released by free, which may be the traced one */
+	const size_t new_size = strlen(str) + strlen(delimiter) + strlen((char*)key) + strlen((char*)value) + 2U;
+	char* new_str = (char*)malloc(new_size);
+	int ret = new_str ? snprintf(new_str, new_size, "%s%s%s=%s", str, delimiter, (char*)key, (char*)value) : -1;
 	if (combine_ctx->str)
 	{
 		free(combine_ctx->str);
@@ -380,6 +380,7 @@ static bool combine_strings(void* key, void* value, void* context)
 		combine_ctx->str = new_str;
 		return true;
 	}
+	free(new_str);
 	combine_ctx->str = NULL;
 	combine_ctx->failed = true;
 	return false;
-- 
2.43.0


From a1333a5a99248d17aa7b0abb3e50c448267b2edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:42 +0000
Subject: [PATCH 82/82] fix: strreplace returns a string that the traced free
 accepts

---
 src/mem/strings.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index cb768c8..86b3ded 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -1,7 +1,9 @@
+#include "mem/mem_debug.h"
 #include "mem/strings.h"
 #include <malloc.h>
 
 #ifdef _WIN32
+#undef strndup
 char* strndup(const char* s, size_t n)
 {
 	if (!s)
-- 
2.43.0

